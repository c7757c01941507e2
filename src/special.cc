// P17: special arguments, poles, domain errors and errno of the mathematical functions (C23 annex F).
#include "ops.hpp"
#include "trans.hpp"
// What a call must do. kind: 0 nothing is known, 1 NaN, 2 exactly this datum (value and sign), 3 close to `v`
struct Spec { int kind = 0; Num r; R v = 0; int err = 0; int flag = 0; const char *why = ""; };
static const R &pi() { static R p = boost::math::constants::pi<R>(); return p; }
static Num zero(bool n) { return mkfin(n, 0, 0); }
static Num inf(bool n) { Num r; r.k = INF; r.neg = n; return r; }
static bool isint(const Num &n, bool &odd) { // integral finite value
  odd = false; if (n.q >= 0) { odd = n.q == 0 && (n.c & 1); return true; } if (n.c == 0) return true; u128 c = n.c; int q = n.q; while (q < 0 && c % 10 == 0) { c /= 10; q++; } if (q < 0) return false; odd = q == 0 && (c & 1); return true; }
static Spec S0() { return Spec(); }
static Spec N() { Spec s; s.kind = 1; s.why = "nan"; return s; }
static Spec D() { Spec s; s.kind = 1; s.err = EDOM; s.flag = FX_INVALID; s.why = "domain error"; return s; }
static Spec V(const Num &r) { Spec s; s.kind = 2; s.r = r; s.why = "exact special value"; return s; }
static Spec POLE(bool neg) { Spec s; s.kind = 2; s.r = inf(neg); s.err = ERANGE; s.flag = FX_DIVZERO; s.why = "pole"; return s; }
static Spec A(const R &v) { Spec s; s.kind = 3; s.v = v; s.why = "limit value"; return s; }

static Spec spec1(const std::string &f, const Num &x) {
  if (x.nan()) return N();
  int one = x.fin() ? cmp_mag(x, mkfin(false, 1, 0)) : 1; bool z = x.zero(), i = x.inf(), n = x.neg; bool odd;
  if (f == "acos") { if (one > 0) return D(); if (one == 0 && !n) return V(zero(false)); return S0(); }
  if (f == "asin") { if (one > 0) return D(); if (z) return V(x); return S0(); }
  if (f == "atan") { if (z) return V(x); if (i) return A(n ? R(-pi() / 2) : R(pi() / 2)); return S0(); }
  if (f == "cos") { if (i) return D(); if (z) return V(mkfin(false, 1, 0)); return S0(); }
  if (f == "sin" || f == "tan") { if (i) return D(); if (z) return V(x); return S0(); }
  if (f == "acosh") { if (n || one < 0) return D(); if (one == 0) return V(zero(false)); if (i) return V(x); return S0(); }
  if (f == "asinh" || f == "sinh" || f == "cbrt") { if (z || i) return V(x); return S0(); }
  if (f == "atanh") { if (z) return V(x); if (one == 0) return POLE(n); if (one > 0) return D(); return S0(); }
  if (f == "cosh") { if (z) return V(mkfin(false, 1, 0)); if (i) return V(inf(false)); return S0(); }
  if (f == "tanh" || f == "erf") { if (z) return V(x); if (i) return V(mkfin(n, 1, 0)); return S0(); }
  if (f == "exp" || f == "exp2") { if (z) return V(mkfin(false, 1, 0)); if (i) return V(n ? zero(false) : x); return S0(); }
  if (f == "expm1") { if (z) return V(x); if (i) return V(n ? mkfin(true, 1, 0) : x); return S0(); }
  if (f == "log" || f == "log10" || f == "log2") { if (z) return POLE(true); if (n) return D(); if (i) return V(x); if (one == 0) return V(zero(false)); return S0(); }
  if (f == "log1p") { if (z) return V(x); if (n && one == 0) return POLE(true); if (n && one > 0) return D(); if (i) return V(x); return S0(); }
  if (f == "erfc") { if (i) return V(n ? mkfin(false, 2, 0) : zero(false)); if (z) return V(mkfin(false, 1, 0)); return S0(); }
  if (f == "lgamma") { if (i) return V(inf(false)); if (z) return POLE(false); if (n && isint(x, odd)) return POLE(false); if (!n && (one == 0 || o_cmp(x, mkfin(false, 2, 0)) == 0)) return V(zero(false)); return S0(); }
  if (f == "tgamma") { if (i) return n ? D() : V(x); if (z) return POLE(n); if (n && isint(x, odd)) return D(); return S0(); }
  if (f == "sqrt") { if (z) return V(x); if (n) return D(); if (i) return V(x); return S0(); }
  if (f == "logb") { if (z) return POLE(true); if (i) return V(inf(false)); return S0(); }
  return S0();
}
static Spec spec2(const std::string &f, const Num &x, const Num &y) {
  bool yodd = false, yint = y.fin() && isint(y, yodd); const Num one = mkfin(false, 1, 0);
  if (f == "pow") {
    if (y.zero() || (x.fin() && !x.neg && cmp_mag(x, one) == 0)) return V(one);
    if (x.nan() || y.nan()) return N();
    if (x.zero()) { if (y.inf()) return V(y.neg ? inf(false) : zero(false)); if (y.neg) return POLE(x.neg && yodd); return V(zero(x.neg && yodd)); }
    if (y.inf()) { int c = x.inf() ? 1 : cmp_mag(x, one); if (c == 0) return V(one); return V((c > 0) == !y.neg ? inf(false) : zero(false)); }
    if (x.inf()) return V(y.neg ? zero(x.neg && yodd) : inf(x.neg && yodd));
    if (x.neg && !yint) return D();
    return S0(); }
  if (f == "atan2") {
    if (x.nan() || y.nan()) return N(); R s = x.neg ? -1 : 1;
    if (x.zero()) return y.neg ? A(s * pi()) : V(zero(x.neg));
    if (y.zero()) return A(s * pi() / 2);
    if (x.inf()) return A(y.inf() ? (y.neg ? s * 3 * pi() / 4 : s * pi() / 4) : s * pi() / 2);
    if (y.inf()) return y.neg ? A(s * pi()) : V(zero(x.neg));
    return S0(); }
  if (f == "hypot") { if (x.inf() || y.inf()) return V(inf(false)); if (x.nan() || y.nan()) return N(); if (x.zero()) { Num r = y; r.neg = false; return V(r); } if (y.zero()) { Num r = x; r.neg = false; return V(r); } return S0(); }
  if (f == "fmod" || f == "remainder") { if (x.nan() || y.nan()) return N(); if (x.inf() || y.zero()) { Spec s = D(); s.flag = 0; return s; } return S0(); }
  return S0();
}
// special arguments, arguments outside the domain, and ordinary ones
static Num sp_arg(Rng &g, const Fmt &f) {
  Num n; n.neg = g.n(2);
  switch (g.n(14)) {
    case 0: n.k = KQNAN; n.payload = g.n(2) ? 0 : g.u2() % p10u(f.p - 1); break;
    case 1: case 2: n.k = INF; break;
    case 3: case 4: n.c = 0; n.q = clampq(f, g.n(3) ? g.r(-3, 3) : g.r(f.qmin, f.qmax)); break;
    case 5: { int t = (int)g.n(f.p); n.c = p10u(t); n.q = -t; break; }                                   // one
    case 6: { int t = (int)g.n(f.p - 1); n.c = (1 + g.n(3)) * p10u(t); n.q = -t; break; }                // small integers
    case 7: { n.c = p10u(f.p - 1) + g.r(-2, 2); n.q = -f.p + 1; break; }                                 // next to one
    case 8: { n.c = gen_coeff(g, 1 + (int)g.n(f.p)); n.q = clampq(f, g.r(0, 12)); break; }               // integers
    case 9: { n.c = 1 + g.n(99); n.q = -1; break; }
    case 10: n.c = p10u(f.p) - 1; n.q = clampq(f, g.n(2) ? f.qmax - g.n(3) : g.r(-f.p - 2, 3)); break;
    case 11: n.c = 1 + g.n(20); n.q = clampq(f, g.n(2) ? f.qmin + g.n(3) : g.r(-40, 40)); break;
    default: n = gen_fin(g, f);
  }
  return n;
}
static const char *U1[] = {"acos", "asin", "atan", "cos", "sin", "tan", "acosh", "asinh", "atanh", "cosh", "sinh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "erf", "erfc", "lgamma", "tgamma", "sqrt", "logb"};
static const char *B1[] = {"pow", "pow", "pow", "atan2", "atan2", "hypot", "fmod", "remainder"};
static void run_special(Mon &m) {
  for (long i = 0; i < m.o.cases; i++) {
    bool two = m.g.n(3) == 0; const char *nm = two ? B1[m.g.n(8)] : U1[m.g.n(sizeof U1 / sizeof *U1)]; if (!m.o.only.empty() && m.o.only != nm) continue; int fb = (int[]){32, 64, 128}[m.g.n(3)]; const OpDesc *d = find_op(nm, fb); const Fmt &f = fmt_of(fb);
    Num x = sp_arg(m.g, f), y = two ? sp_arg(m.g, f) : Num(); Spec s = two ? spec2(nm, x, y) : spec1(nm, x); if (!s.kind) continue;
    int rm = m.g.n(2) ? 0 : (int)m.g.n(5), e0 = m.g.n(3) ? 0 : (int)m.g.n(100) + 200;
    CallIn in; memset(&in, 0, sizeof in); in.a = encode(f, x); if (two) in.b = encode(f, y); CallOut o; memset(&o, 0, sizeof o); Env e; m.begin(d, rm, in); shim_call(d, rm, 0, e0, &in, &o, &e); Num got = decode(f, o.r);
    uint64_t h = hmix(hmix(hmix(hmix(7, (uint64_t)(d - shim_ops)), (uint64_t)rm), in.a), in.b); m.saw(h, (std::string(nm) + " " + s.why).c_str()); m.nontriv++; if (m.g.n(100000) == 0) m.sample(describe_call(d, rm, in) + " = " + nstr(got) + " (" + s.why + ")");
    auto bad = [&](const char *what, const std::string &t) { m.fail(std::string(nm) + "/" + what, describe_call(d, rm, in) + " -> " + nstr(got) + " errno " + std::to_string(e.err) + " flags " + fxs(fe2fx(e.fe)) + ": " + t); };
    if (s.kind == 1) { if (!got.nan()) { bad("value", std::string(s.why) + ", expected NaN"); continue; } }
    else if (s.kind == 2) { bool ok = s.r.inf() ? got.inf() && got.neg == s.r.neg : got.fin() && o_cmp(got, s.r) == 0 && (!got.zero() || got.neg == s.r.neg); if (!ok) { bad("value", std::string(s.why) + ", expected " + nstr(s.r)); continue; } }
    else { R err = bmp::fabs(R((got.fin() ? numr(got) : R(1e30)) - s.v)); if (err > p10r(-f.p + 1) * (rm ? 2 : 1) * R(1.0)) { bad("value", std::string(s.why) + ", expected " + s.v.str(f.p + 3)); continue; } }
    int want = s.err ? s.err : e0; if (e.err != want) bad("errno", std::string(s.why) + ", errno expected " + std::to_string(want));
    if (s.flag && !(fe2fx(e.fe) & s.flag)) bad("flag", std::string(s.why) + " raised no " + fxs(s.flag));
    if (!s.flag && !s.err && (fe2fx(e.fe) & (FX_INVALID | FX_DIVZERO | FX_OVER))) bad("spurious flag", std::string(s.why));
  }
}
static RegProp rsp("special", run_special);
// errno of every other operation: ERANGE for a result beyond the range where the function promises it, EDOM for an
// invalid argument there, and left alone otherwise
static void run_errno(Mon &m) {
  std::vector<const OpDesc *> ops; for (int i = 0; i < shim_nops; i++) { bool t = false; for (auto *u : U1) t |= !strcmp(u, shim_ops[i].name); for (auto *u : B1) t |= !strcmp(u, shim_ops[i].name); if (!t && (m.o.only.empty() || m.o.only == shim_ops[i].name)) ops.push_back(&shim_ops[i]); }
  for (long i = 0; i < m.o.cases; i++) {
    const OpDesc *d = ops[m.g.n(ops.size())]; const Fmt &f = fmt_of(d->fmt); CallIn in; memset(&in, 0, sizeof in); gen_case_any(m, d, in); int e0 = 1 + (int)m.g.n(30) * 7; int rm = (int)m.g.n(5); std::string n = d->name;
    if ((n.substr(0, 4) == "next" || n == "fdim") && m.g.n(8) == 0) { Num x = mkfin(m.g.n(2), p10u(f.p) - 1 - m.g.n(2), f.qmax); in.a = encode(f, x); if (n != "nextup" && n != "nextdown") { x.neg = m.g.n(2); if (m.g.n(2)) x.k = INF; in.b = encode(n == "nexttoward" ? F128 : f, x); } }
    CallOut o; memset(&o, 0, sizeof o); Env e; m.begin(d, rm, in); shim_call(d, rm, 0, e0, &in, &o, &e); Num x = decode(f, in.a), got = decode(f, o.r);
    int want = e0, alt = e0; const char *c = "left alone";   // alt: also accepted
    if (n == "fdim") { Num y = decode(f, in.b); if (got.inf() && x.fin() && y.fin()) want = alt = ERANGE, c = "range"; }
    else if (n == "fma") { Num y = decode(f, in.b), z = decode(f, in.c); if (got.nan() && !x.nan() && !y.nan() && !z.nan()) want = alt = EDOM, c = "domain"; else if (x.fin() && y.fin() && z.fin() && (got.inf() || got.zero() || got.q + ndig(got.c) - 1 <= f.emin() + 1)) alt = ERANGE; else if (x.nan() || y.nan() || z.nan()) alt = EDOM; }
    else if (n == "ldexp" || n == "scalbn" || n == "scalbln") { if (got.inf() && x.fin()) want = alt = ERANGE, c = "range"; else if (x.fin() && !x.zero() && (got.zero() || got.q + ndig(got.c) - 1 <= f.emin())) alt = ERANGE; else if (x.fin() && got.fin() && got.q + ndig(got.c) - 1 >= f.emax()) alt = ERANGE; }
    else if (n.substr(0, 4) == "next") { if (x.fin() && got.inf()) { alt = ERANGE; if (n == "nextafter" || n == "nexttoward") { want = ERANGE; c = "range"; } } else if (x.fin() && got.fin() && (got.zero() || got.q + ndig(got.c) - 1 <= f.emin())) alt = ERANGE; if (n == "nexttoward" || n == "nextafter") { Num y = decode(n == "nexttoward" ? F128 : f, in.b); if (y.inf() && x.inf()) alt = e0; } }
    else if (n == "ilogb" || n == "llogb") { if (!x.fin() || x.zero()) want = alt = EDOM, c = "domain"; }
    else if (n == "llquantexp") { if (!x.fin()) want = alt = EDOM, c = "domain"; }
    else if (n == "lrint" || n == "llrint" || n == "lround" || n == "llround") { bool bad = !x.fin(); if (!bad) { int fl = 0; bool inx; if (x.q + ndig(x.c) > 25) bad = x.c != 0; else { Num r = o_toint(F128, n.find("round") != std::string::npos ? RM_AWAY : rm, x, inx, fl); Z v = zu(r.c) * p10(r.q > 0 ? r.q : 0); for (int q = r.q; q < 0; q++) v /= 10; if (r.neg) v = -v; Z lim = Z(1) << 63; bad = v >= lim || v < -lim; } } if (bad) want = alt = EDOM, c = "domain"; }
    m.saw(hmix(hmix(hmix(hmix(9, (uint64_t)(d - shim_ops)), (uint64_t)rm), in.a), in.b), (std::string("errno ") + c).c_str()); m.nontriv++;
    if (e.err != want && e.err != alt) m.fail(n + "/errno", describe_call(d, rm, in) + " -> " + nstr(got) + ": errno " + std::to_string(e.err) + ", expected " + std::to_string(want) + (want == e0 ? " (unchanged)" : ""));
  }
}
static RegProp rer("errno", run_errno);
