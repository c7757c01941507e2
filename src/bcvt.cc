// P05: conversions between decimal and binary floating point, against exact integers.
#include "ops.hpp"
#include <cmath>
struct BF { int bits, prec, emin, emax; };                 // value = M * 2^E, normal range 2^emin .. < 2^(emax+1)
static const BF B32{32, 24, -126, 127}, B64{64, 53, -1022, 1023}, B80{80, 64, -16382, 16383}, B128{128, 113, -16382, 16383};
static const BF &bf(int b) { return b == 32 ? B32 : b == 64 ? B64 : b == 80 ? B80 : B128; }
struct Bin { Kind k = FIN; bool neg = false; u128 m = 0; int e = 0; bool valid = true; bool nan_() const { return k == KQNAN || k == KSNAN; } };
static Bin bdecode(const BF &f, u128 b) {
  Bin r; int eb = f.bits == 32 ? 8 : f.bits == 64 ? 11 : 15, mb = f.bits == 80 ? 63 : f.prec - 1;
  int be; u128 fr;
  if (f.bits == 80) { r.neg = (b >> 79) & 1; be = (int)((b >> 64) & 0x7fff); u128 i = (b >> 63) & 1; fr = b & ((((u128)1) << 63) - 1); if (be ? !i : (bool)i) { r.valid = false; } }
  else { r.neg = (b >> (f.bits - 1)) & 1; be = (int)((b >> mb) & ((1u << eb) - 1)); fr = b & ((((u128)1) << mb) - 1); }
  int top = (1 << eb) - 1;
  if (be == top) { if (fr == 0) r.k = INF; else r.k = (fr >> (mb - 1)) & 1 ? KQNAN : KSNAN; return r; }
  r.m = fr | (be ? ((u128)1 << mb) : 0); r.e = (be ? be : 1) - (top >> 1) - mb; return r;
}
static u128 bencode(const BF &f, const Bin &v) {           // m already within precision
  int eb = f.bits == 32 ? 8 : f.bits == 64 ? 11 : 15, mb = f.bits == 80 ? 63 : f.prec - 1, top = (1 << eb) - 1; u128 be, fr;
  if (v.k == INF) { be = top; fr = 0; } else if (v.nan_()) { be = top; fr = ((u128)1 << (mb - 1)); if (v.k == KSNAN) fr = (fr >> 1) | 1; }
  else if (v.m >> mb) { be = v.e + (top >> 1) + mb; fr = v.m & ((((u128)1) << mb) - 1); } else { be = 0; fr = v.m; }
  if (f.bits == 80) return ((u128)v.neg << 79) | (be << 64) | (be ? (u128)1 << 63 : 0) | fr;
  return ((u128)v.neg << (f.bits - 1)) | (be << mb) | fr;
}
static long bl(const Z &z) { return z == 0 ? 0 : (long)mpz_sizeinbase(z.get_mpz_t(), 2); }
// c*10^q rounded in mode rm to f; fl gets over/under/inexact
static Bin to_bin(const BF &f, int rm, const Num &a, int &fl) {
  Bin r; r.neg = a.neg; if (a.k != FIN) { r.k = a.k; if (a.k == KSNAN) { fl |= FX_INVALID; r.k = KQNAN; } return r; } if (!a.c) { r.e = f.emin - f.prec + 1; return r; }
  Z n = zu(a.c), d = 1; if (a.q >= 0) n *= p10(a.q); else d = p10(-a.q);
  long e = bl(n) - bl(d) - f.prec - 1; long qmin = f.emin - f.prec + 1; // quotient with prec or prec+1.. bits
  if (e < qmin - 2) e = qmin - 2; Z nn = n, dd = d; if (e >= 0) dd <<= e; else nn <<= -e; Z quo, rem; mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), nn.get_mpz_t(), dd.get_mpz_t());
  bool st = rem != 0; long drop = std::max<long>(bl(quo) - f.prec, qmin - e); bool inex = st;
  bool tiny = e + bl(quo) - 1 < f.emin;
  if (drop <= 0 && st) abort();
  if (drop > 0) { Z lowm = (Z(1) << drop) - 1, low = quo & lowm; quo >>= drop; e += drop; Z half = Z(1) << (drop - 1); int c = ::cmp(low, half); if (low != 0) inex = true; bool up = rm == RM_NEAR ? c > 0 || (c == 0 && (st || mpz_odd_p(quo.get_mpz_t()))) : rm == RM_AWAY ? c >= 0 : inex && rm == (a.neg ? RM_DOWN : RM_UP); if (up) { quo += 1; if (bl(quo) > f.prec) { quo >>= 1; e++; } } }
  if (inex) fl |= FX_INEXACT; if (tiny && inex) fl |= FX_UNDER;
  if (quo != 0 && e + bl(quo) - 1 > f.emax) { fl |= FX_OVER | FX_INEXACT; if (rm == RM_ZERO || rm == (a.neg ? RM_UP : RM_DOWN)) { r.m = (((u128)1 << (f.prec - 1)) - 1) * 2 + 1; r.e = f.emax - f.prec + 1; } else r.k = INF; return r; }
  r.m = uz(quo); r.e = (int)e; 
  if (r.m) while (!(r.m >> (f.prec - 1)) && r.e > qmin) { r.m <<= 1; r.e--; } else r.e = (int)qmin;
  return r;
}
static Num from_bin(const Fmt &f, int rm, const Bin &v, int &fl) {
  if (v.k != FIN) { Num n; n.k = v.k; n.neg = v.neg; if (v.k == KSNAN) { fl |= FX_INVALID; n.k = KQNAN; } return n; }
  if (!v.m) return mkfin(v.neg, 0, 0);
  Z n = zu(v.m); int e = v.e; while (e < 0 && mpz_even_p(n.get_mpz_t())) { n >>= 1; e++; } if (e >= 0) return round_to(f, rm, v.neg, n << e, 0, false, 0, fl);
  Z p5; mpz_ui_pow_ui(p5.get_mpz_t(), 5, -e); return round_to(f, rm, v.neg, n * p5, e, false, 0, fl);   // m*2^-k = m*5^k*10^-k
}
static std::string bstr(const BF &f, u128 b) { Bin v = bdecode(f, b); std::string s = "0x" + hexs(b, f.bits) + "(" + (v.neg ? "-" : "+"); if (v.k == INF) s += "inf"; else if (v.k != FIN) s += "nan"; else s += u128s(v.m) + "*2^" + std::to_string(v.e); return s + ")"; }

static u128 gen_bin(Rng &g, const BF &f, const Fmt &t) {
  Bin v; v.neg = g.n(2); int k = (int)g.n(24);
  if (k == 0) { v.k = INF; return bencode(f, v); } if (k == 1) { v.k = g.n(3) ? KQNAN : KSNAN; return bencode(f, v); } if (k == 2) { v.m = 0; return bencode(f, v); }
  u128 top = (u128)1 << (f.prec - 1); int qmin = f.emin - f.prec + 1;
  switch (g.n(9)) {
    case 0: v.m = top; break; case 1: v.m = 2 * top - 1; break; case 2: v.m = top | g.n(16); break; case 3: v.m = 2 * top - 1 - g.n(16); break;
    case 4: v.m = top | (g.u2() % top >> g.n(f.prec)) << g.n(f.prec); v.m = (v.m % top) | top; break;
    default: v.m = top | g.u2() % top; }
  switch (g.n(7)) { case 0: v.e = (int)g.r(qmin, f.emax - f.prec + 1); break; case 1: v.e = qmin; v.m >>= g.n(f.prec); if (!v.m) v.m = 1; break; case 2: v.e = -f.prec + 1 + (int)g.r(-8, 8); break; case 3: v.e = (int)g.r(-f.prec, 8); break;
    case 4: { double l = (g.n(2) ? f.emax : 0) + 0.0; l = (g.n(2) ? t.emax() : t.emin() - t.p * (int)g.n(2)) * 3.3219280948873623; v.e = (int)l - f.prec + (int)g.r(-4, 6); break; }
    case 5: v.e = f.emax - f.prec + 1 - (int)g.n(3); break; default: v.e = (int)g.r(-200, 200); }
  if (v.e < qmin) { v.m >>= std::min(qmin - v.e, 127); v.e = qmin; } if (v.e > f.emax - f.prec + 1) v.e = f.emax - f.prec + 1;
  if (g.n(3) == 0) { // integers and short decimals: exact or tie cases in decimal
    Num n; n.neg = v.neg; int nd = (int)g.r(1, std::min(f.prec * 30103 / 100000 + 2, 34)); n.c = g.n(2) ? gen_tie(g, nd, std::max(1, nd - t.p)) : gen_coeff(g, nd); if (!n.c) n.c = 1; n.q = g.n(3) == 0 ? (int)g.r(-30, 30) : g.n(2) ? 0 : -(int)g.n(8); int fl = 0; return bencode(f, to_bin(f, 0, n, fl)); }
  return bencode(f, v);
}
// a decimal close to (or at) a boundary between two neighbouring binary values
static Num gen_near(Rng &g, const Fmt &f, const BF &b) {
  Bin v = bdecode(b, gen_bin(g, b, f)); if (v.k != FIN || !v.m) return gen_fin(g, f);
  Z n = zu(v.m) * 2 + (long)g.n(3) - 1; long e = v.e - 1; int fl = 0; Num r; if (n == 0) n = 1; int rm = (int)g.n(5);
  if (e >= 0) r = round_to(f, rm, v.neg, n << e, 0, false, 0, fl); else { Z p5; mpz_ui_pow_ui(p5.get_mpz_t(), 5, -e); r = round_to(f, rm, v.neg, n * p5, e, false, e, fl); }
  if (!r.fin()) return gen_fin(g, f); if (g.n(3) == 0 && r.c + 2 < p10u(f.p)) r.c += g.n(3); else if (g.n(4) == 0 && r.c > 2) r.c -= g.n(3); return r;
}
static void run(Mon &m) {
  std::vector<const OpDesc *> v; for (int i = 0; i < shim_nops; i++) if (shim_ops[i].sig == S_D_BIN || shim_ops[i].sig == S_BIN_D) if ((m.o.only.empty() || m.o.only == shim_ops[i].name) && (!m.o.onlyf || m.o.onlyf == shim_ops[i].fmt)) v.push_back(&shim_ops[i]);
  Rng &g = m.g;
  for (long i = 0; i < m.o.cases; i++) {
    const OpDesc *d = v[(i + m.wid) % v.size()]; const Fmt &f = fmt_of(d->fmt); const BF &b = bf(d->aux); CallIn in; memset(&in, 0, sizeof in); int rm = (int)g.n(5), fl = 0;
    bool tob = d->sig == S_D_BIN; if (tob) in.a = g.n(2) ? encode(f, gen_near(g, f, b)) : gen_bits(g, f); else in.a = gen_bin(g, b, f);
    CallOut o; memset(&o, 0, sizeof o); Env e; m.begin(d, rm, in); shim_call(d, rm, 0, 0, &in, &o, &e);
    std::string key = std::string(d->name) + "/" + std::to_string(d->fmt); const char *cl; bool ok; std::string ex, gs;
    if (tob) { Num a = decode(f, in.a); Bin r = to_bin(b, rm, a, fl), got = bdecode(b, o.r); u128 er = bencode(b, r); ok = r.k == FIN || r.k == INF ? o.r == er : got.k == KQNAN; ex = bstr(b, er); gs = bstr(b, o.r); cl = r.k == INF ? fl & FX_OVER ? "to-binary overflow" : "to-binary inf" : r.k != FIN ? "to-binary nan" : fl & FX_UNDER ? "to-binary subnormal" : !r.m ? "to-binary zero" : fl & FX_INEXACT ? "to-binary inexact" : "to-binary exact"; }
    else { Bin x = bdecode(b, in.a); Num r = from_bin(f, rm, x, fl), got = decode(f, o.r); ok = r.nan() ? got.k == KQNAN : same_datum(got, r) && got.canon; ex = nstr(r); gs = nstr(got) + " from " + bstr(b, in.a); cl = r.inf() ? fl & FX_OVER ? "from-binary overflow" : "from-binary inf" : r.nan() ? "from-binary nan" : fl & FX_UNDER ? "from-binary underflow" : !r.c ? "from-binary zero" : fl & FX_INEXACT ? "from-binary inexact" : "from-binary exact"; }
    m.saw(hmix(hmix((uint64_t)d->aux * 977 + d->fmt * 7 + tob * 31 + rm, in.a), (uint64_t)d->sig), cl);
    std::string fid; // deviations of the conversion cores that come from the compiler's runtime (see DESIGN.md, findings)
    if (!ok && tob) { Num a = decode(f, in.a); Bin got = bdecode(b, o.r); bool top = got.k == INF || (got.k == FIN && got.m >> (b.prec - 1) && (got.m & (got.m + 1)) == 0 && got.e == b.emax - b.prec + 1);
      if (a.k == FIN && !a.canon && top && got.neg == a.neg && b.bits <= f.bits && b.bits <= 64) fid = "noncanonical-to-binary";
      Bin r = to_bin(b, rm, a, fl); u128 er = bencode(b, r); if (f.bits == 128 && b.bits == 128 && a.fin() && (rm == RM_NEAR || rm == RM_AWAY) && r.m >> 48 && r.m <= (u128)1 << 49 && (o.r == er + 1 || o.r == er - 1)) fid = "binary128-subnormal-2^48"; }
    if (!ok && !tob && f.bits == 128 && !strcmp(cl, "from-binary exact") && rm != RM_NEAR && rm != RM_AWAY) { Num r = from_bin(f, rm, bdecode(b, in.a), fl), got = decode(f, o.r); if (r.q > 0 && r.fin() && got.fin() && got.q == r.q && got.neg == r.neg && got.c + 1 == r.c) fid = "binary-to-d128-exact-directed"; }
    if (!ok && !fid.empty()) m.known_or_fail(fid, key + ":" + cl, describe_call(d, rm, in) + " expected " + ex + " got " + gs);
    else if (!ok) m.fail(key + ":" + cl, describe_call(d, rm, in) + " expected " + ex + " got " + gs);
    if (e.drm != rm || e.brm != FE_TONEAREST) m.fail(key + ":env", describe_call(d, rm, in) + " changed a rounding mode");
    if ((m.evals & 0x3fff) == 1) m.sample(describe_call(d, rm, in) + " -> " + gs);
  }
}
static RegProp r("bcvt", run);
