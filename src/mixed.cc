// P20: decimal, binary and other conversions mixed in one call; P23: printed text read back.
#include "text.hpp"
#include <charconv>
#include <cmath>
#include <cstdarg>
#include <cwchar>
typedef float D32 __attribute__((mode(SD))); typedef float D64 __attribute__((mode(DD))); typedef float D128 __attribute__((mode(TD)));
extern "C" int shim_swprintf(wchar_t *buf, unsigned long n, const wchar_t *fmt, int s1, int s2, int nstar, int f, u128 a);
static const char *MODS[3] = {"H", "D", "DD"}; static int FB[3] = {32, 64, 128};
static std::string q(const std::string &s) { return "\"" + s + "\""; }
struct Val { int k; D32 a; D64 b; D128 c; int i; double d; long double ld; char s[24]; long long ll; };
template <int K> struct Get; template <> struct Get<0> { static D32 of(const Val &v) { return v.a; } }; template <> struct Get<1> { static D64 of(const Val &v) { return v.b; } }; template <> struct Get<2> { static D128 of(const Val &v) { return v.c; } };
template <> struct Get<3> { static int of(const Val &v) { return v.i; } }; template <> struct Get<4> { static double of(const Val &v) { return v.d; } }; template <> struct Get<5> { static long double of(const Val &v) { return v.ld; } }; template <> struct Get<6> { static const char *of(const Val &v) { return v.s; } }; template <> struct Get<7> { static long long of(const Val &v) { return v.ll; } };
enum { NK = 8 }; typedef int (*Fn)(char *, size_t, const char *, const Val *);
template <int A, int B, int C> int call3(char *b, size_t n, const char *f, const Val *v) { return snprintf(b, n, f, Get<A>::of(v[0]), Get<B>::of(v[1]), Get<C>::of(v[2])); }
template <int I> struct Fill { static void go(Fn *t) { t[I] = call3<I / (NK * NK), I / NK % NK, I % NK>; Fill<I - 1>::go(t); } }; template <> struct Fill<-1> { static void go(Fn *) {} };
static int vcall(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
static std::string pad(const std::string &body, int width, bool left, bool zero) { if ((int)body.size() >= width) return body; std::string p(width - body.size(), zero ? '0' : ' '); if (left) return body + std::string(width - body.size(), ' '); if (zero) { size_t sg = body[0] == '-' || body[0] == '+' || body[0] == ' '; return body.substr(0, sg) + p + body.substr(sg); } return p + body; }
static void run_mixed(Mon &m) {
  static Fn T[NK * NK * NK]; Fill<NK * NK * NK - 1>::go(T); Rng &g = m.g;
  for (long it = 0; it < m.o.cases; it++) {
    Val v[3]; memset(v, 0, sizeof v); int k[3]; std::string piece[3], conv[3]; int rm = (int)g.n(5), ndec = 0; Num ns[3];
    for (int j = 0; j < 3; j++) { k[j] = g.n(2) ? (int)g.n(3) : (int)g.n(NK); v[j].k = k[j]; bool left = g.n(4) == 0, zero = !left && g.n(4) == 0, alt = g.n(5) == 0; int w = g.n(2) ? (int)g.n(24) : -1, pr = g.n(2) ? (int)g.n(12) : -1; std::string ws = w > 0 ? std::to_string(w) : "", fl = std::string(left ? "-" : "") + (zero ? "0" : ""), ps = pr >= 0 ? "." + std::to_string(pr) : "";
      if (k[j] < 3) { const Fmt &f = fmt_of(FB[k[j]]); u128 bits = gen_bits(g, f, 5); Num n = decode(f, bits); if (n.fin() && g.n(3)) { n.q = clampq(f, g.r(-30, 8)); bits = encode(f, n); } Spec s; s.left = left; s.zero = zero; s.alt = alt; s.width = w; s.prec = pr; s.conv = "feEgGaFA"[g.n(8)];
        memcpy(k[j] == 0 ? (void *)&v[j].a : k[j] == 1 ? (void *)&v[j].b : (void *)&v[j].c, &bits, f.bits / 8); conv[j] = fl + (alt ? "#" : "") + ws + ps + MODS[k[j]] + s.conv; piece[j] = ref_format(n, rm, s); ndec++; ns[j] = n; }
      else if (k[j] == 3) { v[j].i = (int)(long long)g.u2() >> g.n(31); conv[j] = fl + ws + "d"; piece[j] = pad(std::to_string(v[j].i), w, left, zero); }
      else if (k[j] == 7) { v[j].ll = (long long)(long long)g.u2() >> g.n(63); conv[j] = fl + ws + "lld"; piece[j] = pad(std::to_string(v[j].ll), w, left, zero); }
      else if (k[j] == 6) { int n = (int)g.n(20); for (int i = 0; i < n; i++) v[j].s[i] = (char)('!' + g.n(90)); conv[j] = (left ? "-" : "") + ws + "s"; piece[j] = pad(v[j].s, w, left, false); }
      else { double d = ((double)(long long)(long long)g.u2()) * exp2((double)g.r(-90, -20)); if (g.n(12) == 0) d = g.n(2) ? INFINITY : NAN; v[j].d = d; v[j].ld = d; char c = "fe"[g.n(2)]; conv[j] = fl + ws + ps + (k[j] == 5 ? "L" : "") + c; char b[400]; bool fin = std::isfinite(d); auto r = std::to_chars(b, b + sizeof b, d, c == 'f' ? std::chars_format::fixed : std::chars_format::scientific, pr < 0 ? 6 : pr); std::string body = fin ? std::string(b, r.ptr) : std::isinf(d) ? "inf" : "nan"; piece[j] = pad(body, w, left, zero && fin); } }
    std::string lit[4], fmt, exp; for (auto &l : lit) { static const char *L[] = {"", " ", "%%", "|a ", "\xc3\xa9", "0", "%%H", "D"}; l = L[g.n(8)]; }
    bool pos = g.n(4) == 0; int ord[3] = {0, 1, 2}; if (pos) for (int i = 2; i; i--) std::swap(ord[i], ord[g.n(i + 1)]);
    for (int j = 0; j < 4; j++) { fmt += lit[j]; for (size_t i = 0; i < lit[j].size(); i++) { exp += lit[j][i]; if (lit[j][i] == '%') i++; } if (j < 3) { fmt += "%" + (pos ? std::to_string(ord[j] + 1) + "$" : std::string()) + conv[ord[j]]; exp += piece[ord[j]]; } }
    std::string what = "printf(" + q(fmt) + ")"; for (int j = 0; j < 3; j++) what += k[j] < 3 ? ", " + nstr(ns[j]) : k[j] == 6 ? ", " + std::string(v[j].s) : k[j] == 3 ? ", " + std::to_string(v[j].i) : k[j] == 7 ? ", " + std::to_string(v[j].ll) : ", " + std::to_string(v[j].d); what += std::string(" rm=") + rmname(rm);
    m.begin(what); shim_setround(rm); static char buf[40000]; int r = T[(k[0] * NK + k[1]) * NK + k[2]](buf, sizeof buf, fmt.c_str(), v);
    m.saw(hmix(std::hash<std::string>()(fmt), (uint64_t)std::hash<std::string>()(exp)), pos ? "positional" : ndec == 0 ? "no-decimal" : ndec == 3 ? "all-decimal" : "mixed");
    if (exp != buf) m.fail(std::string("mixed:") + (pos ? "positional" : "sequential") + ":" + rmname(rm), what + " expected " + q(exp) + " got " + q(buf)); else if (r != (int)exp.size()) m.fail("mixed:return", what + " expected return " + std::to_string(exp.size()) + " got " + std::to_string(r));
    if (g.n(16) == 0 && k[0] < 3) { const char *f1 = "%1$s%1$s"; (void)f1; std::string one = "%" + conv[0]; int r2 = k[0] == 0 ? vcall(buf, sizeof buf, one.c_str(), v[0].a) : k[0] == 1 ? vcall(buf, sizeof buf, one.c_str(), v[0].b) : vcall(buf, sizeof buf, one.c_str(), v[0].c); m.cls["vsnprintf"]++; if (piece[0] != buf || r2 != (int)piece[0].size()) m.fail("mixed:vsnprintf", "v" + what + " first conversion: expected " + q(piece[0]) + " got " + q(buf)); }
    if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + q(buf)); }
  shim_setround(0); }
static RegProp r1("mixed", run_mixed);

// text written by the library, read back by the library
static void run_round(Mon &m) { Rng &g = m.g;
  for (long it = 0; it < m.o.cases; it++) { const Fmt &f = fmt_of(FB[g.n(3)]); u128 bits = gen_bits(g, f, 6); Num n = decode(f, bits); bits = encode(f, n); int rmp = (int)g.n(5), rmr = (int)g.n(5); int how = (int)g.n(5); std::string txt; char buf[7000]; std::string fmt;
    if (how == 0) fmt = g.n(2) ? "%a" : "%A"; else if (how == 1) fmt = "%." + std::to_string(f.p - 1 + g.n(4) * g.n(12)) + (g.n(2) ? "e" : "E"); else if (how == 2) fmt = "%." + std::to_string(n.fin() && n.q < 0 ? -n.q : 0) + (g.n(2) ? "f" : "F"); else if (how == 3) fmt = "%." + std::to_string(f.p + g.n(4)) + (g.n(2) ? "g" : "G"); else fmt = "%a";
    bool wide = g.n(3) == 0, str = !wide && g.n(2); static const char *HN[] = {"a", "e", "f", "g", "a-wider"}; std::string what = std::string("round trip of d") + std::to_string(f.bits) + " " + nstr(n) + " through " + fmt + (wide ? " (wide)" : str ? " (strfrom)" : ""); m.begin(what); shim_setround(rmp); int k = f.bits == 32 ? 0 : f.bits == 64 ? 1 : 2; std::string pf = fmt.substr(0, fmt.size() - 1) + MODS[k] + fmt.back(); const Fmt &rf = how == 4 ? fmt_of(FB[k + (int)g.n(3 - k)]) : f; u128 r; errno = 0;
    if (wide) { wchar_t wf[40], wb[7000]; size_t L = 0; for (; L < pf.size(); L++) wf[L] = pf[L]; wf[L] = 0; shim_swprintf(wb, 7000, wf, 0, 0, 0, f.bits, bits); for (int j = 0; wb[j]; j++) txt += (char)wb[j]; shim_setround(rmr); wchar_t *e; r = shim_wcstod(rf.bits, wb, &e); if (*e) { m.fail("round:end", what + " text " + q(txt) + " not consumed"); continue; } }
    else { if (str) shim_strfrom(f.bits, buf, sizeof buf, fmt.c_str(), bits); else shim_printf(buf, sizeof buf, pf.c_str(), 0, 0, 0, f.bits, bits); txt = buf; shim_setround(rmr); char *e; r = shim_strtod(rf.bits, buf, &e); if (*e) { m.fail("round:end", what + " text " + q(txt) + " not consumed"); continue; } }
    Num b = decode(rf, r); std::string res = what + " text " + q(txt) + " came back as " + nstr(b); m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(fmt)), (uint64_t)rmr * 5 + rmp), !n.fin() ? "special" : n.c == 0 ? "zero" : HN[how]);
    if (n.nan()) { if (!b.nan()) m.fail("round:nan", res); continue; } if (n.inf()) { if (!b.inf() || b.neg != n.neg) m.fail("round:inf", res); continue; }
    if (n.c == 0 ? !(b.fin() && b.c == 0 && b.neg == n.neg) : false) { m.fail("round:zero", res); continue; }
    if (how == 0 || how == 4) { if (!(b.fin() && b.neg == n.neg && b.c == n.c && b.q == n.q)) m.fail(std::string("round:a:") + std::to_string(f.bits), res); }
    else if (n.c != 0) { Parsed p = ref_parse(txt); if (p.e < f.qmin) { m.cls["below-least-exponent"]++; continue; } // digits below the least exponent: see P21
      if (!b.fin() || b.neg != n.neg) { m.fail("round:value", res); continue; } Z x = zu(n.c), y = zu(b.c); if (n.q > b.q) x *= p10(n.q - b.q); else y *= p10(b.q - n.q); if (x != y) m.fail(std::string("round:") + HN[how] + ":" + std::to_string(f.bits), res); }
    if (errno == ERANGE) m.fail("round:errno", res + " with ERANGE");
    if ((m.evals & 0x3fff) == 1) m.sample(res); }
  shim_setround(0); }
static RegProp r2("roundtrip", run_round);
