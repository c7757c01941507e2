// P13..P16: accuracy of the transcendental functions against high-precision references.
#include "ops.hpp"
#include "trans.hpp"
#include <cmath>
#include <unordered_map>
#include <algorithm>
enum TF { T_EXP, T_EXP2, T_EXPM1, T_LOG, T_LOG2, T_LOG10, T_LOG1P, T_POW, T_SIN, T_COS, T_TAN, T_ASIN, T_ACOS, T_ATAN, T_ATAN2, T_SINH, T_COSH, T_TANH, T_ASINH, T_ACOSH, T_ATANH, T_ERF, T_ERFC, T_LGAMMA, T_TGAMMA, T_CBRT, T_HYPOT, T_N };
static const char *TN[T_N] = {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "lgamma", "tgamma", "cbrt", "hypot"};

static const R &PI() { static R p = boost::math::constants::pi<R>(); return p; }
// pi as an integer scaled by 10^s (Machin), s up to ~6500
static Z pi_scaled(long s) { long e = s + 12; Z one = p10(e); auto at = [&](long k) { Z t = one / k, sum = t; long n = 1; Z kk = k * k; while (t != 0) { t /= kk; n += 2; Z d = t / n; if ((n / 2) & 1) sum -= d; else sum += d; } return sum; }; Z p = 16 * at(5) - 4 * at(239); return p / p10(12); }
// x = k*(pi/2) + r, |r| <= pi/4 ; returns k mod 4
static int reduce(const Num &x, R &r) {
  static std::map<long, Z> cache; long q = x.q; long S = 110 + std::max<long>(0, q); S = (S + 499) / 500 * 500; if (q < -S) { r = numr(x); return 0; }
  if (!cache.count(S)) cache[S] = pi_scaled(S);
  long sc = q < 0 ? 0 : 0; (void)sc;
  // use scale T = S so that X*10^S is an integer when q >= -S
  Z X = zu(x.c) * p10(q + S); const Z &P = cache[S]; Z h2 = P; // pi*10^S ; quarter turns: pi/2
  Z twoX = 2 * X, k, rem; mpz_fdiv_qr(k.get_mpz_t(), rem.get_mpz_t(), twoX.get_mpz_t(), h2.get_mpz_t()); if (2 * rem > h2) { rem -= h2; k += 1; }
  // rem = 2*r*10^S ; keep ~100 significant digits of a number below 1
  Z kk = k % 4; int ki = (int)kk.get_si();
  bool neg = rem < 0; Z a = abs(rem); if (a < p10(S - 60) && q <= 0 && ki == 0) { r = numr(x); return 0; }
  std::string ds = a.get_str(); long cut = std::max<long>(0, (long)ds.size() - 95); R v(ds.substr(0, ds.size() - cut)); v *= p10r(cut - S); r = v / 2; if (neg) r = -r; if (x.neg) { r = -r; ki = (4 - ki) % 4; } return ki;
}
static R ref1(int t, const Num &xn, const R &x) {
  using namespace bmp;
  switch (t) {
    case T_EXP: return exp(x);
    case T_EXP2: return exp(R(x * boost::math::constants::ln_two<R>()));
    case T_EXPM1: if (x == 0) return R(0); if (fabs(x) < R(1) / 1000) { R s = x, term = x; for (int i = 2; i < 40; i++) { term *= x / i; s += term; if (fabs(term) < fabs(s) * R(1e-85)) break; } return s; } return exp(x) - 1;
    case T_LOG: { if (x == 1) return R(0); R d = x - 1; if (fabs(d) < R(1) / 1000) { R z = d / (2 + d), z2 = z * z, s = z, p = z; for (int i = 3; i < 60; i += 2) { p *= z2; s += p / i; } return 2 * s; } return log(x); }
    case T_LOG2: return ref1(T_LOG, xn, x) / boost::math::constants::ln_two<R>();
    case T_LOG10: return ref1(T_LOG, xn, x) / boost::math::constants::ln_ten<R>();
    case T_LOG1P: { if (x == 0) return R(0); if (fabs(x) < R(1) / 1000) { R z = x / (2 + x), z2 = z * z, s = z, p = z; for (int i = 3; i < 60; i += 2) { p *= z2; s += p / i; } return 2 * s; } return log(R(1 + x)); }
    case T_SIN: case T_COS: case T_TAN: { R r; int k = reduce(xn, r); R s, c; if (fabs(r) < R(1e-30)) { s = r * (1 - r * r / 6); c = 1 - r * r / 2; } else { s = sin(r); c = cos(r); }
      R S, C; switch (k) { case 0: S = s; C = c; break; case 1: S = c; C = -s; break; case 2: S = -s; C = -c; break; default: S = -c; C = s; } return t == T_SIN ? S : t == T_COS ? C : S / C; }
    case T_ASIN: if (fabs(x) < R(1e-25)) return x * (1 + x * x / 6); if (fabs(x) > R(1) / 2) { R y = sqrt(R((1 - fabs(x)) / 2)); R v = PI() / 2 - 2 * (y < R(1e-30) ? y : asin(y)); return x < 0 ? R(-v) : v; } return asin(x);
    case T_ACOS: if (x == 1) return R(0); if (x > R(1) / 2) { R y = sqrt(R((1 - x) / 2)); return 2 * ref1(T_ASIN, xn, y); } if (x < R(-1) / 2) { R y = sqrt(R((1 + x) / 2)); return PI() - 2 * ref1(T_ASIN, xn, y); } return PI() / 2 - ref1(T_ASIN, xn, x);
    case T_ATAN: if (fabs(x) < R(1e-25)) return x * (1 - x * x / 3); if (fabs(x) > R(1e25)) { R v = PI() / 2 - 1 / fabs(x); return x < 0 ? R(-v) : v; } return atan(x);
    case T_SINH: if (fabs(x) < R(1)) { R x2 = x * x, s = x, p = x; for (int i = 3; i < 90; i += 2) { p *= x2 / (i * (i - 1)); s += p; } return s; } { R e = exp(x); return (e - 1 / e) / 2; }
    case T_COSH: { R e = exp(R(fabs(x))); return (e + 1 / e) / 2; }
    case T_TANH: if (fabs(x) > 300) return x < 0 ? R(-1) : R(1); { R e = ref1(T_EXPM1, xn, R(2 * x)); return e / (e + 2); }
    case T_ASINH: { R a = fabs(x), v; if (a < R(1e-25)) v = a * (1 - a * a / 6); else v = ref1(T_LOG1P, xn, R(a + a * a / (1 + sqrt(R(a * a + 1))))); return x < 0 ? R(-v) : v; }
    case T_ACOSH: { if (x == 1) return R(0); R d = x - 1; return ref1(T_LOG1P, xn, R(d + sqrt(R(2 * d + d * d)))); }
    case T_ATANH: { R a = fabs(x); R v = ref1(T_LOG1P, xn, R(2 * a / (1 - a))) / 2; return x < 0 ? R(-v) : v; }
    case T_ERF: if (fabs(x) < R(1e-25)) return 2 * x / sqrt(PI()); if (fabs(x) > 15) return x < 0 ? R(-1) : R(1); return boost::math::erf(x);
    case T_ERFC: if (x < -15) return R(2); if (fabs(x) < R(1e-25)) return 1 - 2 * x / sqrt(PI()); if (x > 100000) return R(0); return boost::math::erfc(x);
    case T_CBRT: return x == 0 ? x : x < 0 ? R(-exp(R(log(R(-x)) / 3))) : R(exp(R(log(x) / 3)));
    case T_LGAMMA: { if (x == 1 || x == 2) return R(0); if (x > R(1e30)) return x * log(x) - x; if (x > 0 && x < R(1e-30)) return -log(x) - x * boost::math::constants::euler<R>(); if (x < 0 && x > R(-1e-30)) return -log(R(-x)) - x * boost::math::constants::euler<R>(); return boost::math::lgamma(x); }
    case T_TGAMMA: if (fabs(x) < R(1e-30)) return 1 / x - boost::math::constants::euler<R>(); return boost::math::tgamma(x);
  }
  return R(0);
}
static R ref2(int t, const Num &xn, const Num &yn, const R &x, const R &y) {
  using namespace bmp;
  switch (t) {
    case T_POW: { R a = fabs(x); R v = exp(R(y * ref1(T_LOG, xn, a))); if (x < 0) { bool odd = yn.q == 0 ? (yn.c & 1) : yn.q > 0 ? false : -yn.q < 39 ? ((yn.c / p10u(-yn.q)) & 1) : false; if (odd) v = -v; } return v; }
    case T_ATAN2: { if (x == 0 && y == 0) return R(0); R q; if (fabs(x) < fabs(y)) { q = ref1(T_ATAN, xn, R(fabs(x) / fabs(y))); } else q = PI() / 2 - (fabs(y) < fabs(x) * R(1e-70) ? R(fabs(y) / fabs(x)) : ref1(T_ATAN, xn, R(fabs(y) / fabs(x)))); if (yn.neg) q = PI() - q; return xn.neg ? R(-q) : q; }
    case T_HYPOT: return sqrt(R(x * x + y * y));
  }
  return R(0);
}
static long rexp10(const R &v) { if (!boost::math::isfinite(v)) return 1000000; // floor(log10|v|)
  using namespace bmp; R a = fabs(v); long e = (long)std::floor((double)bmp::ilogb(a) * 0.30102999566398119521); while (a >= p10r(e + 1)) e++; while (a < p10r(e)) e--; return e; }
// error of a finite result in units of its last place
static double ulp_err(const Fmt &f, const Num &got, const R &exact) { long e = exact == 0 ? f.qmin : std::max<long>(f.qmin, std::max<long>(rexp10(exact), got.c ? got.q + ndig(got.c) - 1 : -100000) - f.p + 1); R d = numr(got) - exact; if (d < 0) d = -d; d /= p10r(e); return d > R(1e300) ? 1e300 : (double)d; }

static bool domain(int t, const Num &x, const Num &y) {
  if (!x.fin()) return false;
  switch (t) {
    case T_LOG: case T_LOG2: case T_LOG10: return !x.neg && x.c;
    case T_LOG1P: return o_cmp(x, mkfin(true, 1, 0)) > 0;
    case T_ASIN: case T_ACOS: return cmp_mag(x, mkfin(false, 1, 0)) <= 0;
    case T_ATANH: return cmp_mag(x, mkfin(false, 1, 0)) < 0;
    case T_ACOSH: return o_cmp(x, mkfin(false, 1, 0)) >= 0;
    case T_LGAMMA: case T_TGAMMA: { if (x.zero()) return false; int fl = 0; bool inx; Num ti = o_toint(F128, RM_ZERO, x, inx, fl); return !(x.neg && !inx); }
    case T_POW: if (!y.fin()) return false; if (x.zero()) return false; if (x.neg) { int fl = 0; bool inx; o_toint(F128, RM_ZERO, y, inx, fl); return !inx; } return true;
    case T_ATAN2: case T_HYPOT: return y.fin() && !(x.zero() && y.zero());
  }
  return true;
}
static Num gen_arg(Rng &g, const Fmt &f, int t) {
  Num n; n.neg = g.n(2); int nd = g.n(3) ? f.p : 1 + (int)g.n(f.p); n.c = gen_coeff(g, nd); if (!n.c) n.c = 1; nd = ndig(n.c);
  long e; switch (g.n(10)) { case 0: e = g.r(f.emin() - f.p, f.emax()); break; case 1: e = g.r(-40, 40); break; case 2: e = 0; break; case 3: e = -1; break; case 4: e = 1; break; case 5: e = 2; break; case 6: e = g.r(-6, 5); break; case 7: e = g.r(-12, 4); break; case 8: e = g.r(-3, 4); break; default: e = g.r(-2, 3); }
  n.q = clampq(f, e - nd + 1);
  if (g.n(12) == 0) { // near one / small integers
    int k = 1 + (int)g.n(f.p - 1); n.c = p10u(f.p - 1) * (g.n(3) ? 1 : 1 + g.n(9)) + (g.n(2) ? 1 : -1) * (i128)(1 + g.n(9)) * (i128)p10u(f.p - 1 - k); n.q = -(f.p - 1); }
  if (g.n(20) == 0) { n.c = g.n(1000); n.q = g.n(2) ? 0 : -(int)g.n(3); }
  if (dict().ok() && g.n(10) == 0) { int q; n.c = gen_dict(g, f.p, q); n.q = clampq(f, q); }
  if (g.n(30) == 0) n.c = 0;
  return n;
}
// ---- judged groups -------------------------------------------------------
// In a directed mode: what the functions computed to extra precision are allowed plus the last rounding; those evaluated
// in the format itself are only held to three units.
static double directed_bound(int t, const Fmt &f, double b, const char *cls) {
  if (b > 3 || b < 0) return b;
  if (!strcmp(cls, "huge")) return 3;
  switch (t) {
    case T_EXP2: case T_EXPM1: case T_LOG2: case T_LOG10: case T_LOG1P: case T_SIN: case T_COS: case T_SINH: case T_COSH: case T_TANH: case T_ASINH: case T_ACOSH: case T_ATANH: case T_ATAN: case T_ATAN2: case T_HYPOT: case T_ASIN: case T_ACOS: return 1.05;
    case T_CBRT: case T_ERF: case T_ERFC: return f.bits == 128 ? 3 : 1.05;
    case T_EXP: return 1.25;
    case T_POW: return std::max(b, 1.05);
    case T_LOG: return f.bits == 128 || !strcmp(cls, "near one") ? 4 : 1.5;
  }
  return 3;
}
// Largest error allowed, in units of the last place of the exact result, per function, format and part of the domain.
// 0: not judged there. `cls` names the part of the domain (evidence, calibration).
static double bound(int t, int rm, const Fmt &f, const Num &xn, const R &x, const R &y, const R &v, const char *&cls) {
  using namespace bmp; R a = fabs(x); int F = f.bits; cls = "all"; bool q = F == 128;
  switch (t) {
    case T_EXP: return F == 64 ? 30 : 0.75;
    case T_POW: cls = F == 64 && rm ? "directed" : "all"; return F == 64 && rm ? 2e4 : F == 32 && rm ? 1.5 : 0.55;
    case T_EXP2: case T_EXPM1: case T_LOG2: case T_LOG10: case T_LOG1P: case T_SINH: case T_COSH: case T_TANH: case T_ASINH: case T_ACOSH: case T_ATANH: case T_ATAN: case T_ATAN2: case T_HYPOT: return 0.55;
    case T_LOG: if (fabs(x - 1) < R(1) / 4) { cls = "near one"; return q ? 3 : 2; } return q ? 2 : 0.75;
    case T_SIN: case T_COS: if (a > R(1e20)) { cls = "huge"; return 2; } return 0.55;
    case T_TAN: if (a > R(1e20)) { cls = "huge"; return 60; } return 20;
    case T_ASIN: case T_ACOS: return q ? 6 : 0.55;
    case T_CBRT: return q ? 1.5 : 0.55;
    case T_ERF: if (a < 1) { cls = "small"; return q ? 5 : 0.55; } return 25;
    case T_ERFC: if (x < 1) { cls = "below one"; return q ? 5 : 0.75; } if (!q) return 0.75; if (x < 10) { cls = "1..10"; return 500; } cls = "10..120"; return 1.5e5;
    case T_LGAMMA: { if (x > 0 && (fabs(x - 1) < R(1) / 4 || fabs(x - 2) < R(1) / 4)) { cls = "near roots"; return -1; } if (x < 0 && fabs(v) < R(1) / 2) { cls = "near roots, negative"; return -2; } if (x < 0) { cls = "negative"; return q ? 5000 : 300; } if (x > 10) { cls = "large"; return !q ? 30 : rm ? 3e5 : 3e4; } return 30; }
    case T_TGAMMA: { if (a < R(1e-20)) { cls = "tiny"; return q ? 3e5 : 5e3; } if (x < 0) { cls = "negative"; return q ? 5e5 : 1e4; } if (x < 1) { cls = "below one"; return 600; } if (x < 10) { cls = "1..10"; return 400; } if (x < 100) { cls = "10..100"; return 1e4; } cls = "large"; return q ? 5e5 : 2e4; }
  }
  return 0;
}
static std::string calib_key; static std::map<std::string, std::pair<double, std::string>> calib; static bool calibrating;
static void gen_pair(Rng &g, const Fmt &f, int t, bool two, Num &x, Num &y) {
  x = gen_arg(g, f, t); y = two ? gen_arg(g, f, t) : Num();
  if (t == T_HYPOT && g.n(2)) y.q = clampq(f, x.q + g.r(-4, 4));
  if ((t == T_ASIN || t == T_ACOS || t == T_ATANH || t == T_LOG1P || t == T_ERF) && g.n(3)) x.q = clampq(f, -f.p - (long)g.n(3));
  if (t == T_LOG || t == T_LOG2 || t == T_LOG10 || t == T_ACOSH) x.neg = false;
  if ((t == T_EXP || t == T_EXPM1 || t == T_SINH || t == T_COSH || t == T_EXP2) && g.n(4) == 0) { // all over the range, up to the limits
    double lim = f.emax() * (t == T_EXP2 ? 3.3219 : 2.302585) * 1.02; double u = lim * ((double)g.n(1000001) / 1e6); if (g.n(3) == 0) u = f.emax() * (t == T_EXP2 ? 3.32192809 : 2.30258509) + g.r(-40, 40) / 8.0; int d = ndig(x.c); long e = (long)std::floor(std::log10(u > 1e-3 ? u : 1e-3)); x.q = clampq(f, e - f.p + 1); x.c = (u128)(u / std::pow(10.0, e) * 1e6); if (f.p > 7) { x.c = x.c * p10u(f.p - 7) + (g.n(2) ? gen_coeff(g, f.p - 7) : (u128)0); } (void)d; }
  if (t == T_EXP2 && g.n(4) == 0) { x.c = g.n(300); x.q = 0; }
  if (t == T_LOG10 && g.n(4) == 0) { x.c = p10u((int)g.n(f.p)); x.q = clampq(f, g.r(-f.emax(), f.emax())); }
  if (t == T_CBRT && g.n(6) == 0) { u128 c = 1 + g.n(f.p == 7 ? 215 : 99999); if (f.p > 16 && g.n(2)) c = 1 + g.n(200000000000ull); x.c = c * c * c; x.q = 3 * g.r(-20, 20); }
  if (t == T_HYPOT && g.n(6) == 0) { static const int tr[][2] = {{3, 4}, {5, 12}, {8, 15}, {7, 24}, {20, 21}, {9, 40}, {28, 45}, {119, 120}}; int k = (int)g.n(8); long s = 1 + g.n(99); x.c = tr[k][0] * s; y.c = tr[k][1] * s; x.q = y.q = clampq(f, g.r(-60, 60)); }
  if (t == T_POW) {
    if (g.n(5) == 0) { y.c = g.n(40); y.q = 0; if (g.n(3) == 0) { y.c = 5; y.q = -1; } x.q = clampq(f, -ndig(x.c) + 1 + g.r(-8, 8)); }
    else if (g.n(4)) { x.neg = false; if (g.n(2)) { long ex = x.q + ndig(x.c) - 1; long lim = f.emax() / std::max<long>(1, labs(ex)); int yd = ndig(y.c); if (yd) y.q = clampq(f, (long)std::log10((double)lim + 1) - yd + 1 - g.r(0, 3)); } }
    else if (g.n(2)) { // near one to a large power
      int k = 1 + (int)g.n(f.p - 1); x.neg = false; x.c = p10u(f.p - 1) + (g.n(2) ? 1 : -1) * (i128)(1 + g.n(9)) * (i128)p10u(f.p - 1 - k); x.q = -(f.p - 1); y.q = clampq(f, k - ndig(y.c) + 1 + g.r(-2, 3)); } }
  if ((t == T_SIN || t == T_COS || t == T_TAN) && g.n(5) == 0) { // next to a multiple of pi/2
    long k = 1 + g.n(g.n(2) ? 20 : 100000000); R z = PI() / 2 * k; long e = rexp10(z); std::string s = R(z * p10r(f.p - 1 - e)).str(0, std::ios::fixed); u128 c = 0; for (char ch : s) { if (ch < '0' || ch > '9') break; c = c * 10 + (ch - '0'); } x.c = c + g.r(-1, 1); if (x.c >= p10u(f.p)) x.c = p10u(f.p) - 1; x.q = e - f.p + 1; }
  if (t == T_LGAMMA || t == T_TGAMMA) { if (g.n(4) == 0) { x.q = clampq(f, -(int)g.n(f.p + 1)); } }
  if (x.c >= p10u(f.p)) x.c /= 10; if (two && y.c >= p10u(f.p)) y.c /= 10;
}
static void judge_t(Mon &m, int t, const OpDesc *d, int rm, const Num &x, const Num &y) {
  const Fmt &f = fmt_of(d->fmt); bool two = d->sig == S_DD_D; 
  CallIn in; memset(&in, 0, sizeof in); in.a = encode(f, x); if (two) in.b = encode(f, y);
  R xr = numr(x), yr = two ? numr(y) : R(0), v; using namespace bmp;
  int ov = 0, uf = 0; // certainly beyond the range of the format
  R lmax = R(f.emax() + 2) * boost::math::constants::ln_ten<R>(), lmin = R(f.qmin - 2) * boost::math::constants::ln_ten<R>();
  if (t == T_EXP || t == T_EXPM1) { if (xr > lmax) ov = 1; else if (xr < lmin && t == T_EXP) uf = 1; else if (t == T_EXPM1 && xr < -500) v = -1; else v = ref1(t, x, xr); if (t == T_EXPM1 && xr < -500) { ov = uf = 0; v = -1; } }
  else if (t == T_EXP2) { R l = xr * boost::math::constants::ln_two<R>(); if (l > lmax) ov = 1; else if (l < lmin) uf = 1; else v = ref1(t, x, xr); }
  else if (t == T_SINH || t == T_COSH) { if (fabs(xr) > lmax + 1) ov = (t == T_SINH && xr < 0) ? -1 : 1; else v = ref1(t, x, xr); }
  else if (t == T_POW) { R l = yr * ref1(T_LOG, x, fabs(xr)); R sg = ref2(T_POW, x, mkfin(y.neg, y.c, y.q), xr < 0 ? R(-1) : R(1), R(0)); 
    if (fabs(l) > R(1e7) || l > lmax || l < lmin) { R s1 = 1; if (x.neg) { Num one = mkfin(true, 1, 0); s1 = ref2(T_POW, one, y, R(-1), yr); } if (l > 0) ov = s1 < 0 ? -1 : 1; else uf = s1 < 0 ? -1 : 1; } else v = ref2(t, x, y, xr, yr); (void)sg; }
  else if (t == T_ERFC) { if (xr * xr > -lmin + 20 && xr > 0) uf = 1; else v = ref1(t, x, xr); }
  else if (t == T_TGAMMA) { if (xr > 2200) ov = 1; else if (xr < -2300) return; else v = ref1(t, x, xr); }
  else if (t == T_LGAMMA) { if (xr < -2300) return; v = ref1(t, x, xr); }
  else v = two ? ref2(t, x, y, xr, yr) : ref1(t, x, xr);
  if (!ov && !uf && v != 0) { long e = rexp10(v); if (e > f.emax()) ov = v < 0 ? -1 : 1; else if (e < f.qmin - 1) uf = v < 0 ? -1 : 1; }
  const char *cls = "all"; double bd = ov || uf ? 1 : bound(t, rm, f, x, xr, yr, v, cls); if (bd == 0) return;
  CallOut o; memset(&o, 0, sizeof o); Env e; m.begin(d, rm, in); shim_call(d, rm, 0, 0, &in, &o, &e); Num got = decode(f, o.r);
  std::string where = std::string(TN[t]) + " " + std::to_string(d->fmt) + (rm ? " directed " : " nearest ");
  uint64_t h = hmix(hmix(hmix(hmix(1, (uint64_t)t * 5 + rm), (uint64_t)d->fmt), in.a), in.b);
  auto bad = [&](const char *what, const std::string &exp) { std::string k = std::string(TN[t]) + "/" + what; m.fail(k, describe_call(d, rm, in) + " -> " + nstr(got) + ", " + exp); };
  if (t == T_SIN || t == T_COS || t == T_TAN) { // the reduction uses 60 digits of pi: recorded as a finding, judged by what that can cost
    double er = got.fin() ? ulp_err(f, got, v) : 1e300; double lim = rm ? directed_bound(t, f, bd, cls) : bd;
    if (er > lim) { R slack = fabs(xr) * p10r(-60) * 20; if (t == T_TAN) slack *= 1 + v * v; R err = got.fin() ? fabs(R(numr(got) - v)) : R(1e300);
      if (slack > (1 + fabs(v)) / 100 || err < slack) { m.saw(h, (where + "reduction loss").c_str()); m.known_or_fail("trig/reduction", std::string(TN[t]) + "/accuracy", describe_call(d, rm, in) + " -> " + nstr(got) + ", exact " + v.str(d->fmt == 128 ? 40 : 20)); return; } } }
  if (ov) { m.saw(h, (where + "overflow").c_str()); bool ok = (got.inf() || ((rm == RM_ZERO || (rm == RM_DOWN && ov > 0) || (rm == RM_UP && ov < 0)) && got.fin() && rexp10(numr(got)) == f.emax())) && got.neg == (ov < 0); if (!ok) bad("overflow", "the exact value overflows"); else if (got.inf() && e.err != ERANGE) bad("overflow-errno", "overflow with errno " + std::to_string(e.err)); return; }
  if (uf) { m.saw(h, (where + "underflow").c_str()); bool ok = got.fin() && got.neg == (uf < 0) && (got.zero() || (got.c == 1 && got.q == f.qmin && rm != 0)); if (!ok) bad("underflow", "the exact value lies below the range"); else if (e.err != ERANGE && e.err != 0) bad("underflow-errno", "underflow to zero with errno " + std::to_string(e.err)); return; }
  double er; bool edge = v != 0 && rexp10(v) >= f.emax() && fabs(v) > p10r(f.emax() + 1) * (1 - R(1e-4)); 
  if (got.inf() && edge && got.neg == (v < 0)) er = 0; else er = got.fin() ? (bd < 0 ? (double)(fabs(R(numr(got) - v)) * p10r(f.p - 1)) : ulp_err(f, got, v)) : 1e300;
  double lim = bd == -1 ? 60 : bd == -2 ? 1000 : rm ? directed_bound(t, f, bd, cls) : bd;
  if (calibrating) { char b[40]; snprintf(b, 40, " [%.3g]", lim); auto &w = calib[where + cls + b]; if (er >= w.first) w = {er, describe_call(d, rm, in) + " -> " + nstr(got) + " exact " + v.str(40)}; }
  m.saw(h, (where + cls).c_str()); m.nontriv++; if (m.g.n(20000) == 0) m.sample(describe_call(d, rm, in) + " = " + nstr(got) + " off by " + std::to_string(er) + " ulp");
  if (er > lim) bad(got.nan() ? "nan" : got.inf() ? "inf" : "accuracy", "exact " + v.str(f.p + 8) + ": off by " + (er > 1e18 ? std::string("very much") : std::to_string(er)) + " ulp, at most " + std::to_string(lim) + " allowed (" + cls + ")");
  else if (got.fin() && v != 0 && got.neg != (v < 0)) bad("sign", "exact " + v.str(f.p + 8) + ": wrong sign");
  else if (got.fin() && !got.zero() && e.err != 0 && !(fabs(v) < p10r(f.emin() + 1)) && !edge) bad("errno", "errno " + std::to_string(e.err) + " set by a successful call");
}
static void run_t(Mon &m, std::initializer_list<int> ts) {
  std::vector<int> tv(ts); calibrating = getenv("TCAL") != nullptr;
  for (long i = 0; i < m.o.cases; i++) {
    int t = tv[m.g.n(tv.size())]; int fb = m.o.onlyf ? m.o.onlyf : (int[]){32, 64, 128}[m.g.n(3)]; if (!m.o.only.empty() && m.o.only != TN[t]) continue;
    const OpDesc *d = find_op(TN[t], fb); const Fmt &f = fmt_of(fb); Num x, y; gen_pair(m.g, f, t, d->sig == S_DD_D, x, y); if (!domain(t, x, y)) continue;
    judge_t(m, t, d, m.g.n(4) ? 0 : 1 + (int)m.g.n(4), x, y);
  }
  if (calibrating) for (auto &w : calib) printf("CAL %s | %.4g | %s\n", w.first.c_str(), w.second.first, w.second.second.c_str());
}
static void run_texp(Mon &m) { run_t(m, {T_EXP, T_EXP2, T_EXPM1, T_LOG, T_LOG2, T_LOG10, T_LOG1P, T_POW}); }
static void run_ttrig(Mon &m) { run_t(m, {T_SIN, T_COS, T_TAN, T_ASIN, T_ACOS, T_ATAN, T_ATAN2}); }
static void run_thyp(Mon &m) { run_t(m, {T_SINH, T_COSH, T_TANH, T_ASINH, T_ACOSH, T_ATANH}); }
static void run_tspec(Mon &m) { run_t(m, {T_ERF, T_ERFC, T_LGAMMA, T_TGAMMA, T_CBRT, T_HYPOT}); }
static RegProp rt1("texp", run_texp), rt2("ttrig", run_ttrig), rt3("thyp", run_thyp), rt4("tspec", run_tspec);
static void run_map(Mon &m) {   // calibration aid: prints the worst error seen per magnitude
  std::map<std::string, std::pair<double, std::string>> worst; std::map<std::string, long> cnt;
  for (long i = 0; i < m.o.cases; i++) {
    int t = (int)m.g.n(T_N); if (!m.o.only.empty()) { for (t = 0; t < T_N && m.o.only != TN[t]; t++); if (t == T_N) return; }
    int fb = m.o.onlyf ? m.o.onlyf : (int[]){32, 64, 128}[m.g.n(3)]; const Fmt &f = fmt_of(fb); const OpDesc *d = find_op(TN[t], fb);
    bool two = d->sig == S_DD_D; Num x = gen_arg(m.g, f, t), y = two ? gen_arg(m.g, f, t) : Num(); if (two && t == T_HYPOT && m.g.n(2)) y.q = clampq(f, x.q + m.g.r(-4, 4));
    if (t == T_ASIN || t == T_ACOS || t == T_ATANH) if (m.g.n(3)) x.q = clampq(f, -f.p - (long)m.g.n(3)); if (t == T_LOG || t == T_LOG2 || t == T_LOG10 || t == T_ACOSH) x.neg = false; if (t == T_POW && m.g.n(4)) { x.neg = false; if (m.g.n(2)) { // keep the result in range
        long ex = x.q + ndig(x.c) - 1; long lim = f.emax() / std::max<long>(1, labs(ex)); int yd = ndig(y.c); if (yd) y.q = clampq(f, (long)std::log10((double)lim + 1) - yd + 1 - m.g.r(0, 3)); } }
    if (!domain(t, x, y)) continue; if ((t == T_TGAMMA || t == T_LGAMMA) && (cmp_mag(x, mkfin(false, 3, 3)) > 0)) continue;
    CallIn in; memset(&in, 0, sizeof in); in.a = encode(f, x); if (two) in.b = encode(f, y); CallOut o; memset(&o, 0, sizeof o); Env e; m.begin(d, 0, in); shim_call(d, 0, 0, 0, &in, &o, &e); Num got = decode(f, o.r);
    R xr = numr(x); 
    // ranges where the result certainly overflows/underflows: skip in the map
    if ((t == T_EXP || t == T_EXPM1 || t == T_SINH || t == T_COSH || t == T_EXP2) && bmp::fabs(xr) > 60000) continue;
    R yr = two ? numr(y) : R(0); if (t == T_POW) { R l = yr * ref1(T_LOG, x, bmp::fabs(xr)); if (bmp::fabs(l) > 60000) continue; }
    R v = two ? ref2(t, x, y, xr, yr) : ref1(t, x, xr); std::string key = std::string(TN[t]) + " " + std::to_string(fb) + " ";
    auto mag = [&](const Num &n) { if (n.zero()) return std::string("zero"); long ee = n.q + ndig(n.c) - 1; char b[40]; snprintf(b, 40, "%c%s", n.neg ? '-' : '+', ee < -20 ? "<-20" : ee > 20 ? ">20" : std::to_string(ee).c_str()); return std::string(b); };
    key += mag(x) + (two ? "," + mag(y) : ""); if (two) { key = std::string(TN[t]) + " " + std::to_string(fb) + " " + (t == T_POW ? mag(y) : mag(x)); }
    double err; if (v != 0 && rexp10(v) > f.emax()) { err = got.inf() ? 0 : 1e301; } else err = got.fin() ? ulp_err(f, got, v) : got.nan() ? 1e303 : 1e302;
    cnt[key]++; auto &w = worst[key]; if (err >= w.first) { std::string ds; ds = v.str(40); w = {err, describe_call(d, 0, in) + " -> " + nstr(got) + " exact " + ds}; } m.evals++; }
  for (auto &w : worst) printf("%s | n=%ld maxulp=%.3g | %s\n", w.first.c_str(), cnt[w.first], w.second.first, w.second.second.c_str());
}
static RegProp rmap("tmap", run_map);
// Group translog: the references themselves, for lib/selfcheck.py to recompute with mpmath.
static void run_translog(Mon &m) {
  FILE *o = fopen((m.o.out + "." + std::to_string(m.wid) + ".lines").c_str(), "w"); if (!o) _exit(3);
  for (long i = 0; i < m.o.cases; i++) {
    int t = (int)m.g.n(T_N), fb = (int[]){32, 64, 128}[m.g.n(3)]; const OpDesc *d = find_op(TN[t], fb); const Fmt &f = fmt_of(fb); bool two = d->sig == S_DD_D; Num x, y; gen_pair(m.g, f, t, two, x, y); if (!domain(t, x, y)) continue;
    R xr = numr(x), yr = two ? numr(y) : R(0); R a = bmp::fabs(xr); if ((t <= T_EXPM1 || (t >= T_SINH && t <= T_TANH)) && a > 20000) continue; if ((t == T_LGAMMA || t == T_TGAMMA) && a > 500) continue; if (t == T_POW && bmp::fabs(R(yr * ref1(T_LOG, x, a))) > 30000) continue; if (t == T_ERFC && xr > 120) continue;
    R v = two ? ref2(t, x, y, xr, yr) : ref1(t, x, xr); m.saw(hmix(hmix(hmix(1, (uint64_t)t), encode(f, x)), encode(f, y)), TN[t]);
    auto s = [](const Num &n) { return std::string(n.neg ? "-" : "") + u128s(n.c) + "E" + std::to_string(n.q); };
    fprintf(o, "%s %s %s %s\n", TN[t], s(x).c_str(), two ? s(y).c_str() : "0", v.str(60, std::ios::scientific).c_str());
  }
  fclose(o);
}
static RegProp rtl("translog", run_translog);
