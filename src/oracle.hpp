// Reference model of IEEE 754-2008 decimal arithmetic on exact big integers.
// Written from the standard; shares no code with the library under test.  It is
// itself cross-checked against CPython's libmpdec by selfcheck.py on every run.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "shim.h"

enum { RM_NEAR = 0, RM_ZERO = 1, RM_UP = 2, RM_DOWN = 3, RM_AWAY = 4 };   // = FE_DEC_*
enum { FX_INVALID = 1, FX_DIVZERO = 2, FX_OVER = 4, FX_UNDER = 8, FX_INEXACT = 16 };
enum Kind : uint8_t { FIN, INF, KQNAN, KSNAN };

struct Fmt { int bits, p, qmin, qmax; int emax() const { return qmax + p - 1; } int emin() const { return qmin + p - 1; } };
static const Fmt F32{32, 7, -101, 90}, F64{64, 16, -398, 369}, F128{128, 34, -6176, 6111};
static inline const Fmt &fmt_of(int b) { return b == 32 ? F32 : b == 64 ? F64 : F128; }

struct Num {
  Kind k = FIN; bool neg = false; u128 c = 0; int q = 0; u128 payload = 0; bool canon = true;
  bool fin() const { return k == FIN; }
  bool nan() const { return k == KQNAN || k == KSNAN; }
  bool inf() const { return k == INF; }
  bool zero() const { return k == FIN && c == 0; }
};

inline u128 p10u(int n) { static u128 t[39]; static bool init = false;
  if (!init) { t[0] = 1; for (int i = 1; i < 39; i++) t[i] = t[i - 1] * 10; init = true; } return t[n]; }
static inline int ndig(u128 c) { // digits of c (0 -> 0)
  int lo = 0; if (!c) return 0; uint64_t hi = (uint64_t)(c >> 64);
  int bits = hi ? 128 - __builtin_clzll(hi) : 64 - __builtin_clzll((uint64_t)c);
  lo = (int)((bits - 1) * 1233 >> 12); while (lo < 39 && c >= p10u(lo)) lo++; return lo; }

static inline Num decode(const Fmt &f, u128 b) {
  Num n;
  int ebits = f.bits == 32 ? 8 : f.bits == 64 ? 10 : 14;
  int tb = f.bits - 1 - ebits;               // trailing bits in the short form
  n.neg = (b >> (f.bits - 1)) & 1;
  unsigned top5 = (unsigned)(b >> (f.bits - 6)) & 31;
  if (top5 >= 30) {
    u128 pm = (((u128)1) << (f.bits - 12 + (f.bits==32?0:0))) ;
    // payload field: 20 / 50 / 110 bits
    int pb = f.bits == 32 ? 20 : f.bits == 64 ? 50 : 110; pm = (((u128)1) << pb) - 1;
    n.payload = b & pm; u128 rest = b & ((((u128)1) << (f.bits - 6)) - 1);
    if (top5 == 30) { n.k = INF; n.payload = 0; n.canon = rest == 0; }
    else { n.k = (b >> (f.bits - 7)) & 1 ? KSNAN : KQNAN; if (n.payload >= p10u(f.p - 1)) { n.payload = 0; n.canon = false; }
      if ((rest & ~(((u128)1) << (f.bits - 7))) >> pb) n.canon = false; }
    return n;
  }
  int be;
  if ((top5 >> 3) == 3) { be = (int)((b >> (tb - 2)) & ((1u << ebits) - 1));
    n.c = ((u128)4 << (tb - 2)) | (b & ((((u128)1) << (tb - 2)) - 1)); }
  else { be = (int)((b >> tb) & ((1u << ebits) - 1)); n.c = b & ((((u128)1) << tb) - 1); }
  if (n.c >= p10u(f.p)) { n.c = 0; n.canon = false; }
  n.q = be + f.qmin; return n;
}
static inline u128 encode(const Fmt &f, const Num &n) {
  int ebits = f.bits == 32 ? 8 : f.bits == 64 ? 10 : 14; int tb = f.bits - 1 - ebits;
  u128 s = ((u128)n.neg) << (f.bits - 1);
  if (n.k == INF) return s | ((u128)30 << (f.bits - 6));
  if (n.k == KQNAN) return s | ((u128)31 << (f.bits - 6)) | n.payload;
  if (n.k == KSNAN) return s | ((u128)63 << (f.bits - 7)) | n.payload;
  u128 be = (u128)(n.q - f.qmin);
  if (n.c < (((u128)1) << tb)) return s | (be << tb) | n.c;
  return s | ((u128)3 << (f.bits - 3)) | (be << (tb - 2)) | (n.c & ((((u128)1) << (tb - 2)) - 1));
}
static inline Num mkfin(bool neg, u128 c, int q) { Num n; n.neg = neg; n.c = c; n.q = q; return n; }
static inline Num mkinf(bool neg) { Num n; n.k = INF; n.neg = neg; return n; }
static inline Num mknan() { Num n; n.k = KQNAN; return n; }

// ---- big integers ----
typedef mpz_class Z;
inline const Z &p10(long n) { static std::vector<Z> t{Z(1)}; while ((long)t.size() <= n) t.push_back(t.back() * 10); return t[n]; }
static inline Z zu(u128 v) { Z r = (unsigned long)(v >> 64); r <<= 64; r += (unsigned long)(uint64_t)v; return r; }
static inline u128 uz(const Z &z) { Z hi = z >> 64; Z lo = z & Z("18446744073709551615"); return ((u128)hi.get_ui() << 64) | lo.get_ui(); }
static inline long ndigz(const Z &z) { if (z == 0) return 0; long n = (long)mpz_sizeinbase(z.get_mpz_t(), 10); return z < p10(n - 1) ? n - 1 : n; }

// |value| = C*10^q exactly (plus an infinitesimal when sticky). pref: preferred exponent.
static inline Num round_to(const Fmt &f, int rm, bool neg, Z C, long q, bool sticky, long pref, int &fl) {
  if (sticky) { C = C * p10(f.p + 6) + 1; q -= f.p + 6; }
  Num r; r.neg = neg;
  if (C == 0) { long qq = pref; if (qq < f.qmin) qq = f.qmin; if (qq > f.qmax) qq = f.qmax; r.q = (int)qq; r.c = 0; return r; }
  long nd = ndigz(C);
  bool tiny = nd + q - 1 < f.emin();
  long qt = std::max<long>(q + nd - f.p, f.qmin);   // smallest usable exponent
  bool inex = false;
  if (qt > q) {
    long d = qt - q; Z rem;
    if (d > nd + 2) { rem = C; C = 0; }
    Z quo; 
    int cmp;
    if (C == 0) { cmp = -1; quo = 0; }     // far below half
    else { mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), C.get_mpz_t(), p10(d).get_mpz_t()); Z h = rem * 2; cmp = ::cmp(h, p10(d)); cmp = cmp < 0 ? -1 : cmp > 0; }
    if (rem == 0) { C = quo; q = qt; }
    else {
      inex = true; bool up = false;
      switch (rm) { case RM_NEAR: up = cmp > 0 || (cmp == 0 && mpz_odd_p(quo.get_mpz_t())); break;
        case RM_AWAY: up = cmp >= 0; break; case RM_ZERO: break; case RM_UP: up = !neg; break; case RM_DOWN: up = neg; break; }
      if (up) quo += 1;
      C = quo; q = qt; if (C == p10(f.p)) { C = p10(f.p - 1); q++; }
      nd = ndigz(C);
    }
  }
  if (!inex) {      // exact: move towards the preferred exponent
    nd = ndigz(C);
    if (q > pref) { long k = std::min<long>(q - pref, f.p - nd); k = std::min<long>(k, q - f.qmin); if (k > 0) { C *= p10(k); q -= k; } }
    else if (q < pref) { while (q < pref && mpz_divisible_ui_p(C.get_mpz_t(), 10)) { C /= 10; q++; } }
  }
  nd = ndigz(C);
  if (q > f.qmax && C != 0) { long k = q - f.qmax; if (nd + k <= f.p) { C *= p10(k); q = f.qmax; }
    else { fl |= FX_OVER | FX_INEXACT; bool toinf = rm == RM_NEAR || rm == RM_AWAY || (rm == RM_UP && !neg) || (rm == RM_DOWN && neg);
      if (toinf) return mkinf(neg); return mkfin(neg, p10u(f.p) - 1, f.qmax); } }
  if (inex) { fl |= FX_INEXACT; if (tiny) fl |= FX_UNDER; }
  r.c = uz(C); r.q = (int)q; if (r.c == 0 && q > f.qmax) r.q = f.qmax; return r;
}

static inline bool nan_in(const Num &a, int &fl) { if (a.k == KSNAN) fl |= FX_INVALID; return a.nan(); }

struct Ex { bool neg; Z c; long q; };     // exact finite value
static inline Num add_ex(const Fmt &f, int rm, const Ex &a0, const Ex &b0, int &fl, long pref) {
  Ex a = a0, b = b0;
  if (a.c == 0 && b.c == 0) { bool n = a.neg == b.neg ? a.neg : rm == RM_DOWN; return round_to(f, rm, n, Z(0), pref, false, pref, fl); }
  if (a.c != 0 && b.c != 0) {
    long ea = a.q + ndigz(a.c), eb = b.q + ndigz(b.c);
    if (ea > eb + 200) { b.c = 1; b.q = std::min<long>(a.q, ea - f.p) - 8; }
    else if (eb > ea + 200) { a.c = 1; a.q = std::min<long>(b.q, eb - f.p) - 8; }
  }
  long q; Z s;
  if (a.c == 0) { q = b.q; s = b.neg ? -b.c : b.c; }
  else if (b.c == 0) { q = a.q; s = a.neg ? -a.c : a.c; }
  else { q = std::min(a.q, b.q); Z x = a.c * p10(a.q - q), y = b.c * p10(b.q - q); if (a.neg) x = -x; if (b.neg) y = -y; s = x + y; }
  bool neg = s < 0; if (s == 0) neg = rm == RM_DOWN;
  return round_to(f, rm, neg, abs(s), q, false, pref, fl);
}
static inline Ex ex(const Num &n) { return Ex{n.neg, zu(n.c), n.q}; }

static inline Num o_add(const Fmt &f, int rm, const Num &a, Num b, bool sub, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl); if (na || nb) return mknan();
  if (sub) b.neg = !b.neg;
  if (a.inf() || b.inf()) { if (a.inf() && b.inf() && a.neg != b.neg) { fl |= FX_INVALID; return mknan(); } return mkinf(a.inf() ? a.neg : b.neg); }
  return add_ex(f, rm, ex(a), ex(b), fl, std::min(a.q, b.q));
}
static inline Num o_mul(const Fmt &f, int rm, const Num &a, const Num &b, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl); if (na || nb) return mknan(); bool s = a.neg ^ b.neg;
  if (a.inf() || b.inf()) { if (a.zero() || b.zero()) { fl |= FX_INVALID; return mknan(); } return mkinf(s); }
  return round_to(f, rm, s, zu(a.c) * zu(b.c), (long)a.q + b.q, false, (long)a.q + b.q, fl);
}
static inline Num o_div(const Fmt &f, int rm, const Num &a, const Num &b, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl); if (na || nb) return mknan(); bool s = a.neg ^ b.neg;
  if (a.inf()) { if (b.inf()) { fl |= FX_INVALID; return mknan(); } return mkinf(s); }
  if (b.inf()) { Num z = mkfin(s, 0, f.qmin); return z; }
  if (b.zero()) { if (a.zero()) { fl |= FX_INVALID; return mknan(); } fl |= FX_DIVZERO; return mkinf(s); }
  long pref = (long)a.q - b.q;
  if (a.zero()) return round_to(f, rm, s, Z(0), pref, false, pref, fl);
  long k = std::max<long>(0, f.p + 4 + ndig(b.c) - ndig(a.c)); Z n = zu(a.c) * p10(k), d = zu(b.c), quo, rem;
  mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
  return round_to(f, rm, s, quo, pref - k, rem != 0, pref, fl);
}
static inline Num o_fma(const Fmt &f, int rm, const Num &a, const Num &b, const Num &c, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl), nc = nan_in(c, fl); bool s = a.neg ^ b.neg;
  if (na || nb) return mknan();
  if ((a.inf() && b.zero()) || (b.inf() && a.zero())) { if (!nc) fl |= FX_INVALID; return mknan(); }
  if (nc) return mknan();
  if (a.inf() || b.inf()) { if (c.inf() && c.neg != s) { fl |= FX_INVALID; return mknan(); } return mkinf(s); }
  if (c.inf()) return c;
  Ex p{s, zu(a.c) * zu(b.c), (long)a.q + b.q};
  return add_ex(f, rm, p, ex(c), fl, std::min<long>((long)a.q + b.q, c.q));
}
static inline Num o_sqrt(const Fmt &f, int rm, const Num &a, int &fl) {
  if (nan_in(a, fl)) return mknan();
  long pref = a.q >= 0 ? a.q / 2 : -((-a.q + 1) / 2);
  if (a.zero()) return mkfin(a.neg, 0, (int)pref);
  if (a.neg) { fl |= FX_INVALID; return mknan(); }
  if (a.inf()) return a;
  long k = 2 * (f.p + 4); if ((a.q - k) & 1) k++; Z n = zu(a.c) * p10(k), r, rem; mpz_sqrtrem(r.get_mpz_t(), rem.get_mpz_t(), n.get_mpz_t());
  return round_to(f, rm, false, r, (a.q - k) / 2, rem != 0, pref, fl);
}
// truncating remainder (fmod) or round-half-even remainder; result exact.
static inline Num o_rem(const Fmt &f, const Num &a, const Num &b, bool near, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl); if (na || nb) return mknan();
  if (a.inf() || b.zero()) { fl |= FX_INVALID; return mknan(); }
  if (b.inf()) return a;
  long pref = std::min(a.q, b.q);
  Z A = zu(a.c), B = zu(b.c), r; bool neg = a.neg; long q = pref;
  if (a.q >= b.q) {
    Z e = a.q - b.q, pw; Z ten = 10, m2 = 2 * B; // work modulo 2B to know the quotient's parity
    mpz_powm(pw.get_mpz_t(), ten.get_mpz_t(), e.get_mpz_t(), m2.get_mpz_t());
    Z t = (A * pw) % m2; bool odd = t >= B; r = odd ? Z(t - B) : t;
    if (near) { int c = ::cmp(Z(r * 2), B); if (c > 0 || (c == 0 && odd)) { r -= B; } }
  } else {
    long g = b.q - a.q;
    if (g > 80) { r = A; }
    else { Z BB = B * p10(g); Z t = A % (2 * BB); bool odd = t >= BB; r = odd ? Z(t - BB) : t; 
      if (near) { int c = ::cmp(Z(r * 2), BB); if (c > 0 || (c == 0 && odd)) r -= BB; } }
  }
  if (r < 0) { neg = !neg; r = -r; }
  return round_to(f, RM_NEAR, neg, r, q, false, pref, fl);
}
static inline Num o_quantize(const Fmt &f, int rm, const Num &a, const Num &b, int &fl) {
  bool na = nan_in(a, fl), nb = nan_in(b, fl); if (na || nb) return mknan();
  if (a.inf() && b.inf()) return a;
  if (a.inf() || b.inf()) { fl |= FX_INVALID; return mknan(); }
  if (a.c == 0) return mkfin(a.neg, 0, b.q);
  Z C = zu(a.c); long d = (long)b.q - a.q; int f2 = 0;
  if (d <= 0) { if (ndig(a.c) - d > f.p) { fl |= FX_INVALID; return mknan(); } return mkfin(a.neg, a.c * p10u((int)-d), b.q); }
  Z quo, rem; if (d > 60) { quo = 0; rem = C; } else mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), C.get_mpz_t(), p10(d).get_mpz_t());
  if (rem != 0) { f2 = FX_INEXACT; int c = d > 60 ? -1 : ::cmp(Z(rem * 2), p10(d)); bool up = false;
    switch (rm) { case RM_NEAR: up = c > 0 || (c == 0 && mpz_odd_p(quo.get_mpz_t())); break; case RM_AWAY: up = c >= 0; break; case RM_ZERO: break; case RM_UP: up = !a.neg; break; case RM_DOWN: up = a.neg; break; }
    if (up) quo += 1; }
  fl |= f2; if (ndigz(quo) > f.p) { fl |= FX_INVALID; return mknan(); }
  return mkfin(a.neg, uz(quo), b.q);
}
// round to integral. exponent max(q,0). mode: RM_* ; returns inexactness through inx
static inline Num o_toint(const Fmt &f, int rm, const Num &a, bool &inx, int &fl) {
  inx = false; if (nan_in(a, fl)) return mknan(); if (a.inf() || a.q >= 0) { Num r = a; r.canon = true; return r; }
  Num one = mkfin(false, 1, 0); int f2 = 0; Num r = o_quantize(f, rm, a, one, f2); inx = f2 & FX_INEXACT; return r;
}
static inline int cmp_mag(const Num &a, const Num &b) {   // |a| vs |b|, finite or inf
  if (a.inf() || b.inf()) return a.inf() && b.inf() ? 0 : a.inf() ? 1 : -1;
  if (a.c == 0 || b.c == 0) return a.c == b.c ? 0 : a.c ? 1 : -1;
  long ea = a.q + ndig(a.c), eb = b.q + ndig(b.c); if (ea != eb) return ea < eb ? -1 : 1;
  int g = a.q - b.q; Z x = zu(a.c), y = zu(b.c); if (g > 0) x *= p10(g); else y *= p10(-g); int c = ::cmp(x, y); return c < 0 ? -1 : c > 0;
}
// -1,0,1 or 2 = unordered
static inline int o_cmp(const Num &a, const Num &b) {
  if (a.nan() || b.nan()) return 2; if (a.zero() && b.zero()) return 0;
  if (a.zero()) return b.neg ? 1 : -1; if (b.zero()) return a.neg ? -1 : 1;
  if (a.neg != b.neg) return a.neg ? -1 : 1; int c = cmp_mag(a, b); return a.neg ? -c : c;
}
static inline Num o_next(const Fmt &f, const Num &a, bool up, int &fl) {   // IEEE nextUp / nextDown
  if (nan_in(a, fl)) return mknan();
  Num maxf = mkfin(false, p10u(f.p) - 1, f.qmax), tiny = mkfin(false, 1, f.qmin);
  if (a.inf()) { if (a.neg == up) { maxf.neg = a.neg; return maxf; } return a; }
  if (a.zero()) { tiny.neg = !up; return tiny; }
  // full-precision (or minimal exponent) representation
  Num n = a; while (ndig(n.c) < f.p && n.q > f.qmin) { n.c *= 10; n.q--; }
  bool grow = up != a.neg;
  if (grow) { n.c++; if (n.c == p10u(f.p)) { n.c = p10u(f.p - 1); n.q++; if (n.q > f.qmax) return mkinf(a.neg); } }
  else { n.c--; if (n.c < p10u(f.p - 1) && n.q > f.qmin) { n.c = n.c * 10 + 9; n.q--; } }
  return n;
}
static inline std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } return s; }
static inline std::string nstr(const Num &n) {
  std::string s = n.neg ? "-" : "+"; switch (n.k) { case INF: return s + "inf"; case KQNAN: return s + "nan(" + u128s(n.payload) + ")"; case KSNAN: return s + "snan(" + u128s(n.payload) + ")"; default: return s + u128s(n.c) + "E" + std::to_string(n.q) + (n.canon ? "" : "[noncanonical]"); }
}
static inline std::string hexs(u128 v, int bits) { char b[40]; if (bits == 128) snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else if (bits == 80) snprintf(b, sizeof b, "%04llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "%0*llx", bits / 4, (unsigned long long)v); return b; }
// do two numbers denote the same datum (kind, sign, coefficient, exponent)?
static inline bool same_datum(const Num &a, const Num &b) {
  if (a.nan() || b.nan()) return a.nan() && b.nan(); if (a.k != b.k || a.neg != b.neg) return false; if (a.inf()) return true; return a.c == b.c && a.q == b.q; }
