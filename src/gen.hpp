// Workload generation: hostile operands for decimal formats.
#pragma once
#include "oracle.hpp"
#include <algorithm>
struct Rng { uint64_t s[4];
  explicit Rng(uint64_t seed) { for (auto &x : s) { seed += 0x9e3779b97f4a7c15ull; uint64_t z = seed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; x = z ^ (z >> 31); } }
  static uint64_t rot(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t u() { uint64_t r = rot(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rot(s[3], 45); return r; }
  uint64_t n(uint64_t m) { return (uint64_t)(((u128)u() * m) >> 64); }
  long r(long lo, long hi) { return lo + (long)n((uint64_t)(hi - lo + 1)); }
  bool p(int num, int den) { return (int)n(den) < num; }
  u128 u2() { return ((u128)u() << 64) | u(); }
};
static inline u128 rnd_digits(Rng &g, int nd) { if (nd <= 0) return 0; u128 lo = p10u(nd - 1), hi = p10u(nd) - 1; return lo + g.u2() % (hi - lo + 1); }
// Numbers written in the sources of the library: thresholds, limits and table entries are where its paths part.
// run.py collects them (MON_DICT: lines "kind coefficient exponent", kind S outside tables, T in them).
struct Dict { std::vector<std::pair<u128, int>> v[2]; std::vector<int> e;
  Dict() { const char *fn = getenv("MON_DICT"); FILE *f = fn ? fopen(fn, "r") : 0; if (!f) return; char k, b[64]; int q;
    while (fscanf(f, " %c %60s %d", &k, b, &q) == 3) { u128 c = 0; for (char *p = b; *p; p++) c = c * 10 + (*p - '0'); v[k == 'T'].push_back({c, q}); if (k == 'S' && q == 0 && c < 7000) e.push_back((int)c); } fclose(f); }
  bool ok() const { return !v[0].empty(); }
  std::pair<u128, int> pick(Rng &g) const { auto &w = v[!v[1].empty() && g.n(4) == 0]; return w[g.n(w.size())]; } };
inline const Dict &dict() { static Dict d; return d; }
// such a number, or one next to it, with at most nd digits; q its exponent
static inline u128 gen_dict(Rng &g, int nd, int &q) {
  auto l = dict().pick(g); u128 c = l.first; q = l.second; int n = ndig(c);
  while (n > nd) { c /= 10; q++; n--; }
  if (g.n(2) && n < nd) { int t = g.n(2) ? nd - n : 1 + (int)g.n(nd - n); c *= p10u(t); q -= t; }
  switch (g.n(4)) { case 0: c += 1; break; case 1: if (c) c -= 1; break; }
  return c % p10u(nd);
}
// coefficient with nd digits of assorted shape
static inline u128 gen_coeff(Rng &g, int nd) {
  if (nd <= 0) return 0; u128 c;
  if (dict().ok() && g.n(24) == 0) { int q; return gen_dict(g, nd, q); }
  switch (g.n(16)) {
    case 0: c = p10u(nd) - 1; break;                                   // 99..9
    case 1: c = p10u(nd - 1); break;                                   // 10..0
    case 2: c = p10u(nd - 1) + g.n(4); break;
    case 3: c = p10u(nd) - 1 - g.n(4); break;
    case 4: c = 5 * p10u(nd - 1) + g.n(3) - (nd > 1 ? 1 : 0) * g.n(2); break;
    case 5: { int t = (int)g.n(nd); c = rnd_digits(g, nd - t) * p10u(t); break; } // trailing zeros
    case 6: { c = 0; int i = 0; while (i < nd) { int run = 1 + (int)g.n(6); int d = (int)(g.n(3) == 0 ? g.n(10) : g.n(2) ? 9 : 0); while (run-- && i < nd) { c = c * 10 + d; i++; } } break; }
    case 7: { c = 0; for (int i = 0; i < nd; i++) c = c * 10 + (g.n(4) ? 0 : g.n(10)); break; }
    case 8: { int b = (int)g.n(114); c = (((u128)1) << b); if (g.n(2)) c -= 1; else c += g.n(3); c %= p10u(nd); break; } // near powers of two
    case 9: { int t = (int)g.n(nd); c = rnd_digits(g, nd - t) * p10u(t); if (t) c += 5 * p10u(t - 1); break; }  // ..5000
    case 10: { int t = (int)g.n(nd); c = t < nd - 1 || g.n(2) ? rnd_digits(g, nd - t) * p10u(t) : 0; if (t) { c += 5 * p10u(t - 1); if (t > 1) { u128 e = p10u((int)g.n(t - 1)); c = g.n(2) ? c + e : c - e; } } break; } // a hair off ..5000
    case 11: { c = 0; int k = 1 + (int)g.n(4); while (k--) c += (1 + g.n(9)) * p10u((int)g.n(nd)); break; }      // few non-zero digits
    case 12: { int t = (int)g.n(nd); c = rnd_digits(g, nd - t) * p10u(t); u128 e = p10u((int)g.n(t + 1)); c = g.n(2) ? c + e : c - e; break; }  // ..0001000 / ..9999000
    case 13: { c = rnd_digits(g, nd); int w = g.n(3) ? 64 : 32; c = ((c >> w) << w) + (u128)(i128)g.r(-2, 2); if (g.n(3) == 0) c += (u128)g.r(0, 20) * p10u((int)g.n(nd)); break; }   // word boundaries
    default: c = rnd_digits(g, nd);
  }
  return c % p10u(nd);
}
// nd digits of which the last t are about to be rounded away: ties, hairs off ties, near-integers
static inline u128 gen_tie(Rng &g, int nd, int t) {
  if (t <= 0) return gen_coeff(g, nd); if (t > nd) t = nd;
  u128 pre = nd > t ? (g.n(3) ? rnd_digits(g, nd - t) : g.n(2) ? p10u(nd - t) - 1 - g.n(2) : p10u(nd - t - 1) + g.n(3)) : 0, P = p10u(t), r;
  switch (g.n(8)) {
    case 0: r = P / 2; break;
    case 1: r = P / 2 + 1; break;
    case 2: r = P / 2 - 1; break;
    case 3: case 4: { u128 e = (1 + g.n(9)) * p10u((int)g.n(t)); r = g.n(2) ? P / 2 + e : P / 2 - e; break; }
    case 5: r = (1 + g.n(9)) * p10u((int)g.n(t)); break;
    case 6: r = P - (1 + g.n(9)) * p10u((int)g.n(t)); break;
    default: r = g.u2() % P;
  }
  return (pre * P + r % P) % p10u(nd);
}
static inline int gen_exp(Rng &g, const Fmt &f, int nd) {
  if (!dict().e.empty() && g.n(40) == 0) { int e = dict().e[g.n(dict().e.size())] + (int)g.r(-1, 1); if (g.n(2)) e = -e; if (g.n(3) == 0) e -= nd - 1; return e < f.qmin ? f.qmin : e > f.qmax ? f.qmax : e; }
  switch (g.n(8)) {
    case 0: return (int)g.r(f.qmin, f.qmax);
    case 1: return f.qmin + (int)g.n(f.p + 4);
    case 2: return f.qmax - (int)g.n(f.p + 4);
    case 3: return (int)g.r(-40, 40) < f.qmin ? f.qmin : std::min<int>((int)g.r(-40, 40), f.qmax);
    case 4: return -nd + (int)g.r(-3, 3);           // value near one
    case 5: return (int)g.r(-f.p - 2, 4);
    case 6: return 0;
    default: return (int)g.r(-12, 12);
  }
}
static inline int clampq(const Fmt &f, long q) { return (int)(q < f.qmin ? f.qmin : q > f.qmax ? f.qmax : q); }
static inline Num gen_fin(Rng &g, const Fmt &f) {
  if (dict().ok() && g.n(24) == 0) { Num n; int q; n.c = gen_dict(g, f.p, q); n.q = clampq(f, q); n.neg = g.n(2); return n; }
  int nd = g.n(4) == 0 ? f.p : (int)g.r(0, f.p); if (nd == 0 && g.n(4)) nd = 1 + (int)g.n(3);
  Num n; n.c = gen_coeff(g, nd); n.q = clampq(f, gen_exp(g, f, nd)); n.neg = g.n(2); return n;
}
static inline Num gen_special(Rng &g, const Fmt &f) {
  Num n; n.neg = g.n(2);
  switch (g.n(6)) {
    case 0: n.k = INF; break;
    case 1: n.k = KQNAN; n.payload = g.n(2) ? 0 : g.u2() % p10u(f.p - 1); break;
    case 2: n.k = KSNAN; n.payload = g.n(2) ? 0 : g.u2() % p10u(f.p - 1); break;
    default: n.c = 0; n.q = clampq(f, g.n(2) ? gen_exp(g, f, 1) : g.r(f.qmin, f.qmax));
  }
  return n;
}
static inline u128 mask(const Fmt &f) { return f.bits == 128 ? ~(u128)0 : (((u128)1) << f.bits) - 1; }
// raw operand bits: mixes structured finite data, specials, non-canonical and random encodings
static inline u128 gen_bits(Rng &g, const Fmt &f, int special_pct = 6) {
  int k = (int)g.n(100);
  if (k < special_pct) return encode(f, gen_special(g, f));
  if (k < special_pct + 2) { // non-canonical: oversized coefficient / junk below inf or nan
    u128 b = g.u2() & mask(f);
    int w = (int)g.n(3);
    if (w == 0) { b |= (u128)3 << (f.bits - 3); b &= ~((u128)1 << (f.bits - 4)); return b; }      // large-coefficient form
    if (w == 1 && f.bits == 128) { // short form with coefficient in (10^34-1, 2^113)
      Num n = gen_fin(g, f); n.c = p10u(34) + (g.n(2) ? (u128)g.n(5) : g.u2() % ((((u128)1) << 113) - p10u(34))); return encode(f, n); }
    b |= (u128)30 << (f.bits - 6); return b; }
  if (k < special_pct + 5) return g.u2() & mask(f);
  return encode(f, gen_fin(g, f));
}
// second operand correlated with the first
static inline Num gen_rel(Rng &g, const Fmt &f, const Num &a) {
  if (!a.fin() || a.c == 0) return gen_fin(g, f);
  Num b; b.neg = g.n(2); int na = ndig(a.c);
  switch (g.n(12)) {
    case 0: b = a; if (g.n(2)) b.neg = !b.neg; break;
    case 1: b = a; b.neg = g.n(2) ? a.neg : !a.neg; b.c += (int)g.n(5) - 2; if (b.c >= p10u(f.p)) b.c = a.c; break;
    case 2: { b = a; int t = (int)g.n(f.p - na + 1); b.c *= p10u(t); b.q = a.q - t; if (b.q < f.qmin) b = a; break; }  // cohort member
    case 3: { int nd = (int)g.r(1, f.p); b.c = gen_coeff(g, nd); b.q = clampq(f, (long)a.q + na - nd + g.r(-f.p - 3, f.p + 3)); break; } // overlapping magnitude
    case 4: { b.c = 5; b.q = clampq(f, (long)a.q + na - f.p - 1); break; }                       // half an ulp of a
    case 5: { int nd = (int)g.r(1, f.p); b.c = g.n(2) ? 5 * p10u(nd - 1) + g.n(2) : 5 * p10u(nd - 1) - (nd > 1); b.q = clampq(f, (long)a.q + na - f.p - nd); break; } // ~half ulp
    case 6: { int nd = (int)g.r(1, f.p); b.c = gen_coeff(g, nd); long t = f.emax() - ((long)a.q + na - 1) - nd; b.q = clampq(f, t + g.r(-2, 3)); break; }     // product near overflow
    case 7: { int nd = (int)g.r(1, f.p); b.c = gen_coeff(g, nd); long t = f.qmin - a.q + g.r(-f.p - 2, f.p + 2) - nd / 2; b.q = clampq(f, t); break; }  // product near underflow
    case 8: { int nd = (int)g.r(1, f.p); b.c = gen_coeff(g, nd); b.q = clampq(f, (long)a.q - (g.n(2) ? f.emax() : f.qmin) + g.r(-f.p, f.p)); break; } // quotient near limits
    case 9: { b.c = g.n(2) ? 1 : 1 + g.n(9); b.q = clampq(f, (long)a.q + g.r(-f.p - 2, f.p + 2)); break; }
    case 10: { u128 d = 1 + g.n(1000); b.c = d; while (a.c % d == 0 && d > 1 && g.n(3)) d *= 1 + g.n(9); b.c = d < p10u(f.p) ? d : 7; b.q = clampq(f, gen_exp(g, f, ndig(b.c))); break; }
    default: b = gen_fin(g, f);
  }
  if (b.c >= p10u(f.p)) b.c %= p10u(f.p);
  return b;
}
static inline u128 gen_bits_rel(Rng &g, const Fmt &f, u128 abits, int special_pct = 6) {
  if (g.n(100) < 45) { Num a = decode(f, abits); if (a.fin()) return encode(f, gen_rel(g, f, a)); }
  return gen_bits(g, f, special_pct);
}
