// P34, P35: contexts with traps, and the conversions between the two decimal encodings.
// usage: context GROUP SEED WORKER CASES OUT         GROUP: decctx | dpd
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#define DECNUMDIGITS 40
extern "C" {
#include "decNumber.h"
#include "decimal64.h"
typedef unsigned __int128 u128;
struct W2 { uint64_t w[2]; };
void _bid_to_dpd32(uint32_t *, uint32_t *); void _dpd_to_bid32(uint32_t *, uint32_t *);
void _bid_to_dpd64(uint64_t *, uint64_t *); void _dpd_to_bid64(uint64_t *, uint64_t *);
void _bid_to_dpd128(W2 *, W2 *); void _dpd_to_bid128(W2 *, W2 *);
void conv_to(int, const void *, int *, int *, int *, int *, unsigned char *); unsigned conv_from(int, void *, int, int, int, int, const unsigned char *);
}
struct Rng { uint64_t s; uint64_t u() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t n(uint64_t k) { return u() % k; } };
static std::map<std::string, long> cls, vc; static std::vector<std::pair<std::string, std::string>> viol; static std::vector<std::string> samples; static long evals; static std::unordered_set<uint64_t> seen;
static void fail(const std::string &k, const std::string &t) { if (!vc[k]++ && viol.size() < 20) viol.push_back({k, t}); }
static std::string hex(uint32_t x) { char b[16]; snprintf(b, 16, "0x%x", x); return b; }

// ---- contexts -------------------------------------------------------------
static volatile int trapped; static void on_fpe(int) { trapped++; }
static const struct { uint32_t bit; const char *name; } COND[] = {{DEC_Conversion_syntax, "Conversion syntax"}, {DEC_Division_by_zero, "Division by zero"}, {DEC_Division_impossible, "Division impossible"}, {DEC_Division_undefined, "Division undefined"}, {DEC_Inexact, "Inexact"}, {DEC_Insufficient_storage, "Insufficient storage"}, {DEC_Invalid_context, "Invalid context"}, {DEC_Invalid_operation, "Invalid operation"}, {DEC_Overflow, "Overflow"}, {DEC_Clamped, "Clamped"}, {DEC_Rounded, "Rounded"}, {DEC_Subnormal, "Subnormal"}, {DEC_Underflow, "Underflow"}};
static const int NC = sizeof COND / sizeof *COND;
static uint32_t some_mask(Rng &g) { switch (g.n(6)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return COND[g.n(NC)].bit; case 3: return COND[g.n(NC)].bit | COND[g.n(NC)].bit; case 4: return DEC_Errors; default: return (uint32_t)g.u() & 0x3fff; } }
static uint32_t some_status(Rng &g) { uint32_t r = 0; for (int i = (int)g.n(4); i--;) r |= COND[g.n(NC)].bit; return r; }
typedef decNumber *(*F1)(decNumber *, const decNumber *, decContext *); typedef decNumber *(*F2)(decNumber *, const decNumber *, const decNumber *, decContext *);
static const struct { const char *n; F1 f; } OPS1[] = {{"abs", decNumberAbs}, {"minus", decNumberMinus}, {"plus", decNumberPlus}, {"exp", decNumberExp}, {"ln", decNumberLn}, {"log10", decNumberLog10}, {"logb", decNumberLogB}, {"reduce", decNumberReduce}, {"sqrt", decNumberSquareRoot}, {"tointegralexact", decNumberToIntegralExact}, {"tointegral", decNumberToIntegralValue}, {"invert", decNumberInvert}, {"nextplus", decNumberNextPlus}, {"nextminus", decNumberNextMinus}};
static const struct { const char *n; F2 f; } OPS2[] = {{"add", decNumberAdd}, {"subtract", decNumberSubtract}, {"multiply", decNumberMultiply}, {"divide", decNumberDivide}, {"divideint", decNumberDivideInteger}, {"remainder", decNumberRemainder}, {"remaindernear", decNumberRemainderNear}, {"compare", decNumberCompare}, {"comparesignal", decNumberCompareSignal}, {"max", decNumberMax}, {"minmag", decNumberMinMag}, {"power", decNumberPower}, {"quantize", decNumberQuantize}, {"rescale", decNumberRescale}, {"scaleb", decNumberScaleB}, {"shift", decNumberShift}, {"rotate", decNumberRotate}, {"and", decNumberAnd}, {"nexttoward", decNumberNextToward}};
static std::string some_number(Rng &g) {
  static const char *S[] = {"0", "-0", "1", "10", "Infinity", "-Infinity", "NaN", "sNaN", "NaN12", "sNaN34", "0E-500", "9.999999999999999E+384", "1E-398", "1E-383", "101101", "-7", "9E6144", "1E-6176", "0.5", "2.5", "1E+96", "9.999999E-95"};
  if (g.n(2)) return S[g.n(22)]; std::string s = g.n(2) ? "-" : ""; int d = 1 + (int)g.n(38); for (int i = 0; i < d; i++) s += (char)('0' + (g.n(3) ? g.n(10) : 9 * g.n(2))); int e = g.n(3) ? (int)g.n(30) - 20 : (int)g.n(13000) - 6500; return s + "E" + std::to_string(e); }
static bool same_fields(const decContext &a, const decContext &b) { return a.digits == b.digits && a.emax == b.emax && a.emin == b.emin && a.round == b.round && a.traps == b.traps && a.clamp == b.clamp; }
static void parse(decNumber *n, const std::string &s) { decContext c; decContextDefault(&c, DEC_INIT_DECIMAL128); c.digits = 40; c.emax = 9999; c.emin = -9999; c.clamp = 0; decNumberFromString(n, s.c_str(), &c); }
static void run_ctx(Rng &g, long cases) {
  static const int KIND[] = {DEC_INIT_DECIMAL32, DEC_INIT_DECIMAL64, DEC_INIT_DECIMAL128, DEC_INIT_BASE};
  static const int DG[] = {7, 16, 34, 9}, EX[] = {96, 384, 6144, 999999999}, EN[] = {-95, -383, -6143, -999999999};
  signal(SIGFPE, on_fpe);
  for (long done = 0; done < cases;) {
    int k = (int)g.n(16); decContext c; memset(&c, 0x5a, sizeof c); trapped = 0; int bad = k == 15 ? (int)g.n(1000) + 129 : 0; int ki = k % 3;
    if (k == 14) ki = 3; decContext *r = decContextDefault(&c, bad ? bad : KIND[ki]); std::string where = "decContextDefault(" + std::to_string(bad ? bad : KIND[ki]) + ")"; if (bad) ki = 3; evals++; done++;
    if (r != &c || c.digits != DG[ki] || c.emax != EX[ki] || c.emin != EN[ki] || c.round != (ki == 3 ? DEC_ROUND_HALF_UP : DEC_ROUND_HALF_EVEN) || c.traps != (ki == 3 ? DEC_Errors : 0u) || c.clamp != (ki != 3) || c.status != (bad ? DEC_Invalid_operation : 0u) || (trapped != 0) != (bad != 0)) fail("default", where + ": digits " + std::to_string(c.digits) + " emax " + std::to_string(c.emax) + " emin " + std::to_string(c.emin) + " round " + std::to_string(c.round) + " traps " + hex(c.traps) + " clamp " + std::to_string(c.clamp) + " status " + hex(c.status) + " traps taken " + std::to_string(trapped));
    cls[bad ? "default unknown kind" : "default"]++;
    if (ki == 3) { c.digits = 5 + (int)g.n(30); c.emax = 999; c.emin = -999; }
    uint32_t model = c.status; if (g.n(2)) c.traps = some_mask(g) & 0x3fff; int round = c.round; decContext keep = c; std::string hist;
    int steps = 1 + (int)g.n(24);
    for (int i = 0; i < steps; i++) {
      trapped = 0; bool may = false, must = false; uint32_t m = some_mask(g), st = some_status(g); int op = (int)g.n(14); std::string name; decContext *rr = &c; uint32_t got = 0, want = 0; bool val = false;
      switch (op) {
        case 0: name = "ClearStatus(" + hex(m) + ")"; rr = decContextClearStatus(&c, m); model &= ~m; break;
        case 1: name = "GetStatus"; got = decContextGetStatus(&c); want = model; val = true; break;
        case 2: name = "RestoreStatus(" + hex(st) + "," + hex(m) + ")"; rr = decContextRestoreStatus(&c, st, m); model = (model & ~m) | (st & m); break;
        case 3: name = "SaveStatus(" + hex(m) + ")"; got = decContextSaveStatus(&c, m); want = model & m; val = true; break;
        case 4: { int q = (int)g.n(8); name = "SetRounding(" + std::to_string(q) + ")"; rr = decContextSetRounding(&c, (enum rounding)q); round = q; keep.round = (enum rounding)q; if (decContextGetRounding(&c) != (enum rounding)round) fail("rounding", name + " then GetRounding " + std::to_string(decContextGetRounding(&c))); break; }
        case 5: name = "SetStatus(" + hex(st) + ")"; rr = decContextSetStatus(&c, st); model |= st; must = st & c.traps; break;
        case 6: name = "SetStatusQuiet(" + hex(st) + ")"; rr = decContextSetStatusQuiet(&c, st); model |= st; break;
        case 7: case 8: { bool quiet = op == 8; int j = (int)g.n(NC + 5); std::string t = j < NC ? COND[j].name : j == NC ? "No status" : j == NC + 1 ? "Multiple status" : j == NC + 2 ? "Inexac" : j == NC + 3 ? "" : std::string(COND[g.n(NC)].name) + "x"; name = std::string("SetStatusFromString") + (quiet ? "Quiet" : "") + "(\"" + t + "\")"; rr = quiet ? decContextSetStatusFromStringQuiet(&c, t.c_str()) : decContextSetStatusFromString(&c, t.c_str()); decContext *wr = j <= NC ? &c : nullptr; if (rr != wr) fail("from-string", name + (wr ? " returned NULL" : " was accepted")); rr = &c; if (j < NC) { model |= COND[j].bit; must = !quiet && (COND[j].bit & c.traps); } break; }
        case 9: { name = "StatusToString"; std::string t = decContextStatusToString(&c), w = model ? "Multiple status" : "No status"; for (auto &q : COND) if (model == q.bit) w = q.name; if (t != w) fail("to-string", name + " of " + hex(model) + " says \"" + t + "\""); cls[w]++; break; }
        case 10: name = "TestSavedStatus(" + hex(st) + "," + hex(m) + ")"; got = decContextTestSavedStatus(st, m); want = (st & m) != 0; val = true; break;
        case 11: name = "TestStatus(" + hex(m) + ")"; got = decContextTestStatus(&c, m); want = (model & m) != 0; val = true; break;
        case 12: if (g.n(3)) { name = "GetStatus"; got = decContextGetStatus(&c); want = model; val = true; } else { name = "ZeroStatus"; rr = decContextZeroStatus(&c); model = 0; if (decContextTestEndian(1)) fail("endian", "decContextTestEndian says the library was built for the other byte order"); } break;
        default: { // an operation adds what it raises on a fresh context, and traps if an enabled condition is among that
          decNumber a, b, r1, r2; std::string sa = some_number(g), sb = some_number(g); bool logic = false; decContext f = c; f.status = 0; f.traps = 0; int w = (int)g.n(33 + 6); decContext *cs[2] = {&f, &c}; decNumber *rs[2] = {&r1, &r2}; char tb[2][80]; memset(tb, 0, sizeof tb); memset(&r1, 0, sizeof r1); memset(&r2, 0, sizeof r2); parse(&a, sa); parse(&b, sb);
          if (w < 33 && (w >= 14 && (!strcmp(OPS2[w - 14].n, "rotate") || !strcmp(OPS2[w - 14].n, "shift"))) && a.digits > c.digits) break; if (w < 14 && (w == 3 || w == 4 || w == 5) && (c.emax < 90 || a.digits > 34)) break; (void)logic;
          for (int z = 0; z < 2; z++) { decContext *x = cs[z]; decNumber *rn = rs[z];
            if (w < 14) OPS1[w].f(rn, &a, x); else if (w < 33) OPS2[w - 14].f(rn, &a, &b, x);
            else if (w == 33) decNumberFMA(rn, &a, &b, &a, x); else if (w == 34) decNumberFromString(rn, sa.c_str(), x); else if (w == 35) decNumberFromString(rn, (sa + "x").c_str(), x); else if (w == 36) { int32_t v = decNumberToInt32(&a, x); memcpy(tb[z], &v, 4); } else if (w == 37) { uint32_t v = decNumberToUInt32(&a, x); memcpy(tb[z], &v, 4); }
            else { static_assert(sizeof(decimal64) == 8, ""); decimal64 d; decimal64FromNumber(&d, &a, x); memcpy(tb[z], &d, 8); } }
          name = std::string(w < 14 ? OPS1[w].n : w < 33 ? OPS2[w - 14].n : w == 33 ? "fma" : w == 34 ? "fromstring" : w == 35 ? "fromstring (bad)" : w == 36 ? "toint32" : w == 37 ? "touint32" : "decimal64FromNumber") + "(" + sa + "," + sb + ")"; model |= f.status; must = f.status & c.traps; cls[f.status ? "operation raising" : "operation quiet"]++; if (must) cls["operation trapping"]++;
          char t1[80], t2[80]; if (w < 36) { decNumberToString(&r1, t1); decNumberToString(&r2, t2); if (strcmp(t1, t2)) fail("history-dependent", name + " gives " + t2 + " after " + hist + " and " + t1 + " on a fresh context"); } else if (memcmp(tb[0], tb[1], 80)) fail("history-dependent", name + " depends on the status or the traps");
          if (w < 34) { enum decClass k1 = decNumberClass(&r2, &c); const char *cn = decNumberClassToString(k1); const char *wn = decNumberIsSNaN(&r2) ? "sNaN" : decNumberIsNaN(&r2) ? "NaN" : decNumberIsInfinite(&r2) ? (decNumberIsNegative(&r2) ? "-Infinity" : "+Infinity") : decNumberIsZero(&r2) ? (decNumberIsNegative(&r2) ? "-Zero" : "+Zero") : r2.digits + r2.exponent - 1 < c.emin ? (decNumberIsNegative(&r2) ? "-Subnormal" : "+Subnormal") : decNumberIsNegative(&r2) ? "-Normal" : "+Normal"; if (strcmp(cn, wn) || !!decNumberIsNormal(&r2, &c) != !strcmp(wn + 1, "Normal") || !!decNumberIsSubnormal(&r2, &c) != !strcmp(wn + 1, "Subnormal")) fail("class", std::string("the class of ") + t2 + " is " + wn + ", reported " + cn); }
          break; } }
      if (name.empty()) continue; evals++; done++; uint64_t h = 1469598103934665603ull; for (char q : name) h = (h ^ (unsigned char)q) * 1099511628211ull; h ^= (uint64_t)model << 32 ^ c.traps; if (seen.size() < 3000000) seen.insert(h);
      cls[name.substr(0, name.find('('))]++; if (must) cls["trap"]++; (void)may;
      if (val && got != want) fail("value:" + name.substr(0, name.find('(')), name + " returned " + hex(got) + " instead of " + hex(want) + " after " + hist);
      if (rr != &c) fail("returned:" + name.substr(0, name.find('(')), name + " did not return its context");
      if (c.status != model) { fail("status:" + name.substr(0, name.find('(')), name + " left status " + hex(c.status) + " instead of " + hex(model) + " after " + hist); model = c.status; }
      if ((trapped != 0) != must) fail(std::string(must ? "no-trap:" : "trap:") + name.substr(0, name.find('(')), name + (must ? " raised an enabled condition without a trap" : " trapped") + ", traps " + hex(c.traps) + " after " + hist);
      if (!same_fields(c, keep)) { fail("fields:" + name.substr(0, name.find('(')), name + " changed the context besides its status"); keep = c; }
      hist += (hist.empty() ? "" : "; ") + name; if (hist.size() > 600) hist = "..." + hist.substr(hist.size() - 400); }
    if (samples.size() < 4 && g.n(50) == 0) samples.push_back(hist); }
}
// ---- encodings ------------------------------------------------------------
static int declet(int v) { int d2 = v / 100, d1 = v / 10 % 10, d0 = v % 10; int a = d2 >> 3, b = d2 >> 2 & 1, c = d2 >> 1 & 1, d = d2 & 1, e = d1 >> 3, f = d1 >> 2 & 1, g = d1 >> 1 & 1, h = d1 & 1, i = d0 >> 3, j = d0 >> 2 & 1, k = d0 >> 1 & 1, m = d0 & 1; int p, q, r, s, t, u, w, x, y, V;
  r = d; u = h; y = m; V = a | e | i; switch (a * 4 + e * 2 + i) { case 0: p = b, q = c, s = f, t = g, w = j, x = k; break; case 1: p = b, q = c, s = f, t = g, w = 0, x = 0; break; case 2: p = b, q = c, s = j, t = k, w = 0, x = 1; break; case 3: p = b, q = c, s = 1, t = 0, w = 1, x = 1; break; case 4: p = j, q = k, s = f, t = g, w = 1, x = 0; break; case 5: p = f, q = g, s = 0, t = 1, w = 1, x = 1; break; case 6: p = j, q = k, s = 0, t = 0, w = 1, x = 1; break; default: p = 0, q = 0, s = 1, t = 1, w = 1, x = 1; }
  return p << 9 | q << 8 | r << 7 | s << 6 | t << 5 | u << 4 | V << 3 | w << 2 | x << 1 | y; }
static int undeclet(int z) { int p = z >> 9 & 1, q = z >> 8 & 1, r = z >> 7 & 1, s = z >> 6 & 1, t = z >> 5 & 1, u = z >> 4 & 1, v = z >> 3 & 1, w = z >> 2 & 1, x = z >> 1 & 1, y = z & 1; int a, b, c;
  if (!v) { a = p * 4 + q * 2 + r; b = s * 4 + t * 2 + u; c = w * 4 + x * 2 + y; } else switch (w * 2 + x) { case 0: a = p * 4 + q * 2 + r; b = s * 4 + t * 2 + u; c = 8 + y; break; case 1: a = p * 4 + q * 2 + r; b = 8 + u; c = s * 4 + t * 2 + y; break; case 2: a = 8 + r; b = s * 4 + t * 2 + u; c = p * 4 + q * 2 + y; break;
    default: switch (s * 2 + t) { case 0: a = 8 + r; b = 8 + u; c = p * 4 + q * 2 + y; break; case 1: a = 8 + r; b = p * 4 + q * 2 + u; c = 8 + y; break; case 2: a = p * 4 + q * 2 + r; b = 8 + u; c = 8 + y; break; default: a = 8 + r; b = 8 + u; c = 8 + y; } } return a * 100 + b * 10 + c; }
struct Fm { int bits, p, eb, ecb; }; static const Fm FM[] = {{32, 7, 101, 6}, {64, 16, 398, 8}, {128, 34, 6176, 12}};
static u128 p10(int k) { u128 r = 1; while (k--) r *= 10; return r; }
struct Dat { int kind; bool neg; u128 c; int e; }; // kind 0 finite, 1 inf, 2 nan
static Dat from_dpd(const Fm &f, u128 x) { Dat d{0, (bool)(x >> (f.bits - 1) & 1), 0, 0}; int comb = (int)(x >> (f.bits - 6)) & 31; if (comb == 30) { d.kind = 1; return d; } if (comb == 31) { d.kind = 2; return d; } int tb = (f.p - 1) / 3 * 10, top, msd; if (comb >> 3 == 3) { top = comb >> 1 & 3; msd = 8 + (comb & 1); } else { top = comb >> 3; msd = comb & 7; } d.e = top << f.ecb | (int)(x >> tb & ((1 << f.ecb) - 1)); d.c = msd; for (int i = tb - 10; i >= 0; i -= 10) d.c = d.c * 1000 + undeclet((int)(x >> i & 1023)); return d; }
static u128 to_dpd(const Fm &f, const Dat &d) { int tb = (f.p - 1) / 3 * 10; u128 x = 0, c = d.c; for (int i = 0; i < tb; i += 10) { x |= (u128)declet((int)(c % 1000)) << i; c /= 1000; } int msd = (int)c, top = d.e >> f.ecb; int comb = msd >= 8 ? 24 | top << 1 | (msd & 1) : top << 3 | msd; x |= (u128)(d.e & ((1 << f.ecb) - 1)) << tb; x |= (u128)comb << (f.bits - 6); x |= (u128)d.neg << (f.bits - 1); return x; }
static Dat from_bid(const Fm &f, u128 x) { Dat d{0, (bool)(x >> (f.bits - 1) & 1), 0, 0}; int comb = (int)(x >> (f.bits - 6)) & 31; if (comb == 30) { d.kind = 1; return d; } if (comb == 31) { d.kind = 2; return d; } int ew = f.ecb + 2, cw = f.bits - 1 - ew; if (comb >> 3 == 3) { cw -= 2; d.c = ((u128)4 << cw) | (x & (((u128)1 << cw) - 1)); d.e = (int)(x >> cw & ((1 << ew) - 1)); } else { d.c = x & (((u128)1 << cw) - 1); d.e = (int)(x >> cw & ((1 << ew) - 1)); } if (d.c >= p10(f.p)) d.c = 0; return d; }
static u128 to_bid(const Fm &f, const Dat &d) { int ew = f.ecb + 2, cw = f.bits - 1 - ew; u128 x; if (d.c < ((u128)1 << cw)) x = (u128)d.e << cw | d.c; else { cw -= 2; x = (u128)3 << (f.bits - 3) | (u128)d.e << cw | (d.c & (((u128)1 << cw) - 1)); } return x | (u128)d.neg << (f.bits - 1); }
static u128 call(const Fm &f, bool todpd, u128 x) { if (f.bits == 32) { uint32_t a = (uint32_t)x, r = 0; (todpd ? _bid_to_dpd32 : _dpd_to_bid32)(&r, &a); return r; } if (f.bits == 64) { uint64_t a = (uint64_t)x, r = 0; (todpd ? _bid_to_dpd64 : _dpd_to_bid64)(&r, &a); return r; } W2 a, r = {{0, 0}}; a.w[0] = (uint64_t)x; a.w[1] = (uint64_t)(x >> 64); (todpd ? _bid_to_dpd128 : _dpd_to_bid128)(&r, &a); return (u128)r.w[1] << 64 | r.w[0]; }
static std::string hx(u128 x, int bits) { char b[40]; if (bits == 128) snprintf(b, 40, "0x%016llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); else snprintf(b, 40, "0x%0*llx", bits / 4, (unsigned long long)x); return b; }
static std::string dg_str(u128 c) { std::string r; do { r.insert(r.begin(), (char)('0' + (int)(c % 10))); c /= 10; } while (c); return r; }
// a client of the installed headers
static void convert(const Fm &f, u128 x, Rng &g) {
  Dat d = from_bid(f, x); std::string wh = "decimal" + std::to_string(f.bits); unsigned char in[16], out[16] = {0}, dg[64]; memcpy(in, &x, 16); int kind = -1, neg = -1, e = 0, nd = 0; memset(dg, 0xff, sizeof dg); conv_to(f.bits, in, &kind, &neg, &e, &nd, dg); evals++;
  static const char *N[] = {" number", " infinity", " nan", " signalling nan"}; int want = d.kind == 2 && (x >> (f.bits - 7) & 1) ? 3 : d.kind; cls[wh + N[want]]++;
  if (kind != want || neg != (int)d.neg) { fail(wh + "ToNumber" + N[want], wh + "ToNumber of " + hx(x, f.bits) + " has kind " + std::to_string(kind) + " and sign " + std::to_string(neg)); return; }
  if (kind == 0) { std::string w = dg_str(d.c), t; for (int i = 0; i < nd && i < 64; i++) t += (char)('0' + dg[i]); int we = d.e - f.eb; if (t != w || e != we) { fail(wh + "ToNumber", wh + "ToNumber of " + hx(x, f.bits) + " is " + t + "E" + std::to_string(e) + " instead of " + w + "E" + std::to_string(we)); return; } }
  if (kind >= 2) { nd = (int)g.n(f.p); for (int i = 0; i < nd; i++) dg[i] = (unsigned char)(i ? g.n(10) : 1 + g.n(9)); } // a payload that fits
  unsigned st = conv_from(f.bits, out, kind, neg, e, kind == 1 ? 0 : nd, dg); u128 y = 0; memcpy(&y, out, f.bits / 8);
  static const int EMIN[] = {-95, -383, -6143}; unsigned wst = kind == 0 && d.c && d.e - f.eb + (int)dg_str(d.c).size() - 1 < EMIN[f.bits / 64] ? DEC_Subnormal : 0; if (wst) cls[wh + " subnormal"]++;
  if (kind == 0 ? y != to_bid(f, d) || st != wst : st != 0) { fail(wh + "FromNumber", wh + "FromNumber of the number in " + hx(x, f.bits) + " gives " + hx(y, f.bits) + " status " + hex(st)); return; }
  if (kind == 1 && y != ((u128)(neg ? 62 : 30) << (f.bits - 6))) fail(wh + "FromNumber infinity", wh + "FromNumber of an infinity gives " + hx(y, f.bits));
  if (kind >= 2) { Dat o = from_bid(f, y); int k2 = -1, n2 = -1, e2 = 0, nd2 = 0; unsigned char d2[64]; memset(d2, 0xff, 64); memcpy(in, &y, 16); conv_to(f.bits, in, &k2, &n2, &e2, &nd2, d2); bool same = nd ? nd2 == nd && !memcmp(dg, d2, nd) : nd2 == 1 && d2[0] == 0; if (o.kind != 2 || o.neg != d.neg || k2 != kind || n2 != neg || !same) fail(wh + " nan payload", wh + " NaN with a payload of " + std::to_string(nd) + " digits did not survive decNumber -> " + hx(y, f.bits) + " -> decNumber"); else cls["payload kept"]++; }
}
static void run_dpd(Rng &g, long cases, int w) {
  for (long i = 0; i < cases; i++) { const Fm &f = FM[g.n(3)]; u128 x; Dat d{0, (bool)g.n(2), 0, 0}; bool todpd = g.n(2); d.e = g.n(4) ? (int)g.n(3u << f.ecb) : g.n(2) ? 0 : (3 << f.ecb) - 1; int kind = (int)g.n(8);
    if (kind < 5) { int nd = g.n(3) ? f.p : 1 + (int)g.n(f.p); int sh = (int)g.n(5); for (int j = 0; j < nd; j++) { int dg = sh == 0 ? 9 : sh == 1 ? (int)g.n(2) * 9 : sh == 2 ? 7 + (int)g.n(3) : (int)g.n(10); d.c = d.c * 10 + dg; } if (sh == 4) d.c = d.c / p10((int)g.n(nd)) * p10(0); if (g.n(12) == 0) { int cw = f.bits - 3 - f.ecb; d.c = ((u128)1 << cw) + (int)g.n(3) - 1; if (d.c >= p10(f.p)) d.c = p10(f.p) - 1 - g.n(5); } x = todpd ? to_bid(f, d) : to_dpd(f, d); }
    else { x = (u128)g.u() << 64 | g.u(); if (f.bits < 128) x &= ((u128)1 << f.bits) - 1; if (g.n(3) == 0) { x |= (u128)(g.n(2) ? 30 : 31) << (f.bits - 6); if (g.n(2)) x &= (u128)0xfe << (f.bits - 8); } d = todpd ? from_bid(f, x) : from_dpd(f, x); }
    u128 r = call(f, todpd, x); evals++; std::string wh = std::string(todpd ? "bid to dpd " : "dpd to bid ") + std::to_string(f.bits); cls[wh + (d.kind == 1 ? " infinity" : d.kind == 2 ? " nan" : d.c == 0 ? " zero" : " number")]++; uint64_t h = (uint64_t)x * 0x9e3779b97f4a7c15ull ^ (uint64_t)(x >> 64) * 31 ^ f.bits * 2 ^ todpd; if (seen.size() < 3000000) seen.insert(h);
    if (todpd) convert(f, x, g);
    if (d.kind == 0) { u128 e = todpd ? to_dpd(f, d) : to_bid(f, d); if (r != e) fail(wh, wh + " of " + hx(x, f.bits) + " expected " + hx(e, f.bits) + " got " + hx(r, f.bits)); else { u128 b = call(f, !todpd, r), c = todpd ? to_bid(f, d) : to_dpd(f, d); if (b != c) fail(wh + " and back", wh + " of " + hx(x, f.bits) + " and back gives " + hx(b, f.bits)); } if (samples.size() < 4) samples.push_back(wh + " of " + hx(x, f.bits) + " = " + hx(r, f.bits)); }
    else { Dat o = todpd ? from_dpd(f, r) : from_bid(f, r); if (o.kind != d.kind || o.neg != d.neg || (d.kind == 2 && (r >> (f.bits - 7) & 1) != (x >> (f.bits - 7) & 1))) fail(wh + (d.kind == 1 ? " infinity" : " nan"), wh + " of " + hx(x, f.bits) + " gives " + hx(r, f.bits)); u128 b = call(f, !todpd, r); Dat o2 = todpd ? from_bid(f, b) : from_dpd(f, b); if (o2.kind != d.kind || o2.neg != d.neg) fail(wh + " and back", wh + " of " + hx(x, f.bits) + " and back gives " + hx(b, f.bits)); } }
}
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  if (argc < 6) return 3; Rng g{strtoull(argv[2], 0, 10) * 1000003 + strtoull(argv[3], 0, 10) * 7919 + 5}; alarm(700); for (int v = 0; v < 1000; v++) if (undeclet(declet(v)) != v) return 3;
  if (!strcmp(argv[1], "decctx")) run_ctx(g, atol(argv[4])); else if (!strcmp(argv[1], "dpd")) run_dpd(g, atol(argv[4]), atoi(argv[3])); else return 3;
  FILE *out = fopen(argv[5], "w"); if (!out) return 3; fprintf(out, "{\"evals\":%ld,\"distinct\":%zu,\"inconclusive\":0,\"cls\":{", evals, seen.size()); bool f = true;
  for (auto &c : cls) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"known\":{},\"vcount\":{"); f = true; for (auto &c : vc) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"viol\":["); f = true; for (auto &c : viol) { fprintf(out, "%s[%s,%s]", f ? "" : ",", js(c.first).c_str(), js(c.second).c_str()); f = false; }
  fprintf(out, "],\"samples\":["); f = true; for (auto &c : samples) { fprintf(out, "%s%s", f ? "" : ",", js(c).c_str()); f = false; }
  fprintf(out, "]}\n"); fclose(out); return 0; }
