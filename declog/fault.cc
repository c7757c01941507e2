// P32 for the decNumber library: every operation, first with all the storage it asks for, then with its n-th request refused (alone or with all later ones).
// usage: fault SEED WORKER CASES OUT          linked with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#define DECNUMDIGITS 700
extern "C" {
#include "decNumber.h"
#include "decimal64.h"
#include "decimal128.h"
void *__real_malloc(size_t), *__real_realloc(void *, size_t); void __real_free(void *);
}
struct Rng { uint64_t s; uint64_t u() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t n(uint64_t k) { return u() % k; } };
static std::map<std::string, long> cls, vc; static std::vector<std::pair<std::string, std::string>> viol; static std::vector<std::string> samples; static long evals; static std::unordered_set<uint64_t> seen;
static void fail(const std::string &k, const std::string &t) { if (!vc[k]++ && viol.size() < 20) viol.push_back({k, t}); }

// ---- the allocator the archive sees ---------------------------------------
static bool armed, sticky, fill = !getenv("FAULT_NOFILL"); static long asked, refuse_at, refused; static void *live[64]; static int nlive, stray; static size_t biggest;
extern "C" void *__wrap_malloc(size_t n) {
  if (!armed) return __real_malloc(n);
  long k = ++asked; if (n > biggest) biggest = n; if (refuse_at && (k == refuse_at || (sticky && k > refuse_at))) { refused++; return 0; }
  void *p = __real_malloc(n); if (p) { if (fill) memset(p, 0xa5, n); if (nlive < 64) live[nlive++] = p; } return p; }
extern "C" void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void __wrap_free(void *p) {
  if (!armed || !p) { __real_free(p); return; }
  for (int i = 0; i < nlive; i++) if (live[i] == p) { live[i] = live[--nlive]; __real_free(p); return; }
  stray++; }
extern "C" void *__wrap_realloc(void *o, size_t n) { if (!armed) return __real_realloc(o, n); void *p = __wrap_malloc(n); if (p && o) { size_t k = malloc_usable_size(o); memcpy(p, o, k < n ? k : n); __wrap_free(o); } return p; }

typedef decNumber *(*F1)(decNumber *, const decNumber *, decContext *); typedef decNumber *(*F2)(decNumber *, const decNumber *, const decNumber *, decContext *);
static const struct { const char *n; F1 f; } OPS1[] = {{"abs", decNumberAbs}, {"minus", decNumberMinus}, {"plus", decNumberPlus}, {"exp", decNumberExp}, {"ln", decNumberLn}, {"log10", decNumberLog10}, {"logb", decNumberLogB}, {"reduce", decNumberReduce}, {"sqrt", decNumberSquareRoot}, {"tointegralexact", decNumberToIntegralExact}, {"tointegral", decNumberToIntegralValue}, {"invert", decNumberInvert}, {"nextplus", decNumberNextPlus}, {"nextminus", decNumberNextMinus}, {"normalize", decNumberNormalize}};
static const struct { const char *n; F2 f; } OPS2[] = {{"add", decNumberAdd}, {"subtract", decNumberSubtract}, {"multiply", decNumberMultiply}, {"divide", decNumberDivide}, {"divideint", decNumberDivideInteger}, {"remainder", decNumberRemainder}, {"remaindernear", decNumberRemainderNear}, {"compare", decNumberCompare}, {"comparesignal", decNumberCompareSignal}, {"comparetotal", decNumberCompareTotal}, {"comparetotalmag", decNumberCompareTotalMag}, {"max", decNumberMax}, {"min", decNumberMin}, {"maxmag", decNumberMaxMag}, {"minmag", decNumberMinMag}, {"power", decNumberPower}, {"quantize", decNumberQuantize}, {"rescale", decNumberRescale}, {"scaleb", decNumberScaleB}, {"shift", decNumberShift}, {"rotate", decNumberRotate}, {"and", decNumberAnd}, {"or", decNumberOr}, {"xor", decNumberXor}, {"nexttoward", decNumberNextToward}};
static const int N1 = sizeof OPS1 / sizeof *OPS1, N2 = sizeof OPS2 / sizeof *OPS2;
static char opname[64], dying[200];
static void on_death(int s) { ssize_t r = write(2, dying, strlen(dying)); (void)r; signal(s, SIG_DFL); raise(s); }

static bool long_ones;
static std::string number(Rng &g, int p, bool integer) {
  static const char *S[] = {"0", "-0", "1", "10", "Infinity", "-Infinity", "NaN123456789", "sNaN", "101101", "-7", "2", "0.5", "1E-7", "9E+20", "1000"};
  if (g.n(7) == 0) return S[g.n(15)];
  std::string s = g.n(2) ? "-" : ""; int d = 1 + (int)(g.n(3) ? g.n(p + 40) : g.n(12)); if (g.n(4) == 0) d = p + (int)g.n(80); if (long_ones) d = 60 + (int)g.n(590); if (d > 650) d = 650; int sh = (int)g.n(4);
  for (int i = 0; i < d; i++) s += (char)('0' + (sh == 0 ? 9 : sh == 1 ? (i == 0) : g.n(10)));
  return s + "E" + std::to_string(integer ? 0 : g.n(5) ? (int)g.n(2 * d + 10) - 2 * d : (int)g.n(1600) - 800); }
static bool same(const decNumber *a, const decNumber *b) { if (a->digits != b->digits || a->bits != b->bits || (!(a->bits & DECSPECIAL) && a->exponent != b->exponent)) return false; return !memcmp(a->lsu, b->lsu, sizeof(decNumberUnit) * ((a->digits + DECDPUN - 1) / DECDPUN)); }
static std::string show(const decNumber *n) { char b[DECNUMDIGITS + 30]; decNumberToString(n, b); std::string s = b; return s.size() > 90 ? s.substr(0, 60) + "...(" + std::to_string(n->digits) + " digits)" + s.substr(s.size() - 20) : s; }
static std::string hex(uint32_t x) { char b[16]; snprintf(b, 16, "0x%x", x); return b; }

struct Case { int w; decNumber a, b, c; std::string text; int alias; };
static void apply(const Case &k, decNumber *r, decContext *x, unsigned char enc[16]) {
  memset(enc, 0, 16);
  if (k.w < N1) OPS1[k.w].f(r, &k.a, x); else if (k.w < N1 + N2) OPS2[k.w - N1].f(r, &k.a, &k.b, x); else if (k.w == N1 + N2) decNumberFMA(r, &k.a, &k.b, &k.c, x); else if (k.w == N1 + N2 + 1) decNumberFromString(r, k.text.c_str(), x);
  else { decNumberZero(r); if (k.w == N1 + N2 + 2) decimal64FromNumber((decimal64 *)enc, &k.a, x); else decimal128FromNumber((decimal128 *)enc, &k.a, x); } }
int main(int argc, char **argv) {
  if (argc < 5) return 3; Rng g{strtoull(argv[1], 0, 10) * 1000003 + strtoull(argv[2], 0, 10) * 7919 + 11}; long cases = atol(argv[3]); alarm(800);
  int sg[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}; for (int s : sg) signal(s, on_death);
  static Case k; static decNumber r0, r1, sa, sb, sc; static const enum rounding RM[] = {DEC_ROUND_CEILING, DEC_ROUND_UP, DEC_ROUND_HALF_UP, DEC_ROUND_HALF_EVEN, DEC_ROUND_HALF_DOWN, DEC_ROUND_DOWN, DEC_ROUND_FLOOR, DEC_ROUND_05UP};
  for (long n = 0; n < cases;) {
    k.w = (int)g.n(N1 + N2 + 4); std::string name = k.w < N1 ? OPS1[k.w].n : k.w < N1 + N2 ? OPS2[k.w - N1].n : k.w == N1 + N2 ? "fma" : k.w == N1 + N2 + 1 ? "fromstring" : k.w == N1 + N2 + 2 ? "decimal64FromNumber" : "decimal128FromNumber"; snprintf(opname, 64, "%s", name.c_str()); snprintf(dying, 200, "crashed-in %s\n", opname);
    bool log = name == "exp" || name == "ln" || name == "log10" || name == "power"; decContext x; decContextDefault(&x, DEC_INIT_BASE); x.traps = 0; x.digits = log ? 1 + (int)g.n(g.n(4) ? 90 : 220) : 1 + (int)g.n(g.n(3) ? 160 : 600); x.emax = log ? 999999 : 99999; x.emin = -x.emax; x.round = RM[g.n(8)]; x.clamp = (uint8_t)g.n(2); if (!log && g.n(4) == 0) { x.emax = x.digits + (int)g.n(200); x.emin = -x.emax; }
    long_ones = !log && g.n(3) == 0; decContext big; decContextDefault(&big, DEC_INIT_BASE); big.traps = 0; big.digits = DECNUMDIGITS; big.emax = 999999; big.emin = -999999; int p = log && g.n(2) ? (int)g.n(20) + 1 : x.digits; std::string ta = number(g, p, false), tb = name == "power" && g.n(2) ? std::to_string((int)g.n(60) - 30) : number(g, p, name == "shift" || name == "rotate" || name == "scaleb"), tc = number(g, p, false);
    size_t e = ta.find('E'); if (k.w >= N1 && k.w < N1 + N2 && e != std::string::npos && g.n(3) == 0) { int z = 1 + (int)g.n(300), x0 = atoi(ta.c_str() + e + 1); if ((int)e + z < 690) tb = ta.substr(0, e) + std::string(z, '0') + "E" + std::to_string(x0 - z); if (g.n(2)) std::swap(ta, tb); }   // the same number in another length
    bool bits = name == "and" || name == "or" || name == "xor" || name == "invert"; if (bits) { for (auto *t : {&ta, &tb}) { int d = 1 + (int)g.n(x.digits); t->clear(); for (int i = 0; i < d; i++) *t += (char)('0' + g.n(2)); } }
    if (name == "shift" || name == "rotate" || name == "scaleb" || name == "rescale") tb = std::to_string((int)g.n(2 * x.digits + 1) - x.digits);
    decNumberFromString(&k.a, ta.c_str(), &big); decNumberFromString(&k.b, tb.c_str(), &big); decNumberFromString(&k.c, tc.c_str(), &big); k.text = ta; if ((name == "rotate" || name == "shift") && k.a.digits > x.digits) continue; if (log && (k.a.digits > 220 || k.b.digits > 60)) continue; if (bits && (k.a.digits > x.digits || k.b.digits > x.digits)) continue;
    if (name == "exp" && k.a.exponent + k.a.digits > 5) continue;
    decNumberCopy(&sa, &k.a); decNumberCopy(&sb, &k.b); decNumberCopy(&sc, &k.c); unsigned char e0[16], e1[16]; decContext c0 = x;
    auto words = [&](const char *how) { return name + "(" + show(&k.a) + "," + show(&k.b) + (name == "fma" ? "," + show(&k.c) : "") + ") precision " + std::to_string(x.digits) + " " + how; };
    refuse_at = 0; asked = refused = 0; nlive = 0; stray = 0; armed = true; apply(k, &r0, &c0, e0); armed = false; long total = asked; n++; evals++; uint64_t h = 1469598103934665603ull; for (char q : words("")) h = (h ^ (unsigned char)q) * 1099511628211ull; if (seen.size() < 2000000) seen.insert(h);
    if (nlive) fail("leak:" + name, words("without faults") + " left " + std::to_string(nlive) + " blocks"); if (stray) fail("stray-free:" + name, words("without faults") + " freed what it did not own");
    if (c0.status & DEC_Insufficient_storage) fail("spurious:" + name, words("without faults") + " reports insufficient storage");
    cls[total ? name + " allocates" : name + " does not allocate"]++; if (!total) continue;
    long step = total > 60 ? total / 40 : 1;
    for (long at = 1; at <= total; at += at < 12 ? 1 : step) for (int st = 0; st < 2; st++) {
      decContext c1 = x; decNumberZero(&r1); refuse_at = at; sticky = st; asked = refused = 0; nlive = 0; stray = 0; armed = true; apply(k, &r1, &c1, e1); armed = false; refuse_at = 0; evals++;
      std::string how = "with request " + std::to_string(at) + (st ? " and all later ones" : "") + " of " + std::to_string(total) + " refused"; if (!refused) { cls["not reached"]++; continue; }
      cls["refused"]++; if (nlive) fail("leak:" + name, words(how.c_str()) + " left " + std::to_string(nlive) + " blocks"); if (stray) fail("stray-free:" + name, words(how.c_str()) + " freed what it did not own");
      if (c1.status & DEC_Insufficient_storage) { cls[name + " reported"]++; if (k.w < N1 + N2 + 2 && (!decNumberIsQNaN(&r1) || r1.digits != 1 || r1.lsu[0])) fail("reported-but:" + name, words(how.c_str()) + " reports insufficient storage with result " + show(&r1)); if (k.w == N1 + N2 + 2 && (e1[7] & 0x7e) != 0x7c) fail("reported-but:" + name, words(how.c_str()) + " reports insufficient storage and stores a number"); if (k.w == N1 + N2 + 3 && (e1[15] & 0x7e) != 0x7c) fail("reported-but:" + name, words(how.c_str()) + " reports insufficient storage and stores a number"); }
      else { cls["survived"]++; if (!same(&r0, &r1) || c1.status != c0.status || memcmp(e0, e1, 16)) fail("wrong:" + name, words(how.c_str()) + " gives " + show(&r1) + " status " + hex(c1.status) + " instead of " + show(&r0) + " status " + hex(c0.status)); }
      if (c1.digits != x.digits || c1.emax != x.emax || c1.emin != x.emin || c1.round != x.round || c1.traps != x.traps || c1.clamp != x.clamp) fail("context:" + name, words(how.c_str()) + " changed the context");
      if (!same(&k.a, &sa) || !same(&k.b, &sb) || !same(&k.c, &sc)) { fail("operand:" + name, words(how.c_str()) + " changed an operand"); break; } }
    decContext c2 = x; refuse_at = 0; nlive = 0; stray = 0; armed = true; apply(k, &r1, &c2, e1); armed = false; evals++; if (!same(&r0, &r1) || c2.status != c0.status || memcmp(e0, e1, 16)) fail("after:" + name, words("after the faults") + " gives " + show(&r1) + " instead of " + show(&r0));
    if (samples.size() < 4 && g.n(50) == 0) samples.push_back(words("") + ": " + std::to_string(total) + " requests, each refused in turn"); }
  auto js = [](const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; };
  FILE *out = fopen(argv[4], "w"); if (!out) return 3; fprintf(out, "{\"evals\":%ld,\"distinct\":%zu,\"inconclusive\":0,\"cls\":{", evals, seen.size()); bool f = true;
  for (auto &c : cls) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"known\":{},\"vcount\":{"); f = true; for (auto &c : vc) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"viol\":["); f = true; for (auto &c : viol) { fprintf(out, "%s[%s,%s]", f ? "" : ",", js(c.first).c_str(), js(c.second).c_str()); f = false; }
  fprintf(out, "],\"samples\":["); f = true; for (auto &c : samples) { fprintf(out, "%s%s", f ? "" : ",", js(c).c_str()); f = false; }
  fprintf(out, "]}\n"); fclose(out); return 0; }
