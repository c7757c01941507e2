// P36, C++: streams and a few functions through <decimal/decimal> and <math.h>, logged for comparison between language modes.
#define __STDC_WANT_DEC_FP__ 1
#include <decimal/decimal>
#include <math.h>
#include <sstream>
#include <iomanip>
#include <cstdio>
#include <cstring>
#include <cerrno>
typedef unsigned long long U;
static U st; static U rnd() { U z = (st += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static FILE *rec; static long at, only = -1;
static void out(const char *what, const std::string &s, U v) {
  U h = v * 0x9e3779b97f4a7c15ull + 1; for (size_t i = 0; i < s.size(); i++) h = (h ^ (unsigned char)s[i]) * 0x100000001b3ull;
  if (rec) fwrite(&h, 8, 1, rec); if (at == only) printf("CALL %s \"%s\" %llu\n", what, s.c_str(), v); at++; }
static int failed; static void fail(const char *what, const char *name, const std::string &s) { if (failed++ < 20) { printf("FAIL %s %s | \"%s\" differs from the narrow stream\n", what, name, s.c_str()); fflush(stdout); } }
template <class D> static void one(D d, const char *name, int digits) {
  std::ostringstream o; int f = (int)(rnd() % 8); if (f & 1) o.setf(std::ios::fixed); if (f & 2) o.setf(std::ios::scientific); if (f & 4) o.setf(std::ios::uppercase);
  o.precision((int)(rnd() % 40)); o.width((int)(rnd() % 30)); o.fill('*'); o << d << '|' << d; out(name, o.str(), (U)o.good());
  std::ostringstream p; p << std::setprecision(digits) << d << 'x' << d; std::istringstream i(p.str()); D e, g; char c = 0; i >> e; bool ok = !i.fail(); i.clear(); i >> c; i >> g; std::ostringstream q; q << e << c << g; out("extract", q.str(), (U)ok);
  // the same through wide streams
  std::wostringstream wo; wo.flags(o.flags()); wo.precision(o.precision()); std::wstring ww; { std::ostringstream n; n.flags(o.flags()); n.precision(o.precision()); int w = (int)(rnd() % 30); n.width(w); wo.width(w); n << d << ' ' << d; wo << d << L' ' << d; std::string s = n.str(); ww.assign(s.begin(), s.end()); if (wo.str() != ww || wo.good() != n.good()) fail("wide insertion", name, s); }
  std::string ps = p.str() + " rest"; std::istringstream ni(ps); std::wistringstream wi(std::wstring(ps.begin(), ps.end())); D e1, e2; memset((void *)&e1, 0, sizeof e1); memset((void *)&e2, 0, sizeof e2); ni >> e1; wi >> e2; std::string r1; std::wstring r2; bool same = ni.fail() == wi.fail() && !memcmp((void *)&e1, (void *)&e2, sizeof e1); ni.clear(); wi.clear(); std::getline(ni, r1); std::getline(wi, r2); if (!same || std::wstring(r1.begin(), r1.end()) != r2) fail("wide extraction", name, ps); }
int main(int argc, char **argv) {
  if (argc < 4) return 3; st = (U)atoll(argv[1]) * 77; long n = atol(argv[2]); if (argv[3][0] && !(rec = fopen(argv[3], "wb"))) return 3; if (argc > 4) only = atol(argv[4]);
  for (long k = 0; k < n; k++) {
    _Decimal32 a; _Decimal64 b; _Decimal128 c; unsigned u = (unsigned)rnd(); U v = rnd(); unsigned __int128 w = (unsigned __int128)rnd() << 64 | rnd();
    if (rnd() % 4) { u = (u & 0x80000000u) | ((unsigned)(101 - rnd() % 9) << 23) | (unsigned)(rnd() % 8388608); v = (v >> 63 << 63) | (U)(398 - rnd() % 20) << 53 | (rnd() % 9999999999999ull); w = (w >> 127 << 127) | (unsigned __int128)(6176 - rnd() % 40) << 113 | (w & (((unsigned __int128)1 << 109) - 1)); }
    memcpy(&a, &u, 4); memcpy(&b, &v, 8); memcpy(&c, &w, 16);
    switch (rnd() % 3) {
      case 0: { decimal32 d; d.__setval(a); one(d, "decimal32", 7); errno = 0; _Decimal32 r = sqrtd32(a); memcpy(&u, &r, 4); out("sqrtd32", "", u * 64 + (U)errno + (U)(isnan(r) ? 1 : 0)); break; }
      case 1: { decimal64 d; d.__setval(b); one(d, "decimal64", 16); errno = 0; _Decimal64 r = rintd64(b); memcpy(&v, &r, 8); out("rintd64", "", v * 64 + (U)errno + (U)(isfinite(r) ? 1 : 0)); break; }
      default: { decimal128 d; d.__setval(c); one(d, "decimal128", 34); errno = 0; _Decimal128 r = fmaxd128(c, c); memcpy(&w, &r, 16); out("fmaxd128", "", (U)w * 64 + (U)(w >> 64) + (U)errno + (U)(signbit(r) ? 1 : 0)); break; } } }
  printf("CLASS %ld c++ streams\nCLASS %ld c++ wide streams\nDONE %ld 0 0\n", at, at, at); if (rec) fclose(rec); return 0; }
