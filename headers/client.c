/* P36: a program that uses the installed headers in the ordinary way.  run.py compiles it in several language modes and at several
   optimization levels, runs each copy on the same inputs, and compares what they logged with the copy compiled without optimization.
   The macros and constants are judged here, against the bits. */
#define __STDC_WANT_DEC_FP__ 1
#define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#ifdef WANT_FIRST_SYSTEM
#include <stdio.h>
#include <errno.h>
#endif
#include <float.h>
#include <math.h>
#include <fenv.h>
#include <stdlib.h>
#include <wchar.h>
#ifdef OWN   /* not the installed headers: the prototypes of the standard, written out below */
#define FE_DEC_TONEAREST 0
#endif
#include <math.h>
#include <fenv.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>

typedef unsigned long long U;
typedef unsigned __int128 UU;
typedef _Decimal32 D32; typedef _Decimal64 D64; typedef _Decimal128 D128;

static U st;
static U rnd (void) { U z = (st += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned below (unsigned n) { return (unsigned) (rnd () % n); }

static FILE *rec; static long only = -1, at; static unsigned long calls, judged; static int failed;
static const char *cls_seen[400]; static unsigned long cls_n[400]; static int ncls;
static void saw (const char *c) { int i; for (i = 0; i < ncls; i++) if (cls_seen[i] == c) { cls_n[i]++; return; } if (ncls < 400) { cls_seen[ncls] = c; cls_n[ncls++] = 1; } }
static void fail (const char *what, int bits, UU v, const char *why)
{
  if (failed++ < 20) { printf ("FAIL %s%d | 0x%016llx%016llx %s\n", what, bits, (U) (v >> 64), (U) v, why); fflush (stdout); }
}

/* Decimal data: 1 to all digits, any exponent, infinities, NaNs, raw bits. */
static const int P[3] = {7, 16, 34}, B[3] = {101, 398, 6176}, W[3] = {32, 64, 128}, EMAX[3] = {191, 767, 12287};
static UU encode (int f, int neg, UU c, int e)
{
  int w = W[f], sh = f == 2 ? 113 : f == 1 ? 53 : 23; UU s = (UU) neg << (w - 1);
  if (c >> sh) return s | (UU) 3 << (w - 3) | (UU) (e) << (sh - 2) | (c & (((UU) 1 << (sh - 2)) - 1));
  return s | (UU) e << sh | c;
}
static UU datum (int f)
{
  int k = (int) below (16), i, d = 1 + (int) below (P[f]), e, s = (int) below (6); UU c = 0;
  if (k == 0) { UU r = (UU) rnd () << 64 | rnd (); return f == 2 ? r : r & (((UU) 1 << W[f]) - 1); }
  if (k == 1) { static const unsigned char top[] = {0x78, 0xf8, 0x7c, 0xfc, 0x7e, 0xfe}; UU r = (UU) top[below (6)] << (W[f] - 8); return r | (below (2) ? below (999) : 0); }
  for (i = 0; i < d; i++) c = c * 10 + (s == 0 ? 9 : s == 1 ? (i == 0) : s == 2 ? 5 * (i == d - 1) + (i == 0) : below (10));
  if (k == 2) c = 0;
  if (k == 3 && below (3) == 0) { for (c = 0, i = 0; i < P[f]; i++) c = c * 10 + 9; return encode (f, (int) below (2), c, EMAX[f]); }
  e = k < 9 ? B[f] - (int) below (P[f] + 3) : k < 11 ? (int) below (12) : k < 13 ? EMAX[f] - (int) below (12) : k == 13 ? B[f] + 3 - d : (int) below (EMAX[f] + 1);
  if (e < 0) e = 0; if (e > EMAX[f]) e = EMAX[f];
  return encode (f, (int) below (2), c, e);
}
static void put32 (D32 *d, UU v) { unsigned x = (unsigned) v; memcpy (d, &x, 4); }
static void put64 (D64 *d, UU v) { U x = (U) v; memcpy (d, &x, 8); }
static void put128 (D128 *d, UU v) { memcpy (d, &v, 16); }
static U h32 (D32 d) { unsigned x; memcpy (&x, &d, 4); return x; }
static U h64 (D64 d) { U x; memcpy (&x, &d, 8); return x; }
static U h128 (D128 d) { UU x; memcpy (&x, &d, 16); return (U) (x >> 64) * 0x9e3779b97f4a7c15ull ^ (U) x; }

static void out (const char *f, U v, int err)
{
  calls++;
  if (rec) { U r = v * 0xff51afd7ed558ccdull + (U) err; r ^= r >> 29; fwrite (&r, 8, 1, rec); }
  if (at == only) printf ("CALL %s result %016llx errno %d\n", f, v, err);
  at++;
}
/* The same call three times, between changes of mode and errno; a compiler that believes it has no effects would make fewer. */
#define THRICE(name, expr) do { U r1_, r2_, r3_; int e1_, e2_, e3_; \
  fe_dec_setround (m1); errno = 0; r1_ = (expr); e1_ = errno; \
  fe_dec_setround (m2); errno = 77; r2_ = (expr); e2_ = errno; \
  fe_dec_setround (m1); errno = 0; r3_ = (expr); e3_ = errno; fe_dec_setround (FE_DEC_TONEAREST); \
  out (name, r1_, e1_); out (name, r2_, e2_); out (name, r3_, e3_); \
  if (r1_ != r3_ || e1_ != e3_) fail (name, 0, r1_, "differs when repeated"); saw (name); } while (0)

#define UNARY(X, N) X (ceil, N) X (fabs, N) X (floor, N) X (round, N) X (roundeven, N) X (trunc, N) X (nextdown, N) X (nextup, N) X (nearbyint, N) X (rint, N) \
  X (logb, N) X (quantum, N) X (sqrt, N)
#define SLOW(X, N) X (acos, N) X (acosh, N) X (asin, N) X (asinh, N) X (atan, N) X (atanh, N) X (cbrt, N) X (cos, N) X (cosh, N) X (erf, N) X (erfc, N) X (exp, N) X (exp2, N) X (expm1, N) \
  X (lgamma, N) X (log, N) X (log10, N) X (log1p, N) X (log2, N) X (sin, N) X (sinh, N) X (tan, N) X (tanh, N) X (tgamma, N)
#define BINARY(X, N) X (copysign, N) X (fdim, N) X (fmax, N) X (fmin, N) X (fmaxmag, N) X (fminmag, N) X (fmod, N) X (nextafter, N) X (quantize, N) X (remainder, N)
#define SLOW2(X, N) X (atan2, N) X (hypot, N) X (pow, N)
#define INT1(X, N) X (ilogb, N) X (llogb, N) X (llquantexp, N) X (lrint, N) X (lround, N) X (llrint, N) X (llround, N) X (__fpclassify, N) X (__isfinite, N) X (__isinf, N) X (__isnan, N) X (__issignaling, N) \
  X (__finite, N) X (finite, N) X (__signbit, N) X (isnormal, N)
#define INT2(X, N) X (samequantum, N) INT2B (X, N)
#define INT2B(X, N) X (isgreater, N) X (isgreaterequal, N) X (isless, N) X (islessequal, N) X (islessgreater, N) X (isunordered, N)
#define CASE1(f, N) case __COUNTER__: THRICE (#f "d" #N, h##N (f##d##N (a))); break;
#define CASE2(f, N) case __COUNTER__: THRICE (#f "d" #N, h##N (f##d##N (a, b))); break;
#define CASEI1(f, N) case __COUNTER__: THRICE (#f "d" #N, (U) f##d##N (a)); break;
#define CASEI2(f, N) case __COUNTER__: THRICE (#f "d" #N, (U) f##d##N (a, b)); break;

#ifdef OWN
int fe_dec_setround (int);
#define P1(f, N) D##N f##d##N (D##N);
#define P2(f, N) D##N f##d##N (D##N, D##N);
#define PI1(f, N) int f##d##N (D##N);
#define PI2(f, N) int f##d##N (D##N, D##N);
#define OWNS(N) UNARY (P1, N) SLOW (P1, N) BINARY (P2, N) SLOW2 (P2, N) INT2B (PI2, N) _Bool samequantumd##N (D##N, D##N); int ilogbd##N (D##N); long llogbd##N (D##N), lrintd##N (D##N), lroundd##N (D##N); long long llquantexpd##N (D##N), llrintd##N (D##N), llroundd##N (D##N); \
  PI1 (__fpclassify, N) PI1 (__isfinite, N) PI1 (__isinf, N) PI1 (__isnan, N) PI1 (__issignaling, N) PI1 (__finite, N) PI1 (finite, N) PI1 (__signbit, N) PI1 (isnormal, N) \
  D##N fmad##N (D##N, D##N, D##N), ldexpd##N (D##N, int), scalbnd##N (D##N, int), scalblnd##N (D##N, long), frexpd##N (D##N, int *), modfd##N (D##N, D##N *), nexttowardd##N (D##N, D128), nand##N (const char *), strtod##N (const char *, char **), wcstod##N (const wchar_t *, wchar_t **); \
  int strfromd##N (char *, size_t, const char *, D##N);
OWNS (32) OWNS (64) OWNS (128)
#endif

#define CALLS(N, I) \
enum { z##N = __COUNTER__ }; \
static void fast##N (int which, int m1, int m2, UU va, UU vb, UU vc) \
{ \
  D##N a, b, c; int n = (int) (U) vc % 9000; long l = (long) (U) vc; put##N (&a, va); put##N (&b, vb); put##N (&c, vc); \
  switch (which + z##N + 1) { \
    UNARY (CASE1, N) BINARY (CASE2, N) INT1 (CASEI1, N) INT2 (CASEI2, N) \
    case __COUNTER__: THRICE ("fmad" #N, h##N (fmad##N (a, b, c))); break; \
    case __COUNTER__: THRICE ("ldexpd" #N, h##N (ldexpd##N (a, n))); break; \
    case __COUNTER__: THRICE ("scalbnd" #N, h##N (scalbnd##N (a, n))); break; \
    case __COUNTER__: THRICE ("scalblnd" #N, h##N (scalblnd##N (a, n < 100 ? l : n))); break; \
    case __COUNTER__: { int e_; THRICE ("frexpd" #N, (e_ = 12345, h##N (frexpd##N (a, &e_)) * 31 + (U) e_)); break; } \
    case __COUNTER__: { D##N i_; THRICE ("modfd" #N, (i_ = b, h##N (modfd##N (a, &i_)) * 31 + h##N (i_))); break; } \
    case __COUNTER__: { D128 t_; put128 (&t_, I == 2 ? vb : vb >> (W[I] - 8 & 127) == 0x78 ? (UU) 0x78 << 120 : encode (2, (int) (vb & 1), (UU) (vb % 9999), 6176)); THRICE ("nexttowardd" #N, h##N (nexttowardd##N (a, t_))); break; } \
    case __COUNTER__: { char t_[8]; t_[0] = '1' + (char) (n & 7); t_[1] = 0; THRICE ("nand" #N, h##N (nand##N (t_))); break; } \
    case __COUNTER__: { char t_[60], *e_; snprintf (t_, sizeof t_, " %s%llu.%03ue%dq", n & 1 ? "-" : "", (U) va, (unsigned) (vb % 1000), n - 4500); THRICE ("strtod" #N, (e_ = 0, h##N (strtod##N (t_, &e_)) * 31 + (U) (e_ - t_))); break; } \
    case __COUNTER__: { wchar_t t_[60], *e_; swprintf (t_, 60, L" %ls%llu.%03ue%dq", n & 1 ? L"-" : L"", (U) va, (unsigned) (vb % 1000), n - 4500); THRICE ("wcstod" #N, (e_ = 0, h##N (wcstod##N (t_, &e_)) * 31 + (U) (e_ - t_))); break; } \
    case __COUNTER__: { char s_[48]; size_t z_ = (size_t) n % 48; int k_; THRICE ("strfromd" #N, (memset (s_, 'x', 48), k_ = strfromd##N (s_, z_, n & 2 ? "%.9e" : "%g", a), (U) k_ * 31 + (U) s_[0] + (U) s_[z_ / 2] * 257 + (U) s_[z_ ? z_ - 1 : 0] * 65537)); break; } \
    default: break; } \
} \
enum { y##N = __COUNTER__ }; \
static void slow##N (int which, int m1, int m2, UU va, UU vb) \
{ \
  D##N a, b; put##N (&a, va); put##N (&b, vb); \
  switch (which + y##N + 1) { SLOW (CASE1, N) SLOW2 (CASE2, N) default: break; } \
} \
enum { x##N = __COUNTER__ };
CALLS (32, 0)
CALLS (64, 1)
CALLS (128, 2)

/* What the bits say: FP_ constant, sign, signalling */
struct kind { int cls, neg, sig; };
static struct kind decimal_kind (int f, UU v)
{
  struct kind k; int w = W[f], sh = f == 2 ? 113 : f == 1 ? 53 : 23, e, n = 0; UU c, max = 1; unsigned top = (unsigned) (v >> (w - 8)) & 0x7f; int i;
  for (i = 0; i < P[f]; i++) max *= 10;
  k.neg = (int) (v >> (w - 1)) & 1; k.sig = 0;
  if ((top & 0x7c) == 0x7c) { k.cls = FP_NAN; k.sig = (top & 0x7e) == 0x7e; return k; }
  if ((top & 0x7c) == 0x78) { k.cls = FP_INFINITE; return k; }
  if ((top & 0x60) == 0x60) { e = (int) (v >> (sh - 2)) & EMAX[f] & 0x3fff; e = (int) ((v >> (sh - 2)) & (f == 2 ? 0x3fff : f == 1 ? 0x3ff : 0xff)); c = ((UU) 8 << (sh - 3)) | (v & (((UU) 1 << (sh - 2)) - 1)); }
  else { e = (int) ((v >> sh) & (f == 2 ? 0x3fff : f == 1 ? 0x3ff : 0xff)); c = v & (((UU) 1 << sh) - 1); }
  if (c >= max) c = 0;
  if (c == 0) { k.cls = FP_ZERO; return k; }
  while (c) { n++; c /= 10; }
  k.cls = e + n - 1 >= P[f] - 1 ? FP_NORMAL : FP_SUBNORMAL;
  return k;
}
#define IS_INT(e) _Generic ((e), int: 1, default: 0)
#ifdef OWN
#define JUDGE(T, name, bits, k, v, arr) ((void) k, (void) arr)
#else
#define JUDGE(T, name, bits, k, v, arr) do { T *p_ = arr; int r_; \
  r_ = fpclassify (*p_++); if (r_ != k.cls) fail ("fpclassify:" name, bits, v, "wrong class"); \
  r_ = !!isfinite (*p_++); if (r_ != (k.cls != FP_NAN && k.cls != FP_INFINITE)) fail ("isfinite:" name, bits, v, "wrong"); \
  r_ = !!isinf (*p_++); if (r_ != (k.cls == FP_INFINITE)) fail ("isinf:" name, bits, v, "wrong"); \
  r_ = !!isnan (*p_++); if (r_ != (k.cls == FP_NAN)) fail ("isnan:" name, bits, v, "wrong"); \
  r_ = !!isnormal (*p_++); if (r_ != (k.cls == FP_NORMAL)) fail ("isnormal:" name, bits, v, "wrong"); \
  r_ = !!signbit (*p_++); if (r_ != k.neg) fail ("signbit:" name, bits, v, "wrong"); \
  r_ = !!issignaling (*p_++); if (r_ != k.sig) fail ("issignaling:" name, bits, v, "wrong"); \
  if (p_ != arr + 7) fail ("evaluated:" name, bits, v, "argument evaluated other than once"); \
  if (!IS_INT (fpclassify (*arr)) || !IS_INT (isfinite (*arr)) || !IS_INT (isinf (*arr)) || !IS_INT (isnan (*arr)) || !IS_INT (isnormal (*arr)) || !IS_INT (signbit (*arr)) || !IS_INT (issignaling (*arr))) \
    fail ("type:" name, bits, v, "macro result is not an int"); \
  judged += 7; saw ("macros " name); } while (0)
#endif

static void macros (void)
{
  D32 a[7]; D64 b[7]; D128 c[7]; float x[7]; double y[7]; long double z[7]; UU v; struct kind k; int i, e;
  v = datum (0); for (i = 0; i < 7; i++) put32 (a + i, v); k = decimal_kind (0, v); JUDGE (D32, "_Decimal32", 32, k, v, a);
  v = datum (1); for (i = 0; i < 7; i++) put64 (b + i, v); k = decimal_kind (1, v); JUDGE (D64, "_Decimal64", 64, k, v, b);
  v = datum (2); for (i = 0; i < 7; i++) put128 (c + i, v); k = decimal_kind (2, v); JUDGE (D128, "_Decimal128", 128, k, v, c);
  { unsigned w = (unsigned) rnd (), m; switch (below (4)) { case 0: w |= 0x7f800000; break; case 1: w &= 0x807fffff; break; default: break; } if (below (8) == 0) w &= 0xff800000;
    e = (int) (w >> 23) & 255; m = w & 0x7fffff; k.neg = (int) (w >> 31); k.sig = e == 255 && m && !(m >> 22); k.cls = e == 255 ? m ? FP_NAN : FP_INFINITE : e ? FP_NORMAL : m ? FP_SUBNORMAL : FP_ZERO;
    for (i = 0; i < 7; i++) memcpy (x + i, &w, 4); JUDGE (float, "float", 0, k, w, x); }
  { U w = rnd (), m; switch (below (4)) { case 0: w |= 0x7ffull << 52; break; case 1: w &= ~(0x7ffull << 52); break; default: break; } if (below (8) == 0) w &= 0xfffull << 52;
    e = (int) (w >> 52) & 2047; m = w & 0xfffffffffffffull; k.neg = (int) (w >> 63); k.sig = e == 2047 && m && !(m >> 51); k.cls = e == 2047 ? m ? FP_NAN : FP_INFINITE : e ? FP_NORMAL : m ? FP_SUBNORMAL : FP_ZERO;
    for (i = 0; i < 7; i++) memcpy (y + i, &w, 8); JUDGE (double, "double", 0, k, w, y); }
  { U m = rnd () & ~(1ull << 63); unsigned se = below (65536); switch (below (4)) { case 0: se |= 0x7fff; break; case 1: se &= 0x8000; break; default: break; } if (below (8) == 0) m = 0;
    e = (int) se & 0x7fff; k.neg = (int) (se >> 15); k.sig = e == 0x7fff && m && !(m >> 62); k.cls = e == 0x7fff ? m ? FP_NAN : FP_INFINITE : e ? FP_NORMAL : m ? FP_SUBNORMAL : FP_ZERO;
    v = (UU) se << 64 | m | (e ? 1ull << 63 : 0); for (i = 0; i < 7; i++) { memset (z + i, 0, sizeof *z); memcpy (z + i, &v, 10); } JUDGE (long double, "long double", 0, k, v, z); }
}

#ifdef OWN
static void constants (void) { }
#else
static void constant (const char *name, D128 got, const char *digits)
{
  UU c = 0, w; int n = 0, e = 0, seen = 0; const char *s = digits; D128 want;
  for (; *s && n < 34; s++) { if (*s == '.') { seen = 1; continue; } if (n || *s != '0') { c = c * 10 + (unsigned) (*s - '0'); n++; } if (seen) e--; }
  if (*s >= '5') c++;
  w = encode (2, 0, c, 6176 + e); put128 (&want, w); judged++;
  if (!(got == want)) { UU g; memcpy (&g, &got, 16); fail (name, 0, g, "is not the correctly rounded value"); }
}
#define CONST(m, d) constant (#m, m, d)
static void constants (void)
{
  D32 a; D64 b; D128 c; UU v;
  CONST (M_Edl, "2.718281828459045235360287471352662497757247093699959574966967627724");
  CONST (M_LOG2Edl, "1.442695040888963407359924681001892137426645954152985934135449406931");
  CONST (M_LOG10Edl, "0.434294481903251827651128918916605082294397005803666566114453783165");
  CONST (M_LN2dl, "0.693147180559945309417232121458176568075500134360255254120680009493");
  CONST (M_LN10dl, "2.302585092994045684017991454684364207601101488628772976033327900967");
  CONST (M_PIdl, "3.141592653589793238462643383279502884197169399375105820974944592307");
  CONST (M_PI_2dl, "1.570796326794896619231321691639751442098584699687552910487472296153");
  CONST (M_PI_4dl, "0.785398163397448309615660845819875721049292349843776455243736148076");
  CONST (M_1_PIdl, "0.318309886183790671537767526745028724068919291480912897495334688117");
  CONST (M_2_PIdl, "0.636619772367581343075535053490057448137838582961825794990669376235");
  CONST (M_2_SQRTPIdl, "1.128379167095512573896158903121545171688101258657997713688171443421");
  CONST (M_SQRT2dl, "1.414213562373095048801688724209698078569671875376948073176679737990");
  CONST (M_SQRT1_2dl, "0.707106781186547524400844362104849039284835937688474036588339868995");
  a = HUGE_VAL_D32; if (h32 (a) != 0x78000000) fail ("HUGE_VAL_D32", 32, h32 (a), "is not infinity");
  b = HUGE_VAL_D64; if (h64 (b) != 0x78ull << 56) fail ("HUGE_VAL_D64", 64, h64 (b), "is not infinity");
  c = HUGE_VAL_D128; memcpy (&v, &c, 16); if (v != (UU) 0x78 << 120) fail ("HUGE_VAL_D128", 128, v, "is not infinity");
  a = DEC_INFINITY; if (h32 (a) != 0x78000000) fail ("DEC_INFINITY", 32, h32 (a), "is not infinity");
  a = DEC_NAN; if ((h32 (a) & 0xfe000000u) != 0x7c000000) fail ("DEC_NAN", 32, h32 (a), "is not a quiet NaN");
  if (sizeof (DEC_INFINITY) != 4 || sizeof (DEC_NAN) != 4 || sizeof (HUGE_VAL_D64) != 8 || sizeof (M_PIdl) != 16) fail ("constants", 0, 0, "wrong type");
  { int m[5], i, j; m[0] = FE_DEC_TONEAREST; m[1] = FE_DEC_TOWARDZERO; m[2] = FE_DEC_UPWARD; m[3] = FE_DEC_DOWNWARD; m[4] = FE_DEC_TONEARESTFROMZERO;
    for (i = 0; i < 5; i++) { static const char *w[] = {"1234568", "1234567", "1234568", "1234567", "1234568"}; D32 q; int t; put32 (&a, 0); 
      if (fe_dec_setround (m[i]) || fe_dec_getround () != m[i]) fail ("FE_DEC", 0, (UU) i, "mode not accepted");
      for (j = 0; j < i; j++) if (m[i] == m[j]) fail ("FE_DEC", 0, (UU) i, "two modes have one value");
      /* the name means the direction: 12345675/10, -12345675/10 and 12345665/10 at seven digits */
      for (t = 0; t < 3; t++) { int neg = t == 1, n = t == 2 ? 1234566 : 1234567, up = i == 0 ? n & 1 : i == 1 ? 0 : i == 2 ? !neg : i == 3 ? neg : 1; char s[20]; D32 x;
        sprintf (s, "%s%d5", neg ? "-" : "", n); q = strtod32 (s, NULL); put32 (&x, encode (0, neg, (UU) (n + up), 102)); judged++;
        if (!(q == x)) fail ("FE_DEC", 0, (UU) (i * 10 + t), "mode name and direction disagree"); } (void) w; }
    fe_dec_setround (FE_DEC_TONEAREST); }
  saw ("constants");
}
#endif

int main (int argc, char **argv)
{
  long n, i; int nf = 0, ns = 0;
  if (argc < 4) return 3;
  st = (U) atoll (argv[1]) * 1000003; n = atol (argv[2]); if (argv[3][0]) { rec = fopen (argv[3], "wb"); if (!rec) return 3; } if (argc > 4) only = atol (argv[4]);
  nf = z64 > y32 ? y32 - z32 - 1 : 0; ns = x32 - y32 - 1; (void) x64; (void) x128; (void) y64; (void) z128; (void) y128;
  constants ();
  for (i = 0; i < n; i++)
    {
      int f = (int) below (3), m1 = (int) below (5), m2 = (int) below (5), which; UU a = datum (f), b = below (4) ? datum (f) : a, c = datum (f);
      if (below (5) == 0) b = (a >> (W[f] - 1) << (W[f] - 1)) | (UU) 0x78 << (W[f] - 8);
      if (below (16)) { which = (int) below (nf); if (f == 0) fast32 (which, m1, m2, a, b, c); else if (f == 1) fast64 (which, m1, m2, a, b, c); else fast128 (which, m1, m2, a, b, c); }
      else if (below (f == 2 ? 4 : 1) == 0) { which = (int) below (ns); if (f == 0) slow32 (which, m1, m2, a, b); else if (f == 1) slow64 (which, m1, m2, a, b); else slow128 (which, m1, m2, a, b); }
      macros ();
    }
  for (i = 0; i < ncls; i++) printf ("CLASS %lu %s\n", cls_n[i], cls_seen[i]);
  printf ("DONE %lu %lu %d\n", calls, judged, failed);
  if (rec) fclose (rec);
  return 0;
}
