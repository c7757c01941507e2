#include <stddef.h>
/* P27: drives the installed decNumber library (libdecnumber.a) and writes one line per call:
   op digits emin emax clamp round a b c result status     (fields separated by tabs)
   The log is judged offline by check.py. usage: declog seed worker n [only-op] */
#define DECNUMDIGITS 2600
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include "decNumber.h"
#include "decimal32.h"
#include "decimal64.h"
#include "decimal128.h"
static uint64_t s[2];
static uint64_t rnd (void) { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return (s[1] + b) * 0x9e3779b97f4a7c15ull >> 7; }
static unsigned R (unsigned n) { return (unsigned) ((rnd () >> 8) % n); }
static int rr (int a, int b) { return a + (int) R ((unsigned) (b - a + 1)); }
typedef decNumber *(*F1) (decNumber *, const decNumber *, decContext *);
typedef decNumber *(*F2) (decNumber *, const decNumber *, const decNumber *, decContext *);
static decNumber *class1 (decNumber *r, const decNumber *a, decContext *c) { (void) r; (void) a; (void) c; return 0; }
static struct { const char *n; F1 f; } U[] = {
 {"abs", decNumberAbs}, {"minus", decNumberMinus}, {"plus", decNumberPlus}, {"exp", decNumberExp}, {"ln", decNumberLn}, {"log10", decNumberLog10}, {"logb", decNumberLogB}, {"sqrt", decNumberSquareRoot},
 {"to_integral_exact", decNumberToIntegralExact}, {"to_integral_value", decNumberToIntegralValue}, {"next_minus", decNumberNextMinus}, {"next_plus", decNumberNextPlus}, {"normalize", decNumberNormalize}, {"reduce", decNumberReduce},
 {"invert", decNumberInvert}, {"class", class1}, {"string", class1}, {"eng", class1}, {"int32", class1}, {"uint32", class1}, {"bcd", class1}, {"trim", class1}, {"copies", class1}, {"d32", class1}, {"d64", class1}, {"d128", class1}, {"fromint", class1}, {"text", class1}, {"text32", class1}, {"text64", class1}, {"text128", class1}};
static struct { const char *n; F2 f; } B[] = {
 {"add", decNumberAdd}, {"subtract", decNumberSubtract}, {"multiply", decNumberMultiply}, {"divide", decNumberDivide}, {"divide_int", decNumberDivideInteger}, {"remainder", decNumberRemainder}, {"remainder_near", decNumberRemainderNear},
 {"compare", decNumberCompare}, {"compare_signal", decNumberCompareSignal}, {"compare_total", decNumberCompareTotal}, {"compare_total_mag", decNumberCompareTotalMag}, {"max", decNumberMax}, {"max_mag", decNumberMaxMag},
 {"min", decNumberMin}, {"min_mag", decNumberMinMag}, {"quantize", decNumberQuantize}, {"rescale", decNumberRescale}, {"power", decNumberPower}, {"next_toward", decNumberNextToward}, {"and", decNumberAnd}, {"or", decNumberOr}, {"xor", decNumberXor},
 {"rotate", decNumberRotate}, {"shift", decNumberShift}, {"scaleb", decNumberScaleB}, {"same_quantum", 0}, {"copy_sign", 0}, {"fma", 0}};
#define NU (sizeof U / sizeof U[0])
#define NB (sizeof B / sizeof B[0])
static const char *RN[] = {"CEILING", "UP", "HALF_UP", "HALF_EVEN", "HALF_DOWN", "DOWN", "FLOOR", "05UP"};
static const enum rounding RV[] = {DEC_ROUND_CEILING, DEC_ROUND_UP, DEC_ROUND_HALF_UP, DEC_ROUND_HALF_EVEN, DEC_ROUND_HALF_DOWN, DEC_ROUND_DOWN, DEC_ROUND_FLOOR, DEC_ROUND_05UP};
static void digits (char *d, int n)
{
  int i, k = (int) R (9);
  for (i = 0; i < n; i++)
    switch (k) {
      case 0: d[i] = '9'; break; case 1: d[i] = i ? '0' : '1'; break; case 2: d[i] = i == 0 || i == n - 1 ? '1' + R (9) : '0'; break;
      case 3: d[i] = i < n / 2 ? '0' + R (10) : '9'; break; case 4: d[i] = i < n / 2 ? '0' + R (10) : i == n / 2 ? '5' : '0'; break; case 5: d[i] = i == n - 1 ? '0' + R (10) : '9'; break;
      case 6: d[i] = R (4) ? '0' : '0' + R (10); break; default: d[i] = '0' + R (10); }
  if (n && d[0] == '0' && R (20)) d[0] = '1' + R (9);
  d[n] = 0;
}
/* a structured operand, near the partner's exponent when there is one */
static int fit;   /* operands must fit the context (digits and Etiny) */
static void operand (decNumber *x, const decContext *c, const decNumber *rel, int logical, int small)
{
  char t[3000], *p = t; decContext w; decContextDefault (&w, DEC_INIT_BASE); w.traps = 0; w.digits = 2600; w.emax = 999999999; w.emin = -999999999; int k = (int) R (40), n, e;
  if (logical) { n = rr (1, c->digits); for (int i = 0; i < n; i++) *p++ = R (2) + '0'; if (R (40) == 0) t[0] = '2'; *p = 0; if (R (40) == 0) strcpy (p, "E1"); decNumberFromString (x, t, &w); return; }
  if (small) { sprintf (t, "%d", R (3) ? rr (-c->digits - 2, c->digits + 2) : (R (2) ? -1 : 1) * rr (0, (int) (2u * (unsigned) (c->emax + c->digits) + 3u))); if (R (30) == 0) strcat (t, "E1"); if (R (30) == 0) strcat (t, ".5"); if (R (30) == 0) strcpy (t, R (2) ? "Inf" : "NaN"); decNumberFromString (x, t, &w); return; }
  if (R (2)) *p++ = '-';
  if (k == 0) { strcpy (p, "Infinity"); decNumberFromString (x, t, &w); return; }
  if (k == 1) { strcpy (p, R (3) ? "NaN" : "sNaN"); /* payloads that fit a clamped context */ p += strlen (p); if (R (2)) { n = c->digits - 1; if (n > 0) digits (p, rr (1, n)); } decNumberFromString (x, t, &w); return; }
  if (k == 2 && !fit) { static const char *const T[] = {"2147483647", "2147483648", "4294967295", "4294967296", "999999999", "1000000000", "1073741823", "999", "1000", "999999", "1000000", "0.5", "0.25", "0.1", "0.3162277660168379331998893544432718", "2.302585092994045684017991454684364207601", "1.000000000000000000000000000000001", "0.9999999999999999999999999999999999", "1E-10", "65535", "65536"}; strcpy (p, T[R (sizeof T / sizeof *T)]); decNumberFromString (x, t, &w); return; }
  switch (R (6)) { case 0: n = c->digits; break; case 1: n = c->digits + 1 + (int) R (6); break; case 2: n = rr (1, 3); break; case 3: n = c->digits > 1 ? c->digits - 1 : 1; break; default: n = rr (1, c->digits); }
  if (n > 250 && c->digits <= 200) n = 250;
  if (fit && n > c->digits) n = c->digits;
  digits (p, n); if (R (25) == 0) strcpy (p, "0"); p += strlen (p);
  switch (R (9)) { case 0: e = -n + 1; break; case 1: e = c->emax - n + 1 + rr (-2, 1); break; case 2: e = c->emin - c->digits + rr (-2, 3); break; case 3: e = c->emin - n + 1 + rr (-1, 2); break; case 4: e = rr (-c->digits, c->digits); break;
    case 5: e = rr (c->emin - c->digits, c->emax); break; default: e = rr (-4, 4); }
  if (rel && !decNumberIsSpecial (rel) && R (3)) e = rel->exponent + (R (2) ? rr (-4, 4) : rr (-2 * c->digits - 3, 2 * c->digits + 3));
  if (e > c->emax - n) e = c->emax - n + (int) R (2); if (e < c->emin - c->digits - 2) e = c->emin - c->digits - 2 + (int) R (3); if (fit && e < c->emin - c->digits + 1) e = c->emin - c->digits + 1; if (fit && e > c->emax - c->digits + 1) e = c->emax - c->digits + 1;
  sprintf (p, "E%d", e); decNumberFromString (x, t, &w);
  if (rel && R (12) == 0) { decNumberCopy (x, rel); if (R (2)) x->bits ^= DECNEG; if (R (3) == 0 && !fit && x->digits < 2000 && !decNumberIsSpecial (x)) x->exponent += rr (-1, 1); }
}
/* numbers as people and programs write them, and nearly numbers */
static void text (char *t, const decContext *c)
{
  char *p = t; unsigned k = R (20); static const char *const W[] = {"Inf", "Infinity", "NaN", "sNaN", "inf", "iNfInItY", "nan", "SNAN", "Infinit", "Infinityy", "Na", "qNaN", "s", "i", ""};
  if (R (3) == 0) *p++ = R (2) ? '-' : '+';
  if (k == 0) { strcpy (p, W[R (sizeof W / sizeof *W)]); p += strlen (p); if (R (3) == 0) { int n = rr (1, c->digits + 2); if (R (3) == 0) *p++ = '0'; digits (p, n); p += n; } if (R (10) == 0) strcpy (p, "x"); return; }
  if (k == 1) { int n = rr (0, 12); for (int i = 0; i < n; i++) *p++ = "0123456789..eE+-+-iInNfFaAtTyYsS"[R (32)]; *p = 0; return; }
  if (R (4) == 0) { int n = rr (1, R (6) ? 4 : 60); while (n--) *p++ = '0'; }
  if (R (6) == 0) { *p++ = '.'; if (R (2)) { int n = rr (1, R (6) ? 4 : 60); while (n--) *p++ = '0'; } }
  { int n = rr (R (9) != 0, R (3) ? c->digits + 3 : R (20) ? 3 : 1000), m = rr (0, n); digits (p, n); p += n; if (n && R (3) == 0) { memmove (p - m + 1, p - m, m); p[-m] = '.'; p++; } }
  if (R (3) == 0) { *p = 0; return; }
  *p++ = R (2) ? 'e' : 'E'; if (R (2)) *p++ = R (3) ? '-' : '+'; if (R (6) == 0) { int n = rr (1, 12); while (n--) *p++ = '0'; }
  switch (R (8)) { case 0: { int n = rr (0, 25); digits (p, n); p += n; break; } case 1: { static const char *const E[] = {"999999999", "1000000000", "999999998", "1999999999", "2147483647", "2147483648", "4294967295", "4294967296", "9999999999", "10000000000", "42949672970", "99999999999", "18446744073709551616", "1000000001"}; p += sprintf (p, "%s", E[R (14)]); break; }
    case 2: p += sprintf (p, "%d", c->emax + rr (-c->digits - 3, 3)); break; case 3: p += sprintf (p, "%d", -c->emin + rr (-3, c->digits + 3)); break; default: p += sprintf (p, "%d", rr (0, 40)); }
  if (R (40) == 0) *p++ = "eE.+-0x"[R (7)];
  *p = 0;
}
static const char *cur = "start";
static void on_sig (int n) { dprintf (2, "\ncrashed-in %s signal %d\n", cur, n); signal (n, SIG_DFL); raise (n); }
static decNumber *exact (const decNumber *n, int digits) { int d = n && n->digits > digits ? n->digits : digits, u = (d + DECDPUN - 1) / DECDPUN, have = n ? (n->digits + DECDPUN - 1) / DECDPUN : 0; size_t hd = offsetof (decNumber, lsu); decNumber *p = malloc (hd + u * sizeof (decNumberUnit)); memset (p, 0x55, hd + u * sizeof (decNumberUnit)); if (n) memcpy (p, n, hd + have * sizeof (decNumberUnit)); return p; }
int main (int argc, char **argv)
{
  uint64_t seed = argc > 1 ? strtoull (argv[1], 0, 10) : 1; int w = argc > 2 ? atoi (argv[2]) : 0; long n = argc > 3 ? atol (argv[3]) : 1000; const char *only = argc > 4 ? argv[4] : 0;
  s[0] = seed * 0x9e3779b97f4a7c15ull + (uint64_t) w * 77777 + 1; s[1] = s[0] ^ 0xdeadbeef12345678ull; for (int i = 0; i < 20; i++) rnd ();
  for (int g = 0; g < 6; g++) signal ((int[]){SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}[g], on_sig);
  static char buf[1 << 20]; setvbuf (stdout, buf, _IOFBF, sizeof buf);
  for (long i = 0; i < n; i++) {
    static const int EX[][2] = {{96, -95}, {384, -383}, {6144, -6143}, {999999, -999999}, {999999999, -999997000}};
    decContext c; decContextDefault (&c, DEC_INIT_BASE); c.traps = 0; int er = (int) R (17) % 5; if (er == 4 && R (4)) er = (int) R (4); c.emax = EX[er][0]; c.emin = EX[er][1]; c.digits = R (3) ? rr (1, 20) : R (8) ? rr (1, 60) : rr (60, 200); if (R (4) == 0) c.digits = R (3) == 0 ? 7 : R (2) ? 16 : 34;
    if (er > 1 && R (60) == 0) c.digits = R (3) ? rr (100, 500) : rr (500, 1000); if (er == 0 && c.digits > 40) c.digits = 7; if (c.digits == 1) c.digits = 2; c.clamp = (uint8_t) R (2); int r = (int) R (8); c.round = RV[r];
    unsigned o = R (NU + NB); const char *name = o < NU ? U[o].n : B[o - NU].n; if (only && strcmp (only, name)) { i--; continue; }
    if (!strcmp (name, "exp") || !strcmp (name, "ln") || !strcmp (name, "log10") || !strcmp (name, "power")) { if (er == 4) { er = 3; c.emax = 999999; c.emin = -999999; } if (c.digits > 60) c.digits = R (4) ? 40 : rr (40, 160); }
    cur = name; alarm (60);
    fit = !strcmp (name, "shift") || !strcmp (name, "rotate") || !strcmp (name, "scaleb") || !strcmp (name, "logb") || !strncmp (name, "remainder", 9) || !strncmp (name, "next_", 5);
    if (!strcmp (name, "logb") && c.digits < 10) c.digits = er == 4 ? 10 : c.digits < 7 ? 7 : c.digits; if (!strcmp (name, "fma") && c.emax > 6144) { c.emax = 6144; c.emin = -6143; }
    decNumber a, b, d, res; decNumber *pr = &res; static char sa[6000], sb[6000], sc[6000], sr[6000]; strcpy (sb, "-"); strcpy (sc, "-"); memset (&res, 0x55, sizeof res); int lg = !strcmp (name, "and") || !strcmp (name, "or") || !strcmp (name, "xor") || !strcmp (name, "invert");
    operand (&a, &c, 0, lg, 0); if ((!strcmp (name, "exp") || !strcmp (name, "power")) && R (3) && !decNumberIsSpecial (&a)) a.exponent = -a.digits + rr (-3, 3);
    decNumberToString (&a, sa);
    if (o >= NU) { int sm = !strcmp (name, "rotate") || !strcmp (name, "shift") || !strcmp (name, "scaleb") || !strcmp (name, "rescale"); operand (&b, &c, &a, lg, sm); if (!strcmp (name, "power")) { if (R (2)) operand (&b, &c, 0, 0, 1); else if (!decNumberIsSpecial (&b)) b.exponent = -b.digits + rr (-2, 3); } decNumberToString (&b, sb); }
    if (!strcmp (name, "fma")) { if (R (2)) { decContext x = c; x.digits = 2590; x.emax = 999999999; x.emin = -999999999; x.clamp = 0; decNumberMultiply (&d, &a, &b, &x); x.status = 0; if (!decNumberIsSpecial (&d)) { decNumber q; operand (&q, &c, &d, 0, 0); if (R (3) && !decNumberIsSpecial (&q)) q.exponent = d.exponent + d.digits - q.digits - rr (-3, 2 * c.digits); d = q; } } else operand (&d, &c, &a, 0, 0); if (d.digits > (c.digits > 200 ? 2500 : 300)) decNumberZero (&d); decNumberToString (&d, sc); }
    if (R (4) == 0 && o != NU + NB - 1) pr = &a; else if (o >= NU && o != NU + NB - 1 && R (4) == 0) pr = &b; else if (o == NU + NB - 1 && R (4) == 0) pr = R (3) == 0 ? &a : R (2) ? &b : &d;
    { // storage of exactly the promised size, so that the sanitizer sees any unit beyond it
      int cap = !strncmp (name, "to_integral", 11) && a.digits > c.digits ? a.digits : c.digits; decNumber *ha = exact (&a, pr == &a ? cap : 0), *hb = o >= NU ? exact (&b, pr == &b ? cap : 0) : 0, *hd = !strcmp (name, "fma") ? exact (&d, pr == &d ? cap : 0) : 0, *hr = exact (0, cap), *p = pr == &a ? ha : pr == &b ? hb : pr == &d ? hd : hr; int called = 1;
      if (o < NU && U[o].f != class1) U[o].f (p, ha, &c); else if (o >= NU && B[o - NU].f) B[o - NU].f (p, ha, hb, &c);
      else if (!strcmp (name, "fma")) decNumberFMA (p, ha, hb, hd, &c); else called = 0;
      if (called) decNumberCopy (pr, p);
      free (ha); free (hb); free (hd); free (hr); }
    sr[0] = 0;
    if (!strcmp (name, "copy_sign")) decNumberCopySign (pr, &a, &b); else if (!strcmp (name, "same_quantum")) decNumberSameQuantum (pr, &a, &b);
    else if (!strcmp (name, "trim")) { decNumberCopy (&res, &a); decNumberTrim (&res); pr = &res; }
    else if (!strcmp (name, "copies")) { decNumber x, y; decNumberCopyAbs (&x, &a); decNumberCopyNegate (&y, &a); decNumberCopy (&res, &a); pr = &res; decNumberToString (&x, sb); decNumberToString (&y, sc); }
    else if (!strcmp (name, "text32")) { decimal32 x; decContextDefault (&c, DEC_INIT_DECIMAL32); c.round = RV[r]; text (sa, &c); decimal32FromString (&x, sa, &c); decimal32ToNumber (&x, &res); pr = &res; }
    else if (!strcmp (name, "text64")) { decimal64 x; decContextDefault (&c, DEC_INIT_DECIMAL64); c.round = RV[r]; text (sa, &c); decimal64FromString (&x, sa, &c); decimal64ToNumber (&x, &res); pr = &res; }
    else if (!strcmp (name, "text128")) { decimal128 x; decContextDefault (&c, DEC_INIT_DECIMAL128); c.round = RV[r]; text (sa, &c); decimal128FromString (&x, sa, &c); decimal128ToNumber (&x, &res); pr = &res; }
    else if (!strcmp (name, "text")) { text (sa, &c); decNumberFromString (&res, sa, &c); pr = &res; }
    else if (!strcmp (name, "class")) { const char *k = decNumberClassToString (decNumberClass (&a, &c)); int nan = strstr (k, "NaN") != 0, inf = strstr (k, "Inf") != 0, zero = strstr (k, "Zero") != 0, sub = strstr (k, "Subnormal") != 0, nor = strstr (k, "Normal") != 0;
      /* the predicates say the same as the class */
      int same = !decNumberIsNormal (&a, &c) == !nor && !decNumberIsSubnormal (&a, &c) == !sub && !decNumberIsNaN (&a) == !nan && !decNumberIsInfinite (&a) == !inf && !decNumberIsZero (&a) == !zero && !decNumberIsSNaN (&a) == !(k[0] == 's') && !decNumberIsQNaN (&a) == !(k[0] == 'N') && !decNumberIsFinite (&a) == (nan || inf) && !decNumberIsSpecial (&a) == !(nan || inf) && !decNumberIsNegative (&a) == !(a.bits & DECNEG) && (nan || !(k[0] == '-') == !decNumberIsNegative (&a));
      sprintf (sr, "%s%s", k, same ? "" : " contradicted by the predicates"); }
    else if (!strcmp (name, "eng")) decNumberToEngString (&a, sr);
    else if (!strcmp (name, "string")) { decNumberFromString (&res, sa, &c); pr = &res; }
    else if (!strcmp (name, "int32")) { if (R (2) && !decNumberIsSpecial (&a)) { decNumberFromInt32 (&a, (int32_t) rnd ()); if (R (8) == 0) a.lsu[0] = R (1000); decNumberToString (&a, sa); } sprintf (sr, "%d", decNumberToInt32 (&a, &c)); }
    else if (!strcmp (name, "uint32")) { if (R (2) && !decNumberIsSpecial (&a)) { decNumberFromUInt32 (&a, (uint32_t) rnd ()); decNumberToString (&a, sa); } sprintf (sr, "%u", decNumberToUInt32 (&a, &c)); }
    else if (!strcmp (name, "fromint")) { int32_t v = R (20) == 0 ? INT32_MIN : (int32_t) (rnd () >> R (32)); uint32_t u = (uint32_t) v; decNumber y; decNumberFromInt32 (&res, v); decNumberFromUInt32 (&y, u); sprintf (sa, "%d", v); sprintf (sb, "%u", u); decNumberToString (&y, sc); pr = &res; }
    else if (!strcmp (name, "bcd")) { uint8_t x[3000]; if (a.bits & DECSPECIAL) { decNumberZero (&a); decNumberToString (&a, sa); } { decNumber *h = exact (&a, 0); uint8_t *y = malloc (a.digits); decNumberGetBCD (h, y); memcpy (x, y, a.digits); free (y); free (h); } for (int k = 0; k < a.digits; k++) sb[k] = '0' + x[k]; sb[a.digits] = 0; decNumberCopy (&res, &a); for (int k = 0; k < a.digits; k++) x[k] = (uint8_t) R (10); x[0] = (uint8_t) (1 + R (9)); if (R (4) == 0) for (int k = 0; k < a.digits; k++) x[k] = 9; if (R (2)) { int32_t e = res.exponent; uint8_t bits = res.bits; if (R (2)) decNumberZero (&res); else decNumberFromUInt32 (&res, 2000000000u); res.exponent = e; res.bits = bits; } decNumberSetBCD (&res, x, (uint32_t) a.digits); for (int k = 0; k < a.digits; k++) sc[k] = '0' + x[k]; sc[a.digits] = 0; pr = &res; }
    else if (!strcmp (name, "d32")) { decimal32 x; decContextDefault (&c, DEC_INIT_DECIMAL32); c.round = RV[r]; decNumber y; operand (&y, &c, 0, 0, 0); decNumberToString (&y, sa); if (R (2)) decimal32FromNumber (&x, &y, &c); else decimal32FromString (&x, sa, &c); decimal32ToString (&x, sr); decimal32ToEngString (&x, sb); decimal32ToNumber (&x, &res); decNumberToString (&res, sc); }
    else if (!strcmp (name, "d64")) { decimal64 x; decContextDefault (&c, DEC_INIT_DECIMAL64); c.round = RV[r]; decNumber y; operand (&y, &c, 0, 0, 0); decNumberToString (&y, sa); if (R (2)) decimal64FromNumber (&x, &y, &c); else decimal64FromString (&x, sa, &c); decimal64ToString (&x, sr); decimal64ToEngString (&x, sb); decimal64ToNumber (&x, &res); decNumberToString (&res, sc); }
    else if (!strcmp (name, "d128")) { decimal128 x; decContextDefault (&c, DEC_INIT_DECIMAL128); c.round = RV[r]; decNumber y; operand (&y, &c, 0, 0, 0); decNumberToString (&y, sa); if (R (2)) decimal128FromNumber (&x, &y, &c); else decimal128FromString (&x, sa, &c); decimal128ToString (&x, sr); decimal128ToEngString (&x, sb); decimal128ToNumber (&x, &res); decNumberToString (&res, sc); }
    if (!sr[0]) { decNumber *h = exact (pr, 0); char *y = malloc (pr->digits + 14); decNumberToString (h, y); strcpy (sr, y); free (y); free (h); }
    printf ("%s\t%d\t%d\t%d\t%d\t%s\t%s\t%s\t%s\t%s\t%x\n", name, c.digits, c.emin, c.emax, c.clamp, RN[r], sa, sb, sc, sr, c.status);
  }
  puts ("end");
  return 0;
}
