#define __STDC_WANT_DEC_FP__ 1
#define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#define _GNU_SOURCE 1
#include <stddef.h>
#include <float.h>
#include <math.h>
#include <fenv.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include "shim.h"

typedef _Decimal32 T32; typedef _Decimal64 T64; typedef _Decimal128 T128;
extern char *decoded32 (_Decimal32, char *), *decoded64 (_Decimal64, char *), *decoded128 (_Decimal128, char *);
extern int isfinited32 (_Decimal32);

static inline T32 g32 (const u128 *p) { T32 x; memcpy (&x, p, 4); return x; }
static inline T64 g64 (const u128 *p) { T64 x; memcpy (&x, p, 8); return x; }
static inline T128 g128 (const u128 *p) { T128 x; memcpy (&x, p, 16); return x; }
static inline void p32 (u128 *p, T32 x) { *p = 0; memcpy (p, &x, 4); }
static inline void p64 (u128 *p, T64 x) { *p = 0; memcpy (p, &x, 8); }
static inline void p128 (u128 *p, T128 x) { memcpy (p, &x, 16); }

#define FN(name, n) static void name##_##n (const CallIn *in, CallOut *out)

/* ---- operators ---- */
#define OPS(n) \
FN(add,n){ p##n(&out->r, g##n(&in->a) + g##n(&in->b)); } \
FN(sub,n){ p##n(&out->r, g##n(&in->a) - g##n(&in->b)); } \
FN(mul,n){ p##n(&out->r, g##n(&in->a) * g##n(&in->b)); } \
FN(div,n){ p##n(&out->r, g##n(&in->a) / g##n(&in->b)); } \
FN(eq,n){ out->iv = g##n(&in->a) == g##n(&in->b); } \
FN(ne,n){ out->iv = g##n(&in->a) != g##n(&in->b); } \
FN(lt,n){ out->iv = g##n(&in->a) <  g##n(&in->b); } \
FN(le,n){ out->iv = g##n(&in->a) <= g##n(&in->b); } \
FN(gt,n){ out->iv = g##n(&in->a) >  g##n(&in->b); } \
FN(ge,n){ out->iv = g##n(&in->a) >= g##n(&in->b); } \
FN(unord,n){ out->iv = __builtin_isunordered (g##n(&in->a), g##n(&in->b)); }
OPS(32) OPS(64) OPS(128)

#define U1(f,n) FN(f,n){ p##n(&out->r, f##d##n (g##n(&in->a))); }
#define B1(f,n) FN(f,n){ p##n(&out->r, f##d##n (g##n(&in->a), g##n(&in->b))); }
#define I1(f,n) FN(f,n){ out->iv = f##d##n (g##n(&in->a)); }
#define J1(f,n) FN(f,n){ out->iv = f##d##n (g##n(&in->a), g##n(&in->b)); }
#define L_U(M) M(sqrt) M(cbrt) M(ceil) M(floor) M(trunc) M(round) M(roundeven) M(rint) M(nearbyint) \
  M(fabs) M(nextup) M(nextdown) M(quantum) M(logb) \
  M(exp) M(exp2) M(expm1) M(log) M(log2) M(log10) M(log1p) \
  M(sin) M(cos) M(tan) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(asinh) M(acosh) M(atanh) \
  M(erf) M(erfc) M(lgamma) M(tgamma)
#define L_B(M) M(fmod) M(remainder) M(quantize) M(fmax) M(fmin) M(fmaxmag) M(fminmag) M(fdim) \
  M(copysign) M(nextafter) M(hypot) M(pow) M(atan2)
#define L_I(M) M(ilogb) M(llogb) M(llquantexp) M(lrint) M(lround) M(llrint) M(llround) \
  M(fpclassify) M(isfinite) M(isinf) M(isnan) M(issignaling) M(finite) M(__signbit) M(isnormal)
#define L_J(M) M(samequantum) M(isgreater) M(isgreaterequal) M(isless) M(islessequal) M(islessgreater) M(isunordered)

#define MU(f) U1(f,32) U1(f,64) U1(f,128)
#define MB(f) B1(f,32) B1(f,64) B1(f,128)
#define MI(f) I1(f,32) I1(f,64) I1(f,128)
#define MJ(f) J1(f,32) J1(f,64) J1(f,128)
L_U(MU) L_B(MB) L_I(MI) L_J(MJ)

#define MISC(n) \
FN(fma,n){ p##n(&out->r, fmad##n (g##n(&in->a), g##n(&in->b), g##n(&in->c))); } \
FN(ldexp,n){ p##n(&out->r, ldexpd##n (g##n(&in->a), (int) in->i)); } \
FN(scalbn,n){ p##n(&out->r, scalbnd##n (g##n(&in->a), (int) in->i)); } \
FN(scalbln,n){ p##n(&out->r, scalblnd##n (g##n(&in->a), (long) in->i)); } \
FN(frexp,n){ int e = out->iout; p##n(&out->r, frexpd##n (g##n(&in->a), &e)); out->iout = e; } \
FN(modf,n){ T##n q = g##n(&out->r2); p##n(&out->r, modfd##n (g##n(&in->a), &q)); p##n(&out->r2, q); } \
FN(nexttoward,n){ p##n(&out->r, nexttowardd##n (g##n(&in->a), g128(&in->b))); } \
FN(m_fpclassify,n){ out->iv = fpclassify (g##n(&in->a)); } \
FN(m_signbit,n){ out->iv = signbit (g##n(&in->a)); } \
FN(m_isfinite,n){ out->iv = isfinite (g##n(&in->a)); } \
FN(m_isinf,n){ out->iv = isinf (g##n(&in->a)); } \
FN(m_isnan,n){ out->iv = isnan (g##n(&in->a)); } \
FN(m_isnormal,n){ out->iv = isnormal (g##n(&in->a)); } \
FN(m_issignaling,n){ out->iv = issignaling (g##n(&in->a)); }
MISC(32) MISC(64) MISC(128)

/* ---- conversions ---- */
#define CVT(s,d) static void cvt##d##_##s (const CallIn *in, CallOut *out){ p##d(&out->r, (T##d) g##s(&in->a)); }
CVT(32,64) CVT(32,128) CVT(64,32) CVT(64,128) CVT(128,32) CVT(128,64)
#define TOI(n) \
FN(toi32,n){ out->iv = (int) g##n(&in->a); } \
FN(tou32,n){ out->iv = (unsigned) g##n(&in->a); } \
FN(toi64,n){ out->iv = (long long) g##n(&in->a); } \
FN(tou64,n){ out->iv = (unsigned long long) g##n(&in->a); } \
FN(toi128,n){ out->iv = (i128) g##n(&in->a); } \
FN(tou128,n){ out->iv = (i128)(u128) g##n(&in->a); } \
FN(fromi32,n){ p##n(&out->r, (T##n)(int) in->w); } \
FN(fromu32,n){ p##n(&out->r, (T##n)(unsigned) in->w); } \
FN(fromi64,n){ p##n(&out->r, (T##n)(long long) in->w); } \
FN(fromu64,n){ p##n(&out->r, (T##n)(unsigned long long) in->w); } \
FN(fromi128,n){ p##n(&out->r, (T##n) in->w); } \
FN(fromu128,n){ p##n(&out->r, (T##n)(u128) in->w); } \
FN(tof32,n){ float f = (float) g##n(&in->a); out->r = 0; memcpy(&out->r,&f,4); } \
FN(tof64,n){ double f = (double) g##n(&in->a); out->r = 0; memcpy(&out->r,&f,8); } \
FN(tof80,n){ long double f = (long double) g##n(&in->a); out->r = 0; memcpy(&out->r,&f,10); } \
FN(tof128,n){ __float128 f = (__float128) g##n(&in->a); out->r = 0; memcpy(&out->r,&f,16); } \
FN(fromf32,n){ float f; memcpy(&f,&in->a,4); p##n(&out->r,(T##n) f); } \
FN(fromf64,n){ double f; memcpy(&f,&in->a,8); p##n(&out->r,(T##n) f); } \
FN(fromf80,n){ long double f; memcpy(&f,&in->a,10); p##n(&out->r,(T##n) f); } \
FN(fromf128,n){ __float128 f; memcpy(&f,&in->a,16); p##n(&out->r,(T##n) f); }
TOI(32) TOI(64) TOI(128)

#define E3(nm,sig,aux) {#nm,32,sig,aux,nm##_32},{#nm,64,sig,aux,nm##_64},{#nm,128,sig,aux,nm##_128},
#define EU(f) E3(f,S_D_D,0)
#define EB(f) E3(f,S_DD_D,0)
#define EI(f) E3(f,S_D_I,0)
#define EJ(f) E3(f,S_DD_I,0)
const OpDesc shim_ops[] = {
  EB(add) EB(sub) EB(mul) EB(div)
  EJ(eq) EJ(ne) EJ(lt) EJ(le) EJ(gt) EJ(ge) EJ(unord)
  L_U(EU) L_B(EB) L_I(EI) L_J(EJ)
  E3(fma,S_DDD_D,0) E3(ldexp,S_DI_D,32) E3(scalbn,S_DI_D,32) E3(scalbln,S_DI_D,64)
  E3(frexp,S_D_DI,0) E3(modf,S_D_DD,0) E3(nexttoward,S_DQ_D,0)
  EI(m_fpclassify) EI(m_signbit) EI(m_isfinite) EI(m_isinf) EI(m_isnan) EI(m_isnormal) EI(m_issignaling)
  {"cvt64",32,S_CVT,64,cvt64_32},{"cvt128",32,S_CVT,128,cvt128_32},
  {"cvt32",64,S_CVT,32,cvt32_64},{"cvt128",64,S_CVT,128,cvt128_64},
  {"cvt32",128,S_CVT,32,cvt32_128},{"cvt64",128,S_CVT,64,cvt64_128},
  E3(toi32,S_D_INT,32) E3(tou32,S_D_INT,-32) E3(toi64,S_D_INT,64) E3(tou64,S_D_INT,-64)
  E3(toi128,S_D_INT,128) E3(tou128,S_D_INT,-128)
  E3(fromi32,S_INT_D,32) E3(fromu32,S_INT_D,-32) E3(fromi64,S_INT_D,64) E3(fromu64,S_INT_D,-64)
  E3(fromi128,S_INT_D,128) E3(fromu128,S_INT_D,-128)
  E3(tof32,S_D_BIN,32) E3(tof64,S_D_BIN,64) E3(tof80,S_D_BIN,80) E3(tof128,S_D_BIN,128)
  E3(fromf32,S_BIN_D,32) E3(fromf64,S_BIN_D,64) E3(fromf80,S_BIN_D,80) E3(fromf128,S_BIN_D,128)
};
const int shim_nops = sizeof shim_ops / sizeof shim_ops[0];

int shim_setround (int rm) { return fe_dec_setround (rm); }
int shim_getround (void) { return fe_dec_getround (); }

void __attribute__((noinline))
shim_call (const OpDesc *op, int rm, int fe_in, int err_in, const CallIn *in, CallOut *out, Env *env)
{
  fe_dec_setround (rm);
  feclearexcept (FE_ALL_EXCEPT);
  if (fe_in) feraiseexcept (fe_in);
  errno = err_in;
  op->fn (in, out);
  env->err = errno;
  env->fe = fetestexcept (FE_ALL_EXCEPT);
  env->drm = fe_dec_getround ();
  env->brm = fegetround ();
}

int shim_printf (char *buf, unsigned long n, const char *fmt, int s1, int s2, int nstar, int f, u128 a)
{
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
  switch (f) {
  case 32: { T32 x = g32 (&a);
    return nstar == 0 ? snprintf (buf, n, fmt, x) : nstar == 1 ? snprintf (buf, n, fmt, s1, x) : snprintf (buf, n, fmt, s1, s2, x); }
  case 64: { T64 x = g64 (&a);
    return nstar == 0 ? snprintf (buf, n, fmt, x) : nstar == 1 ? snprintf (buf, n, fmt, s1, x) : snprintf (buf, n, fmt, s1, s2, x); }
  default: { T128 x = g128 (&a);
    return nstar == 0 ? snprintf (buf, n, fmt, x) : nstar == 1 ? snprintf (buf, n, fmt, s1, x) : snprintf (buf, n, fmt, s1, s2, x); }
  }
}
int shim_fprintf (FILE *fp, const char *fmt, int s1, int s2, int nstar, int f, u128 a)
{
  switch (f) {
  case 32: { T32 x = g32 (&a);
    return nstar == 0 ? fprintf (fp, fmt, x) : nstar == 1 ? fprintf (fp, fmt, s1, x) : fprintf (fp, fmt, s1, s2, x); }
  case 64: { T64 x = g64 (&a);
    return nstar == 0 ? fprintf (fp, fmt, x) : nstar == 1 ? fprintf (fp, fmt, s1, x) : fprintf (fp, fmt, s1, s2, x); }
  default: { T128 x = g128 (&a);
    return nstar == 0 ? fprintf (fp, fmt, x) : nstar == 1 ? fprintf (fp, fmt, s1, x) : fprintf (fp, fmt, s1, s2, x); }
  }
}
int shim_fwprintf (FILE *fp, const wchar_t *fmt, int s1, int s2, int nstar, int f, u128 a)
{
  switch (f) {
  case 32: { T32 x = g32 (&a);
    return nstar == 0 ? fwprintf (fp, fmt, x) : nstar == 1 ? fwprintf (fp, fmt, s1, x) : fwprintf (fp, fmt, s1, s2, x); }
  case 64: { T64 x = g64 (&a);
    return nstar == 0 ? fwprintf (fp, fmt, x) : nstar == 1 ? fwprintf (fp, fmt, s1, x) : fwprintf (fp, fmt, s1, s2, x); }
  default: { T128 x = g128 (&a);
    return nstar == 0 ? fwprintf (fp, fmt, x) : nstar == 1 ? fwprintf (fp, fmt, s1, x) : fwprintf (fp, fmt, s1, s2, x); }
  }
}
int shim_swprintf (wchar_t *buf, unsigned long n, const wchar_t *fmt, int s1, int s2, int nstar, int f, u128 a)
{
  switch (f) {
  case 32: { T32 x = g32 (&a);
    return nstar == 0 ? swprintf (buf, n, fmt, x) : nstar == 1 ? swprintf (buf, n, fmt, s1, x) : swprintf (buf, n, fmt, s1, s2, x); }
  case 64: { T64 x = g64 (&a);
    return nstar == 0 ? swprintf (buf, n, fmt, x) : nstar == 1 ? swprintf (buf, n, fmt, s1, x) : swprintf (buf, n, fmt, s1, s2, x); }
  default: { T128 x = g128 (&a);
    return nstar == 0 ? swprintf (buf, n, fmt, x) : nstar == 1 ? swprintf (buf, n, fmt, s1, x) : swprintf (buf, n, fmt, s1, s2, x); }
  }
}
int shim_strfrom (int f, char *buf, unsigned long n, const char *fmt, u128 a)
{
  return f == 32 ? strfromd32 (buf, n, fmt, g32 (&a)) : f == 64 ? strfromd64 (buf, n, fmt, g64 (&a)) : strfromd128 (buf, n, fmt, g128 (&a));
}
u128 shim_strtod (int f, const char *s, char **end)
{
  u128 r;
  if (f == 32) p32 (&r, strtod32 (s, end)); else if (f == 64) p64 (&r, strtod64 (s, end)); else p128 (&r, strtod128 (s, end));
  return r;
}
u128 shim_wcstod (int f, const wchar_t *s, wchar_t **end)
{
  u128 r;
  if (f == 32) p32 (&r, wcstod32 (s, end)); else if (f == 64) p64 (&r, wcstod64 (s, end)); else p128 (&r, wcstod128 (s, end));
  return r;
}
u128 shim_nan (int f, const char *s)
{
  u128 r;
  if (f == 32) p32 (&r, nand32 (s)); else if (f == 64) p64 (&r, nand64 (s)); else p128 (&r, nand128 (s));
  return r;
}
char *shim_decoded (int f, u128 a, char *buf)
{
  return f == 32 ? decoded32 (g32 (&a), buf) : f == 64 ? decoded64 (g64 (&a), buf) : decoded128 (g128 (&a), buf);
}
