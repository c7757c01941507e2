/* Calling interface between the monitors (C++) and libdfp (C, real code).
   One entry per public operation; operands and results travel as raw bits. */
#ifndef SHIM_H
#define SHIM_H
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned __int128 u128;
typedef __int128 i128;

typedef struct {
  u128 a, b, c;      /* decimal operands (low bits) */
  long long i;       /* integer operand */
  i128 w;            /* wide integer operand */
} CallIn;

typedef struct {
  u128 r;            /* decimal (or binary fp) result bits */
  u128 r2;           /* second decimal result (modf) */
  i128 iv;           /* integer result */
  int iout;          /* int written through a pointer (frexp) */
} CallOut;

typedef struct {
  int fe;            /* flags raised by the call (entered with `fe_in`) */
  int err;           /* errno after the call, entered with `err_in` */
  int drm;           /* decimal rounding mode afterwards */
  int brm;           /* binary rounding mode afterwards */
} Env;

typedef void (*call_fn)(const CallIn *, CallOut *);

enum Sig {
  S_D_D, S_DD_D, S_DDD_D, S_D_I, S_DD_I, S_DI_D, S_D_DI /*frexp*/, S_D_DD /*modf*/,
  S_DQ_D /* nexttoward: second operand is _Decimal128 */,
  S_CVT /* decimal to decimal */, S_D_INT /* decimal to integer */, S_INT_D,
  S_D_BIN, S_BIN_D
};

typedef struct {
  const char *name;  /* e.g. "add" */
  int fmt;           /* 32, 64, 128: the operand format (for S_INT_D/S_BIN_D the result's) */
  int sig;
  int aux;           /* S_CVT: destination format; S_D_INT/S_INT_D: bits, negative when unsigned;
                        S_BIN: 32, 64, 80, 128 */
  call_fn fn;
} OpDesc;

extern const OpDesc shim_ops[];
extern const int shim_nops;

/* Run one call under the given decimal rounding mode with clear exception
   flags (plus fe_in) and errno preset; collects the environment afterwards. */
void shim_call(const OpDesc *op, int rm, int fe_in, int err_in,
               const CallIn *in, CallOut *out, Env *env);
int shim_setround(int rm);
int shim_getround(void);

/* printing and scanning */
int shim_printf(char *buf, unsigned long n, const char *fmt, int star1, int star2,
                int nstar, int f, u128 a);
int shim_strfrom(int f, char *buf, unsigned long n, const char *fmt, u128 a);
u128 shim_strtod(int f, const char *s, char **end);
u128 shim_wcstod(int f, const wchar_t *s, wchar_t **end);
u128 shim_nan(int f, const char *s);
char *shim_decoded(int f, u128 a, char *buf);
#ifdef __cplusplus
}
#endif
#endif
