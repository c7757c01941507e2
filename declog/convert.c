/* A client of the installed headers: _DecimalN <-> decNumber through decConvert.h. */
#include <string.h>
#define DECNUMDIGITS 34
#include <decNumber.h>
#include <decConvert.h>
/* kind: 0 finite, 1 infinity, 2 quiet NaN, 3 signalling NaN; digits most significant first */
void conv_to (int bits, const void *in, int *kind, int *neg, int *exp, int *ndig, unsigned char *dig)
{
  decNumber n; _Decimal32 a; _Decimal64 b; _Decimal128 c;
  memset (&n, 0x5a, sizeof n);
  if (bits == 32) { memcpy (&a, in, 4); decimal32ToNumber (&a, &n); }
  else if (bits == 64) { memcpy (&b, in, 8); decimal64ToNumber (&b, &n); }
  else { memcpy (&c, in, 16); decimal128ToNumber (&c, &n); }
  *kind = decNumberIsInfinite (&n) ? 1 : decNumberIsQNaN (&n) ? 2 : decNumberIsSNaN (&n) ? 3 : 0;
  *neg = !!decNumberIsNegative (&n); *exp = n.exponent; *ndig = n.digits;
  decNumberGetBCD (&n, dig);
}
unsigned conv_from (int bits, void *out, int kind, int neg, int exp, int ndig, const unsigned char *dig)
{
  decNumber n; decContext ctx; _Decimal32 a; _Decimal64 b; _Decimal128 c;
  decContextDefault (&ctx, bits);
  decNumberZero (&n); if (ndig) decNumberSetBCD (&n, dig, ndig);
  n.exponent = exp; n.bits = (neg ? DECNEG : 0) | (kind == 1 ? DECINF : kind == 2 ? DECNAN : kind == 3 ? DECSNAN : 0);
  if (bits == 32) { decimal32FromNumber (&a, &n, &ctx); memcpy (out, &a, 4); }
  else if (bits == 64) { decimal64FromNumber (&b, &n, &ctx); memcpy (out, &b, 8); }
  else { decimal128FromNumber (&c, &n, &ctx); memcpy (out, &c, 16); }
  return ctx.status;
}
