// Properties on arithmetic-like operations with an exact oracle.
#include "mon.hpp"
#include <climits>
#include <cmath>
#include <unordered_map>

enum OpId { ADD, SUB, MUL, DIV, FMA, SQRT, FMOD, REMAINDER, QUANTIZE, FDIM,
  EQ, NE, LT, LE, GT, GE, UNORD, ISGREATER, ISGREATEREQUAL, ISLESS, ISLESSEQUAL, ISLESSGREATER, ISUNORDERED, SAMEQUANTUM,
  FMAX, FMIN, FMAXMAG, FMINMAG, COPYSIGN, FABS,
  CEIL, FLOOR, TRUNC, ROUND, ROUNDEVEN, RINT, NEARBYINT, LRINT, LROUND, LLRINT, LLROUND,
  NEXTUP, NEXTDOWN, NEXTAFTER, NEXTTOWARD,
  QUANTUM, LLQUANTEXP, LOGB, ILOGB, LLOGB, LDEXP, SCALBN, SCALBLN, FREXP, MODF,
  FPCLASSIFY, ISFINITE, FINITE_, ISINF, ISNAN, ISSIGNALING, SIGNBIT, ISNORMAL, M_FPCLASSIFY, M_SIGNBIT, M_ISFINITE, M_ISINF, M_ISNAN, M_ISNORMAL, M_ISSIGNALING,
  CVT, TOINT, FROMINT, TOBIN, FROMBIN, OTHER };
static OpId opid(const OpDesc *d) {
  static const std::unordered_map<std::string, OpId> m = {
#define X(n, e) {#n, e},
    X(add, ADD) X(sub, SUB) X(mul, MUL) X(div, DIV) X(fma, FMA) X(sqrt, SQRT) X(fmod, FMOD) X(remainder, REMAINDER) X(quantize, QUANTIZE) X(fdim, FDIM)
    X(eq, EQ) X(ne, NE) X(lt, LT) X(le, LE) X(gt, GT) X(ge, GE) X(unord, UNORD) X(isgreater, ISGREATER) X(isgreaterequal, ISGREATEREQUAL) X(isless, ISLESS) X(islessequal, ISLESSEQUAL) X(islessgreater, ISLESSGREATER) X(isunordered, ISUNORDERED) X(samequantum, SAMEQUANTUM)
    X(fmax, FMAX) X(fmin, FMIN) X(fmaxmag, FMAXMAG) X(fminmag, FMINMAG) X(copysign, COPYSIGN) X(fabs, FABS)
    X(ceil, CEIL) X(floor, FLOOR) X(trunc, TRUNC) X(round, ROUND) X(roundeven, ROUNDEVEN) X(rint, RINT) X(nearbyint, NEARBYINT) X(lrint, LRINT) X(lround, LROUND) X(llrint, LLRINT) X(llround, LLROUND)
    X(nextup, NEXTUP) X(nextdown, NEXTDOWN) X(nextafter, NEXTAFTER) X(nexttoward, NEXTTOWARD)
    X(quantum, QUANTUM) X(llquantexp, LLQUANTEXP) X(logb, LOGB) X(ilogb, ILOGB) X(llogb, LLOGB) X(ldexp, LDEXP) X(scalbn, SCALBN) X(scalbln, SCALBLN) X(frexp, FREXP) X(modf, MODF)
    X(fpclassify, FPCLASSIFY) X(isfinite, ISFINITE) X(finite, FINITE_) X(isinf, ISINF) X(isnan, ISNAN) X(issignaling, ISSIGNALING) X(__signbit, SIGNBIT) X(isnormal, ISNORMAL)
    X(m_fpclassify, M_FPCLASSIFY) X(m_signbit, M_SIGNBIT) X(m_isfinite, M_ISFINITE) X(m_isinf, M_ISINF) X(m_isnan, M_ISNAN) X(m_isnormal, M_ISNORMAL) X(m_issignaling, M_ISSIGNALING)
#undef X
  };
  auto it = m.find(d->name); if (it != m.end()) return it->second;
  if (d->sig == S_CVT) return CVT; if (d->sig == S_D_INT) return TOINT; if (d->sig == S_INT_D) return FROMINT; if (d->sig == S_D_BIN) return TOBIN; if (d->sig == S_BIN_D) return FROMBIN;
  return OTHER;
}

struct Exp {
  int rk = 0;            // 0: no decimal result; 1: exact datum; 2: value only (quantum free); 
  Num r; int rfmt = 0;
  bool r2c = false; Num r2; int r2k = 0;
  bool ivc = false; i128 iv = 0; bool ivnz = false;   // ivnz: only zero/non-zero matters
  bool ioc = false; int iout = 0;
  int fl = 0, flmask = 0;   // expected flags, on the bits in flmask
  int flreq = 0;            // flags that must be raised when expected (but may also be spurious)
  int err = 0, errmask = 0;  // errmask 0: unchecked; 1: must equal err (0 = unchanged)
  bool skip = false, outside = false;         // outside the property's domain
};
static inline bool in_range(const Num &t, int bits, i128 &v) { // t integral finite
  Z z = zu(t.c); if (t.q > 0) { if (t.c && t.q > 60) return false; z *= p10(t.c ? t.q : 0); } if (t.neg) z = -z;
  int w = bits < 0 ? -bits : bits; Z lo, hi; if (bits < 0) { lo = 0; hi = (Z(1) << w) - 1; } else { lo = -(Z(1) << (w - 1)); hi = (Z(1) << (w - 1)) - 1; }
  if (z < lo || z > hi) return false; bool n = z < 0; u128 u = uz(abs(z)); v = n ? -(i128)u : (i128)u; return true;
}
static inline long adj(const Num &a) { return (long)a.q + ndig(a.c) - 1; }

static void expect(const OpDesc *d, OpId id, int rm, const CallIn &in, Exp &e) {
  const Fmt &f = fmt_of(d->fmt);
  Num a, b, c;
  if (d->sig != S_INT_D && d->sig != S_BIN_D) a = decode(f, in.a);
  if (d->sig == S_DD_D || d->sig == S_DD_I || d->sig == S_DDD_D) b = decode(f, in.b);
  if (d->sig == S_DQ_D) b = decode(F128, in.b);
  if (d->sig == S_DDD_D) c = decode(f, in.c);
  e.rfmt = d->fmt; int fl = 0; bool inx;
  auto D = [&](const Num &r) { e.rk = 1; e.r = r; };
  auto I = [&](i128 v) { e.ivc = true; e.iv = v; };
  auto B = [&](bool v) { e.ivc = true; e.iv = v; e.ivnz = true; };
  int cm;
  switch (id) {
    case ADD: D(o_add(f, rm, a, b, false, fl)); break;
    case SUB: D(o_add(f, rm, a, b, true, fl)); break;
    case MUL: D(o_mul(f, rm, a, b, fl)); break;
    case DIV: D(o_div(f, rm, a, b, fl)); if (a.fin() && b.inf()) e.rk = 2; break;
    case FMA: D(o_fma(f, rm, a, b, c, fl)); break;
    case SQRT: D(o_sqrt(f, RM_NEAR, a, fl)); e.rk = 2; if (rm != RM_NEAR) e.skip = true; break;
    case FMOD: D(o_rem(f, a, b, false, fl)); e.rk = 2; if (b.inf() && a.fin()) e.skip = true; break;
    case REMAINDER: D(o_rem(f, a, b, true, fl)); e.rk = 2; break;
    case QUANTIZE: D(o_quantize(f, rm, a, b, fl)); break;
    case FDIM: { cm = o_cmp(a, b); if (cm == 2) { nan_in(a, fl); nan_in(b, fl); D(mknan()); } else if (cm <= 0) { D(mkfin(false, 0, 0)); e.rk = 2; } else D(o_add(f, rm, a, b, true, fl)); break; }
    case EQ: B(o_cmp(a, b) == 0); nan_in(a, fl); nan_in(b, fl); break;
    case NE: B(o_cmp(a, b) != 0); nan_in(a, fl); nan_in(b, fl); break;
    case LT: B(o_cmp(a, b) == -1); if (a.nan() || b.nan()) fl = FX_INVALID; break;
    case LE: cm = o_cmp(a, b); B(cm == 0 || cm == -1); if (cm == 2) fl = FX_INVALID; break;
    case GT: B(o_cmp(a, b) == 1); if (a.nan() || b.nan()) fl = FX_INVALID; break;
    case GE: cm = o_cmp(a, b); B(cm == 0 || cm == 1); if (cm == 2) fl = FX_INVALID; break;
    case UNORD: B(o_cmp(a, b) == 2); nan_in(a, fl); nan_in(b, fl); break;
    case ISGREATER: B(o_cmp(a, b) == 1); nan_in(a, fl); nan_in(b, fl); break;
    case ISLESS: B(o_cmp(a, b) == -1); nan_in(a, fl); nan_in(b, fl); break;
    case ISGREATEREQUAL: cm = o_cmp(a, b); B(cm == 0 || cm == 1); nan_in(a, fl); nan_in(b, fl); break;
    case ISLESSEQUAL: cm = o_cmp(a, b); B(cm == 0 || cm == -1); nan_in(a, fl); nan_in(b, fl); break;
    case ISLESSGREATER: cm = o_cmp(a, b); B(cm == 1 || cm == -1); nan_in(a, fl); nan_in(b, fl); break;
    case ISUNORDERED: B(o_cmp(a, b) == 2); nan_in(a, fl); nan_in(b, fl); break;
    case SAMEQUANTUM: B((a.nan() && b.nan()) || (a.inf() && b.inf()) || (a.fin() && b.fin() && a.q == b.q)); break;
    case FMAX: case FMIN: case FMAXMAG: case FMINMAG: {
      bool mx = id == FMAX || id == FMAXMAG, mg = id == FMAXMAG || id == FMINMAG;
      if (a.k == KSNAN || b.k == KSNAN) { e.skip = true; break; }
      if (a.nan() && b.nan()) { D(mknan()); break; }
      e.rk = 2; if (a.nan()) { e.r = b; break; } if (b.nan()) { e.r = a; break; }
      int c0 = 0; if (mg) { c0 = cmp_mag(a, b); } if (c0 == 0) c0 = o_cmp(a, b);
      if (c0 == 0) { e.r = a; if (a.zero()) e.rk = 4; } else e.r = (c0 > 0) == mx ? a : b;   // equal values: any of the two data
      break; }
    case COPYSIGN: { Num r = a; r.neg = b.neg; D(r); e.rk = 3; break; }
    case FABS: { Num r = a; r.neg = false; D(r); e.rk = 3; break; }
    case CEIL: D(o_toint(f, RM_UP, a, inx, fl)); e.rk = 2; break;
    case FLOOR: D(o_toint(f, RM_DOWN, a, inx, fl)); e.rk = 2; break;
    case TRUNC: D(o_toint(f, RM_ZERO, a, inx, fl)); e.rk = 2; break;
    case ROUND: D(o_toint(f, RM_AWAY, a, inx, fl)); e.rk = 2; break;
    case ROUNDEVEN: D(o_toint(f, RM_NEAR, a, inx, fl)); e.rk = 2; break;
    case RINT: D(o_toint(f, rm, a, inx, fl)); e.rk = 2; if (inx) fl |= FX_INEXACT; e.flmask = FX_INEXACT; break;
    case NEARBYINT: D(o_toint(f, rm, a, inx, fl)); e.rk = 2; e.flmask = FX_INEXACT; break;
    case LRINT: case LLRINT: case LROUND: case LLROUND: {
      if (!a.fin()) { e.skip = e.outside = true; break; }
      Num t = o_toint(f, id == LROUND || id == LLROUND ? RM_AWAY : rm, a, inx, fl); i128 v;
      { Num au = o_toint(f, RM_UP, a, inx, fl), ad = o_toint(f, RM_DOWN, a, inx, fl); if (!in_range(au, 64, v) || !in_range(ad, 64, v)) { e.skip = true; break; } }
      t = o_toint(f, id == LROUND || id == LLROUND ? RM_AWAY : rm, a, inx, fl); if (!in_range(t, 64, v)) { e.skip = e.outside = true; break; } I(v); if (id == LRINT || id == LLRINT) { e.flmask = FX_INEXACT; if (inx) fl |= FX_INEXACT; } break; }
    case NEXTUP: D(o_next(f, a, true, fl)); e.rk = 2; break;
    case NEXTDOWN: D(o_next(f, a, false, fl)); e.rk = 2; break;
    case NEXTAFTER: case NEXTTOWARD: {
      if (a.nan() || b.nan()) { nan_in(a, fl); nan_in(b, fl); D(mknan()); break; }
      cm = o_cmp(a, b); if (cm == 0) { e.rk = 2; if (id == NEXTAFTER) { e.r = b; } else { e.r = a; e.r.neg = b.neg; if (b.inf()) e.r = a; if (a.c && a.fin()) e.r = a; } if (a.zero()) e.rk = 4; break; }
      D(o_next(f, a, cm < 0, fl)); e.rk = 2;
      if (e.r.inf() && a.fin()) fl |= FX_OVER | FX_INEXACT; else if (e.r.fin() && (e.r.c == 0 || adj(e.r) < f.emin())) fl |= FX_UNDER | FX_INEXACT;
      break; }
    case QUANTUM: if (a.nan()) { nan_in(a, fl); D(mknan()); } else if (a.inf()) D(mkinf(false)); else D(mkfin(false, 1, a.q)); break;
    case LLQUANTEXP: if (!a.fin()) { I(LLONG_MIN); fl = FX_INVALID; } else I(a.q); break;
    case LOGB: if (a.nan()) { nan_in(a, fl); D(mknan()); } else if (a.inf()) D(mkinf(false)); else if (a.zero()) { D(mkinf(true)); fl = FX_DIVZERO; } else { long v = adj(a); D(mkfin(v < 0, (u128)labs(v), 0)); e.rk = 2; } break;
    case ILOGB: if (a.nan()) { I(FP_ILOGBNAN); fl = FX_INVALID; } else if (a.inf()) { if (a.neg) e.skip = true; I(INT_MAX); fl = FX_INVALID; } else if (a.zero()) { I(FP_ILOGB0); fl = FX_INVALID; } else I(adj(a)); break;
    case LLOGB: if (a.nan()) { e.skip = true; } else if (a.inf()) { if (a.neg) e.skip = true; I(LONG_MAX); fl = FX_INVALID; } else if (a.zero()) { I(LONG_MIN); fl = FX_INVALID; } else I(adj(a)); break;
    case LDEXP: case SCALBN: case SCALBLN: {
      if (a.nan()) { nan_in(a, fl); D(mknan()); break; } if (a.inf()) { D(a); e.rk = 2; break; }
      long q = (long)a.q + std::max<long>(-1000000, std::min<long>(1000000, (long)in.i)); if (id != SCALBLN) q = (long)a.q + std::max<long>(-1000000, std::min<long>(1000000, (long)(int)in.i));
      D(round_to(f, rm, a.neg, zu(a.c), q, false, q, fl)); e.rk = 2; break; }
    case FREXP: if (a.nan()) { D(mknan()); nan_in(a, fl); break; } if (a.inf()) { D(a); break; } if (a.zero()) { e.rk = 2; e.r = a; e.ioc = true; e.iout = 0; break; }
      { Num r = a; r.q = -ndig(a.c); D(r); e.rk = 2; e.ioc = true; e.iout = a.q + ndig(a.c); break; }
    case MODF: if (a.nan()) { D(mknan()); nan_in(a, fl); e.r2c = true; e.r2 = mknan(); e.r2k = 1; break; } if (a.inf()) { e.rk = 2; e.r = mkfin(a.neg, 0, 0); e.r2c = true; e.r2 = a; e.r2k = 2; break; }
      { Num t = o_toint(f, RM_ZERO, a, inx, fl); t.neg = a.neg; e.r2c = true; e.r2 = t; e.r2k = 2; int f2 = 0; Num r = o_add(f, RM_NEAR, a, t, true, f2); r.neg = a.neg; e.rk = 2; e.r = r; break; }
    case FPCLASSIFY: case M_FPCLASSIFY: I(a.nan() ? FP_NAN : a.inf() ? FP_INFINITE : a.zero() ? FP_ZERO : adj(a) < f.emin() ? FP_SUBNORMAL : FP_NORMAL); break;
    case ISFINITE: case FINITE_: case M_ISFINITE: B(a.fin()); break;
    case ISINF: case M_ISINF: B(a.inf()); break;
    case ISNAN: case M_ISNAN: B(a.nan()); break;
    case ISSIGNALING: case M_ISSIGNALING: B(a.k == KSNAN); break;
    case SIGNBIT: case M_SIGNBIT: B(a.neg); break;
    case ISNORMAL: case M_ISNORMAL: B(a.fin() && a.c && adj(a) >= f.emin()); break;
    case CVT: { const Fmt &t = fmt_of(d->aux); e.rfmt = d->aux; if (a.nan()) { nan_in(a, fl); D(mknan()); } else if (a.inf()) D(mkinf(a.neg)); else D(round_to(t, rm, a.neg, zu(a.c), a.q, false, a.q, fl)); break; }
    case TOINT: { if (!a.fin()) { e.skip = e.outside = true; break; } Num t = o_toint(f, RM_ZERO, a, inx, fl); i128 v; if (!in_range(t, d->aux, v)) { e.skip = e.outside = true; break; } I(v); break; }
    case FROMINT: { i128 w = in.w; bool neg = false; u128 u; switch (d->aux) { case 32: w = (int)w; break; case -32: w = (unsigned)w; break; case 64: w = (long long)w; break; case -64: w = (i128)(u128)(unsigned long long)w; break; }
      if (d->aux == -128) u = (u128)w; else { neg = w < 0; u = neg ? -(u128)w : (u128)w; }
      D(round_to(f, rm, neg, zu(u), 0, false, 0, fl)); break; }
    default: e.skip = true;
  }
  e.fl = fl;
}

static std::string describe(const OpDesc *d, int rm, const CallIn &in) {
  const Fmt &f = fmt_of(d->fmt); std::string s = std::string(d->name) + "/" + std::to_string(d->fmt) + " rm=" + rmname(rm);
  if (d->sig == S_INT_D) { i128 w = in.w; s += " i=" + std::string(w < 0 && d->aux > 0 ? "-" : "") + u128s(w < 0 && d->aux > 0 ? -(u128)w : (u128)w); return s; }
  if (d->sig == S_BIN_D) { return s + " x=0x" + hexs(in.a, d->aux); }
  s += " a=0x" + hexs(in.a, f.bits) + "(" + nstr(decode(f, in.a)) + ")";
  if (d->sig == S_DD_D || d->sig == S_DD_I || d->sig == S_DDD_D) s += " b=0x" + hexs(in.b, f.bits) + "(" + nstr(decode(f, in.b)) + ")";
  if (d->sig == S_DQ_D) s += " b=0x" + hexs(in.b, 128) + "(" + nstr(decode(F128, in.b)) + ")";
  if (d->sig == S_DDD_D) s += " c=0x" + hexs(in.c, f.bits) + "(" + nstr(decode(f, in.c)) + ")";
  if (d->sig == S_DI_D) s += " i=" + std::to_string(in.i);
  return s;
}
std::string describe_call(const OpDesc *d, int rm, const CallIn &in) { return describe(d, rm, in); }
static bool value_eq(const Num &a, const Num &b) { if (a.nan() || b.nan()) return a.nan() && b.nan(); return o_cmp(a, b) == 0 && a.neg == b.neg; }

// which facets a property judges
enum { J_RES = 1, J_FLAGS = 2, J_ENV = 4, J_FMASK = 8, J_STICKY = 16, J_DIRECT = 32 /* call without touching the environment first */ };
struct Ctx { Mon &m; int facets; };

// the exception flags this library promises for each operation (see DESIGN.md, P18)
static void flag_policy(const OpDesc *d, OpId id, const CallIn &in, Exp &e) {
  const Fmt &f = fmt_of(d->fmt); e.flmask = e.flreq = 0;
  bool two = d->sig == S_DD_D || d->sig == S_DD_I || d->sig == S_DDD_D;
  Num a = decode(f, in.a), b = two ? decode(f, in.b) : d->sig == S_DQ_D ? decode(F128, in.b) : Num(), c = d->sig == S_DDD_D ? decode(f, in.c) : Num();
  bool snan = a.k == KSNAN || b.k == KSNAN || c.k == KSNAN, nan = a.nan() || b.nan() || c.nan();
  switch (id) {
    case ADD: case SUB: e.flmask = FX_INVALID | FX_DIVZERO | FX_OVER; e.flreq = FX_UNDER | FX_INEXACT; if (d->fmt == 128) e.flmask = 31; break;
    case MUL: e.flmask = FX_INVALID | FX_DIVZERO | FX_OVER; e.flreq = FX_UNDER; if (d->fmt == 128) e.flmask = 31; break;
    case DIV: e.flmask = FX_INVALID | FX_DIVZERO | FX_OVER; e.flreq = FX_UNDER; break;
    case CVT: e.flmask = FX_INVALID | FX_DIVZERO | FX_OVER; if (d->aux > d->fmt) e.flmask = 31; break;
    case FMA: if (!nan) e.flmask = 31; break;
    case SQRT: case REMAINDER: case FMOD: case FDIM: case QUANTIZE: case QUANTUM: case LLQUANTEXP: case LOGB: case ILOGB: case LLOGB: case SCALBN: case SCALBLN: case LDEXP: case FREXP: case MODF:
    case CEIL: case FLOOR: case TRUNC: case ROUND: case ROUNDEVEN: case LRINT: case LLRINT: case LROUND: case LLROUND: case RINT: case NEARBYINT: case TOINT: if (!snan) e.flmask = 31; break;
    case FROMINT: if (d->fmt == 128) e.flmask = 31; break;
    case EQ: case NE: case LT: case LE: case GT: case GE: case UNORD: case ISGREATER: case ISGREATEREQUAL: case ISLESS: case ISLESSEQUAL: case ISLESSGREATER: case ISUNORDERED: if (!nan) e.flmask = 31; break;
    case FMAX: case FMIN: case FMAXMAG: case FMINMAG: case COPYSIGN: case FABS: case SAMEQUANTUM: if (!snan) e.flmask = 31; break;
    case FPCLASSIFY: case ISFINITE: case FINITE_: case ISINF: case ISNAN: case ISSIGNALING: case SIGNBIT: case ISNORMAL: case M_FPCLASSIFY: case M_SIGNBIT: case M_ISFINITE: case M_ISINF: case M_ISNAN: case M_ISNORMAL: case M_ISSIGNALING: if (!snan) e.flmask = 31; break;
    default: break;
  }
  // no such integer: the value is unspecified, the exception is not
  if (e.outside) { e.skip = false; e.fl = FX_INVALID; e.flmask = snan ? FX_INVALID : FX_INVALID | FX_DIVZERO | FX_OVER | FX_UNDER; }
  // tininess may be detected after rounding (C and IEEE 754 disagree only here)
  if ((e.fl & FX_UNDER) && e.rk && e.r.fin() && e.r.c && adj(e.r) >= fmt_of(e.rfmt).emin()) { e.flmask &= ~FX_UNDER; e.flreq &= ~FX_UNDER; }
  if (!e.flmask && !e.flreq) e.skip = true;
}

static void judge(Mon &m, int facets, const OpDesc *d, OpId id, int rm, const CallIn &in) {
  Exp e; expect(d, id, rm, in, e);
  if (facets & J_FMASK) { if (!e.skip || (id != OTHER && id != SQRT)) flag_policy(d, id, in, e); }
  static const int fes[5] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT}; int fe_in = 0;
  if (facets & J_STICKY) { int k = (int)m.g.n(32); for (int i = 0; i < 5; i++) if (k >> i & 1) fe_in |= fes[i]; e.skip = false; }
  CallOut out; memset(&out, 0, sizeof out); out.iout = 0x5a5a5a5a; out.r2 = 0; Env env;
  m.begin(d, rm, in); if (facets & J_DIRECT) { d->fn(&in, &out); env.drm = shim_getround(); env.brm = fegetround(); env.fe = 0; } else shim_call(d, rm, fe_in, 0, &in, &out, &env);
  if (e.skip) { m.cls["skipped-domain"]++; return; }
  uint64_t h = hmix(hmix(hmix((uint64_t)id * 131 + d->fmt + rm * 7 + d->aux * 1009, in.a), in.b), hmix(hmix((uint64_t)in.i, (u128)in.w), in.c));
  const Fmt &rf = fmt_of(e.rfmt);
  const char *cl = "exact"; if (e.rk) { cl = e.r.nan() ? "nan" : e.r.inf() ? (e.fl & FX_OVER ? "overflow" : "inf") : e.fl & FX_UNDER ? "underflow" : e.fl & FX_INEXACT ? "inexact" : e.r.c == 0 ? "zero" : "exact"; } else cl = "integer-result";
  m.saw(h, cl);
  std::string key = std::string(d->name) + std::to_string(d->fmt); if (d->sig == S_CVT) key += "from"; 
  if (facets & J_RES) {
    if (e.rk) {
      Num got = decode(rf, out.r); bool ok;
      if (e.rk == 1) ok = e.r.nan() ? got.nan() : same_datum(got, e.r) && got.canon;
      else if (e.rk == 3) ok = (e.r.nan() ? got.nan() : got.k == e.r.k) && got.neg == e.r.neg && (!got.fin() || (got.c == e.r.c && got.q == e.r.q));
      else if (e.rk == 4) ok = got.zero();
      else ok = e.r.nan() ? got.nan() : value_eq(got, e.r);
      if (!ok) m.fail(key + ":result:" + cl, describe(d, rm, in) + " expected " + nstr(e.r) + " got 0x" + hexs(out.r, rf.bits) + "(" + nstr(got) + ")");
    }
    if (e.r2c) { Num got = decode(rf, out.r2); bool ok = e.r2.nan() ? got.nan() : value_eq(got, e.r2); if (!ok) m.fail(key + ":out2", describe(d, rm, in) + " expected second result " + nstr(e.r2) + " got " + nstr(got)); }
    if (e.ivc) { bool ok = e.ivnz ? (out.iv != 0) == (e.iv != 0) : out.iv == e.iv; if (!ok) m.fail(key + ":int", describe(d, rm, in) + " expected " + (e.iv < 0 ? "-" + u128s(-(u128)e.iv) : u128s(e.iv)) + " got " + (out.iv < 0 ? "-" + u128s(-(u128)out.iv) : u128s(out.iv))); }
    if (e.ioc && out.iout != e.iout) m.fail(key + ":outint", describe(d, rm, in) + " expected exponent " + std::to_string(e.iout) + " got " + std::to_string(out.iout));
  }
  if (facets & J_STICKY) { if ((env.fe & fe_in) != fe_in) m.fail(key + ":lowered", describe(d, rm, in) + " lowered flags " + fxs(fe2fx(fe_in & ~env.fe)) + " that were already raised"); }
  if (facets & J_FLAGS) { int got = fe2fx(env.fe); if (((got ^ e.fl) & e.flmask) || (e.fl & ~got & e.flreq)) { int mk = e.flmask | e.flreq; m.fail(key + ":flags:" + fxs(e.fl & mk) + "->" + fxs(got & mk), describe(d, rm, in) + " expected flags " + fxs(e.fl & mk) + " got " + fxs(got & mk)); } }
  if (facets & J_ENV) { if (env.drm != rm) m.fail(key + ":decround", describe(d, rm, in) + " left decimal rounding mode " + std::to_string(env.drm)); if (!(facets & J_DIRECT) && env.brm != FE_TONEAREST) m.fail(key + ":binround", describe(d, rm, in) + " left binary rounding mode " + std::to_string(env.brm)); }
  if ((m.evals & 0x3fff) == 1) m.sample(describe(d, rm, in) + " -> " + (e.rk ? nstr(e.r) : u128s((u128)out.iv)));
}

static void gen_case(Mon &m, const OpDesc *d, OpId id, CallIn &in) {
  Rng &g = m.g; const Fmt &f = fmt_of(d->fmt); memset(&in, 0, sizeof in);
  if (d->sig == S_INT_D) { int w = abs(d->aux); u128 v; switch (g.n(6)) { case 4: { int mx = w == 32 ? 10 : w == 64 ? 19 : 38, nd = (int)g.r(std::min(f.p, mx - 1) + 1, mx); v = gen_tie(g, nd, nd - std::min(f.p, nd - 1)); break; } case 0: v = g.u2(); break; case 1: v = g.u2() >> g.n(128); break; case 2: v = ((u128)1 << g.n(w)) + g.n(5) - 2; break; case 3: { int nd = 1 + (int)g.n(38); v = gen_coeff(g, nd); break; } default: { int nd = 1 + (int)g.n(38); v = p10u(nd) + (u128)(i128)g.r(-3, 3); int t = (int)g.n(nd); v += 5 * p10u(t); } }
    if (g.n(2)) v = -v; in.w = (i128)v; if (w < 128) { v &= (((u128)1) << w) - 1; in.w = (i128)v; } return; }
  in.a = gen_bits(g, f);
  bool toint = id == TOINT || id == LRINT || id == LLRINT || id == LROUND || id == LLROUND;
  bool rnd = id == CEIL || id == FLOOR || id == TRUNC || id == ROUND || id == ROUNDEVEN || id == RINT || id == NEARBYINT || id == MODF;
  if ((toint || rnd) && g.n(3)) { // values around integers, halves and type limits
    Num n; n.neg = g.n(2); int w = toint ? (id == TOINT ? abs(d->aux) : 64) : 64; u128 v;
    switch (g.n(5)) { case 0: v = ((u128)1 << (w - (int)g.n(3))) + (u128)(i128)g.r(-3, 3); if (w == 128) v = (u128)1 << 127; break; case 1: v = g.n(50); break; case 2: v = p10u((int)g.n(20)) + (u128)(i128)g.r(-2, 2); break; default: v = gen_coeff(g, 1 + (int)g.n(f.p)); }
    int nd = ndig(v); if (nd > f.p) { int k = nd - f.p; n.c = v / p10u(k); n.q = k; if (g.n(2)) n.c += 1; if (n.c >= p10u(f.p)) n.c -= 1; }
    else { int room = f.p - nd; int k = room ? (int)g.n(room + 1) : 0; n.c = v * p10u(k); n.q = -k; if (k) { switch (g.n(5)) { case 0: n.c += 5 * p10u(k - 1); break; case 1: n.c += 5 * p10u(k - 1) + 1; break; case 2: n.c += 5 * p10u(k - 1) - 1; break; case 3: n.c += g.u2() % p10u(k); break; default: break; } } }
    if (n.c >= p10u(f.p)) n.c = p10u(f.p) - 1; in.a = encode(f, n);
  }
  if (d->sig == S_DD_D || d->sig == S_DD_I || d->sig == S_DDD_D) in.b = gen_bits_rel(g, f, in.a);
  if ((id == ADD || id == SUB) && g.n(3) == 0) { // second operand reaching k digits below the first one's last place
    int nd = g.n(3) ? f.p : (int)g.r(1, f.p), nb = g.n(2) ? f.p : (int)g.r(1, f.p), k = (int)g.r(1, f.p + 3); Num x, y; x.neg = g.n(2); y.neg = g.n(2); x.c = gen_coeff(g, nd); y.c = gen_tie(g, nb, k);
    x.q = clampq(f, gen_exp(g, f, nd)); y.q = clampq(f, (long)x.q + (nd - f.p) - k); if (y.neg != x.neg && g.n(2)) x.c = p10u(nd - 1); if (g.n(2)) std::swap(x, y); in.a = encode(f, x); in.b = encode(f, y); }
  else if ((id == ADD || id == SUB) && g.n(3) == 0) { // carries, borrows and word boundaries around the last place of a full-length operand
    Num x, y; x.neg = g.n(2); y.neg = g.n(2); u128 P = p10u(f.p);
    switch (g.n(5)) { case 0: x.c = P - 1 - g.n(3); break; case 1: x.c = P / 10 + g.n(3); break; case 2: { x.c = P / 10 + g.u2() % (P - P / 10); int w = f.bits == 128 ? 64 : f.bits == 64 ? 32 : 16; x.c = ((x.c >> w) << w) + (u128)(i128)g.r(-2, 2); break; } case 3: x.c = gen_coeff(g, (int)g.r(1, f.p)); break; default: x.c = P / 10 + g.u2() % (P - P / 10); }
    if (x.c >= P) x.c = P - 1; int nb = g.n(3) ? f.p : (int)g.r(1, f.p); long r = g.r(-2, 2); if (g.n(4) == 0) r = g.r(-f.p, 2); if (g.n(8) == 0) r = g.r(2, f.p);
    y.c = g.n(2) ? gen_tie(g, nb, std::max<long>(1, std::min<long>(nb, nb - r))) : gen_coeff(g, nb);
    long q = g.n(3) == 0 ? f.qmax - (long)g.n(2) : g.n(3) == 0 ? f.qmin + (long)g.n(f.p + 3) : gen_exp(g, f, f.p); x.q = clampq(f, q); y.q = clampq(f, (long)x.q - nb + r); if (g.n(2)) std::swap(x, y); in.a = encode(f, x); in.b = encode(f, y); }
  if (id == MUL && g.n(4) == 0) { int i = (int)g.n(f.p + 2); Num x, y; x.neg = g.n(2); y.neg = g.n(2); u128 P5 = 1, P2 = 1; for (int k = 0; k < i && P5 * 5 < p10u(f.p); k++) P5 *= 5; for (int k = 0; k < i - 1 && P2 * 2 < p10u(f.p); k++) P2 *= 2; // products ending in 5000
    x.c = P5 * (1 + g.u2() % (p10u(f.p) / P5)); y.c = P2 * (1 + g.u2() % (p10u(f.p) / P2)); x.c %= p10u(f.p); y.c %= p10u(f.p); x.q = clampq(f, gen_exp(g, f, f.p)); y.q = g.n(2) ? clampq(f, gen_exp(g, f, f.p)) : clampq(f, (long)f.qmin - x.q - g.r(-2, f.p + 2)); if (g.n(2)) std::swap(x.c, y.c); in.a = encode(f, x); in.b = encode(f, y); }
  if (id == DIV && g.n(4) == 0) { int z = (int)g.r(1, (int)(f.p * 3.3)); u128 P2 = 1; for (int k = 0; k < z && P2 * 2 < p10u(f.p); k++) P2 *= 2; Num x, y; x.neg = g.n(2); y.neg = g.n(2); y.c = P2; x.c = gen_coeff(g, 1 + (int)g.n(f.p)) | 1; // quotients ending in 5
    u128 mm = 1 + g.n(50); if (g.n(2) && x.c * mm < p10u(f.p) && y.c * mm < p10u(f.p)) { x.c *= mm; y.c *= mm; } if (x.c >= p10u(f.p)) x.c = 1; x.q = clampq(f, gen_exp(g, f, f.p)); y.q = clampq(f, g.n(2) ? gen_exp(g, f, f.p) : (long)x.q - f.qmin + g.r(-2 * f.p, f.p)); in.a = encode(f, x); in.b = encode(f, y); }
  if (id == SQRT && g.n(2)) { int nr = (int)g.r(1, f.p + 1); Z r = zu(gen_coeff(g, std::min(nr, 34))); if (nr == f.p + 1) r = zu(gen_coeff(g, f.p)) * 10 + 5; Z s = r * r; long q = 2 * g.r(-30, 30); s += (long)g.n(3) - 1; if (s < 0) s = 0; while (s >= p10(f.p)) { s = s / 10; q++; } u128 c = uz(s); if (g.n(3) == 0 && c + 1 < p10u(f.p)) c++; Num n; n.c = c; n.q = clampq(f, q); in.a = encode(f, n); }
  if (id == CVT && g.n(2)) { const Fmt &t = fmt_of(d->aux); int pd = t.p, ps = f.p; if (ps > pd) { // narrowing: aim at the rounding point, at normal and at tiny results
      int nd = (int)g.r(pd + 1, ps), k = nd - pd; Num n; n.neg = g.n(2); n.q = 0;
      if (g.n(2)) { k = (int)g.r(1, nd); n.q = t.qmin - k; } else n.q = g.n(3) ? (int)g.r(t.qmin, t.qmax) : t.qmax - k + (int)g.n(3);
      n.c = gen_tie(g, nd, k); n.q = clampq(f, n.q); in.a = encode(f, n); } }
  if (id == QUANTIZE && g.n(3)) { int nd = g.n(2) ? f.p : (int)g.r(1, f.p), t = (int)g.r(1, nd); Num n, b = gen_fin(g, f); n.neg = g.n(2); n.c = gen_tie(g, nd, t); n.q = clampq(f, gen_exp(g, f, nd)); b.q = clampq(f, (long)n.q + t); in.a = encode(f, n); in.b = encode(f, b); }
  else if ((id == QUANTIZE) && g.n(3)) { Num a = decode(f, in.a); if (a.fin()) { Num b = gen_fin(g, f); b.q = clampq(f, (long)a.q + g.r(-f.p - 2, f.p + 2)); in.b = encode(f, b); } }
  if ((id == FMOD || id == REMAINDER) && g.n(2)) { Num a = decode(f, in.a), b = decode(f, in.b); if (a.fin() && b.fin() && b.c) { // halfway quotients, moderate exponent gap
      b.q = clampq(f, (long)a.q + g.r(-3, 12)); if (g.n(2)) { int nd = 1 + (int)g.n(f.p - 1); b.c = gen_coeff(g, nd); if (!b.c) b.c = 2; u128 k = g.n(100); u128 t = b.c * (2 * k + 1); if (t % 2 == 0 && t / 2 < p10u(f.p)) { a.c = t / 2; a.q = b.q; } in.a = encode(f, a); } in.b = encode(f, b); } }
  if (d->sig == S_DDD_D) { in.c = gen_bits_rel(g, f, in.a);
    if (g.n(2)) { Num a = decode(f, in.a), b = decode(f, in.b); if (a.fin() && b.fin() && a.c && b.c) { // addend near the (negated) product: cancellation and double-rounding traps
        int fl = 0; Num p = o_mul(f, RM_ZERO, a, b, fl); if (p.fin() && p.c) { switch (g.n(4)) { case 0: p.neg = !p.neg; break; case 1: p.neg = g.n(2); p.c += g.n(3); if (p.c >= p10u(f.p)) p.c = 1; break; default: { int pn = ndig(p.c); p.neg = g.n(2); p.c = g.n(2) ? 5 : 1 + g.n(9); long q = (long)p.q + g.r(-f.p - 3, pn + f.p + 2); p.q = clampq(f, q); } } in.c = encode(f, p); } } } }
  if (d->sig == S_DQ_D) { if (g.n(2)) { Num a = decode(f, in.a); if (a.k == KSNAN || a.k == KQNAN) a.payload %= 1000; if (g.n(3) == 0 && a.fin() && a.c) { a.c = a.c * 10 + g.n(3) - 1; if (a.c < p10u(34)) a.q--; else a.c /= 10; } in.b = encode(F128, a); } else in.b = gen_bits(g, F128); }
  if (d->sig == S_DI_D) { Num a = decode(f, in.a); long x; switch (g.n(6)) { case 0: x = g.r(-20, 20); break; case 1: x = a.fin() ? (long)f.qmax - a.q + g.r(-f.p - 2, f.p + 2) : 5; break; case 2: x = a.fin() ? (long)f.qmin - a.q + g.r(-f.p - 2, f.p + 2) : -5; break; case 3: x = (long)(int)g.u(); break; case 4: x = g.n(2) ? INT_MAX - (long)g.n(3) : INT_MIN + (long)g.n(3); break; default: x = g.r(-f.qmax, f.qmax); }
    if (id == SCALBLN && g.n(6) == 0) x = g.n(2) ? (long)g.u() : g.n(2) ? LONG_MAX - (long)g.n(3) : LONG_MIN + (long)g.n(3); in.i = x; }
}

static void run_ops(Mon &m, const std::vector<std::string> &names, int facets) {
  std::vector<std::pair<const OpDesc *, OpId>> v;
  for (int i = 0; i < shim_nops; i++) for (auto &n : names) if (n == shim_ops[i].name) if ((m.o.only.empty() || m.o.only == n) && (!m.o.onlyf || m.o.onlyf == shim_ops[i].fmt)) v.push_back({&shim_ops[i], opid(&shim_ops[i])});
  if (v.empty()) return;
  for (long i = 0; i < m.o.cases; i++) { auto &p = v[(i + m.wid) % v.size()]; CallIn in; gen_case(m, p.first, p.second, in); int rm = (int)m.g.n(5); judge(m, facets, p.first, p.second, rm, in); }
}
#define PROP(ID, FAC, ...) static void run_##ID(Mon &m) { run_ops(m, {__VA_ARGS__}, FAC); } static RegProp reg_##ID(#ID, run_##ID)
PROP(arith, J_RES | J_ENV, "add", "sub", "mul", "div");
static void run_all(Mon &m, int facets) {
  std::vector<std::string> v; std::set<std::string> seen; for (int i = 0; i < shim_nops; i++) if (seen.insert(shim_ops[i].name).second) v.push_back(shim_ops[i].name); run_ops(m, v, facets); }
static void run_flags(Mon &m) {
  run_ops(m, {"add", "sub", "mul", "div"}, J_FLAGS | J_FMASK); 
  run_ops(m, {"sqrt", "fma", "remainder", "fmod", "fdim", "quantize", "scalbn", "scalbln", "ldexp"}, J_FLAGS | J_FMASK);
  run_ops(m, {"cvt32", "cvt64", "cvt128", "logb", "ilogb", "llogb", "frexp", "modf", "rint", "nearbyint", "ceil", "floor", "trunc", "round", "roundeven", "lrint", "llrint", "lround", "llround", "quantum", "llquantexp", "toi32", "tou32", "toi64", "tou64", "toi128", "tou128", "fromi32", "fromu32", "fromi64", "fromu64", "fromi128", "fromu128", "eq", "ne", "lt", "le", "gt", "ge", "unord", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered", "fmax", "fmin", "fmaxmag", "fminmag", "copysign", "fabs", "samequantum", "fpclassify", "isfinite", "isinf", "isnan", "issignaling", "__signbit", "isnormal", "m_fpclassify", "m_signbit", "m_isfinite", "m_isinf", "m_isnan", "m_isnormal", "m_issignaling"}, J_FLAGS | J_FMASK);
  long n = m.o.cases; m.o.cases = n / 20 + 1; run_all(m, J_STICKY); m.o.cases = n; }
static RegProp reg_flags("flags", run_flags);
PROP(cmp, J_RES | J_FLAGS | J_ENV, "eq", "ne", "lt", "le", "gt", "ge", "unord", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered");
PROP(cvt, J_RES | J_FLAGS | J_ENV, "cvt32", "cvt64", "cvt128");
PROP(icvt, J_RES | J_FLAGS | J_ENV, "toi32", "tou32", "toi64", "tou64", "toi128", "tou128", "fromi32", "fromu32", "fromi64", "fromu64", "fromi128", "fromu128");
PROP(rint, J_RES | J_FLAGS | J_ENV, "ceil", "floor", "trunc", "round", "roundeven", "rint", "nearbyint", "lrint", "llrint", "lround", "llround");
PROP(alg, J_RES | J_FLAGS | J_ENV, "fma", "sqrt", "fmod", "remainder", "fdim");
PROP(quant, J_RES | J_FLAGS | J_ENV, "quantize", "samequantum", "quantum", "llquantexp");
PROP(next, J_RES | J_FLAGS | J_ENV, "nextup", "nextdown", "nextafter", "nexttoward");
PROP(scale, J_RES | J_FLAGS | J_ENV, "ldexp", "scalbn", "scalbln", "frexp", "logb", "ilogb", "llogb", "modf");
PROP(minmax, J_RES | J_FLAGS | J_ENV, "fmax", "fmin", "fmaxmag", "fminmag", "copysign", "fabs");
PROP(classify, J_RES | J_FLAGS | J_ENV, "fpclassify", "isfinite", "finite", "isinf", "isnan", "issignaling", "__signbit", "isnormal", "m_fpclassify", "m_signbit", "m_isfinite", "m_isinf", "m_isnan", "m_isnormal", "m_issignaling");
bool has_oracle(const OpDesc *d) { return opid(d) < TOBIN; }
void judge_direct(Mon &m, const OpDesc *d, int rm, const CallIn &in) { judge(m, J_RES | J_DIRECT, d, opid(d), rm, in); }
void gen_case_any(Mon &m, const OpDesc *d, CallIn &in) { gen_case(m, d, opid(d), in); }
