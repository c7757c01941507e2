#!/usr/bin/env python3
"""Offline checker of a decNumber call log (declog.c): every recorded call is recomputed with
Python's decimal module (libmpdec, an independent implementation of the General Decimal
Arithmetic specification) and result, coefficient, exponent, sign, payload and status are compared.
usage: check.py LOG OUT.json known-key...      (LOG '-' reads stdin)"""
import sys, json
import decimal
from decimal import Decimal, Context, localcontext
RND = dict(CEILING=decimal.ROUND_CEILING, UP=decimal.ROUND_UP, HALF_UP=decimal.ROUND_HALF_UP, HALF_EVEN=decimal.ROUND_HALF_EVEN, HALF_DOWN=decimal.ROUND_HALF_DOWN, DOWN=decimal.ROUND_DOWN, FLOOR=decimal.ROUND_FLOOR)
RND['05UP'] = decimal.ROUND_05UP
WIDE = Context(prec=6000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])
INVALID = 0x1 | 0x4 | 0x8 | 0x80
SIG = [(decimal.Clamped, 0x400), (decimal.Rounded, 0x800), (decimal.Subnormal, 0x1000), (decimal.Overflow, 0x200), (decimal.Underflow, 0x2000), (decimal.Inexact, 0x20), (decimal.DivisionByZero, 0x2), (decimal.InvalidOperation, 0x80)]
NAMES = [(0x400, 'clamped'), (0x800, 'rounded'), (0x1000, 'subnormal'), (0x200, 'overflow'), (0x2000, 'underflow'), (0x20, 'inexact'), (0x2, 'division by zero'), (0x80, 'invalid')]
U = dict(abs='abs', minus='minus', plus='plus', exp='exp', ln='ln', log10='log10', logb='logb', sqrt='sqrt', to_integral_exact='to_integral_exact', to_integral_value='to_integral_value', next_minus='next_minus', next_plus='next_plus', normalize='normalize', reduce='normalize', invert='logical_invert')
B = dict(add='add', subtract='subtract', multiply='multiply', divide='divide', divide_int='divide_int', remainder='remainder', remainder_near='remainder_near', compare='compare', compare_signal='compare_signal', compare_total='compare_total', compare_total_mag='compare_total_mag', max='max', max_mag='max_mag', min='min', min_mag='min_mag', quantize='quantize', power='power', next_toward='next_toward', rotate='rotate', shift='shift', scaleb='scaleb', copy_sign='copy_sign')
B['and'] = 'logical_and'; B['or'] = 'logical_or'; B['xor'] = 'logical_xor'
def D(s):
    return WIDE.create_decimal(s)
def near(r, e, ctx, ulps):
    """r within ulps units in the last place of e (both finite), in ctx"""
    if r == e:
        return True
    if r.is_nan() or e.is_nan():
        return False
    r, e = (v if v.is_finite() else Decimal((v.is_signed(), (1,), ctx.Emax + 1)) for v in (r, e))   # an overflow stands for the first value beyond the range
    q = max(e.adjusted(), r.adjusted()) - ctx.prec + 1
    q = max(q, ctx.Etiny())
    return WIDE.subtract(r, e).copy_abs() <= WIDE.scaleb(Decimal(ulps), q)
def eq(r, e):
    return str(r) == str(e)
def judge(f):
    """-> (None or what is wrong, class)"""
    name, digits, emin, emax, clamp, rnd, a, b, c, r, st = f
    st = int(st, 16)
    if st & INVALID:
        st = st & ~INVALID | 0x80
    fmt = {'d32': (7, -95, 96), 'd64': (16, -383, 384), 'd128': (34, -6143, 6144)}.get(name)
    if fmt:
        digits, emin, emax = fmt; clamp = 1
    x = Context(prec=int(digits), Emin=int(emin), Emax=int(emax), clamp=int(clamp), rounding=RND[rnd], traps=[], capitals=1)
    A = D(a if not name.startswith('text') else '0')
    want, ignore, approx = None, 0, 0
    if name in U:
        want = getattr(x, U[name])(A)
        if name in ('exp', 'ln', 'log10'):
            approx = 1
    elif name in B:
        want = getattr(x, B[name])(A, D(b))
        if name == 'power':
            approx = 1 if rnd.startswith('HALF') else 2
    elif name == 'fma':
        want = x.fma(A, D(b), D(c))
    elif name == 'rescale':
        bb = D(b)
        if A.is_nan() or bb.is_nan():
            want = x.add(A, bb); x.clear_flags(); st &= ~0
            if A.is_snan() or bb.is_snan():
                x.flags[decimal.InvalidOperation] = True
        elif A.is_infinite() and bb.is_infinite():
            want = A
        elif A.is_infinite() or bb.is_infinite():
            want = x.quantize(Decimal('Inf'), Decimal(1))
        elif bb != bb.to_integral_value(context=WIDE) or abs(bb) > 10 ** 9:
            want = x.quantize(Decimal('Inf'), Decimal(1))
        elif not (x.Etiny() <= int(bb) <= x.Emax):
            want = x.quantize(Decimal('Inf'), Decimal(1))
        else:
            want = x.quantize(A, Decimal((0, (1,), int(bb))))
    elif name == 'same_quantum':
        want = '1' if A.same_quantum(D(b)) else '0'
    elif name == 'class':
        want = x.number_class(A)
    elif name == 'eng':
        want = A.to_eng_string(context=WIDE)
    elif name == 'string' or name.startswith('text'):
        want = x.create_decimal(a)
    elif name in ('int32', 'uint32'):
        lo, hi = (-2 ** 31, 2 ** 31 - 1) if name == 'int32' else (0, 2 ** 32 - 1)
        if not A.is_finite() or A.as_tuple().exponent != 0 or not lo <= A <= hi:
            want = '0'; x.flags[decimal.InvalidOperation] = True
        else:
            want = str(int(A))
    elif name == 'fromint':
        want = a
        if c != b:
            return 'unsigned %s became %s' % (b, c), 'value'
    elif name == 'bcd':
        s, d, e = A.as_tuple()
        if ''.join(map(str, d)) != b:
            return 'digits %s' % b, 'value'
        want = Decimal((s, tuple(map(int, c)), e))
    elif name == 'copies':
        want = A
        if not eq(b, A.copy_abs()) or not eq(c, A.copy_negate()):
            return 'abs %s negated %s' % (b, c), 'value'
    elif name == 'trim':
        if not A.is_finite():
            want = A
        else:
            s, d, e = A.as_tuple()
            if not A:
                want = Decimal((s, (0,), 0))
            else:
                while e != 0 and d[-1] == 0:
                    d = d[:-1]; e += 1
                want = Decimal((s, d, e))
    elif fmt:
        want = x.create_decimal(a) if not A.is_nan() else A
        if A.is_nan():
            p = A.as_tuple()[1]
            if len(p) > x.prec - 1:
                want = None
        if want is not None and (c != str(want) or b != want.to_eng_string(context=WIDE)):
            return 'decoded %s, engineering %s, expected %s' % (c, b, want), 'value'
        if want is None:
            return None, 'long payload'
    w = 0
    for k, v in SIG:
        if x.flags[k]:
            w |= v
    kind = 'nan' if 'NaN' in r else 'inf' if 'Inf' in r else 'overflow' if w & 0x200 else 'underflow' if w & 0x2000 else 'inexact' if w & 0x20 else 'subnormal' if w & 0x1000 else 'clamped' if w & 0x400 else 'exact'
    if approx:
        R = D(r)
        if not eq(R, want) and not (want.is_finite() and (R.is_finite() or name == 'power') and w & 0x20 and near(R, want, x, approx)) and not (w & 0x220 and st & 0x20 and near(R, want, x, approx)):
            if name == 'power' and A.is_infinite() and A.is_signed() and D(b).is_finite() and D(b) != D(b).to_integral_value(context=WIDE):   # the two specifications differ; IEEE pow gives the result seen
                return None, 'not judged'
            if not (name == 'power' and (w & 0x200 and st & 0x200 and R.is_signed() == want.is_signed() and (R.is_infinite() or R.copy_abs() == Decimal((0, (9,) * x.prec, x.Emax - x.prec + 1))) or not w & 0x20 and R == want)):   # the overflow result of power does not follow the rounding mode
                return 'expected %s' % want, kind
        if w & 0x20 and st & 0x20 and R.is_finite() and R and R.adjusted() > x.Emin and len(R.as_tuple()[1]) != x.prec:
            return 'an inexact result of %d digits' % len(R.as_tuple()[1]), kind
        ignore = ~0x282 if w & 0x20 or st & 0x20 else 0xc00   # division by zero, invalid and overflow stay judged on inexact results
        if eq(R, want) and w & 0x20:
            ignore = 0x2c00 if name == 'power' else 0xc00
        if not eq(R, want):
            ignore |= 0x200
        return (None if (st ^ w) & ~ignore & 0xffff == 0 else 'status', kind) if (st ^ w) & ~ignore & 0x3ea2 == 0 else ('status has%s, expected%s' % (flags(st), flags(w)), kind)
    if r != str(want):
        if name == 'sqrt' and w & 0x20 and st == w and D(r) == want:
            return 'quantum: expected %s' % want, kind
        if name in ('quantize', 'rescale') and st & 0x200:
            return 'overflow: expected %s' % want, kind
        return 'expected %s' % want, kind
    if name in ('class', 'eng', 'trim', 'copies', 'bcd', 'fromint', 'same_quantum', 'copy_sign'):
        w = 0
    if (st ^ w) & ~ignore:
        return 'status has%s, expected%s' % (flags(st), flags(w)), kind
    return None, kind
def flags(s):
    return ''.join(' ' + n for v, n in NAMES if s & v) or ' nothing'
def main():
    log = sys.stdin if sys.argv[1] == '-' else open(sys.argv[1])
    known = set(sys.argv[3:])
    seen, cls, viol, vc, kn, samples, n = set(), {}, [], {}, {}, [], 0
    done = False
    for line in log:
        f = line.rstrip('\n').split('\t')
        if len(f) != 11:
            if f == ['end']:
                done = True
                break
            break   # a truncated line: the producer died, which the caller reports
        n += 1
        seen.add(hash(line))
        try:
            bad, kind = judge(f)
        except Exception as ex:
            print('cannot judge %r: %r' % (line, ex)); sys.exit(3)
        k = '%s %s' % (f[0], kind)
        cls[k] = cls.get(k, 0) + 1
        cls[kind] = cls.get(kind, 0) + 1
        text = '%s(%s, %s, %s) digits %s emin %s emax %s clamp %s %s: result %s%s' % (f[0], f[6], f[7], f[8], f[1], f[2], f[3], f[4], f[5], f[9], flags(int(f[10], 16)))
        if len(samples) < 6:
            samples.append(text)
        if bad:
            key = 'declog/%s/%s' % (f[0], bad.split()[0].rstrip(':') if bad.split()[0] in ('status', 'quantum:', 'overflow:') else 'value')
            if key in known:
                kn.setdefault(key, [0, text])[0] += 1
            else:
                vc[key] = vc.get(key, 0) + 1
                if vc[key] <= 3:
                    viol.append([key, text + ' -- ' + bad])
    json.dump(dict(evals=n, distinct=len(seen), inconclusive=0, cls=cls, known=kn, viol=viol, vcount=vc, samples=samples, complete=done), open(sys.argv[2], 'w'))
if __name__ == '__main__':
    main()
