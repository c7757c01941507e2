#!/usr/bin/env python3
"""Cross-checks the reference models of the monitors against independent implementations.
usage: selfcheck.py oraclelog|translog FILE...   Exit 0 when everything agrees.
oraclelog: Python's decimal (libmpdec).  translog: mpmath with 110 digits."""
import sys
FL = dict(invalid=1, div=2, over=4, under=8, inexact=16)

def oracle(files):
    import decimal as D
    rms = [D.ROUND_HALF_EVEN, D.ROUND_DOWN, D.ROUND_CEILING, D.ROUND_FLOOR, D.ROUND_HALF_UP]
    fm = {32: (7, -95, 96), 64: (16, -383, 384), 128: (34, -6143, 6144)}
    ctx = {(b, r): D.Context(prec=p, Emin=lo, Emax=hi, clamp=1, rounding=rms[r], traps=[]) for b, (p, lo, hi) in fm.items() for r in range(5)}
    big = D.Context(prec=60000, Emin=-999999, Emax=999999, traps=[])
    n = bad = 0
    def num(s): return D.Decimal(s)
    for fn in files:
        for line in open(fn):
            op, b, r, fl, a, bb, c, res = line.split()
            cx = ctx[int(b), int(r)]; cx.clear_flags(); a, bb, c, fl = num(a), num(bb), num(c), int(fl); mask = 31; n += 1
            if op == 'cmp':
                if int(res) != int(a.compare(bb)): bad += 1; print('disagree:', line)
                continue
            if op == 'add': v = cx.add(a, bb)
            elif op == 'sub': v = cx.subtract(a, bb)
            elif op == 'mul': v = cx.multiply(a, bb)
            elif op == 'div': v = cx.divide(a, bb)
            elif op == 'fma': v = cx.fma(a, bb, c)
            elif op == 'narrow': v = cx.plus(a) if a != 0 else cx.create_decimal(a)
            elif op == 'sqrt':
                if int(r): n -= 1; continue
                v = cx.sqrt(a)
            elif op == 'quantize': v = cx.quantize(a, bb)
            elif op == 'toint': v = cx.to_integral_exact(a); mask = 1
            elif op in ('nextup', 'nextdown'):
                v = (cx.next_plus if op == 'nextup' else cx.next_minus)(a); mask = 0
            else:
                # libmpdec refuses quotients longer than the precision, so the remainder is taken at a precision that holds any quotient
                v = (big.remainder_near if op == 'remnear' else big.remainder)(a, bb); mask = 0
                if v.is_finite(): v = cx.plus(v) if v != 0 else v
            want = num(res); got = 0
            for s, k in ((D.InvalidOperation, 1), (D.DivisionByZero, 2), (D.Overflow, 4), (D.Underflow, 8), (D.Inexact, 16)):
                if cx.flags[s]: got |= k
            same = (v.is_nan() and want.is_nan()) or (str(v) == str(want))
            # -0 of next and of integers: compare value and sign only where IEEE 754 and libmpdec choose different exponents
            if not same and op in ('nextup', 'nextdown') and v == want and v.is_signed() == want.is_signed(): same = True
            if not same or (got & mask) != (fl & mask):
                bad += 1
                if bad < 20: print('disagree:', line.strip(), '| libmpdec', v, got)
    return n, bad

def trans(files):
    import mpmath as mp
    mp.mp.dps = 110
    F = dict(exp=mp.exp, exp2=lambda x: mp.mpf(2) ** x, expm1=mp.expm1, log=mp.log, log2=lambda x: mp.log(x) / mp.log(2), log10=lambda x: mp.log(x) / mp.log(10), log1p=mp.log1p, sin=mp.sin, cos=mp.cos, tan=mp.tan, asin=mp.asin, acos=mp.acos,
             atan=mp.atan, sinh=mp.sinh, cosh=mp.cosh, tanh=mp.tanh, asinh=mp.asinh, acosh=mp.acosh, atanh=mp.atanh, erf=mp.erf, erfc=mp.erfc, lgamma=lambda x: mp.log(abs(mp.gamma(x))), tgamma=mp.gamma, cbrt=lambda x: mp.sign(x) * mp.cbrt(abs(x)))
    n = bad = 0
    for fn in files:
        for line in open(fn):
            f, x, y, v = line.split(); ex = abs(int(x.split('E')[1])) + 40 + abs(int(y.split('E')[1]) if 'E' in y else 0); n += 1
            # enough working precision that neither the argument, nor a cancellation, costs anything
            mp.mp.dps = 130 + min(ex, 6300) * (2 if f in ('sin', 'cos', 'tan', 'expm1', 'log1p', 'log', 'log2', 'log10', 'asinh', 'acosh', 'atanh', 'tanh', 'sinh', 'asin', 'acos', 'atan', 'atan2', 'hypot', 'pow') and ex < 400 else 1)
            X, Y, V = mp.mpf(x), mp.mpf(y), mp.mpf(v)
            if f == 'pow': w = mp.sign(X) ** (1 if X > 0 else int(Y) & 1) * mp.exp(Y * mp.log(abs(X)))
            elif f == 'atan2': w = mp.atan2(X, Y)
            elif f == 'hypot': w = mp.sqrt(X * X + Y * Y)
            else: w = F[f](X)
            if w == 0 and V == 0: continue
            # near the roots of lgamma the monitors judge the absolute error
            tol = mp.mpf(10) ** -45 * (max(abs(w), 1) if f == 'lgamma' else abs(w)) + (mp.mpf(10) ** -70000)
            if abs(w - V) > tol:
                bad += 1
                if bad < 20: print('disagree:', line.strip(), '| mpmath', mp.nstr(w, 40))
    return n, bad

if __name__ == '__main__':
    n, bad = (oracle if sys.argv[1] == 'oraclelog' else trans)(sys.argv[2:])
    print('%s: %d records, %d disagreements' % (sys.argv[1], n, bad))
    sys.exit(1 if bad or not n else 0)
