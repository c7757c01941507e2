"""What each check runs: property -> workloads, with fixed case counts per worker (quick, thorough).
`need` lists situations the monitors must have met before their silence counts."""

import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ARITH_RULE = ('operands are structured decimal data (1..p digits in eleven shapes: 99..9, 10..0, runs of 0/9, ..5000, near powers of two, ...; '
              'exponents near zero, one, both range ends and uniform; both signs), cohort members, half-ulp and near-limit partners of the first operand, '
              'infinities, NaNs, non-canonical encodings and raw random bits; all five rounding modes. A case is non-trivial when the call lies in the '
              "property's domain and its result was compared with the exact-integer reference; distinct cases are counted by operation, mode and operand bits "
              'through a 2^26-bit sketch per worker (undercounts).')

VALGRIND = ['valgrind', '-q', '--suppressions=' + V + '/src/valgrind.supp', '--trace-children=yes', '--error-exitcode=86', '--exit-on-first-error=yes']
def S(group, q, t, variant='plain', **kw):
    d = dict(group=group, n=(q, t), variant=variant)
    d.update(kw)
    return d

TEXT_RULE = ('values are structured decimal data with exponents around the layout switches of %f/%e/%g/%a plus special values and raw bit patterns; conversions, flags, width and precision (also through *) are drawn so '
             'that precision falls on, before and after the last digit, on ties and on carries; five rounding modes. Every call is judged on its complete output and return value; distinct cases are counted by (bits, format, mode).')
TRANS_RULE = ('arguments are structured decimal data (shapes as for P01) with exponents around zero, over the whole range and up to the overflow and underflow limits, next to one and to multiples of pi/2, small integers, perfect cubes, powers of ten, '
              'Pythagorean pairs, and pow exponents that keep the result in range; three quarters in round-to-nearest, the rest under the four directed modes. A case is one call in the domain whose result was compared with the 80-digit reference; '
              'distinct cases are counted by (function, format, mode, operands).')
def tneed(fs, c): return ['%s %d %s %s' % (f, b, r, c) for f in fs.split() for b in (32, 64, 128) for r in ('nearest', 'directed')]
RES = ['exact', 'inexact', 'overflow', 'underflow', 'nan', 'inf', 'zero']
PLAN = {
    'P01': dict(rule=ARITH_RULE, steps=[S('oraclelog', 12000, 1000000, need=['add', 'fma', 'narrow', 'remnear']), S('arith', 4000000, 150000000, need=RES)]),
    'P02': dict(rule=ARITH_RULE, steps=[S('cmp', 12000000, 200000000, need=['integer-result'])]),
    'P03': dict(rule=ARITH_RULE, steps=[S('cvt', 10000000, 200000000, need=RES)]),
    'P04': dict(rule=ARITH_RULE, steps=[S('icvt', 9000000, 150000000, need=['exact', 'inexact', 'integer-result'])]),
    'P05': dict(rule='decimal operands as for P01 and decimals built at, just above and just below the midpoints of neighbouring binary values; binary operands with structured significands over the whole exponent range, subnormals, range ends of the '
                     'decimal format, integers and short decimals; five rounding modes. Every conversion is compared bit for bit with an exact big-integer rounding.',
                steps=[S('bcvt', 3000000, 100000000, need=[d + c for d in ('to-binary ', 'from-binary ') for c in ('exact', 'inexact', 'overflow', 'inf', 'nan', 'zero')] + ['to-binary subnormal', 'from-binary underflow'])]),
    'P06': dict(rule=ARITH_RULE, steps=[S('rint', 8000000, 100000000, need=['exact', 'integer-result', 'nan', 'inf'])]),
    'P07': dict(rule=ARITH_RULE, steps=[S('alg', 900000, 15000000, need=RES)]),
    'P08': dict(rule=ARITH_RULE, steps=[S('quant', 12000000, 200000000, need=['exact', 'inexact', 'nan', 'integer-result'])]),
    'P09': dict(rule=ARITH_RULE, steps=[S('next', 10000000, 200000000, need=['exact', 'overflow', 'underflow', 'nan'])]),
    'P10': dict(rule=ARITH_RULE, steps=[S('scale', 8000000, 80000000, need=['exact', 'inexact', 'overflow', 'underflow', 'nan', 'integer-result'])]),
    'P11': dict(rule=ARITH_RULE, steps=[S('minmax', 10000000, 200000000, need=['exact', 'nan', 'inf'])]),
    'P12': dict(rule=ARITH_RULE, steps=[S('classify', 16000000, 200000000, need=['integer-result'])]),
    'P13': dict(rule=TRANS_RULE, steps=[S('translog', 150, 12000, need=['exp', 'pow', 'lgamma', 'sin']), S('texp', 160000, 6000000, need=tneed('exp exp2 expm1 log log2 log10 log1p', 'all') + ['pow 32 nearest all', 'pow 64 nearest all', 'pow 128 nearest all', 'exp 64 nearest overflow', 'exp 128 nearest underflow', 'pow 32 nearest overflow'])]),
    'P14': dict(rule=TRANS_RULE, steps=[S('ttrig', 140000, 3000000, need=tneed('sin cos tan asin acos atan atan2', 'all') + ['sin 64 nearest huge'])]),
    'P15': dict(rule=TRANS_RULE, steps=[S('thyp', 140000, 3000000, need=tneed('sinh cosh tanh asinh acosh atanh', 'all') + ['sinh 64 nearest overflow', 'cosh 128 nearest overflow'])]),
    'P16': dict(rule=TRANS_RULE, steps=[S('tspec', 300000, 8000000, need=tneed('cbrt hypot', 'all') + [x + ' %d nearest ' % b + c for b in (32, 64, 128) for x, c in (('erf', 'small'), ('erf', 'all'), ('erfc', 'below one'), ('lgamma', 'large'), ('lgamma', 'negative'), ('tgamma', '1..10'), ('tgamma', '10..100'), ('tgamma', 'negative'))])]),
    'P17': dict(rule='special, boundary, out-of-domain and ordinary arguments (NaN with payloads, infinities, zeros of every exponent, ones and small integers in every cohort, values next to one, integers of any size, range ends) for every function with such rules, paired for the binary ones, five rounding modes, errno preset; '
                     'and operands as for P01 for all other operations. A case is one call to which a rule applies, judged on value, sign, errno and exceptions; distinct cases are counted by (function, mode, operands).',
                steps=[S('special', 3000000, 100000000, need=['pow pole', 'pow domain error', 'pow exact special value', 'pow nan', 'atan2 limit value', 'atan2 exact special value', 'hypot exact special value', 'tgamma domain error', 'tgamma pole', 'lgamma pole', 'log pole', 'log domain error', 'acosh exact special value', 'atanh pole', 'sqrt domain error', 'logb pole']),
                       S('errno', 4000000, 100000000, need=['errno domain', 'errno range', 'errno left alone'])]),
    'P18': dict(rule=ARITH_RULE + ' The flags are cleared (and, in a second pass over every operation, preset to a random subset) before the call and read after it.',
                steps=[S('flags', 1500000, 40000000, need=RES)]),
    'P19': dict(rule='histories of 40 to 200 steps: accepted and rejected fe_dec_setround, fesetround, fenv save/restore/clear, text conversions and operations of every judged kind, run in one to four threads that each keep their own model; '
                     'operations with structured operands repeated under the four binary rounding modes. A case is one observed call with both modes checked; distinct cases are counted by (operation, operands, both modes).',
                steps=[S('envapi', 60000, 4000000, need=['set', 'invalid set', 'binary mode set', 'threads 1', 'threads 4', 'exact', 'inexact']), S('env', 600000, 20000000, need=['upward', 'downward', 'towardzero', 'tonearest', 'tonearestfromzero'])]),
    'P25': dict(rule='every public entry point with raw random bits, structured data, extreme integers, hostile texts (thousands of digits, truncated and malformed numbers, bytes above 127) and formats (widths and precisions to 8000), strings and buffers in heap blocks of exact size; '
                     'then the workloads of the other properties on the same instrumented build. A case is one call that returned under the sanitizers; the verdict is theirs alone. distinct cases are counted by (entry point, operands or text).',
                steps=[S('memsafe', 500000, 6000000, variant='asan', need=['exp', 'wcstod', 'strfrom', 'wprintf', 'istream', 'decoded'])]
                      + [S(g, q, t, variant='asan', sanitizer_only=True) for g, q, t in (('arith', 240000, 3000000), ('cvt', 240000, 3000000), ('icvt', 240000, 3000000), ('bcvt', 120000, 2000000), ('rint', 240000, 3000000), ('alg', 80000, 2000000), ('quant', 240000, 3000000), ('next', 240000, 3000000),
                         ('scale', 240000, 3000000), ('texp', 12000, 200000), ('ttrig', 6000, 100000), ('thyp', 6000, 100000), ('tspec', 12000, 300000), ('special', 120000, 3000000), ('printf', 80000, 2000000), ('mixed', 24000, 500000), ('strfrom', 80000, 2000000), ('parse', 120000, 2000000), ('ostream', 40000, 500000), ('istream', 20000, 300000), ('history', 80000, 1000000), ('sink', 20000, 500000))]
                      + [S('declog', 800000, 8000000, variant='asan', sanitizer_only=True), S('decoded', 80000, 1000000, variant='asan', sanitizer_only=True),
                         S('decctx', 160000, 8000000, variant='asan', sanitizer_only=True), S('dpd', 160000, 8000000, variant='asan', sanitizer_only=True), S('decfault', 40000, 2000000, variant='asan', sanitizer_only=True)]
                      + [S('locale', 10000, 500000, variant='asan', sanitizer_only=True, locales=True), S('leak', 20000, 500000, variant='asan', sanitizer_only=True, locales=True),
                         S('memsafe', 40000, 1000000, wrap=VALGRIND, need=['exp', 'strfrom']),
                         S('decfault', 12000, 400000, wrap=VALGRIND, env={'FAULT_NOFILL': '1'}, sanitizer_only=True, need=['refused']), S('declog', 240000, 8000000, wrap=VALGRIND, sanitizer_only=True)]),
    'P26': dict(rule='pools of 400 calls (every operation, format and mode, plus text conversions) with structured operands; each pool is recorded, then replayed in random order after scribbling over the stack and errno, in fresh threads, and concurrently on two to seven threads '
                     '(plain build and ThreadSanitizer build). A case is one replayed call compared with its recorded outcome; distinct cases are counted by call and position.',
                steps=[S('history', 60000, 4000000, need=['reordered', 'repeated']), S('threads', 60000, 4000000, need=['concurrently', 'in a fresh thread', 'threads 2', 'threads 7']), S('threads', 6000, 300000, variant='tsan', need=['concurrently'])]),
    'P27': dict(rule='operands of one to precision+6 digits in eight shapes, exponents near the partner, zero and both range ends, specials with payloads; five exponent ranges to 10^9; precisions 2 to 1000 (7, 16 and 34 favoured), four exponent ranges, clamp, eight rounding modes, result aliased to an operand in a quarter of the calls. '
                     'A case is one logged call recomputed by the checker; distinct cases are counted by log line.',
                steps=[S('declog', 6000000, 200000000, need=[k for k in ('exact', 'inexact', 'overflow', 'underflow', 'subnormal', 'clamped', 'nan', 'inf', 'power ', 'fma ', 'd128 ', 'bcd ', 'rescale ', 'xor ', 'next_toward ')])]),
    'P28': dict(rule='structured and raw data of the three formats under five rounding modes, and tag strings; a case is one call whose whole buffer was compared; distinct cases are counted by datum.', steps=[S('decoded', 400000, 20000000, need=['nan-constructor', 'negative exponent', 'zero', 'special'])]),
    'P20': dict(rule=TEXT_RULE, steps=[S('printf', 900000, 20000000, need=['fixed', 'exponent', 'general-fixed', 'general-exponent', 'a-fixed', 'a-exponent', 'nan', 'inf', 'zero', 'wide', 'very wide']),
                                       S('mixed', 500000, 10000000, need=['positional', 'mixed', 'all-decimal', 'vsnprintf'])]),
    'P21': dict(rule='strings are decimal text with 1 to three times the precision in digits (up to 900), kept digits followed by exact, just-below and just-above tie tails, leading zeros, the point anywhere, exponents '
                     'around zero, both range ends and far outside, special spellings, malformed and truncated numbers with trailing text; narrow and wide, endptr null or not, five rounding modes. Every call is judged on value, '
                     'exponent, sign, characters consumed, errno and rounding mode against an exact-integer parser; distinct cases are counted by (string, mode, format).',
                steps=[S('parse', 1800000, 15000000, need=['carried', 'clamped', 'exact', 'rounded', 'overflow', 'underflow', 'zero', 'inf', 'nan', 'no-conversion'])]),
    'P22': dict(rule=TEXT_RULE + ' Buffer sizes are 0..3, around the exact length, inside the text, and ample.', steps=[S('strfrom', 1400000, 20000000, need=['truncated', 'length-only', 'fixed', 'exponent', 'a-fixed', 'zero'])]),
    'P23': dict(rule='canonical data generated as for the arithmetic groups, printed by printf, wprintf or strfrom under one rounding mode and read by strtod or wcstod under another; judged when the whole text was consumed.',
                steps=[S('roundtrip', 1200000, 20000000, need=['a', 'a-wider', 'e', 'f', 'g', 'zero', 'special'])]),
    'P24': dict(rule='data as for P20 inserted under every combination of fixed/scientific/uppercase, precision 0..100, width, fill and adjustment; one to five printed or over-long numbers in one text extracted in sequence, followed by a tail '
                     'that is not a number; each insertion is judged on its text and stream state, each extraction on value, state and what remains unread.',
                steps=[S('ostream', 600000, 8000000, need=['long', 'general', 'fixed', 'scientific', 'hexfloat', 'special']), S('istream', 300000, 3000000, need=['exact', 'rest', 'failed-extraction', 'overflow', 'nan', 'inf', 'zero'])]),
    'P29': dict(rule='data and strings as for P20 and P21 under eleven locales set by setlocale or uselocale; the expected text is built from localeconv() values and an independent grouping of the digits.',
                steps=[S('locale', 300000, 5000000, locales=True, need=[l + w for l in ('de_DE.UTF-8', 'fr_FR.UTF-8', 'en_IN.UTF-8', 'ps_AF.UTF-8', 'unm_US.UTF-8', 'cmn_TW.UTF-8') for w in (' grouped', ' decimal point', ' parse own point')] + ['wide', 'read back'])]),
    'P30': dict(rule='every operation of the library, strtod, wcstod, strfrom, printf and wprintf conversions (valid, malformed, overlong, truncated), stream insertion and extraction, in four locales set globally or for the thread; each call is made once, then three times between two readings of '
                     'the allocator, descriptor and locale state. A case is one such triple; distinct cases are counted by call and argument.',
                steps=[S('leak', 300000, 6000000, locales=True, env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, need=[c + l for c in ('strtod', 'wcstod', 'strfrom', 'printf', 'wprintf', 'stream', 'operation') for l in ('', ' localised')])]),
    'P31': dict(rule='data and conversions as for P20 printed to unbuffered, tiny-buffered (1 to 80 bytes) and fully buffered streams whose device accepts everything or fails after a drawn number of bytes below the full length; one refused write among them; wide streams to a file that may grow only so far and to a full device. A case is one call with its flush, judged on '
                     'return value and the bytes the device received; distinct cases are counted by call.',
                steps=[S('sink', 700000, 10000000, need=[w + b + r for w in ('', 'w') for b in ('unbuffered', 'small buffer', 'buffered') for r in (' written', ' device full')])]),
    'P32': dict(rule='every kind of call as for P30, observed without faults, then repeated with its first, second, ... twelfth allocation failing (alone or with all later ones), then observed again; also with the data of the current locale no longer reachable, and on a stack of 64 KiB '
                     'with a guard page below it (widths and precisions up to nine million); and for the decNumber library forty operations of one to 600 digits in precisions of 1 to 600, with every allocation request refused in turn. A case is one call with all its repetitions; distinct cases are counted by call and argument.',
                steps=[S('fault', 40000, 2000000, locales=True, inject=True, env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, need=[c + l for c in ('strtod', 'wcstod', 'strfrom', 'printf', 'wprintf', 'stream', 'operation') for l in ('', ' localised')] + ['allocation failed', 'locale data gone', 'on a small stack']),
                       S('decfault', 240000, 12000000, need=['refused'] + [x + ' reported' for x in 'add subtract multiply divide divideint remainder remaindernear fma compare comparetotal max minmag exp ln log10 power sqrt fromstring nexttoward'.split()])]),
    'P33': dict(rule='histories of 2 to 15 steps (load with any flags, unload, print every type, print and parse decimals, register printf extensions, fork, threads that load and unload, locale) ended by exit handlers that print again, each in a new process not linked with the library; '
                     'plus preloading it and running it as a program. A case is one history; distinct histories are counted by their sequence of steps.',
                steps=[S('load', 1500, 60000, need=['step ' + x for x in 'open close plain decimal register fork thread'.split()] + ['unloaded', 'reopened', 'registered before load', 'preload', 'executed'])]),
    'P34': dict(rule='histories of up to 24 steps on a context set up by decContextDefault for every kind, known and unknown: the status functions with masks of none, one, two, all and random conditions, random enabled traps, and thirty-nine decNumber operations on operands that raise every condition. '
                     'A case is one step; distinct cases are counted by call, status before it and enabled traps.',
                steps=[S('decctx', 4000000, 200000000, need=['trap', 'operation trapping', 'operation quiet', 'default unknown kind', 'Multiple status', 'No status', 'Clamped', 'Underflow', 'Division undefined', 'TestStatus', 'TestSavedStatus', 'RestoreStatus', 'SaveStatus', 'ClearStatus', 'SetStatusFromStringQuiet', 'tointegralexact'])]),
    'P35': dict(rule='for both directions and three formats: finite data with coefficients of one to all digits (nines, zeros and nines, large digits, trailing zeros, around the change of coefficient form), every exponent, both signs; raw bits; infinities and NaNs; the decNumber conversions are called by a client compiled against the installed headers only. '
                     'A case is one conversion; distinct cases are counted by encoding and direction.',
                steps=[S('dpd', 4000000, 200000000, need=['%s %d %s' % (a, b, c) for a in ('bid to dpd', 'dpd to bid') for b in (32, 64, 128) for c in ('number', 'zero', 'infinity', 'nan')] + ['decimal%d %s' % (b, c) for b in (32, 64, 128) for c in ('number', 'infinity', 'nan', 'signalling nan')] + ['payload kept'])]),
    'P36': dict(rule='data of one to all digits with exponents around zero, the range ends and anywhere, infinities, NaNs and raw bits; every declared function is called three times in a row under two rounding modes and two values of errno, in programs compiled in seven modes of C and four of C++ and once without the installed headers; the macros get raw bits of the three decimal and three binary types. '
                     'A case is one logged call, compared with the copy compiled without optimization (for C: and without the headers), or one macro result, judged on the bits; distinct cases are counted by logged outcome.',
                steps=[S('headers', 150000, 6000000, jobs=1, need=['constants', 'macros _Decimal32', 'macros _Decimal64', 'macros _Decimal128', 'macros float', 'macros double', 'macros long double', 'c++ streams', 'c++ wide streams']
                         + [f + str(b) for b in (32, 64, 128) for f in ('nextafterd', 'nexttowardd', 'rintd', 'fmad', 'ldexpd', 'modfd', 'frexpd', 'strtod', 'wcstod', 'strfromd', 'powd', 'tgammad', 'isunorderedd', 'samequantumd', 'llrintd', 'nand', 'isnormald')])]),
}
