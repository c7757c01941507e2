"""Statement of every property (source of properties.jsonl and of the checks in MANIFEST.json)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))

prop('P01', 'Basic arithmetic is correctly rounded, with the ideal quantum',
     'For every pair of _Decimal32/64/128 operands (any encoding, finite, infinite or NaN) and every decimal rounding mode, +, -, * and / return exactly the IEEE 754-2008 result: the infinitely precise value rounded once in the current mode, with the ideal (preferred) exponent when exact, correct signed zeros, infinities on overflow as the mode dictates, gradual underflow, and NaN exactly where the operation is invalid or an operand is NaN.',
     ['inputs', 'configurations'], 'all operand pairs of the three formats x all five rounding modes',
     'Wrong results hide in single operand pairs (half-ulp ties, cancellation, range ends, cohort members, non-canonical encodings) under directed modes; the tests use a few dozen literal pairs, nearly all in round-to-nearest.',
     ['libbid/bid128_add.c', 'libbid/bid128_mul.c', 'libbid/bid128_div.c', 'libbid/bid64_add.c', 'libbid/bid64_mul.c', 'libbid/bid64_div.c', 'libbid/_addsub_td.c', 'libbid/_mul_td.c', 'libbid/_div_td.c', 'libbid/_addsub_dd.c'],
     [('arithmetic entry points called by compiled code', 'libbid/_addsub_*.c, _mul_*.c, _div_*.c'), ('rounding of exact intermediate results', 'libbid/bid*_add.c, bid*_mul.c, bid*_div.c, bid_internal.h')],
     'runtime monitoring against an exact-integer reference oracle', 'Every executed operation is judged bit for bit (value, quantum, sign, special values) against an independent big-integer model of IEEE 754 decimal arithmetic that is itself cross-checked with libmpdec. Sampling, not proof: operand space is explored by structure-directed generation.')
prop('P02', 'Comparisons are exact and treat NaN as unordered',
     'For all operand pairs and encodings the six comparison operators and the quiet comparison macros decide the mathematical order of the two values: members of one cohort are equal, +0 equals -0, infinities are ordered outside all finite values, and any NaN is unordered (every relation except != is then false).',
     ['inputs'], 'all operand pairs of the three formats, every comparison operator and macro',
     'Equality of different encodings of one value and near-equal values across exponents depend on scaling paths that a few sample pairs do not reach.',
     ['libbid/_eq_td.c', 'libbid/bid128_compare.c', 'libbid/bid64_compare.c', 'ieee754r/isgreaterd32.c', 'ieee754r/isunorderedd32.c'],
     [('comparison operators', 'libbid/_{eq,ne,lt,le,gt,ge,unord}_*.c'), ('quiet comparison functions', 'ieee754r/is*.c, dfp/math.h macros')],
     'runtime monitoring against an exact-integer reference oracle', 'Every executed comparison is judged against exact rational comparison.')
prop('P03', 'Conversions between decimal formats are exact or correctly rounded',
     'Widening conversions preserve value, sign and quantum of every datum; narrowing conversions return the value correctly rounded in the current decimal rounding mode, with the exponent kept when it fits, infinity or the largest finite value on overflow as the mode dictates, and gradual underflow. NaN converts to NaN and infinity to the same infinity.',
     ['inputs', 'configurations'], 'all data of each source format x the two other formats x five rounding modes',
     'Ties, carries across the precision boundary, subnormal destinations and clamped exponents occur in isolated inputs.',
     ['libbid/_dd_to_sd.c', 'libbid/_td_to_dd.c', 'libbid/_td_to_sd.c', 'libbid/_sd_to_dd.c', 'libbid/bid32_to_bid64.c', 'libbid/bid64_to_bid128.c', 'libbid/bid32_to_bid128.c'],
     [('format conversions emitted by the compiler', 'libbid/_*d_to_*d.c'), ('narrowing with rounding', 'libbid/bid*_to_bid*.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Every executed conversion is judged bit for bit against the exact model.')
prop('P04', 'Integer conversions truncate exactly and round correctly',
     'Converting a decimal whose truncated value fits an integer type (32, 64 or 128 bits, signed or unsigned) yields exactly that truncated value; converting any integer to a decimal format yields the integer correctly rounded, once, in the current decimal rounding mode, exactly when it fits the precision.',
     ['inputs', 'configurations'], 'all in-range decimals x six integer types; all integers x three formats x five rounding modes',
     'Errors sit at type limits, at halfway integers longer than the precision and in double rounding through an intermediate format.',
     ['libbid/_td_to_di.c', 'libbid/_di_to_sd.c', 'libbid/_si_to_td.c', 'base-math/floattitd.c', 'base-math/fixtdti.c', 'libbid/bid_from_int.c'],
     [('decimal to integer', 'libbid/_*d_to_*.c, base-math/fix*.c'), ('integer to decimal', 'libbid/_*i_to_*d.c, base-math/float*.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Every executed conversion is judged exactly; out-of-range conversions (undefined in C) are excluded.')
prop('P06', 'Rounding to integral values follows the named or current direction',
     'ceil, floor, trunc, round and roundeven return the integral value in their fixed direction whatever the rounding mode, rint, nearbyint, lrint and llrint use the current decimal rounding mode, and lround/llround round halfway cases away from zero; results are exact, zeros keep the sign of the argument, and integer-valued, infinite and NaN arguments come back unchanged in value.',
     ['inputs', 'configurations'], 'all data of the three formats x five rounding modes',
     'Halfway values with many digits and fractions just off a half or an integer, under each mode, are not sampled by the tests.',
     ['ieee754r/ceild32.c', 'ieee754r/floord32.c', 'ieee754r/truncd32.c', 'ieee754r/roundd32.c', 'ieee754r/roundevend32.c', 'ieee754r/rintd32.c', 'ieee754r/nearbyintd32.c', 'ieee754r/lrintd32.c', 'ieee754r/llroundd32.c'],
     [('integral rounding through decNumber', 'ieee754r/*d32.c templates'), ('rounding mode mapping', 'dfp/fenv.h, ieee754r/fe_dec_*.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Every executed call is judged exactly; rint must also raise inexact exactly when the value changes and nearbyint never.')
prop('P07', 'fma rounds once; sqrt, fmod, remainder and fdim are exact',
     'fma returns x*y+z rounded once in the current mode, sqrt the correctly rounded square root, fmod and remainder the exact remainder for every finite dividend and finite non-zero divisor however far their exponents are apart, and fdim the rounded positive difference; invalid operands give NaN.',
     ['inputs', 'configurations'], 'all operand tuples of the three formats; all rounding modes for fma and fdim',
     'Double rounding, cancellation of product and addend, and remainders of operands thousands of orders of magnitude apart need specific operand tuples.',
     ['ieee754r/fmad32.c', 'ieee754r/sqrtd32.c', 'sysdeps/bid/fmodd32.c', 'ieee754r/remainderd32.c', 'ieee754r/fdimd32.c', 'libdecnumber/decNumber.c'],
     [('single-rounding fma', 'ieee754r/fmad32.c, libdecnumber/decNumber.c decNumberFMA'), ('exact remainder', 'ieee754r/remainderd32.c, sysdeps/bid/fmodd32.c'), ('square root', 'ieee754r/sqrtd32.c, libdecnumber/decNumber.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged exactly; sqrt in round-to-nearest only (the library computes it in that mode), fmod(x, Inf) excluded because the tests pin NaN there.')
prop('P08', 'quantize, samequantum, quantum and quantexp are faithful to exponents',
     'quantize(x, y) returns x rounded in the current mode to exactly the exponent of y, or NaN when the result needs more digits than the format holds; samequantum compares exponents (two NaNs or two infinities match), quantum returns one unit in the last place of its argument, and llquantexp its exponent.',
     ['inputs', 'configurations'], 'all operand pairs of the three formats x five rounding modes',
     'Coefficient overflow after rounding, zeros with extreme exponents and the range ends of the exponent are single points in the operand space.',
     ['ieee754r/quantized32.c', 'ieee754r/samequantumd32.c', 'ieee754r/quantumd32.c', 'ieee754r/llquantexpd32.c'],
     [('quantize through decNumber', 'ieee754r/quantized32.c'), ('exponent extraction', 'ieee754r/llquantexpd32.c, quantumd32.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged bit for bit (coefficient, exponent and sign) against the exact model.')
prop('P09', 'Neighbour functions step to the adjacent representable value',
     'nextup and nextdown return the least representable value greater, and the greatest less, than the argument; nextafter and nexttoward step by exactly one such neighbour towards the second operand, and return it (or the first, when equal); stepping crosses zero, powers of ten, the subnormal boundary and the overflow boundary correctly in every format.',
     ['inputs'], 'all data of the three formats, both directions',
     'The interesting arguments (powers of ten, shortest and longest cohort members, subnormals, largest finite) are a vanishing part of the operand space.',
     ['ieee754r/nextupd32.c', 'ieee754r/nextdownd32.c', 'ieee754r/nextafterd32.c', 'ieee754r/nexttowardd32.c'],
     [('neighbour computation', 'ieee754r/next*.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged by value against the exact neighbour.')
prop('P10', 'Exponent manipulation is exact',
     'ldexp, scalbn and scalbln multiply by a power of ten exactly (rounding once in the current mode only when the result is subnormal or overflows) for every scale factor of the parameter type; frexp and modf split a value without loss; logb, ilogb and llogb return the exact decimal exponent of every finite non-zero value.',
     ['inputs', 'configurations'], 'all data x all integer scale factors x five rounding modes',
     'Extreme scale factors, values at the range ends and long coefficients need arguments no test lists.',
     ['ieee754r/scalbnd32.c', 'ieee754r/scalblnd32.c', 'ieee754r/ldexpd32.c', 'ieee754r/frexpd32.c', 'ieee754r/modfd32.c', 'ieee754r/logbd32.c', 'ieee754r/ilogbd32.c'],
     [('scaling', 'ieee754r/scalbnd32.c'), ('exponent extraction', 'ieee754r/logbd32.c, ilogbd32.c, llogbd32.c'), ('splitting', 'ieee754r/frexpd32.c, modfd32.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged exactly (values, integer outputs and second results).')
prop('P11', 'Minimum, maximum and sign operations select the right operand',
     'fmax/fmin (and fmaxmag/fminmag by magnitude) return the larger/smaller operand by value, ignoring a single quiet NaN; copysign and fabs change nothing but the sign, for every datum including zeros, infinities, NaNs and every cohort member.',
     ['inputs'], 'all operand pairs of the three formats',
     'Equal-magnitude operands, different cohorts, signed zeros and NaN combinations multiply beyond what examples list.',
     ['ieee754r/fmaxd32.c', 'ieee754r/fmind32.c', 'ieee754r/fmaxmagd32.c', 'ieee754r/fminmagd32.c', 'ieee754r/copysignd32.c', 'ieee754r/fabsd32.c'],
     [('selection', 'ieee754r/fmax*.c, fmin*.c'), ('sign manipulation', 'ieee754r/copysignd32.c, fabsd32.c')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged exactly; signalling-NaN operands of min/max are excluded (library returns NaN or operand).')
prop('P12', 'Classification of every encoding is correct',
     'fpclassify, isfinite, isinf, isnan, issignaling, isnormal and signbit (functions and type-generic macros) classify every bit pattern of the three formats according to IEEE 754: zeros (including non-canonical coefficients), subnormals, normals, infinities, quiet and signalling NaNs, and their sign.',
     ['inputs'], 'all bit patterns of the three formats',
     'Boundaries between subnormal and normal depend on coefficient digits as well as exponent, and non-canonical encodings are never written as literals.',
     ['ieee754r/fpclassifyd32.c', 'ieee754r/isfinited32.c', 'ieee754r/isinfd32.c', 'ieee754r/isnand32.c', 'ieee754r/issignalingd32.c', 'ieee754r/isnormald32.c', 'ieee754r/signbitd32.c', 'dfp/math.h'],
     [('classification functions', 'ieee754r/is*.c, fpclassifyd32.c'), ('type-generic macros', 'dfp/math.h')],
     'runtime monitoring against an exact-integer reference oracle', 'Judged exactly against an independent decoder of the BID encoding.')
REF = 'runtime monitoring against a high-precision reference'
prop('P13', 'Exponentials, logarithms and powers are accurate over the whole range',
     'exp, exp2, expm1, log, log2, log10, log1p and pow return, for every argument in their domain and in every format, the exact result rounded to nearest up to 0.05 units in the last place (0.55 units in all; 0.75 for 32- and 128-bit exp and 32- and 64-bit log, three units for 128-bit log and arguments of log near one, a few tens for 64-bit exp; 1.05 units under the directed modes, a few for exp and log, where 64-bit pow is bounded more loosely), down into the subnormal range. Results beyond the range become a correctly signed infinity with ERANGE or a correctly signed underflow.',
     ['inputs', 'configurations'], 'all finite arguments in the domain, three formats, five rounding modes',
     'Table entries, argument reduction and the switch points between methods each govern a small slice of the arguments; a wrong digit in one of hundreds of table constants spoils only results that use it.',
     ['ieee754r/expd64.c', 'ieee754r/expd128.c', 'ieee754r/t_expd128.h', 'ieee754r/ddlogtbls.h', 'ieee754r/logd64.c', 'ieee754r/logd128.c', 'ieee754r/powd64.c', 'ieee754r/powd128.c', 'ieee754r/exp2d32.c', 'ieee754r/expm1d32.c', 'ieee754r/log1pd32.c', 'ieee754r/log2d32.c', 'ieee754r/log10d32.c', 'decNumberMath/decNumberMath.c'],
     [('table-driven exp and log', 'ieee754r/expd64.c, expd128.c, logd64.c, logd128.c and their tables'), ('decNumber based functions', 'decNumberMath/decNumberMath.c, libdecnumber decNumberExp/Ln/Power')],
     REF, 'Error measured in units of the last place against 80-digit binary arithmetic; bounds are set from observed errors with margin and listed in DESIGN.md.')
prop('P14', 'Trigonometric functions and their inverses are accurate',
     'sin, cos, tan, asin, acos, atan and atan2 return a value within 0.55 units in the last place of the exact result in round-to-nearest and 1.05 under the directed modes (twenty for tan, six for 128-bit asin and acos) for every argument in their domain and every format, with the right quadrant and sign. For sin, cos and tan this holds as far as a 60-digit value of pi carries: the absolute error stays below 2e-59 times the argument.',
     ['inputs', 'configurations'], 'all finite arguments in the domain, three formats, five rounding modes',
     'Arguments next to multiples of pi/2, to one, and at the switch points of the reductions are rare; accuracy there does not follow from accuracy elsewhere.',
     ['ieee754r/sind32.c', 'ieee754r/cosd32.c', 'ieee754r/tand32.c', 'ieee754r/asind32.c', 'ieee754r/acosd32.c', 'ieee754r/atand32.c', 'ieee754r/atan2d32.c', 'decNumberMath/decNumberMath.c'],
     [('series and reductions', 'decNumberMath/decNumberMath.c decNumberSin/Cos/Tan/Atan/Atan2'), ('rational approximations', 'ieee754r/asind*.c, acosd*.c')],
     REF, 'The reference reduces arguments with thousands of digits of pi; results of sin, cos and tan that miss the bound because the library reduces with 60 digits are a known finding, bounded by what that reduction can cost.')
prop('P15', 'Hyperbolic functions and their inverses are accurate',
     'sinh, cosh, tanh, asinh, acosh and atanh return a value within 0.55 units in the last place of the exact result in round-to-nearest and 1.05 under the directed modes for every argument in their domain and every format, including arguments close to zero, to one and to the overflow limit; results beyond the range become a correctly signed infinity with ERANGE.',
     ['inputs', 'configurations'], 'all finite arguments in the domain, three formats, five rounding modes',
     'Cancellation for small arguments and early overflow for large ones spoil only parts of the domain.',
     ['ieee754r/sinhd32.c', 'ieee754r/coshd32.c', 'ieee754r/tanhd32.c', 'ieee754r/asinhd32.c', 'ieee754r/acoshd32.c', 'ieee754r/atanhd32.c', 'decNumberMath/decNumberMath.c'],
     [('compositions of exp, ln and sqrt at raised precision', 'decNumberMath/decNumberMath.c')],
     REF, 'Error measured in units of the last place against 80-digit binary arithmetic.')
prop('P16', 'Error functions, gamma functions, cube root and hypot are accurate',
     'cbrt and hypot return a value within 0.55 units in the last place in round-to-nearest (1.5 for 128-bit cbrt), without undue overflow or underflow, erf, erfc, lgamma and tgamma a value within the bounds stated in DESIGN.md for each format and part of the domain (from one unit to the loss inherent in exponentiating a rounded logarithm), always with the right sign; overflow gives a correctly signed infinity with ERANGE.',
     ['inputs', 'configurations'], 'all finite arguments in the domain, three formats, five rounding modes',
     'Each of some sixty polynomial coefficients and a dozen interval ends governs one slice of the arguments only.',
     ['ieee754r/erfd32.c', 'ieee754r/lgammad32.c', 'ieee754r/tgammad32.c', 'ieee754r/cbrtd32.c', 'ieee754r/hypotd32.c', 'decNumberMath/decNumberMath.c'],
     [('rational approximations by interval', 'ieee754r/erfd32.c, lgammad32.c'), ('Newton iteration and scaling', 'ieee754r/cbrtd*.c, decNumberMath/decNumberMath.c decNumberHypot')],
     REF, 'Near the roots of lgamma the absolute error is judged. Gamma functions are judged for arguments between -2300 and the overflow limit.')
prop('P17', 'Special arguments, poles and domain errors follow ISO C, and errno tells',
     'For NaN, infinite, zero and boundary arguments every mathematical function returns the value ISO C annex F prescribes (exact value, sign of zero and infinity, limits like pi/2), a domain error gives NaN with EDOM and the invalid exception, a pole a correctly signed infinity with ERANGE and divide-by-zero. Every other operation leaves errno alone, except that range overflow of fdim, ldexp, scalbn and nextafter gives ERANGE, and unrepresentable integer results and invalid fma EDOM.',
     ['inputs', 'configurations'], 'all special and out-of-domain arguments of every function, three formats, five rounding modes; errno of every operation for all operands',
     'The cases combine signs, parities, cohort members and encodings of the special values (pow alone has some thirty rules); errno must stay unchanged for every other input.',
     ['ieee754r/powd64.c', 'ieee754r/powd128.c', 'ieee754r/atan2d32.c', 'ieee754r/hypotd32.c', 'ieee754r/tgammad32.c', 'ieee754r/lgammad32.c', 'ieee754r/logd128.c', 'ieee754r/llroundd32.c', 'ieee754r/nexttowardd32.c', 'sysdeps/bid/fmodd32.c', 'include/dfpmacro.h'],
     [('errno and exceptions set by the wrappers', 'INTERNAL_FUNCTION_NAME in ieee754r/*.c, DFP_ERRNO, DFP_EXCEPT'), ('special-case tables', 'ieee754r/powd64.c, powd128.c, atan2d32.c')],
     'runtime monitoring against a table of the ISO C rules', 'Judged exactly. Whether underflow sets errno is left open, as in ISO C; fmod(x, Inf) is NaN with EDOM because the tests pin it.')
prop('P18', 'Exception flags are raised when required and never lowered',
     'For operands that are not signalling NaNs, sqrt, fma, fmod, remainder, fdim, quantize, ldexp, scalbn, scalbln, frexp, modf, the logb family, the functions that round to an integral value, conversions between decimal and integer types and all 128-bit +, -, * raise exactly the flags IEEE 754 requires: invalid for operands outside the domain (integers that do not fit included), overflow, underflow and inexact from the exact result. For the other arithmetic and narrowing conversions invalid, divide-by-zero and overflow are exact and underflow is never missed (spurious inexact is possible). Quiet operations (comparison of numbers, min/max, sign, classification) raise nothing. No operation of the library ever lowers a flag that was already raised.',
     ['inputs', 'histories'], 'all operands, rounding modes and initial flag states, for every operation of the library',
     'Flags depend on exactness and range of single results, and sticky behaviour on the flags present beforehand; tests check a few literal cases with clear flags.',
     ['libbid/_addsub_td.c', 'libbid/bid_internal.h', 'dfp/fenv.h', 'ieee754r/rintd32.c', 'sysdeps/bid/bid-private.c', 'include/dfpfenv_private.h'],
     [('status transfer to the floating-point environment', 'libbid __set_status_flags / include/dfpfenv_private.h'), ('decNumber status mapping', '__dfp_set_status, ieee754r templates')],
     'runtime monitoring of the exception state against an exact oracle', 'Observed flags are compared with those the exact model derives; the per-operation set of guaranteed flags is stated in DESIGN.md (spurious inexact of 32/64-bit arithmetic, narrowing conversions and nextafter is not excluded).')
TXT = 'runtime monitoring against an independent text-conversion reference'
prop('P20', 'printf prints decimal values exactly as ISO C specifies',
     'For %H, %D and %DD with a/A e/E f/F g/G, any flags, width, precision and rounding mode, the printf and wprintf families produce exactly the characters the C standard (and TS 18661-2 for %a) prescribes - correctly rounded once in the current mode, right sign, padding and inf/nan spelling - return the number of characters, never write past the buffer, and leave other conversions in the same call (int, string, double, long double, positional arguments) untouched.',
     ['inputs', 'configurations', 'programs'], 'all data x all conversion specifications x five rounding modes x mixed argument lists',
     'Rounding carries, style switches of %g and %a, and width arithmetic meet at single combinations of value, precision and flags.',
     ['printf-hooks/printf_dfp.c', 'printf-hooks/init_dfp.c', 'include/get_digits.h', 'sysdeps/soft-dfp/bid/numdigits.h'],
     [('conversion and rounding of digits', 'printf-hooks/printf_dfp.c __printf_dfp'), ('argument fetching and registration', 'printf-hooks/printf_dfp.c __dfp_ais, d32_va..., init_dfp.c')],
     TXT, 'Judged character for character on every executed call, narrow and wide; grouping and locale separators are P29.')
prop('P21', 'strtod and wcstod convert text to the nearest decimal value',
     'strtod32/64/128 and wcstod32/64/128 accept exactly the ISO C / TS 18661-2 decimal grammar (leading space, sign, digits with point and exponent, inf, infinity, nan, nan(...)), set endptr just past it (or to the start when there is none), return the written digits and exponent unchanged when they fit and otherwise the value rounded once in the current mode, and report overflow as infinity and underflow as a tiny value or zero of the right sign, both with ERANGE; errno is otherwise untouched.',
     ['inputs', 'configurations'], 'all strings x three formats x five rounding modes',
     'Strings longer than the precision, values a hair away from a tie, and exponents around both range ends have to be constructed.',
     ['stdlib/strtod32.c', 'stdlib/strtod64.c', 'stdlib/strtod128.c', 'stdlib/wcstod32.c', 'sysdeps/soft-dfp/bid/numdigits.h'],
     [('parser and digit accumulation', 'stdlib/strtod32.c FUNCTION_L_INTERNAL'), ('exponent adjustment', 'sysdeps/soft-dfp/bid/numdigits.h setexp')],
     TXT, 'A nonzero number whose last kept digit lies below the least exponent of the format may come back as zero (the test suite pins this) or correctly rounded.')
prop('P22', 'strfrom formats into a bounded buffer like snprintf',
     'strfromd32/64/128(s, n, format, x) with a %[.precision]{a,A,e,E,f,F,g,G} format writes the same characters as the corresponding printf conversion, never more than n bytes including the terminator, always terminates when n is not zero, and returns the length the full result has.',
     ['inputs', 'configurations'], 'all data x all formats x all buffer sizes x five rounding modes',
     'Truncation points at every position of the output and every precision are combinations no test list covers.',
     ['stdlib/strfromd32.c', 'stdlib/strfromd64.c', 'stdlib/strfromd128.c', 'printf-hooks/printf_dfp.c'],
     [('bounded output', 'stdlib/strfromd32.c'), ('conversion', 'printf-hooks/printf_dfp.c')],
     TXT, 'Judged byte for byte with a guard byte behind the buffer; formats outside the specified set are not exercised.')
prop('P23', 'Printed values read back unchanged',
     'A datum printed with %a (printf, wprintf or strfrom) and read back with strtod or wcstod of the same or a wider format comes back as the same datum (sign, coefficient and exponent, also for zeros), and one printed with enough digits by %e, %f or %g comes back with the same value, whatever rounding modes are in force on either side.',
     ['inputs', 'configurations'], 'all canonical data of the three formats x print style x rounding mode pairs',
     'Round trips are a relation between two functions over the whole value space; tests compare each against literals.',
     ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'stdlib/strtod32.c', 'stdlib/wcstod32.c'],
     [('printing', 'printf-hooks/printf_dfp.c'), ('parsing', 'stdlib/strtod32.c')],
     'runtime monitoring of a round-trip relation', 'Texts with digits below the least exponent are excluded (see P21).')
prop('P24', 'C++ stream operators write and read decimal values faithfully',
     "Inserting a decimal32/64/128 into an ostream writes exactly the text printf gives for the conversion TR 24733 assigns to the stream's fixed, scientific and uppercase flags and precision (capped at the digits of the type), padded by width, fill and adjustment, however long that text is; extracting skips white space, takes the characters of one number and no more, assigns its correctly rounded value, and sets failbit exactly when there is no number.",
     ['inputs', 'configurations', 'histories'], 'all data x stream flags, precisions and widths; all sequences of extractions from a text',
     'Fixed output of large magnitudes, numbers followed by other text, and several extractions from one stream are not among the single literal cases tested.',
     ['dfp/decimal/decimal'],
     [('insertion', 'dfp/decimal/decimal LIBDFP_META::decimal_to_string'), ('extraction', 'dfp/decimal/decimal __extract_decimal')],
     TXT, 'showpos, showpoint, internal adjustment and stream-specific locales are not exercised (the operators do not support them).')
prop('P29', 'Printing and parsing follow the numeric conventions of the locale',
     "Under any locale, set globally or for the thread, decimal printf and wprintf use its decimal point and, with the ' flag, its thousands separator at the places its grouping rule defines, output multibyte separators whole, and return the right count; strtod and wcstod accept its decimal point and stop at any other.",
     ['inputs', 'configurations'], 'all data and strings x locales (grouping 3, 4, 3;2, 2;2;2;3 and none; one-byte and multibyte separators)',
     'The test suite runs in one locale; separators of several bytes and irregular grouping only exist in others.',
     ['printf-hooks/printf_dfp.c', 'stdlib/strtod32.c'],
     [('locale lookup and grouping', 'printf-hooks/printf_dfp.c group_ends, outsep'), ('decimal point recognition', 'stdlib/strtod32.c')],
     TXT, 'Eleven locales compiled from the installed sources into a scratch directory; field widths together with multibyte separators are not judged (unit unspecified).')

prop('P19', 'The decimal rounding mode is a validated per-thread setting of its own',
     'fe_dec_setround accepts exactly the five decimal modes (rejecting anything else with a nonzero result and no change), fe_dec_getround and FLT-style queries report the last accepted mode of the calling thread, new threads start in round-to-nearest, and that mode governs every rounding of the thread until it is changed. Decimal and binary rounding modes never influence or disturb one another: no operation other than the two setters changes either mode.',
     ['histories', 'schedules', 'configurations'], 'every history of mode changes, binary environment changes and operations in one to four threads',
     'Leaks of a temporarily changed mode, of one thread into another or of the binary mode into decimal results show only in particular histories of calls; tests set a mode and look at one result.',
     ['sysdeps/soft-dfp/bid/fe_decround.c', 'sysdeps/soft-dfp/decroundtls.c', 'dfp/fenv.h', 'libbid/bid_decimal_globals.c', 'libbid/bid64_div.c', 'printf-hooks/printf_dfp.c'],
     [('rounding mode access functions', 'sysdeps/soft-dfp/bid/fe_decround.c'), ('thread-local mode', 'libbid/bid_decimal_globals.c, sysdeps/soft-dfp/decroundtls.c'), ('hand-over to decNumber and to the binary environment', 'libdecnumber/, base-math/')],
     'runtime monitoring: online model of the rounding state over random histories', 'Each history is checked against a per-thread state machine of both modes, and every operation in it against the exact oracle under the mode the model predicts; a second workload repeats single operations under all four binary modes.',
     [dict(name='rounding modes', meaning='decimal and binary rounding mode of the thread, read after every call', where='sysdeps/soft-dfp/decroundtls.c, libbid/bid_decimal_globals.c')])
prop('P25', 'No call is memory-unsafe or undefined',
     'No public function reads or writes outside the objects it was given or owns, uses memory it has released, lets an uninitialised value decide anything, divides by zero, overflows signed arithmetic, indexes or shifts out of range, crashes or fails to return, for any encoding of its decimal arguments, any integer argument, any null-terminated text, any valid conversion specification and any buffer size.',
     ['inputs', 'configurations'], 'all encodings, texts, formats, buffer sizes, locales and rounding modes reaching every public function',
     'Out-of-range table indices, one-byte overruns at exact buffer sizes and uninitialised work areas are silent in ordinary runs and need particular inputs; tests run uninstrumented.',
     ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'stdlib/strtod32.c', 'ieee754r/expd64.c', 'libdecnumber/decNumber.c', 'libbid/bid128_to_int64.c', 'sysdeps/bid/decode.c', 'dfp/decimal/decimal', 'base-math/floattitd.c'],
     [('text conversion buffers', 'printf-hooks/printf_dfp.c, stdlib/strfromd32.c, stdlib/strtod32.c'), ('table lookups by exponent or integer part', 'ieee754r/expd*.c, libbid/bid_decimal_data.c, include/get_digits.h'), ('decNumber work areas', 'libdecnumber/decNumber.c')],
     'AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck', 'The library and the monitors are built with ASan and UBSan; every workload of the other properties plus a hostile one (raw bits, exact-size heap buffers, huge widths and precisions, broken texts) runs on that build, and the hostile one again under memcheck, which also tracks uninitialised values. UBSan runs without object-size (false reports) and shift-base (defined by GCC).')
prop('P26', 'Results depend on the arguments alone, in any order and from any thread',
     'Any call of the library gives the same value, status flags, errno and output whatever was called before it, whatever garbage lies on the stack, whatever errno was and however many threads call the library at once (given equal rounding modes and locale). The library has no data race in concurrent use of its functions.',
     ['schedules', 'histories', 'inputs'], 'every order and every interleaving of calls on one to seven threads',
     'Residue in static or thread-local state, uninitialised locals and unsynchronised caches make results wrong only after particular earlier calls or in particular interleavings.',
     ['libbid/bid_decimal_globals.c', 'libbid/bid_conf.h', 'libbid/bid_internal.h', 'printf-hooks/printf_dfp.c', 'include/get_digits.h', 'include/dfpacc.h'],
     [('thread-local status and rounding state', 'libbid/bid_decimal_globals.c'), ('static tables and buffers', 'base-math/, ieee754r/, libdecnumber/')],
     'record-and-replay monitor of whole-call outcomes; ThreadSanitizer', 'Pools of calls are recorded once and replayed in random orders, in fresh threads and concurrently, and must reproduce every recorded outcome bit for bit; the concurrent workload also runs on a ThreadSanitizer build of the library.',
     [dict(name='outcome of a call', meaning='result bits, exception flags, errno and text', where='libbid/bid_decimal_globals.c (the only mutable state the library keeps)')])

prop('P05', 'Conversions between decimal and binary floating point round correctly',
     'Converting a decimal to float, double, long double or _Float128 and back yields the value correctly rounded once in the current decimal rounding mode (with gradual underflow and overflow as the mode dictates), exact values with the exponent closest to zero; zeros, infinities and quiet NaNs convert to themselves with their sign and no rounding mode is disturbed.',
     ['inputs', 'configurations'], 'all decimal data x four binary formats, all binary data x three decimal formats, five rounding modes',
     'A correctly rounded conversion between radices turns on values within a hair of a midpoint between two numbers of the other radix, which have to be constructed with big integers; tests compare a few literals.',
     ['libbid/_dd_to_df.c', 'libbid/_td_to_sf.c', 'libbid/_df_to_dd.c', 'libbid/_xf_to_td.c', 'libbid/_tf_to_sd.c', 'libbid/bid_functions.h', 'libbid/bid_gcc_intrinsics.h'],
     [('conversions emitted by the compiler', 'libbid/_{sd,dd,td}_to_{sf,df,xf,tf}.c and the reverse'), ('type selection and rounding mode hand-over', 'libbid/bid_gcc_intrinsics.h, bid_functions.h')],
     'runtime monitoring against an exact-integer reference oracle', 'The conversion cores are linked in from the compiler runtime; three of their deviations are recorded as known findings.')
prop('P27', 'decNumber results and status follow the General Decimal Arithmetic spec',
     'Every operation of the installed decNumber library (libdecnumber.a: arithmetic, comparison, min/max, quantize/rescale, integral, next, logical, shift/rotate/scaleb, exp/ln/log10/power/sqrt, and conversions to and from strings, integers, BCD and decimal32/64/128) returns the result and sets exactly the status the General Decimal Arithmetic specification defines, under every context (precision, exponent range, clamp, eight rounding modes). The transcendental operations are within one unit in the last place. Operands may be aliases of the result.',
     ['inputs', 'configurations'], 'all operands x contexts of 2 to 1000 digits, five exponent ranges (to 10^9), clamp on/off, eight rounding modes',
     'Multi-unit coefficients, residues and exponent clamping interact only for particular lengths, paddings and ranges; libdfp has no test of this library beyond what its own functions happen to reach.',
     ['libdecnumber/decNumber.c', 'libdecnumber/decContext.c', 'libdecnumber/bid/decimal64.c', 'libdecnumber/bid/decimal128.c', 'libdecnumber/bid/decimal32.c', 'libdecnumber/bid/bid2dpd_dpd2bid.c'],
     [('every decNumber operation and its status', 'libdecnumber/decNumber.c'), ('packed format conversions', 'libdecnumber/bid/decimal{32,64,128}.c')],
     'recorded event log judged by an offline checker', 'A driver calls the built library and logs operands, context, result string and status of every call; an offline checker recomputes each record with libmpdec (Python decimal), an independent implementation. Contexts of one digit, exponent ranges narrower than a format and NaN payloads wider than a clamped context are outside the workload; where the two specifications of power(-Infinity, non-integer) differ nothing is judged.')
prop('P28', 'decoded and nan functions show the datum and make quiet NaNs',
     'decodedN writes the sign, all coefficient digits in groups of three and the unbiased exponent of its argument, for every canonical finite datum, terminated inside the documented buffer, and returns the buffer. nandN returns a quiet NaN for every tag string without raising invalid.',
     ['inputs'], 'all data of the three formats and arbitrary tag strings',
     'The printed exponent and grouping depend on bit fields that only particular encodings exercise; tests print a handful of values.',
     ['sysdeps/bid/decode.c', 'ieee754r/nand32.c', 'ieee754r/nand64.c', 'ieee754r/nand128.c'],
     [('encoding field extraction', 'sysdeps/bid/decode.c, include/dfpacc.h')],
     'runtime monitoring against an independent decoder', 'Non-canonical data, infinities and NaNs are only judged on sign and termination: the function has no documented form for them.')

prop('P30', 'Calls leave nothing behind: no memory, descriptor or locale change',
     'Once a kind of call has been made, repeating it - any function of the library, successful or not, in any locale - leaves no memory allocated, no file descriptor open, and the global and per-thread locale as they were.',
     ['inputs', 'configurations', 'histories'], 'all arguments, texts, formats and buffer sizes, in five global and per-thread locales',
     'A block lost on one error path, or only under a locale other than C, is invisible to a test that checks results; it shows as growth of a long-running process.',
     ['stdlib/strtod32.c', 'stdlib/wcstod32.c', 'stdlib/strfromd32.c', 'printf-hooks/printf_dfp.c', 'dfp/decimal/decimal', 'libdecnumber/decNumber.c'],
     [('locale objects taken for each parse', 'stdlib/strtod32.c FUNCTION_L_INTERNAL and its callers'), ('memory stream of strfrom', 'stdlib/strfromd32.c'), ('buffers beyond the stack sizes', 'libdecnumber/decNumber.c')],
     'runtime monitoring of allocator, descriptor and locale state around repeated calls', 'The allocated bytes (malloc with its thread cache switched off, so that the count is exact), the lowest free descriptor and both locales are compared before and after three repetitions of every call. What the C library itself loses in newlocale when LOCPATH is set is measured and allowed for.',
     [dict(name='heap in use', meaning='bytes allocated and not freed', where='stdlib/strtod32.c (freelocale on every path), stdlib/strfromd32.c (fclose)')])
prop('P31', 'Decimal output to a stream is complete or reported as failed',
     'Writing a decimal to a byte or wide stream, buffered or not, produces the whole conversion however small the buffer is; when the device stops accepting bytes, the call or the following flush reports the error and what did get through is a prefix of the conversion.',
     ['fault_sequences', 'inputs', 'configurations'], 'all data and conversions x buffering modes and sizes x a device failing after any number of bytes',
     'Errors in the middle of padding, digits or exponent need a device that fails at that byte; the tests only print to memory.',
     ['printf-hooks/printf_dfp.c', 'printf-hooks/init_dfp.c'],
     [('character output and its error returns', 'printf-hooks/printf_dfp.c outchar, PADN, PRINT')],
     'runtime monitoring with fault injection in the output device', 'A custom stream records what the device received and fails at a drawn byte, for good or once; wide output goes to a file that may grow only so far and to a full device.')
prop('P32', 'Exhausted resources are survived and reported',
     'When memory cannot be had at any point of a call, or the data of the locale in use are out of reach, the call gives its ordinary result or reports the failure as its interface allows (a count that is negative or zero, a failed stream or std::bad_alloc, ENOMEM with nothing consumed, NaN from an operation; from a decNumber operation a quiet NaN with Insufficient storage in the status) and never a wrong number or text, a crash or a hang; nothing is leaked, rounding mode and locale are as before, and the next call works. No call needs more than 64 KiB of stack, whatever the length of the text, the width or the precision.',
     ['fault_sequences', 'inputs', 'configurations'], 'every public call x any allocation failing, once or for good x locale data present or gone',
     'A missing check of one allocation shows only when that very allocation fails; the tests never run out of memory.',
     ['stdlib/strtod32.c', 'printf-hooks/printf_dfp.c', 'dfp/decimal/decimal', 'libdecnumber/decNumber.c', 'libdecnumber/decNumberLocal.h', 'ieee754r/remainderd32.c'],
     [('locale objects', 'stdlib/strtod32.c newlocale/freelocale'), ('working buffers', 'printf-hooks/printf_dfp.c'), ('local buffers and their heap fallback', 'libdecnumber/decNumberLocal.h DECBUFFER, decNumber.c')],
     'runtime monitoring with injected allocation failures', 'The allocator is replaced for the observed thread and fails the n-th request made inside the library; the outcome is compared with that of the same call without faults. The decNumber archive is linked with an allocator that records and refuses its requests.')
prop('P33', 'Loading and unloading the library disturbs nothing',
     'Whether the library is linked, preloaded, or loaded with dlopen late, repeatedly, from any thread or in a forked child, and before or after the application registers printf extensions of its own, decimal printing and parsing work from then on, the conversions of all other types and the application\'s extensions print what they print without it, and neither dlclose, in any order, nor process exit breaks any later output.',
     ['histories', 'schedules', 'configurations'], 'all sequences of loading, unloading, printing, registering, forking, threads and exit',
     'What is left behind by unloading shows in a later call of the application, in a history no test of the linked library contains.',
     ['printf-hooks/init_dfp.c', 'printf-hooks/printf_dfp.c', 'Makefile.in', 'sysdeps/generic/libdfp-version.c'],
     [('registration at load time', 'printf-hooks/init_dfp.c __libdfp_init, printf-hooks/printf_dfp.c __register_printf_dfp'), ('link options of the shared library', 'Makefile.in SHARED_REALNAME_LIB')],
     'runtime monitoring of load/unload histories', 'A program not linked with the library runs drawn histories, each in a process of its own, and compares every conversion with what it printed before the library was ever loaded.')
prop('P34', 'A decContext accumulates status and traps exactly what is enabled',
     'decContextDefault gives every kind its documented settings. Status conditions only accumulate until cleared: each status function changes, tests, saves or restores exactly the conditions named by its mask or string and nothing else in the context; SIGFPE is raised exactly when a condition being raised is enabled in traps and never by the quiet functions. A decNumber operation adds to the status what it raises on a fresh context, traps if any of that is enabled, and its result does not depend on earlier status or on the traps; the class reported for a number is the right one.',
     ['histories', 'configurations'], 'all sequences of context calls and operations x initial kinds x trap masks',
     'Status left by earlier operations reaches a later one only in a long-lived context; the tests use a fresh context without traps for each call.',
     ['libdecnumber/decContext.c', 'libdecnumber/decContext.h', 'libdecnumber/decNumber.c'],
     [('status, traps and their names', 'libdecnumber/decContext.c'), ('delivery of status by operations', 'libdecnumber/decNumber.c decStatus, decFinalize')],
     'runtime monitoring of context histories against a model', 'The model holds the status and the settings; operations are compared with the same call on a fresh context without traps (whose result and status P27 judges). The logarithmic functions are called only with the contexts they document.')
prop('P35', 'BID, DPD and decNumber hold the same number after every conversion',
     'Converting between the two decimal interchange encodings, and between _Decimal32, _Decimal64 or _Decimal128 and decNumber through the installed headers, changes nothing: sign, coefficient with its trailing zeros, and exponent of every finite datum are kept, and there and back gives the canonical encoding; non-canonical coefficients are zeros with their exponent and non-canonical declets have their defined value; infinities and quiet and signalling NaNs keep their kind and sign, and a payload put into a NaN from a decNumber comes back.',
     ['inputs'], 'all encodings of the three formats in both directions',
     'Every decNumber-based function of the library passes through these tables and bit fields; a wrong entry shows for one declet in one position.',
     ['libdecnumber/bid/bid2dpd_dpd2bid.c', 'libdecnumber/bid/bid2dpd_dpd2bid.h', 'libdecnumber/decDPD.h', 'libdecnumber/dpd/decimal64.c', 'libdecnumber/dpd/decimal128.c', 'libdecnumber/dpd/decimal32.c', 'libdecnumber/decConvert.h'],
     [('encoding conversions', 'libdecnumber/bid/bid2dpd_dpd2bid.c'), ('packing and unpacking of coefficients', 'libdecnumber/dpd/decimal64.c decDigitsToDPD, decDigitsFromDPD')],
     'runtime monitoring against an independent model of the encodings', 'The model computes declets from their boolean definition. Payload digits of NaNs are not translated between BID and DPD by this library, and are judged only for decNumber -> _DecimalN -> decNumber.')
prop('P36', 'Programs compiled against the installed headers get what the library computes',
     'In every language mode (gnu89 to C23, C++98 to C++20), feature-test setting and optimization level, a program including the installed math.h, stdlib.h, wchar.h, fenv.h or decimal/decimal compiles and gets from each declared function that the library provides the value, the errno and the stored results the library computes for that call under the rounding mode in force, even when the same call was made before. The type-generic classification macros give an int that is right for float, double, long double and the decimal types and evaluate their argument once; the constants are correctly rounded and the names of the rounding modes mean their directions. Streams of wide characters insert and extract the same text and value as narrow ones.',
     ['inputs', 'configurations'], 'all declared functions and macros x arguments x language modes x optimization levels',
     'An attribute, a macro or a prototype that misleads the compiler changes results only in some modes, at some optimization levels and for calls made twice; the tests are compiled one way.',
     ['dfp/math.h', 'dfp/bits/dfp_dmathcalls.h', 'dfp/stdlib.h', 'dfp/wchar.h', 'dfp/fenv.h', 'dfp/float.h', 'dfp/decimal/decimal'],
     [('declarations and their attributes', 'dfp/bits/dfp_dmathcalls.h'), ('type-generic macros', 'dfp/math.h __dfp_compatible, __dfp_dN, fpclassify'), ('constants', 'dfp/math.h M_Edl and others')],
     'runtime monitoring of one client compiled in many modes', 'The copies run the same calls and log value and errno of each; the reference is compiled with -O0 -fno-builtin and prototypes of its own instead of the installed headers. Macros are judged on the bits. Declared functions the library does not define (Bessel functions, remquo, ...) are not called.')
