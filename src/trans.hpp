// High-precision references for the transcendental functions.
// 32/64-bit formats: libquadmath (113-bit, far beyond 16 digits); 128-bit: Boost.Multiprecision, 80 digits.
#pragma once
#include "oracle.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/gmp.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/constants/constants.hpp>
namespace bmp = boost::multiprecision;
typedef bmp::number<bmp::cpp_bin_float<80, bmp::digit_base_10, void, int32_t, -4000000, 4000000>, bmp::et_off> R;
static inline R p10r(long e) { static std::map<long, R> t; auto it = t.find(e); if (it != t.end()) return it->second; R r = e >= 0 ? bmp::pow(R(10), (int)e) : R(1) / bmp::pow(R(10), (int)-e); t[e] = r; return r; }
static inline R u128r(u128 c) { R r = (unsigned long long)(c >> 64); r = bmp::ldexp(r, 64); return r + (unsigned long long)c; }
static inline R numr(const Num &n) { R r = u128r(n.c); if (n.q >= 0) r *= p10r(n.q); else r /= p10r(-n.q); return n.neg ? R(-r) : r; }
