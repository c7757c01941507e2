// The stream operators of dfp/decimal/decimal, called the way a C++ program does.
#define __STDC_WANT_DEC_FP__ 1
#include <float.h>
#include <decimal/decimal>
#include <iomanip>
#include <sstream>
#include <cstring>
#include "ios_calls.hpp"
void (*ios_go)(), (*ios_halt)();
template <class D, class V> static void put(std::ostringstream &os, u128 v) { V x; memcpy(&x, &v, sizeof x); D d; d.__setval(x); if (ios_go) ios_go(); os << d; if (ios_halt) ios_halt(); }
void ios_out(std::string &out, int bits, u128 v, int flags, long precision, int width, char fill, int adjust, long &width_after, bool &good) {
  std::ostringstream os; if (flags & 1) os.setf(std::ios::fixed); if (flags & 2) os.setf(std::ios::scientific); if (flags & 4) os.setf(std::ios::uppercase); os.precision(precision); os.width(width); os.fill(fill); if (adjust == 1) os.setf(std::ios::left, std::ios::adjustfield); if (adjust == 2) os.setf(std::ios::right, std::ios::adjustfield);
  if (bits == 32) put<decimal32, decimal32::__decfloat32>(os, v); else if (bits == 64) put<decimal64, decimal64::__decfloat64>(os, v); else put<decimal128, decimal128::__decfloat128>(os, v);
  width_after = os.width(); good = os.good(); out = os.str(); }
template <class D, class V> static IosItem get(std::istringstream &is, int bits) { D d; V x = d.__getval(); if (ios_go) ios_go(); is >> d; if (ios_halt) ios_halt(); x = d.__getval(); IosItem it{!is.fail(), bits, 0}; memcpy(&it.v, &x, sizeof x); return it; }
void ios_in(const std::string &text, const std::vector<int> &kinds, std::vector<IosItem> &items, std::string &rest) {
  std::istringstream is(text); for (int k : kinds) { items.push_back(k == 32 ? get<decimal32, decimal32::__decfloat32>(is, k) : k == 64 ? get<decimal64, decimal64::__decfloat64>(is, k) : get<decimal128, decimal128::__decfloat128>(is, k)); if (!items.back().ok) break; }
  is.clear(); char c; while (is.get(c)) rest += c; }
