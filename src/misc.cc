// P28: decodedN and nanN.
#include "text.hpp"
#include <climits>
static const int FB[3] = {32, 64, 128};
static void run_decoded(Mon &m) {
  for (long i = 0; i < m.o.cases; i++) {
    Rng &g = m.g; const Fmt &f = fmt_of(FB[g.n(3)]); u128 bits = gen_bits(g, f, 5); Num n = decode(f, bits); int rm = (int)g.n(5); std::string what = "decoded" + std::to_string(f.bits) + "(0x" + hexs(bits, f.bits) + "(" + nstr(n) + "))";
    if (g.n(50) == 0) { static const char *tags[] = {"", "0", "12", "abc_9", "x)y", "99999999999999999999999999999999999999999"}; const char *t = tags[g.n(6)]; std::string w = "nand" + std::to_string(f.bits) + "(\"" + t + "\")"; m.begin(w); shim_setround(rm); feclearexcept(FE_ALL_EXCEPT); u128 r = shim_nan(f.bits, t); Num k = decode(f, r); m.saw(hmix(std::hash<std::string>()(w), (uint64_t)rm), "nan-constructor");
      if (!k.nan() || k.k == KSNAN) m.fail("nan:" + std::to_string(f.bits), w + " returned 0x" + hexs(r, f.bits) + ", not a quiet NaN"); if (fetestexcept(FE_INVALID)) m.fail("nan:flag", w + " raised invalid"); continue; }
    bool canonical = n.canon; char buf[80]; memset(buf, 0x5a, sizeof buf); m.begin(what); shim_setround(rm); char *r = shim_decoded(f.bits, bits, buf); std::string got(buf, strnlen(buf, sizeof buf));
    if (r != buf) m.fail("decoded:result", what + " did not return its buffer"); if (got.size() >= sizeof buf) { m.fail("decoded:unterminated", what); continue; } if (shim_getround() != rm) m.fail("decoded:round-mode", what + " changed the rounding mode");
    if (got[0] != (n.neg ? '-' : '+')) m.fail("decoded:sign" + std::to_string(f.bits), what + " printed " + got); if (!n.fin() || (!canonical && n.c != 0) || (n.c == 0 && !canonical)) { m.saw(hmix(bits, (uint64_t)f.bits), "special"); continue; }
    std::string d = u128s(n.c); d = std::string(f.p - d.size(), '0') + d; std::string want = n.neg ? "-" : "+"; for (int k = 0; k < f.p; k++) { if (k && (f.p - k) % 3 == 0) want += ','; want += d[k]; } want += "E" + std::string(n.q < 0 ? "-" : "+") + std::to_string(abs(n.q));
    m.saw(hmix(bits, (uint64_t)f.bits), n.c == 0 ? "zero" : n.q < 0 ? "negative exponent" : "other"); if (got != want) m.fail("decoded" + std::to_string(f.bits) + (n.c == 0 ? ":zero" : ":finite"), what + " expected " + want + " got " + got);
    if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + got);
  }
  shim_setround(0);
}
static RegProp r1("decoded", run_decoded);
