// Group oraclelog: writes what the reference models say (no call of the library at all), for lib/selfcheck.py
// to recompute with independent implementations (libmpdec through Python's decimal; mpmath).
#include "ops.hpp"
#include "trans.hpp"
static std::string ds(const Num &n) { if (n.inf()) return n.neg ? "-Infinity" : "Infinity"; if (n.nan()) return n.k == KSNAN ? "sNaN" : "NaN"; return std::string(n.neg ? "-" : "") + u128s(n.c) + "E" + std::to_string(n.q); }
static void run_oraclelog(Mon &m) {
  FILE *f = fopen((m.o.out + "." + std::to_string(m.wid) + ".lines").c_str(), "w"); if (!f) _exit(3);
  static const char *OP[] = {"add", "sub", "mul", "div", "fma", "sqrt", "quantize", "toint", "cmp", "nextup", "nextdown", "rem", "remnear", "narrow"};
  for (long i = 0; i < m.o.cases; i++) {
    Rng &g = m.g; const Fmt &F = fmt_of((int[]){32, 64, 128}[g.n(3)]); int rm = (int)g.n(5), op = (int)g.n(14), fl = 0; u128 ab = gen_bits(g, F, 4), bb = gen_bits_rel(g, F, ab, 4), cb = gen_bits_rel(g, F, ab, 4);
    Num a = decode(F, ab), b = decode(F, bb), c = decode(F, cb), r; int cm = 9; bool inx = false; int of = F.bits; if (op == 13 && F.bits == 32) op = 0;
    switch (op) {
      case 0: r = o_add(F, rm, a, b, false, fl); break; case 1: r = o_add(F, rm, a, b, true, fl); break; case 2: r = o_mul(F, rm, a, b, fl); break; case 3: r = o_div(F, rm, a, b, fl); break;
      case 4: if (a.k == KSNAN || b.k == KSNAN || c.k == KSNAN) continue; r = o_fma(F, rm, a, b, c, fl); break; case 5: r = o_sqrt(F, rm, a, fl); break; case 6: r = o_quantize(F, rm, a, b, fl); break; case 7: r = o_toint(F, rm, a, inx, fl); break;
      case 8: if (a.nan() || b.nan()) continue; cm = o_cmp(a, b); break; case 9: r = o_next(F, a, true, fl); break; case 10: r = o_next(F, a, false, fl); break;
      case 11: r = o_rem(F, a, b, false, fl); break; case 12: r = o_rem(F, a, b, true, fl); break;
      case 13: { of = F.bits == 64 ? 32 : g.n(2) ? 32 : 64; if (a.nan()) continue; r = a.fin() ? o_add(fmt_of(of), rm, a, mkfin(a.neg, 0, a.q), false, fl) : a; break; }
    }
    m.saw(hmix(hmix(hmix(1, (uint64_t)op * 7 + rm), ab), bb), OP[op]);
    fprintf(f, "%s %d %d %d %s %s %s %s\n", OP[op], of, rm, fl, ds(a).c_str(), ds(b).c_str(), ds(c).c_str(), op == 8 ? std::to_string(cm).c_str() : ds(r).c_str());
  }
  fclose(f);
}
static RegProp r1("oraclelog", run_oraclelog);
