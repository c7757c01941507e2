// P25: memory safety and absence of undefined behaviour. Nothing is judged here but the sanitizers' and valgrind's verdict:
// every public entry point is driven with raw and structured data, its strings and buffers in heap blocks of the exact size.
#include "text.hpp"
#include "ios_calls.hpp"
#include <cwchar>
#include <climits>
extern "C" int shim_swprintf(wchar_t *, unsigned long, const wchar_t *, int, int, int, int, u128);
static const int FB[3] = {32, 64, 128};
static const char *MD[3] = {"H", "D", "DD"};
template <class T> struct Exact { T *p; size_t n; Exact(size_t k) : p((T *)malloc(k * sizeof(T) + (k == 0))), n(k) {} ~Exact() { free(p); } };
static void gen_hostile(Mon &m, const OpDesc *d, CallIn &in) {
  Rng &g = m.g; switch (g.n(4)) { case 0: in.a = ((u128)g.u() << 64) | g.u(); in.b = ((u128)g.u() << 64) | g.u(); in.c = ((u128)g.u() << 64) | g.u(); break;
    case 1: gen_case_any(m, d, in); in.a = gen_bits(g, fmt_of(d->fmt)); break; default: gen_case_any(m, d, in); }
  if (d->sig == S_DI_D) switch (g.n(4)) { case 0: in.i = (long long)g.u(); break; case 1: in.i = g.n(2) ? INT_MAX : INT_MIN; break; case 2: in.i = g.n(2) ? LONG_MAX : LONG_MIN; break; default: ; }
}
static std::string hostile_number(Rng &g) {
  std::string s; switch (g.n(6)) {
    case 0: { static const char al[] = "0123456789.eE+-nNaAiIfF(), x\t_'"; int n = (int)g.n(40); for (int i = 0; i < n; i++) s += al[g.n(sizeof al - 1)]; break; }
    case 1: { s = g.n(2) ? "-" : ""; s += std::string(g.n(3000), g.n(3) ? '0' : '9') + "." + std::string(g.n(3000), g.n(2) ? '0' : '5'); if (g.n(2)) s += "e" + std::to_string((long)g.u() >> g.n(63)); break; }
    case 2: { s = "nan(" + std::string(g.n(60), 'q') + (g.n(2) ? ")" : ""); break; }
    case 3: { s = "1e" + std::string(g.n(2) ? "-" : "") + std::string(1 + g.n(60), '9'); break; }
    case 4: { static const char *w[] = {"inf", "infinity", "nan", "nan()", "0x1p5", "1.", ".1", ".", "-.e1", "1e", "1e+", "", " ", "  -"}; s = w[g.n(14)]; break; }
    default: s = u128s(gen_coeff(g, 34)); s.insert(g.n(s.size() + 1), "."); s += "E" + std::to_string(g.r(-7000, 7000)); }
  return s; }
static void run_mem(Mon &m) {
  std::vector<const OpDesc *> ops; for (int i = 0; i < shim_nops; i++) if (m.o.only.empty() || m.o.only == shim_ops[i].name) ops.push_back(&shim_ops[i]);
  for (long i = 0; i < m.o.cases; i++) {
    Rng &g = m.g; int rm = (int)g.n(5), k = (int)g.n(m.o.only.empty() ? 16 : 1), FI = (int)g.n(3), fb = FB[FI]; const Fmt &f = fmt_of(fb); uint64_t h = g.s[0];
    if (k < 9) { const OpDesc *d = ops[(i + m.wid * 31 + g.n(7)) % ops.size()]; CallIn in; memset(&in, 0, sizeof in); gen_hostile(m, d, in); CallOut out; Env e; m.begin(d, rm, in); shim_call(d, rm, (int)g.n(2) * FE_INEXACT, (int)g.n(3), &in, &out, &e); m.saw(hmix(hmix((uint64_t)(d - shim_ops), in.a), in.b), d->name); continue; }
    u128 bits = g.n(3) ? gen_bits(g, f) : (((u128)g.u() << 64) | g.u()) & (f.bits == 128 ? ~(u128)0 : ((u128)1 << f.bits) - 1);
    if (k == 9 || k == 10) { std::string s = hostile_number(g); bool wide = k == 10; m.begin((wide ? "wcstod" : "strtod") + std::to_string(fb) + "(" + s.substr(0, 900) + ")"); shim_setround(rm); m.saw(hmix(std::hash<std::string>()(s), (uint64_t)fb + wide), wide ? "wcstod" : "strtod");
      if (wide) { Exact<wchar_t> b(s.size() + 1); for (size_t j = 0; j <= s.size(); j++) b.p[j] = (unsigned char)s.c_str()[j]; if (g.n(8) == 0 && s.size()) b.p[g.n(s.size())] = (wchar_t)(g.n(2) ? 0x2009 : 0x1f600); wchar_t *e; shim_wcstod(fb, b.p, g.n(4) ? &e : nullptr); }
      else { Exact<char> b(s.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1); if (g.n(8) == 0 && s.size()) b.p[g.n(s.size())] = (char)(128 + g.n(128)); char *e; shim_strtod(fb, b.p, g.n(4) ? &e : nullptr); if (g.n(8) == 0) shim_nan(fb, b.p); } continue; }
    if (k == 11) { std::string fm = "%"; if (g.n(3)) { fm += "."; int w = (int)g.n(6); fm += w == 0 ? "" : std::to_string(w == 1 ? g.n(10000) : g.n(60)); } fm += "aAeEfFgG"[g.n(8)]; if (g.n(12) == 0) { static const char *bad[] = {"%.2147483647e", "%.99999999999f", "%.2147483640g", "%.4294967297a", "%", "", "%d", "%.", "%.-1f", "f", "%%", "%.5", "%5f", "%.5ff", "x%f"}; fm = bad[g.n(15)]; }
      size_t n = g.n(3) ? g.n(40) : g.n(8000); Exact<char> b(n), fb2(fm.size() + 1); memcpy(fb2.p, fm.c_str(), fm.size() + 1); m.begin("strfromd" + std::to_string(fb) + "(" + std::to_string(n) + ", " + fm + ", 0x" + hexs(bits, fb) + ")"); shim_setround(rm); shim_strfrom(fb, n ? b.p : nullptr, n, fb2.p, bits); m.saw(hmix(hmix(bits, (uint64_t)n), std::hash<std::string>()(fm)), "strfrom"); continue; }
    if (k == 12 || k == 13) { std::string fm = "%"; static const char fl[] = "-+ 0#'"; int nf = (int)g.n(4); for (int j = 0; j < nf; j++) fm += fl[g.n(6)]; if (g.n(2)) fm += std::to_string(g.n(4) ? 1 + g.n(70) : 1 + g.n(6000)); if (g.n(2)) { fm += "."; if (g.n(6)) fm += std::to_string(g.n(4) ? g.n(60) : g.n(8000)); } fm += std::string(MD[FI]) + "aAeEfFgG"[g.n(8)];
      m.begin("printf(" + fm + ", 0x" + hexs(bits, fb) + ")"); shim_setround(rm); m.saw(hmix(bits, std::hash<std::string>()(fm)), k == 12 ? "printf" : "wprintf"); size_t n = g.n(3) ? g.n(60) : g.n(20000);
      if (k == 12) { Exact<char> b(n); shim_printf(n ? b.p : nullptr, n, fm.c_str(), 0, 0, 0, fb, bits); } else { Exact<wchar_t> b(n + 1); std::wstring wf(fm.begin(), fm.end()); shim_swprintf(b.p, n + 1, wf.c_str(), 0, 0, 0, fb, bits); } continue; }
    if (k == 14) { Exact<char> b(64); m.begin("decoded" + std::to_string(fb) + "(0x" + hexs(bits, fb) + ")"); shim_decoded(fb, bits, b.p); m.saw(hmix(bits, (uint64_t)fb), "decoded"); continue; }
    if (g.n(2)) { std::string out; long wa; bool good; int fl = (int)g.n(8); m.begin("ostream << d" + std::to_string(fb) + " 0x" + hexs(bits, fb)); ios_out(out, fb, bits, fl, g.n(8) ? (long)g.n(40) : (long)g.n(400), (int)g.n(80), '*', (int)g.n(3), wa, good); m.saw(hmix(bits, h), "ostream"); }
    else { std::string s = hostile_number(g); if (g.n(2)) s += " " + hostile_number(g); std::vector<int> kd; int n = 1 + (int)g.n(3); for (int j = 0; j < n; j++) kd.push_back(FB[g.n(3)]); std::vector<IosItem> it; std::string rest; m.begin("istream >> (" + s.substr(0, 900) + ")"); ios_in(s, kd, it, rest); m.saw(hmix(std::hash<std::string>()(s), h), "istream"); }
  }
  shim_setround(0);
}
static RegProp r1("memsafe", run_mem);
