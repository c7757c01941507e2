// P30: resources and output errors.
//  leak: no call leaves memory, a file descriptor or a changed locale behind.
//  sink: decimal conversions on streams that buffer, do not buffer, or fail after some bytes.
#include "text.hpp"
#include "ios_calls.hpp"
#include <clocale>
#include <cwchar>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <malloc.h>
extern "C" int shim_swprintf(wchar_t *, unsigned long, const wchar_t *, int, int, int, int, u128);
extern "C" int shim_fprintf(FILE *, const char *, int, int, int, int, u128);
extern "C" int shim_fwprintf(FILE *, const wchar_t *, int, int, int, int, u128);
static const int FB[3] = {32, 64, 128}; static const char *MD[3] = {"H", "D", "DD"};
static std::string number_text(Rng &g, const Fmt &f, char point) {
  std::string s; switch (g.n(8)) { case 0: { static const char *w[] = {"inf", "INFINITY", "nan", "nan(12)", "nan(x", "", "x", "-", "+.", "0", "-0.000", "0e99999", "1e99999999", "-1e-99999999"}; s = w[g.n(14)]; break; }
    case 1: s = std::string(g.n(3000), '9') + "." + std::string(g.n(2000), '5'); break;
    default: s = u128s(gen_coeff(g, 1 + (int)g.n(f.p + 4 > 38 ? 38 : f.p + 4))); if (g.n(2)) s.insert(g.n(s.size() + 1), "."); if (g.n(2)) s += "e" + std::to_string(g.r(-f.emax() - 60, f.emax() + 40)); if (g.n(3) == 0) s = (g.n(2) ? " -" : "+") + s; }
  for (auto &c : s) if (c == '.' && point) c = point; return s; }
static void run_leak(Mon &m) {
  mallopt(M_MXFAST, 0); // with glibc.malloc.tcache_count=0 in the environment, every freed block counts as free at once
  static const char *LOCS[] = {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "C"}; Rng &g = m.g; std::vector<locale_t> lt; for (auto l : LOCS) { locale_t x = newlocale(LC_ALL_MASK, l, 0); if (!x) { fprintf(stderr, "locale %s missing\n", l); exit(3); } lt.push_back(x); }
  static char nbuf[20000]; static wchar_t wbuf[20000]; static wchar_t wtext[6000]; static wchar_t wf[80]; int nl = 5;
  for (int li = 0; li < nl * 8; li++) { const char *ln = LOCS[(li + m.wid) % nl]; if (!setlocale(LC_ALL, ln)) exit(3); bool th = g.n(3) == 0; int ti = (int)g.n(nl); uselocale(th ? lt[ti] : LC_GLOBAL_LOCALE); char point = *localeconv()->decimal_point; if (point < 0) point = ','; std::string lname = th ? LOCS[ti] : ln;
    // glibc's own newlocale loses a copy of LOCPATH each time (GNU bug); the library may call it up to six times per call
    auto nl1 = [] { locale_t x = newlocale(LC_ALL_MASK, setlocale(LC_ALL, 0), 0); freelocale(x); }; nl1(); size_t c0 = mallinfo2().uordblks; nl1(); size_t c_loss = mallinfo2().uordblks - c0;
    for (long it = 0; it < m.o.cases / (nl * 8) + 1; it++) {
      int FI = (int)g.n(3), fb = FB[FI], rm = (int)g.n(5); const Fmt &f = fmt_of(fb); u128 bits = gen_bits(g, f); Num n = decode(f, bits); if (n.fin() && g.n(2)) { n.q = clampq(f, g.r(-60, 60)); bits = encode(f, n); }
      std::string fmt = "%", text, what; const char *cls; int k = (int)g.n(10); std::function<void()> call; shim_setround(rm);
      char conv = "aAeEfFgG"[g.n(8)]; int prec = g.n(3) ? (int)g.n(50) : g.n(8) ? -1 : (int)g.n(4000);
      switch (k) {
        case 0: case 1: { text = number_text(g, f, g.n(4) ? point : '.'); cls = "strtod"; what = cls + std::to_string(fb) + "(\"" + text.substr(0, 700) + "\")"; call = [&] { char *e; shim_strtod(fb, text.c_str(), g.s[0] & 1 ? &e : nullptr); }; break; }
        case 2: case 3: { text = number_text(g, f, g.n(4) ? point : '.'); for (size_t i = 0; i <= text.size(); i++) wtext[i] = (unsigned char)text.c_str()[i]; cls = "wcstod"; what = cls + std::to_string(fb) + "(\"" + text.substr(0, 700) + "\")"; call = [&] { wchar_t *e; shim_wcstod(fb, wtext, &e); }; break; }
        case 4: { if (prec >= 0) fmt += "." + std::to_string(prec); fmt += conv; if (g.n(8) == 0) { static const char *bad[] = {"%x", "%", "", "f", "%5f", "%.3", "%.2Hf", "%.10i", "%+e", "x%f"}; fmt = bad[g.n(10)]; } size_t sz = g.n(3) ? g.n(60) : sizeof nbuf; cls = "strfrom"; what = cls + std::to_string(fb) + "(" + std::to_string(sz) + ", " + fmt + ", " + nstr(n) + ")"; call = [&, sz] { shim_strfrom(fb, sz ? nbuf : nullptr, sz, fmt.c_str(), bits); }; break; }
        case 5: case 6: { static const char fl[] = "-+ 0#'"; for (int j = (int)g.n(4); j > 0; j--) fmt += fl[g.n(6)]; if (g.n(2)) fmt += std::to_string(1 + g.n(g.n(6) ? 60 : 3000)); if (prec >= 0) fmt += "." + std::to_string(prec); fmt += std::string(MD[FI]) + conv; cls = k == 5 ? "printf" : "wprintf"; what = std::string(cls) + "(" + fmt + ", " + nstr(n) + ")";
          for (size_t i = 0; i <= fmt.size(); i++) wf[i] = fmt.c_str()[i]; size_t sz = g.n(3) ? g.n(60) : 20000; bool narrow = k == 5; call = [&, sz, narrow] { if (narrow) shim_printf(sz ? nbuf : nullptr, sz, fmt.c_str(), 0, 0, 0, fb, bits); else shim_swprintf(wbuf, sz + 1 > 20000 ? 20000 : sz + 1, wf, 0, 0, 0, fb, bits); }; break; }
        case 7: { cls = "stream"; text = number_text(g, f, 0); what = "stream << and >> d" + std::to_string(fb) + " " + nstr(n) + " \"" + text.substr(0, 500) + "\""; int fl = (int)g.n(8); long pr = (long)g.n(60); call = [&, fl, pr] { std::string out, rest; long wa; bool good; ios_out(out, fb, bits, fl, pr, 12, '*', 1, wa, good); std::vector<IosItem> items; ios_in(text, {fb, fb}, items, rest); }; break; }
        case 8: { cls = "decoded"; what = "decoded/nan " + nstr(n); call = [&] { shim_decoded(fb, bits, nbuf); shim_nan(fb, "1x"); }; break; }
        default: { const OpDesc *d = &shim_ops[g.n(shim_nops)]; CallIn in; memset(&in, 0, sizeof in); gen_case_any(m, d, in); cls = "operation"; what = describe_call(d, rm, in); call = [=] { CallOut o; Env e; shim_call(d, rm, 0, 0, &in, &o, &e); }; } }
      m.begin(lname + ": " + what); call(); // warm: what the C library keeps for good on first use
      auto fd = [] { int x = open("/dev/null", O_RDONLY); if (x >= 0) close(x); return x; }; int d0 = fd(); locale_t l0 = uselocale(0); std::string g0 = setlocale(LC_ALL, 0); size_t u0 = mallinfo2().uordblks; call(); call(); call(); size_t u1 = mallinfo2().uordblks; int d1 = fd();
      m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(what)), (uint64_t)k), (std::string(cls) + (lname == "C" ? "" : " localised")).c_str());
      if (u1 > u0 + 18 * c_loss) m.fail(std::string("leak:memory:") + cls, lname + ": " + what + ": three calls left " + std::to_string(u1 - u0) + " bytes allocated");
      if (d1 != d0) m.fail(std::string("leak:fd:") + cls, lname + ": " + what + " left a file descriptor open"); if (uselocale(0) != l0 || g0 != setlocale(LC_ALL, 0)) m.fail(std::string("leak:locale:") + cls, lname + ": " + what + " changed the locale");
      if ((m.evals & 0x3fff) == 1) m.sample(lname + ": " + what + " left nothing behind"); } }
  uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); shim_setround(0);
}
static RegProp r1("leak", run_leak);
// ---- streams -------------------------------------------------------------------------------
struct Sink { std::string got; size_t room; bool failed; bool once; };
static ssize_t sink_write(void *c, const char *b, size_t n) { Sink *s = (Sink *)c; if (s->once && s->failed) s->room = (size_t)1 << 20; if (s->got.size() + n > s->room) { size_t k = s->room - s->got.size(); s->got.append(b, k); if (k) return (ssize_t)k; s->failed = true; errno = ENOSPC; return 0; } s->got.append(b, n); return (ssize_t)n; }
static void run_sink(Mon &m) {
  Rng &g = m.g; static char vb[8192]; signal(SIGXFSZ, SIG_IGN); rlimit rl0; getrlimit(RLIMIT_FSIZE, &rl0);
  for (long i = 0; i < m.o.cases; i++) {
    int FI = (int)g.n(3), fb = FB[FI], rm = (int)g.n(5); const Fmt &f = fmt_of(fb); u128 bits = gen_bits(g, f, 6); Num n = decode(f, bits); if (n.fin() && g.n(3)) { n.q = clampq(f, g.r(-40, 20)); bits = encode(f, n); }
    Spec s; s.conv = "aAeEfFgG"[g.n(8)]; s.prec = g.n(2) ? -1 : (int)g.n(40); s.left = g.n(3) == 0; s.plus = g.n(4) == 0; s.zero = g.n(4) == 0; s.alt = g.n(4) == 0; if (g.n(2)) s.width = 1 + (int)g.n(60); if (g.n(1500) == 0) { static const int B[] = {128, 256, 1024, 4096, 8192, 32768, 65536}; (g.n(2) ? s.prec : s.width) = B[g.n(7)] + (int)g.r(-2, 2); }
    std::string fmt = std::string("%") + (s.left ? "-" : "") + (s.plus ? "+" : "") + (s.zero ? "0" : "") + (s.alt ? "#" : "") + (s.width > 0 ? std::to_string(s.width) : "") + (s.prec >= 0 ? "." + std::to_string(s.prec) : "") + MD[FI] + s.conv, exp = ref_format(n, rm, s);
    if (g.n(3) == 0) { fmt = "<" + fmt + ">"; exp = "<" + exp + ">"; } bool wide = g.n(4) == 0; int mode = (int)g.n(3); size_t bs = 1 + g.n(80);
    Sink sk{"", g.n(3) ? g.n(exp.size() + 1) : (size_t)1 << 20, false, false}; if (sk.room > exp.size()) sk.room = 1 << 20; bool fits = sk.room >= exp.size();
    cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr}; std::string tf = m.o.tmp + "/sink." + std::to_string(m.wid); bool full = wide && !fits && g.n(4) == 0; if (full) sk.room = 0; if (!wide && !fits) sk.once = g.n(3) == 0; FILE *fp = wide ? fopen(full ? "/dev/full" : tf.c_str(), "w") : fopencookie(&sk, "w", io); if (!fp) exit(3); if (mode == 0) setvbuf(fp, 0, _IONBF, 0); else if (mode == 1) setvbuf(fp, vb, _IOFBF, bs);
    std::string what = std::string(wide ? "fwprintf" : "fprintf") + "(\"" + fmt + "\", d" + std::to_string(fb) + " 0x" + hexs(bits, fb) + "(" + nstr(n) + ")) rm=" + rmname(rm) + (mode == 0 ? " unbuffered" : mode == 1 ? " buffer of " + std::to_string(bs) : " buffered") + (fits ? "" : ", the device takes " + std::to_string(sk.room) + " bytes" + (sk.once ? " and then refuses one write" : "")); size_t room0 = sk.room;
    m.begin(what); shim_setround(rm); int r; if (wide && !fits && !full) { rlimit rl = rl0; rl.rlim_cur = room0; if (setrlimit(RLIMIT_FSIZE, &rl)) exit(3); } if (wide) { wchar_t wf[100]; for (size_t j = 0; j <= fmt.size(); j++) wf[j] = fmt.c_str()[j]; r = shim_fwprintf(fp, wf, 0, 0, 0, fb, bits); } else r = shim_fprintf(fp, fmt.c_str(), 0, 0, 0, fb, bits);
    int fl = fflush(fp); fclose(fp); if (wide && !fits && !full) setrlimit(RLIMIT_FSIZE, &rl0); if (wide && !full) { FILE *rf = fopen(tf.c_str(), "r"); static char rb[200000]; size_t k = fread(rb, 1, sizeof rb, rf); fclose(rf); sk.got.assign(rb, k); } std::string kc = std::string(wide ? "w" : "") + (mode == 0 ? "unbuffered" : mode == 1 ? "small buffer" : "buffered");
    m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(what)), (uint64_t)i), (kc + (fits ? " written" : sk.once ? " one write refused" : full || sk.room == 0 ? " device full" : " device fills up")).c_str());
    if (fits) { if (r != (int)exp.size() || fl) m.fail("sink:return:" + kc, what + " wrote " + std::to_string(exp.size()) + " characters but returned " + std::to_string(r) + (fl ? " and the flush failed" : "")); else if (sk.got != exp) m.fail("sink:text:" + kc, what + " expected \"" + exp + "\" got \"" + sk.got + "\""); }
    else if (sk.once) { if (r >= 0 && fl == 0 && sk.got != exp) m.fail("sink:lost:once " + kc, what + " returned " + std::to_string(r) + ", the flush succeeded and \"" + sk.got + "\" was written, not \"" + exp + "\""); }
    else { if (r >= 0 && fl == 0) m.fail("sink:lost:" + kc, what + " returned " + std::to_string(r) + " and the flush succeeded"); else if (mode == 0 && r >= 0) m.fail("sink:unreported:" + kc, what + " returned " + std::to_string(r)); if (exp.compare(0, sk.got.size(), sk.got)) m.fail("sink:prefix:" + kc, what + " wrote \"" + sk.got + "\", not the beginning of \"" + exp + "\""); }
    if ((m.evals & 0x3fff) == 1) m.sample(what + " = " + std::to_string(r));
  }
  shim_setround(0);
}
static RegProp r2("sink", run_sink);
