// P32: calls under exhausted resources.
//  fault: each call is observed, then repeated with its 1st, 2nd, ... allocation failing (once or for good), then observed again;
//         strings and conversions also after the locale's data have become unreachable; and every call on a small stack.
#include "text.hpp"
#include "ios_calls.hpp"
#include <clocale>
#include <cwchar>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <ucontext.h>
extern "C" int shim_swprintf(wchar_t *, unsigned long, const wchar_t *, int, int, int, int, u128);
static const int FB[3] = {32, 64, 128}; static const char *MD[3] = {"H", "D", "DD"};
static void (*arm)(long, int); static long (*disarm)(long *);
// allocations are counted, and failed, from go() to halt() only: the library's, not those the monitor makes around it
static long pend, nseen, nfailed; static int pend_lasting; static long kept, used0;
static void go() { used0 = (long)mallinfo2().uordblks; long left = pend - nseen; arm(left > 0 ? left : pend && pend_lasting ? 1 : 0, pend_lasting); }
static void halt() { long n; nfailed += disarm(&n); nseen += n; kept += (long)mallinfo2().uordblks - used0; }
static void inject(long n, int lasting) { pend = n; pend_lasting = lasting; nseen = nfailed = kept = 0; }
// what one call showed: everything it gave, and whether it reported a failure
struct Seen { std::string r; bool reported; };
static const size_t STACK = 64 * 1024;
static char *stk; static ucontext_t back, there; static std::function<void()> *job; static bool threw;
static void on_stack() { try { (*job)(); } catch (const std::bad_alloc &) { threw = true; } }
// run f on 64 KiB of stack above a guard page; returns the bytes it used (or touched)
static size_t small_stack(std::function<void()> f) {
  if (!stk) { stk = (char *)mmap(0, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (stk == MAP_FAILED) exit(3); mprotect(stk, 65536, PROT_NONE); stk += 65536; }
  memset(stk, 0xa5, STACK); getcontext(&there); there.uc_stack.ss_sp = stk; there.uc_stack.ss_size = STACK; there.uc_link = &back; job = &f; threw = false; makecontext(&there, on_stack, 0); swapcontext(&back, &there);
  size_t i = 0; while (i < STACK && (unsigned char)stk[i] == 0xa5) i++; return STACK - i; }
static std::string number_text(Rng &g, const Fmt &f, char point) {
  std::string s; switch (g.n(8)) { case 0: { static const char *w[] = {"inf", "INFINITY", "nan", "nan(12)", "nan(x", "", "x", "-", "+.", "0", "-0.000", "0e99999", "1e99999999", "-1e-99999999", "InFiNiTyX"}; s = w[g.n(15)]; break; }
    case 1: s = std::string(g.n(200), '9') + "." + std::string(g.n(200), '5'); break;
    default: s = u128s(gen_coeff(g, 1 + (int)g.n(f.p + 4 > 38 ? 38 : f.p + 4))); if (g.n(2)) s.insert(g.n(s.size() + 1), "."); if (g.n(2)) s += "e" + std::to_string(g.r(-f.emax() - 60, f.emax() + 40)); if (g.n(3) == 0) s = (g.n(2) ? " -" : "+") + s; }
  for (auto &c : s) if (c == '.' && point) c = point; return s; }
static void run_fault(Mon &m) {
  arm = (void (*)(long, int))dlsym(RTLD_DEFAULT, "inject_arm"); disarm = (long (*)(long *))dlsym(RTLD_DEFAULT, "inject_disarm"); if (!arm || !disarm) { fprintf(stderr, "inject.so is not preloaded\n"); exit(3); }
  ios_go = go; ios_halt = halt; mallopt(M_MXFAST, 0); static const char *LOCS[] = {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8"}; Rng &g = m.g; const char *lp = getenv("LOCPATH"); std::string locpath = lp ? lp : ""; std::vector<locale_t> lt; for (auto l : LOCS) { locale_t x = newlocale(LC_ALL_MASK, l, 0); if (!x) { fprintf(stderr, "locale %s missing\n", l); exit(3); } lt.push_back(x); }
  static char nbuf[40000]; static wchar_t wbuf[20000]; static wchar_t wtext[2000]; static wchar_t wf[80]; const int NL = 4; size_t deepest = 0;
  for (int li = 0; li < NL * 6; li++) { setenv("LOCPATH", locpath.c_str(), 1); const char *ln = LOCS[(li + m.wid) % NL]; if (!setlocale(LC_ALL, ln)) exit(3); bool th = g.n(3) == 0; int ti = (int)g.n(NL); uselocale(th ? lt[ti] : LC_GLOBAL_LOCALE); char point = *localeconv()->decimal_point; if (point < 0) point = ','; std::string lname = th ? LOCS[ti] : ln;
    bool gone = g.n(2); if (gone) setenv("LOCPATH", "/nonexistent", 1);
    for (long it = 0; it < m.o.cases / (NL * 6) + 1; it++) {
      int FI = (int)g.n(3), fb = FB[FI], rm = (int)g.n(5); const Fmt &f = fmt_of(fb); u128 bits = gen_bits(g, f); Num n = decode(f, bits); if (n.fin() && g.n(2)) { n.q = clampq(f, g.r(-60, 60)); bits = encode(f, n); }
      std::string fmt = "%", text, what; const char *cls; int k = (int)g.n(10); std::function<void(Seen &)> call; char conv = "aAeEfFgG"[g.n(8)]; int prec = g.n(3) ? (int)g.n(50) : g.n(8) ? -1 : (int)g.n(g.n(4) ? 4000 : 9000000);
      switch (k) {
        case 0: case 1: case 2: { text = number_text(g, f, g.n(4) ? point : '.'); bool wide = k == 1; cls = wide ? "wcstod" : "strtod"; what = cls + std::to_string(fb) + "(\"" + text + "\")"; for (size_t i = 0; i <= text.size() && i < 1999; i++) wtext[i] = (unsigned char)text.c_str()[i];
          call = [&, wide](Seen &s) { errno = 0; int er; long used; u128 v; if (wide) { wchar_t *e; go(); v = shim_wcstod(fb, wtext, &e); er = errno; halt(); used = e - wtext; } else { char *e; go(); v = shim_strtod(fb, text.c_str(), &e); er = errno; halt(); used = e - text.c_str(); } s.reported = er == ENOMEM && used == 0; s.r = "0x" + hexs(v, fb) + " after " + std::to_string(used) + " characters, errno " + std::to_string(er); }; break; }
        case 3: case 4: { if (prec >= 0) fmt += "." + std::to_string(prec); fmt += conv; size_t sz = g.n(3) ? g.n(60) : 20000; cls = "strfrom"; what = cls + std::to_string(fb) + "(" + std::to_string(sz) + ", " + fmt + ", " + nstr(n) + ")"; call = [&, sz](Seen &s) { memset(nbuf, 'z', sz + 8); go(); int r = shim_strfrom(fb, sz ? nbuf : nullptr, sz, fmt.c_str(), bits); halt(); s.reported = r <= 0; for (int j = 0; j < 8; j++) if (nbuf[sz + j] != 'z') { s.reported = false; r = -99; } s.r = std::to_string(r) + ":" + (sz && r > 0 ? std::string(nbuf) : ""); }; break; }
        case 5: case 6: { static const char fl[] = "-+ 0#'"; for (int j = (int)g.n(4); j > 0; j--) fmt += fl[g.n(6)]; if (g.n(2)) fmt += std::to_string(1 + g.n(g.n(6) ? 60 : g.n(4) ? 3000 : 9000000)); if (prec >= 0) fmt += "." + std::to_string(prec); fmt += std::string(MD[FI]) + conv; cls = k == 5 ? "printf" : "wprintf"; what = std::string(cls) + "(" + fmt + ", " + nstr(n) + ")"; size_t sz = g.n(3) ? 1 + g.n(60) : 19000; for (size_t i = 0; i <= fmt.size(); i++) wf[i] = fmt.c_str()[i];
          if (k == 5) call = [&, sz](Seen &s) { memset(nbuf, 'z', sz + 8); go(); int r = shim_printf(nbuf, sz, fmt.c_str(), 0, 0, 0, fb, bits); halt(); s.reported = r < 0; for (int j = 0; j < 8; j++) if (nbuf[sz + j] != 'z') { s.reported = false; r = -99; } s.r = std::to_string(r) + ":" + (r >= 0 ? std::string(nbuf) : ""); };
          else call = [&, sz](Seen &s) { wbuf[sz] = L'z'; go(); int r = shim_swprintf(wbuf, sz, wf, 0, 0, 0, fb, bits); halt(); s.reported = r < 0; s.r = std::to_string(r) + ":"; if (r >= 0) for (wchar_t *w = wbuf; *w; w++) s.r += std::to_string((long)*w) + " "; if (wbuf[sz] != L'z') { s.reported = false; s.r = "overrun"; } }; break; }
        case 7: { cls = "stream"; text = number_text(g, f, 0); what = "stream << and >> d" + std::to_string(fb) + " " + nstr(n) + " \"" + text + "\""; int fl = (int)g.n(8); long pr = (long)g.n(60); int w = (int)g.n(100);
          call = [&, fl, pr, w](Seen &s) { std::string out, rest; long wa = 0; bool good = false; s.reported = false; ios_out(out, fb, bits, fl, pr, w, '*', 1, wa, good); std::vector<IosItem> items; ios_in(text, {fb, fb}, items, rest); s.reported = !good; s.r = out + "|" + rest; for (auto &i : items) s.r += "|" + std::to_string(i.ok) + hexs(i.v, 128); }; break; }
        case 8: { cls = "decoded"; what = "decoded/nan " + nstr(n); call = [&](Seen &s) { s.reported = false; go(); char *p = shim_decoded(fb, bits, nbuf); u128 v = shim_nan(fb, "12"); halt(); s.r = p + hexs(v, 128); }; break; }
        default: { const OpDesc *d = &shim_ops[g.n(shim_nops)]; CallIn in; memset(&in, 0, sizeof in); gen_case_any(m, d, in); cls = "operation"; what = describe_call(d, rm, in); call = [=](Seen &s) { CallOut o; Env e; memset(&o, 0, sizeof o); go(); shim_call(d, rm, 0, 0, &in, &o, &e); halt(); s.reported = d->sig != S_D_BIN && d->sig != S_D_INT && d->sig != S_D_I && decode(fmt_of(d->sig == S_CVT ? d->aux : d->fmt), o.r).k == KQNAN; s.r = hexs(o.r, 128) + hexs(o.r2, 128) + hexs((u128)o.iv, 128) + " " + std::to_string(o.iout) + " flags " + std::to_string(e.fe) + " errno " + std::to_string(e.err); } ; } }
      if (gone) what += " (locale data gone)"; what = lname + ": " + what + " rm=" + rmname(rm); m.begin(what); shim_setround(rm); Seen base{"", false}; inject(0, 0); call(base); long N = nseen; locale_t l0 = uselocale(0); std::string key = cls;
      auto same = [&](const Seen &s) { return s.r == base.r; };
      { Seen s{"", false}; call(s); if (!same(s)) m.fail("fault:repeat:" + key, what + " gave " + base.r.substr(0, 300) + " and then " + s.r.substr(0, 300)); }
      m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(what)), (uint64_t)k), (key + (lname == "C" ? "" : " localised")).c_str()); if (gone) m.cls["locale data gone"]++;
      if (N == 0) m.cls["allocates nothing: " + key]++; else if (k == 9) m.cls["allocates: " + what.substr(0, what.find(" rm="))]++;
      for (long j = 1; j <= N && j <= 12; j++) { int lasting = (int)g.n(2); Seen s{"", false}; bool ex = false; m.begin(what + ", allocation " + std::to_string(j) + (lasting ? " and later ones" : "") + " failing"); long nf = 0, least = 0;
        for (int rep = 0; rep < 3; rep++) { s = Seen{"", false}; ex = false; inject(j, lasting); try { call(s); } catch (const std::bad_alloc &) { ex = true; halt(); } nf = nfailed; if (rep == 0 || kept < least) least = kept; } inject(0, 0);
        m.cls["allocation failed"]++; if (nf && least > 0 && key != "stream") m.fail("fault:leak:" + key, what + ": with allocation " + std::to_string(j) + (lasting ? " and later ones" : "") + " failing kept " + std::to_string(least) + " bytes every time");
        if (nf && !ex && !s.reported && !same(s)) m.fail("fault:wrong:" + key, what + ": with allocation " + std::to_string(j) + (lasting ? " and later ones" : "") + " failing gave " + s.r.substr(0, 300) + " instead of " + base.r.substr(0, 300));
        if (nf && (ex || s.reported)) m.cls["failure reported: " + key]++; else if (nf && same(s)) m.cls["ordinary result in spite of it: " + key]++;
        if (shim_getround() != rm) m.fail("fault:mode:" + key, what + ": a failing allocation changed the rounding mode"); if (uselocale(0) != l0) m.fail("fault:locale:" + key, what + ": a failing allocation changed the locale"); uselocale(l0); shim_setround(rm);
        Seen a{"", false}; call(a); if (!same(a)) m.fail("fault:after:" + key, what + ": after a failed allocation gave " + a.r.substr(0, 300) + " instead of " + base.r.substr(0, 300)); }
      { Seen s{"", false}; m.begin(what + " on a stack of 64 KiB"); size_t d = small_stack([&] { call(s); }); if (d > deepest) deepest = d; m.cls["on a small stack"]++; if (!threw && !same(s)) m.fail("fault:stack:" + key, what + " on a small stack gave " + s.r.substr(0, 300) + " instead of " + base.r.substr(0, 300)); }
      if ((m.evals & 0x3ff) == 1) m.sample(what + ": " + std::to_string(N) + " allocations, each failed in turn"); } }
  m.cls["deepest stack below " + std::to_string((deepest + 4095) / 4096 * 4) + " KiB"]++;
  setenv("LOCPATH", locpath.c_str(), 1); uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); shim_setround(0);
}
static RegProp r1("fault", run_fault);
