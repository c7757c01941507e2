// P33: load and unload histories. This program is not linked with libdfp; each history runs in a process of its own.
// usage: load LIB SEED WORKER HISTORIES OUT        (internal: load --gold, load --exec N LIB)
#include <dlfcn.h>
#include <errno.h>
#include <locale.h>
#include <printf.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wchar.h>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef float D32 __attribute__((mode(SD))); typedef float D64 __attribute__((mode(DD))); typedef float D128 __attribute__((mode(TD)));
struct Rng { uint64_t s; uint64_t u() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t n(uint64_t m) { return u() % m; } };
static const char *lib;
// ---- conversions that are none of the library's business --------------------------------
static const int NG = 24;
static std::string plain(int i, bool wide) {
  char b[600]; wchar_t w[600]; double x = 1234.5678 * (i + 1); long double l = -9876543.21L / (i + 1); int r;
#define P(...) do { if (wide) { r = swprintf(w, 600, WF(__VA_ARGS__)); } else r = snprintf(b, 600, __VA_ARGS__); } while (0)
#define G(f, ...) if (wide) r = swprintf(w, 600, L##f, __VA_ARGS__); else r = snprintf(b, 600, f, __VA_ARGS__)
  switch (i) {
    case 0: G("%f", x); break; case 1: G("%.3e|%G", x, x); break; case 2: G("%a %A", x, -x); break; case 3: G("%Lf", l); break; case 4: G("%La %Le", l, l); break;
    case 5: G("%d %ld %hhd %s", i, 123456789012l, 7, "text"); break; case 6: G("%*.*f|", 14, 2, x); break; case 7: G("%-12.3g|%+08.2f", x, x); break; case 8: G("%2$d %1$f", x, 42); break;
    case 9: G("%f %f %Lf %d %g", x, -x, l, 5, x); break; case 10: G("%c%%%x", 'c', 255); break; case 11: G("%f %F %e %g", 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0 * 0, -0.0); break;
    case 12: G("%.0f %#.0f %#g", 0.5, 2.5, 100000.0); break; case 13: G("%1$f %1$e %1$a", x); break; case 14: G("%3$s %2$Lf %1$f", x, l, "z"); break; case 15: G("%'.2f", x * 1e6); break;
    case 16: G("%.40f", 0.1); break; case 17: G("%.300f", 1e-300); break; case 18: G("%f", 1.7976931348623157e308); break; case 19: G("%5s|%-5s|%.1s", "ab", "cd", "ef"); break;
    case 20: G("%lf %lld %zu", x, 1ll << 40, (size_t)77); break; case 21: G("%p", (void *)0x1234); break; case 22: G("%G %g", 1e-5, 123456789.0); break; default: G("%Lg %.25Lf", l, l); }
  std::string s = std::to_string(r) + ":"; if (wide) for (wchar_t *p = w; *p && r >= 0; p++) s += (char)*p; else if (r >= 0) s += b; return s; }
static std::vector<std::string> gold;
struct Sh { char op[64]; char trace[1500]; int trouble; char why[900]; int done; } *sh;
static void trouble(const char *key, const std::string &t) { if (!sh->trouble) { sh->trouble = 1; snprintf(sh->why, sizeof sh->why, "%s\t%s", key, t.c_str()); } }
static void check_plain(Rng &g, int k) { while (k--) { int i = g.n(NG); bool w = g.n(3) == 0; std::string s = plain(i, w); if (s != gold[2 * i + w]) trouble("other-types", "conversion " + std::to_string(i) + (w ? " (wide)" : "") + " printed \"" + s + "\" instead of \"" + gold[2 * i + w] + "\""); } }
static void *handle;
static void check_dec(Rng &g) {
  if (!handle) return; char b[200], t[60]; int f = g.n(3); unsigned long v = f == 0 ? g.n(10000000) : g.n(10000000000000000ull); snprintf(t, 60, "%lu", v); static const char *M[] = {"H", "D", "DD"}; static const char *N[] = {"strtod32", "strtod64", "strtod128"};
  void *fn = dlsym(handle, N[f]); if (!fn) { trouble("symbol", std::string(N[f]) + " not found"); return; }
  char fm[20]; snprintf(fm, 20, "%%.0%sf|%%d|%%.1f", M[f]); int r;
  if (f == 0) r = snprintf(b, 200, fm, ((D32(*)(const char *, char **))fn)(t, 0), 42, 2.25); else if (f == 1) r = snprintf(b, 200, fm, ((D64(*)(const char *, char **))fn)(t, 0), 42, 2.25); else r = snprintf(b, 200, fm, ((D128(*)(const char *, char **))fn)(t, 0), 42, 2.25);
  std::string e = std::string(t) + "|42|2.2"; if (e != b || r != (int)e.size()) trouble("decimal", "printed \"" + std::string(b) + "\" instead of \"" + e + "\"");
  static const char *S[] = {"strfromd32", "strfromd64", "strfromd128"}; fn = dlsym(handle, S[f]); if (!fn) { trouble("symbol", S[f]); return; }
  if (f == 0) r = ((int (*)(char *, size_t, const char *, D32))fn)(b, 200, "%.0f", (D32)v); else if (f == 1) r = ((int (*)(char *, size_t, const char *, D64))fn)(b, 200, "%.0f", (D64)v); else r = ((int (*)(char *, size_t, const char *, D128))fn)(b, 200, "%.0f", (D128)v);
  if (std::string(t) != b || r != (int)strlen(t)) trouble("decimal", "strfrom gave \"" + std::string(b) + "\" instead of \"" + t + "\"");
  int (*gr)() = (int (*)())dlsym(handle, "fe_dec_getround"), (*sr)(int) = (int (*)(int))dlsym(handle, "fe_dec_setround"); if (!gr || !sr) { trouble("symbol", "fe_dec_setround"); return; }
  int o = gr(), m = g.n(5); sr(m); if (gr() != m) trouble("mode", "rounding mode not kept"); sr(o); }
// ---- the application's own printf extensions ---------------------------------------------
static int own_mod[8], nown, own_type, own_spec;
static int own_out(FILE *f, const struct printf_info *i, const void *const *a) { return fprintf(f, "<%d>", **(const int **)a); }
static int own_arg(const struct printf_info *, size_t n, int *t, int *s) { if (n > 0) { t[0] = PA_INT; s[0] = sizeof(int); } return 1; }
static void own_va(void *m, va_list *ap) { *(int *)m = va_arg(*ap, int); }
static void op_register(Rng &g) {
  switch (g.n(3)) { case 0: if (!own_spec) own_spec = register_printf_specifier('Y', own_out, own_arg) == 0; break;
    case 1: if (nown < 4) { wchar_t s[3] = {L'Q', (wchar_t)(L'a' + nown), 0}; int m = register_printf_modifier(s); if (m > 0) own_mod[nown++] = m; } break; default: if (!own_type) own_type = register_printf_type(own_va); } }
static void check_own() { if (!own_spec) return; char b[60]; snprintf(b, 60, "%Y %f %Y", 5, 1.5, -6); if (strcmp(b, "<5> 1.500000 <-6>")) trouble("own", std::string("an extension of the application printed \"") + b + "\""); }
// ---- steps ------------------------------------------------------------------------------------
static std::vector<void *> open_;
static int pipefd[2];
static void step(Rng &g, int depth);
struct TA { uint64_t seed; int depth; };
static void *thread(void *p) { TA *a = (TA *)p; Rng g{a->seed}; for (int i = 0; i < 3; i++) { check_plain(g, 4); if (handle) check_dec(g); } void *h = dlopen(lib, RTLD_NOW); if (!h) trouble("dlopen", dlerror()); check_plain(g, 2); if (h) dlclose(h); check_plain(g, 2); return 0; }
static void step(Rng &g, int depth) {
  int k = g.n(12); static const char *N[] = {"open", "open", "close", "close", "plain", "plain", "decimal", "register", "fork", "thread", "locale", "decimal"};
  snprintf(sh->op, 64, "%s", N[k]); size_t l = strlen(sh->trace); if (l < 1400) snprintf(sh->trace + l, 1500 - l, "%s%s", l ? "," : "", N[k]);
  switch (k) {
    case 0: case 1: { int fl = (g.n(2) ? RTLD_NOW : RTLD_LAZY) | (g.n(2) ? RTLD_GLOBAL : RTLD_LOCAL); void *h = dlopen(lib, fl); if (!h) { trouble("dlopen", dlerror()); return; } open_.push_back(h); handle = h; check_dec(g); break; }
    case 2: case 3: if (!open_.empty()) { void *h = open_.back(); open_.pop_back(); if (open_.empty()) handle = 0; if (dlclose(h)) trouble("dlclose", dlerror()); check_plain(g, 3); } break;
    case 4: case 5: check_plain(g, 6); check_own(); break;
    case 6: case 11: check_dec(g); break;
    case 7: op_register(g); check_own(); break;
    case 8: { if (depth) break; pid_t p = fork(); if (!p) { alarm(30); for (int i = 0; i < 4; i++) step(g, 1); check_plain(g, 4); if (g.n(2)) _exit(0); while (!open_.empty()) { dlclose(open_.back()); open_.pop_back(); } handle = 0; check_plain(g, 4); _exit(0); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; if (st) trouble("fork", "the child of a fork died with status " + std::to_string(st)); break; }
    case 9: { int n = 1 + g.n(3); pthread_t t[3]; TA a[3]; for (int i = 0; i < n; i++) { a[i].seed = g.u(); if (pthread_create(&t[i], 0, thread, &a[i])) _exit(3); } for (int i = 0; i < n; i++) pthread_join(t[i], 0); break; }
    case 10: setlocale(LC_ALL, "C"); check_plain(g, 2); break; } }
static Rng *late;
static void at_end() { check_plain(*late, 6); check_own(); sh->done = 1; }
static void history(uint64_t seed) {
  static Rng g{seed}; late = new Rng{seed ^ 99}; alarm(60); atexit(at_end); if (g.n(3) == 0) op_register(g);
  int n = 2 + g.n(14); for (int i = 0; i < n && !sh->trouble; i++) step(g, 0);
  snprintf(sh->op, 64, "exit"); int e = g.n(3); if (e == 0) while (!open_.empty()) { dlclose(open_.back()); open_.pop_back(); } exit(0); }
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  for (int i = 0; i < NG; i++) { gold.push_back(plain(i, false)); gold.push_back(plain(i, true)); }
  if (argc > 1 && !strcmp(argv[1], "--gold")) { for (auto &s : gold) printf("%s\n", s.c_str()); return 0; }
  if (argc < 6) return 3;
  lib = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int w = atoi(argv[3]); long n = atol(argv[4]); FILE *out = fopen(argv[5], "w"); if (!out) return 3;
  sh = (Sh *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) return 3;
  std::map<std::string, long> cls, vc; std::set<std::string> seen, samples; std::vector<std::pair<std::string, std::string>> viol; long evals = 0;
  auto fail = [&](const std::string &k, const std::string &t) { if (!vc[k]++ && viol.size() < 20) viol.push_back({k, t}); };
  // the library present from the start: every plain conversion as without it
  if (w < 2) { std::string self = "/proc/self/exe", all; for (auto &s : gold) all += s + "\n"; char me[4096]; ssize_t l = readlink("/proc/self/exe", me, 4095); me[l > 0 ? l : 0] = 0;
    std::string cmd = std::string("LD_PRELOAD='") + lib + "' " + (w ? "LD_BIND_NOW=1 " : "") + "'" + me + "' --gold"; FILE *p = popen(cmd.c_str(), "r"); std::string got; char b[4096]; size_t k; while ((k = fread(b, 1, 4096, p)) > 0) got.append(b, k); int st = pclose(p); evals++; cls["preload"]++;
    if (st) fail("preload:crash", "a program preloading the library exits with status " + std::to_string(st)); else if (got != all) { size_t i = 0; while (got[i] == all[i]) i++; size_t a = all.rfind('\n', i); fail("preload:other-types", "expected " + all.substr(a + 1, 120) + " got " + got.substr(a + 1, 120)); }
    cmd = std::string("'") + lib + "'"; p = popen(cmd.c_str(), "r"); got.clear(); while ((k = fread(b, 1, 4096, p)) > 0) got.append(b, k); st = pclose(p); evals++; cls["executed"]++; if (st || got.find("libdfp") == std::string::npos) fail("executed", "running the library as a program: status " + std::to_string(st) + " output " + got.substr(0, 100)); }
  for (long i = 0; i < n; i++) { memset(sh, 0, sizeof *sh); uint64_t hs = seed * 1000003 + w * 7919 + i * 104729 + 17; fflush(0);
    pid_t p = fork(); if (p < 0) return 3; if (!p) { fclose(out); history(hs); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; evals++; std::string tr = sh->trace;
    if (seen.insert(tr).second && samples.size() < 4) samples.insert(tr);
    for (size_t a = 0; a < tr.size();) { size_t b = tr.find(',', a); if (b == std::string::npos) b = tr.size(); cls["step " + tr.substr(a, b - a)]++; a = b + 1; }
    if (tr.find("open,close") != std::string::npos) cls["unloaded"]++; if (tr.find("close,open") != std::string::npos) cls["reopened"]++; if (tr.find("register") < tr.find("open")) cls["registered before load"]++;
    if (sh->trouble) { std::string y = sh->why; size_t t = y.find('\t'); fail(y.substr(0, t), y.substr(t + 1) + " after " + tr + " (history " + std::to_string(hs) + ")"); }
    else if (WIFSIGNALED(st)) fail(WTERMSIG(st) == SIGALRM ? "hang" : "crash", std::string("signal ") + std::to_string(WTERMSIG(st)) + " in step " + sh->op + " after " + tr + " (history " + std::to_string(hs) + ")");
    else if (WEXITSTATUS(st) == 3) return 3; else if (!sh->done || WEXITSTATUS(st)) fail("exit", "status " + std::to_string(WEXITSTATUS(st)) + " after " + tr); }
  fprintf(out, "{\"evals\":%ld,\"distinct\":%zu,\"inconclusive\":0,\"cls\":{", evals, seen.size()); bool f = true;
  for (auto &c : cls) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"known\":{},\"vcount\":{"); f = true; for (auto &c : vc) { fprintf(out, "%s%s:%ld", f ? "" : ",", js(c.first).c_str(), c.second); f = false; }
  fprintf(out, "},\"viol\":["); f = true; for (auto &c : viol) { fprintf(out, "%s[%s,%s]", f ? "" : ",", js(c.first).c_str(), js(c.second).c_str()); f = false; }
  fprintf(out, "],\"samples\":["); f = true; for (auto &c : samples) { fprintf(out, "%s%s", f ? "" : ",", js(c).c_str()); f = false; }
  fprintf(out, "]}\n"); fclose(out); return 0; }
