// P19: the decimal rounding mode is the caller's, per thread, independent of the binary one.
// P26: results depend on the arguments and the rounding mode alone, in every thread and after every history.
#include "text.hpp"
#include <pthread.h>
#include <climits>
#include <cwchar>
static const int BRM[4] = {FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD};
static bool is_bin(const OpDesc *d) { return d->sig == S_D_BIN || d->sig == S_BIN_D; }
static std::string opkey(const OpDesc *d) { return std::string(d->name) + std::to_string(d->fmt); }

// every operation gives the same answer, and keeps both modes, under all binary rounding modes
static void run_env(Mon &m) {
  std::vector<const OpDesc *> ops; for (int i = 0; i < shim_nops; i++) if (!is_bin(&shim_ops[i]) && (m.o.only.empty() || m.o.only == shim_ops[i].name)) ops.push_back(&shim_ops[i]);
  for (long i = 0; i < m.o.cases; i++) {
    const OpDesc *d = ops[(i + m.wid * 31) % ops.size()]; CallIn in; memset(&in, 0, sizeof in); gen_case_any(m, d, in); int rm = (int)m.g.n(5); bool exact = has_oracle(d);
    if (!exact) in.a = gen_bits(m.g, fmt_of(d->fmt)); CallOut o1, o2; memset(&o1, 0, sizeof o1); memset(&o2, 0, sizeof o2); Env e1, e2;
    m.begin(d, rm, in); shim_call(d, rm, 0, 0, &in, &o1, &e1);
    if (e1.drm != rm) m.fail(opkey(d) + ":decround", describe_call(d, rm, in) + " left decimal rounding mode " + std::to_string(e1.drm));
    if (e1.brm != FE_TONEAREST) m.fail(opkey(d) + ":binround", describe_call(d, rm, in) + " left binary rounding mode " + std::to_string(e1.brm));
    int b = BRM[1 + m.g.n(3)]; fesetround(b); m.begin(d, rm, in); shim_call(d, rm, 0, 0, &in, &o2, &e2); fesetround(FE_TONEAREST);
    if (e2.brm != b) m.fail(opkey(d) + ":binround", describe_call(d, rm, in) + " changed the binary rounding mode");
    if (e2.drm != rm) m.fail(opkey(d) + ":decround", describe_call(d, rm, in) + " left decimal rounding mode " + std::to_string(e2.drm));
    m.saw(hmix(hmix((uint64_t)(d - shim_ops) * 8 + rm, in.a), in.b), rmname(rm));
    if (o1.r == o2.r && o1.iv == o2.iv && o1.r2 == o2.r2 && o1.iout == o2.iout) continue;
    std::string t = describe_call(d, rm, in) + " gives 0x" + hexs(o1.r, 128) + " in binary round-to-nearest but 0x" + hexs(o2.r, 128) + " under another binary rounding mode";
    m.fail(opkey(d) + ":binary-mode-dependence", t);
  }
}
static RegProp r1("env", run_env);

// ---- histories of environment calls and operations, several threads at once, each against its own model of the mode ----
struct Th { Mon *m; long n; uint64_t seed; pthread_t t; pthread_barrier_t *bar; std::vector<const OpDesc *> *ops; };
static Mon *sub_mon(Mon &m, int k) { Cur *c = (Cur *)calloc(1, sizeof(Cur)); Mon *s = new Mon(m.o, m.wid * 16 + k, k ? c : m.cur); s->g = Rng(m.g.u()); return s; }
static void merge(Mon &m, Mon *s) {
  m.evals += s->evals; m.distinct += s->distinct; for (auto &c : s->cls) m.cls[c.first] += c.second; for (auto &v : s->vcount) m.vcount[v.first] += v.second; for (auto &v : s->viol) m.viol.push_back(v);
  for (auto &k : s->known_hits) m.known_hits[k.first] += k.second; for (auto &k : s->known_ex) m.known_ex[k.first] = k.second; for (auto &x : s->samples) m.sample(x); if (s->cur != m.cur) free(s->cur); delete s; }
static void *env_thread(void *p) {
  Th &t = *(Th *)p; Mon &m = *t.m; Rng &g = m.g; int mode, bmode = fegetround(); std::string hist;
  shim_setround(FE_TONEAREST); mode = 0; pthread_barrier_wait(t.bar);
  for (long i = 0; i < t.n; i++) {
    int k = (int)g.n(16); if (hist.size() > 400) hist.erase(0, 200);
    if (k == 0 || k == 1) { int r = (int)g.n(5), rc = shim_setround(r); hist += " set(" + std::to_string(r) + ")"; if (rc != 0) m.fail("setround:valid-refused", "fe_dec_setround(" + std::to_string(r) + ") returned " + std::to_string(rc)); mode = r; m.cls["set"]++; }
    else if (k == 2) { static const int bad[] = {-1, 5, 6, 7, 8, 9, 100, INT_MAX, INT_MIN, 0x10000, 0xc00}; int r = bad[g.n(11)], rc = shim_setround(r); hist += " set(" + std::to_string(r) + ")"; m.cls["invalid set"]++; if (rc == 0) m.fail("setround:invalid-accepted", "fe_dec_setround(" + std::to_string(r) + ") returned 0"); }
    else if (k == 3) { bmode = BRM[g.n(2) ? 0 : g.n(4)]; fesetround(bmode); hist += " fesetround"; m.cls["binary mode set"]++; if (bmode != FE_TONEAREST) { int r = shim_getround(); if (r != mode) m.fail("getround", "after" + hist + ": decimal rounding mode " + std::to_string(r) + ", expected " + std::to_string(mode)); fesetround(bmode = FE_TONEAREST); } }
    else if (k == 4) { fenv_t e; if (g.n(2)) { feholdexcept(&e); if (g.n(2)) { shim_setround(mode = (int)g.n(5)); } feupdateenv(&e); } else { feraiseexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT); } hist += " fe-env"; m.cls["binary environment"]++; }
    else if (k == 5) { char b[300]; u128 a = gen_bits(g, F64); std::string s; if (g.n(2)) shim_printf(b, sizeof b, "%.5De", 0, 0, 0, 64, a); else { char *e; u128 v = shim_strtod(128, "1.2345678901234567890123456789012345678901", &e); (void)v; } hist += " text"; m.cls["text conversion"]++; }
    else { const OpDesc *d = (*t.ops)[g.n(t.ops->size())]; CallIn in; memset(&in, 0, sizeof in); gen_case_any(m, d, in); judge_direct(m, d, mode, in); m.cls[rmname(mode)]++; }
    int r = shim_getround(); if (r != mode) { m.fail("getround", "after" + hist + " (step " + std::to_string(k) + "): decimal rounding mode " + std::to_string(r) + ", expected " + std::to_string(mode)); shim_setround(mode); }
    if (fegetround() != bmode) { m.fail("fegetround", "after" + hist + ": binary rounding mode changed"); fesetround(bmode); }
    if (k < 6) m.saw(hmix((uint64_t)mode * 16 + k, g.s[0]));
  }
  return nullptr;
}
static void warm() { p10(13000); p10u(3); }
static void run_envapi(Mon &m) {
  warm(); std::vector<const OpDesc *> ops; for (int i = 0; i < shim_nops; i++) if (has_oracle(&shim_ops[i])) ops.push_back(&shim_ops[i]);
  long left = m.o.cases; while (left > 0) { int T = 1 + (int)m.g.n(4); long n = std::min<long>(left, 20000); left -= n; pthread_barrier_t b; pthread_barrier_init(&b, 0, T); std::vector<Th> ts(T);
    for (int k = 0; k < T; k++) { ts[k].m = sub_mon(m, k); ts[k].n = n / T + 1; ts[k].bar = &b; ts[k].ops = &ops; }
    for (int k = 0; k < T; k++) if (pthread_create(&ts[k].t, 0, env_thread, &ts[k])) _exit(3);
    for (int k = 0; k < T; k++) { pthread_join(ts[k].t, 0); merge(m, ts[k].m); } m.cls["threads " + std::to_string(T)]++; pthread_barrier_destroy(&b); }
}
static RegProp r2("envapi", run_envapi);

// ---- determinism: a pool of calls, observed once, must repeat in any order, with any history, in any thread ----
struct Call { const OpDesc *d = nullptr; int rm = 0, kind = 0, f = 0; CallIn in; std::string text; std::wstring wtext; CallOut out; int fe = 0, err = 0; std::string ob; };
static const int PRE_ERR[4] = {0, EAGAIN, 4242, EINVAL};
__attribute__((noinline)) static void scribble(Rng &g) { volatile unsigned char junk[12000]; unsigned char v = (unsigned char)(g.n(3) == 0 ? 0xff : g.u()); memset((void *)junk, v, sizeof junk); asm volatile("" : : "r"(junk) : "memory"); }
static void observe(Call &c, int err_in, CallOut &out, int &fe, int &err, std::string &ob) {
  memset(&out, 0, sizeof out); Env e; fe = err = 0; ob.clear();
  if (c.kind == 0) { shim_call(c.d, c.rm, 0, err_in, &c.in, &out, &e); fe = e.fe; err = e.err == err_in ? 0 : e.err; return; }
  shim_setround(c.rm); errno = err_in; char b[1200]; 
  switch (c.kind) {
    case 1: { int r = shim_printf(b, sizeof b, c.text.c_str(), 0, 0, 0, c.f, c.in.a); ob = std::to_string(r) + ":" + b; break; }
    case 2: { char *e2 = nullptr; out.r = shim_strtod(c.f, c.text.c_str(), &e2); ob = std::to_string(e2 - c.text.c_str()); err = errno == err_in ? 0 : errno; break; }
    case 3: { wchar_t *e2 = nullptr; out.r = shim_wcstod(c.f, c.wtext.c_str(), &e2); ob = std::to_string(e2 - c.wtext.c_str()); err = errno == err_in ? 0 : errno; break; }
    case 4: { int r = shim_strfrom(c.f, b, sizeof b, c.text.c_str(), c.in.a); ob = std::to_string(r) + ":" + b; break; }
    case 5: { ob = shim_decoded(c.f, c.in.a, b); break; }
  }
}
static std::string call_text(const Call &c) { static const char *K[] = {"", "printf", "strtod", "wcstod", "strfrom", "decoded"}; if (c.kind == 0) return describe_call(c.d, c.rm, c.in); return std::string(K[c.kind]) + std::to_string(c.f) + "(\"" + c.text + "\"" + (c.kind == 2 || c.kind == 3 ? "" : ", 0x" + hexs(c.in.a, c.f)) + ") rm=" + rmname(c.rm); }
static std::string outs(const CallOut &o, int fe, int err, const std::string &ob) { return "r=0x" + hexs(o.r, 128) + " r2=0x" + hexs(o.r2, 128) + " i=" + hexs((u128)o.iv, 128) + " n=" + std::to_string(o.iout) + " flags=" + fxs(fe2fx(fe)) + " errno=" + std::to_string(err) + " text=" + ob; }
static bool check_call(Mon &m, Call &c, const char *where) {
  CallOut o; int fe, err; std::string ob; int ei = PRE_ERR[m.g.n(4)]; if (c.kind == 0) m.begin(c.d, c.rm, c.in); else m.begin(call_text(c)); scribble(m.g); observe(c, ei, o, fe, err, ob);
  bool same = o.r == c.out.r && o.r2 == c.out.r2 && o.iv == c.out.iv && o.iout == c.out.iout && fe == c.fe && err == c.err && ob == c.ob; m.cls[where]++;
  if (!same) m.fail((c.kind ? "text" + std::to_string(c.kind) : opkey(c.d)) + ":" + where, call_text(c) + " first gave " + outs(c.out, c.fe, c.err, c.ob) + " and later (" + where + ") " + outs(o, fe, err, ob));
  return same;
}
static void make_call(Mon &m, Call &c, const std::vector<const OpDesc *> &ops) {
  Rng &g = m.g; memset(&c.in, 0, sizeof c.in); c.rm = (int)g.n(5); c.kind = g.n(4) ? 0 : 1 + (int)g.n(5); c.f = (int[]){32, 64, 128}[g.n(3)]; const Fmt &f = fmt_of(c.f); const char *mod = c.f == 32 ? "H" : c.f == 64 ? "D" : "DD"; if (g.n(12) == 0) c.kind = 0;
  if (c.kind == 0) { c.d = ops[g.n(ops.size())]; gen_case_any(m, c.d, c.in); if (c.d->sig != S_INT_D && c.in.a == 0) c.in.a = gen_bits(g, fmt_of(c.d->fmt)); 
    if (!has_oracle(c.d)) { Num x = decode(fmt_of(c.d->fmt), c.in.a); if (x.fin()) { x.q = clampq(fmt_of(c.d->fmt), g.r(-20, 3) - ndig(x.c) + 5); c.in.a = encode(fmt_of(c.d->fmt), x); } if (c.d->sig == S_BIN_D && g.n(3)) { double v = __builtin_ldexp((double)g.r(-1000000, 1000000), (int)g.r(-40, 40)); float vf = (float)v; long double vl = v; _Float128 vq = v; if (c.d->aux == 32) { c.in.a = 0; memcpy(&c.in.a, &vf, 4); } else if (c.d->aux == 64) { c.in.a = 0; memcpy(&c.in.a, &v, 8); } else if (c.d->aux == 80) { c.in.a = 0; memcpy(&c.in.a, &vl, 10); } else memcpy(&c.in.a, &vq, 16); } } return; }
  c.in.a = gen_bits(g, f); Num n = decode(f, c.in.a);
  switch (c.kind) {
    case 1: c.text = std::string("%") + (g.n(2) ? "+" : "") + (g.n(2) ? std::to_string(g.n(40)) : "") + (g.n(2) ? "." + std::to_string(g.n(40)) : "") + mod + "aefgEFG"[g.n(7)]; if ((c.text.back() | 32) == 'f' && n.fin()) { n.q = clampq(f, g.r(-40, 30)); c.in.a = encode(f, n); } break;
    case 4: c.text = std::string("%") + (g.n(2) ? "." + std::to_string(g.n(40)) : "") + "aefgEFG"[g.n(7)]; break;
    case 2: case 3: { Spec s; s.conv = "eEaA"[g.n(4)]; s.prec = g.n(2) ? -1 : (int)g.n(60); c.text = ref_format(n, 0, s); if (g.n(5) == 0) c.text.insert(g.n(c.text.size()), std::string(1, "0123456789.e-+ x"[g.n(16)])); c.wtext = std::wstring(c.text.begin(), c.text.end()); break; }
  }
}
static std::vector<const OpDesc *> all_ops(Mon &m) { std::vector<const OpDesc *> v; for (int i = 0; i < shim_nops; i++) if (m.o.only.empty() || m.o.only == shim_ops[i].name) v.push_back(&shim_ops[i]); return v; }
static void run_history(Mon &m) {
  warm(); auto ops = all_ops(m); const int K = 400; long left = m.o.cases;
  while (left > 0) { std::vector<Call> pool(K); for (auto &c : pool) { make_call(m, c, ops); if (c.kind == 0) m.begin(c.d, c.rm, c.in); else m.begin(call_text(c)); scribble(m.g); observe(c, 0, c.out, c.fe, c.err, c.ob); }
    for (int r = 0; r < 4 && left > 0; r++) for (int i = 0; i < K; i++, left--) { Call &c = pool[m.g.n(K)]; if (m.g.n(8) == 0) feraiseexcept(FE_ALL_EXCEPT); bool twice = m.g.n(6) == 0; check_call(m, c, twice ? "repeated" : "reordered"); if (twice) check_call(m, c, "repeated"); m.saw(hmix(hmix((uint64_t)c.kind * 5 + c.rm, c.in.a), hmix(c.in.b, (uint64_t)(c.d ? c.d - shim_ops : std::hash<std::string>()(c.text))))); } }
}
static RegProp r3("history", run_history);

struct RT { Mon *m; std::vector<Call> *pool; pthread_barrier_t *bar; int rounds; pthread_t t; bool fresh; };
static void *replay_thread(void *p) {
  RT &t = *(RT *)p; Mon &m = *t.m; pthread_barrier_wait(t.bar); size_t K = t.pool->size(); size_t start = m.g.n(K), step = 1 + 2 * m.g.n(K / 2); 
  for (int r = 0; r < t.rounds; r++) { bool together = m.g.n(3) == 0; size_t hot = m.g.n(K); for (size_t i = 0; i < K; i++) { Call &c = (*t.pool)[together && (i & 1) ? hot : (start + i * step) % K]; check_call(m, c, t.fresh ? "in a fresh thread" : "concurrently"); m.saw(hmix(hmix((uint64_t)c.kind * 5 + c.rm, c.in.a), hmix(c.in.b, (uint64_t)(c.d ? c.d - shim_ops : std::hash<std::string>()(c.text))))); if (m.g.n(64) == 0) sched_yield(); } }
  return nullptr;
}
// the pool is first observed by one thread; then T threads replay it at once, each in its own order and rounding modes
static void run_threads(Mon &m) {
  warm(); auto ops = all_ops(m); long left = m.o.cases; const int K = 256;
  while (left > 0) { int T = 2 + (int)m.g.n(6); bool first_in_threads = m.g.n(4) == 0; std::vector<Call> pool(K); for (auto &c : pool) make_call(m, c, ops);
    auto record = [&] { for (auto &c : pool) { if (c.kind == 0) m.begin(c.d, c.rm, c.in); else m.begin(call_text(c)); observe(c, 0, c.out, c.fe, c.err, c.ob); } }; (void)first_in_threads; record();
    pthread_barrier_t b; pthread_barrier_init(&b, 0, T); std::vector<RT> ts(T); int rounds = 1 + (int)m.g.n(3);
    for (int k = 0; k < T; k++) { ts[k].m = sub_mon(m, k); ts[k].pool = &pool; ts[k].bar = &b; ts[k].rounds = rounds; ts[k].fresh = k == 0; }
    for (auto &t : ts) if (pthread_create(&t.t, 0, replay_thread, &t)) _exit(3); for (auto &t : ts) { pthread_join(t.t, 0); merge(m, t.m); }
    pthread_barrier_destroy(&b); m.cls["threads " + std::to_string(T)]++; left -= (long)K * T * rounds; }
}
static RegProp r4("threads", run_threads);
