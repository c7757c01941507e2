#include "mon.hpp"
#include <fstream>
#include <signal.h>
#include <time.h>
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
const OpDesc *find_op(const std::string &name, int fmt) { static std::map<std::pair<std::string, int>, const OpDesc *> m; if (m.empty()) for (int i = 0; i < shim_nops; i++) m[{shim_ops[i].name, shim_ops[i].fmt}] = &shim_ops[i]; auto it = m.find({name, fmt}); if (it == m.end()) { fprintf(stderr, "no op %s %d\n", name.c_str(), fmt); exit(3); } return it->second; }

static void dump(Mon &m, FILE *f) {
  fprintf(f, "{\"evals\":%llu,\"distinct\":%llu,\"inconclusive\":%llu,\"cls\":{", (unsigned long long)m.evals, (unsigned long long)m.distinct, (unsigned long long)m.inconclusive);
  bool first = true; for (auto &k : m.cls) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"known\":{"); first = true; for (auto &k : m.known_hits) { fprintf(f, "%s%s:[%llu,%s]", first ? "" : ",", js(k.first).c_str(), (unsigned long long)k.second, js(m.known_ex[k.first]).c_str()); first = false; }
  fprintf(f, "},\"vcount\":{"); first = true; for (auto &k : m.vcount) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"viol\":["); first = true; for (auto &v : m.viol) { fprintf(f, "%s[%s,%s]", first ? "" : ",", js(v.key).c_str(), js(v.text).c_str()); first = false; }
  fprintf(f, "],\"samples\":["); first = true; for (auto &s : m.samples) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
  fprintf(f, "]}\n");
}
int main(int argc, char **argv) {
  Opt o;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
    if (a == "-p") o.prop = nx(); else if (a == "-s") o.seed = strtoull(nx().c_str(), 0, 10); else if (a == "-n") o.cases = atol(nx().c_str());
    else if (a == "-j") o.jobs = atoi(nx().c_str()); else if (a == "-o") o.out = nx(); else if (a == "-T") o.thorough = true; else if (a == "-k") o.known.insert(nx());
    else if (a == "-O") o.only = nx(); else if (a == "-F") o.onlyf = atoi(nx().c_str()); else if (a == "-d") o.tmp = nx(); else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  PropFn fn = nullptr; for (auto &p : props()) if (o.prop == p.id) fn = p.fn;
  if (!fn) { fprintf(stderr, "no property %s\n", o.prop.c_str()); return 3; }
  std::vector<pid_t> pids; Cur *curs = (Cur *)mmap(0, sizeof(Cur) * o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (curs == MAP_FAILED) return 3;
  for (int w = 0; w < o.jobs; w++) { pid_t p = fork(); if (p < 0) return 3;
    if (p == 0) { FILE *f = fopen((o.out + "." + std::to_string(w)).c_str(), "w"); if (!f) _exit(3);
      { Mon *m = new Mon(o, w, &curs[w]); fn(*m); dump(*m, f); fclose(f); } fflush(0); _exit(0); }
    pids.push_back(p); }
  // watch the workers: a crash, or one call that eats more than hang_s of CPU, is an observation about that call
  const double hang_s = getenv("MON_HANG_S") ? atof(getenv("MON_HANG_S")) : 60; int bad = 0; size_t left = pids.size(); std::vector<uint64_t> lseq(pids.size()); std::vector<double> lcpu(pids.size()); std::vector<bool> done(pids.size()), hung(pids.size());
  auto cpu = [](pid_t p) { clockid_t c; timespec t; if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0.0; return t.tv_sec + t.tv_nsec * 1e-9; };
  for (int tick = 0; left; tick++) { usleep(tick < 50 ? 20000 : 200000);
    for (size_t w = 0; w < pids.size(); w++) { if (done[w]) continue; int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == 0) { double c = cpu(pids[w]); if (curs[w].seq != lseq[w]) { lseq[w] = curs[w].seq; lcpu[w] = c; } else if (curs[w].seq && c - lcpu[w] > hang_s) { hung[w] = true; kill(pids[w], SIGKILL); } continue; }
      done[w] = true; left--;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; FILE *f = fopen((o.out + "." + std::to_string(w) + ".died").c_str(), "w");
        if (f) { Cur &c = curs[w]; std::string t = c.seq == 0 ? "before the first call" : c.d ? describe_call(c.d, c.rm, c.in) : std::string(c.text);
          fprintf(f, "{\"kind\":%s,\"signal\":%d,\"status\":%d,\"call\":%s,\"op\":%s}\n", hung[w] ? "\"hang\"" : "\"crash\"", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, js(t).c_str(), js(c.seq && c.d ? std::string(c.d->name) + std::to_string(c.d->fmt) : "text").c_str()); fclose(f); } } } }
  return bad ? 4 : 0;
}
