// Monitor harness: forks workers, each drives the real library and judges every
// observed call; the parent merges what the monitors saw into one JSON report.
#pragma once
#include "gen.hpp"
#include <cfenv>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/mman.h>

struct Opt { std::string prop; uint64_t seed = 1; long cases = 100000; int jobs = 8; std::string out; bool thorough = false; std::set<std::string> known; std::string only; int onlyf = 0; std::string tmp; };

// what a worker is doing right now, in shared memory: read by the parent after a crash or a hang
struct Cur { volatile uint64_t seq; const OpDesc *d; int rm; CallIn in; char text[1000]; };
struct Violation { std::string key, text; };
struct Mon {
  Rng g; Opt o; int wid; Cur *cur = nullptr;
  uint64_t evals = 0, nontriv = 0, distinct = 0, calls = 0, inconclusive = 0;
  std::map<std::string, uint64_t> cls;            // observed situation -> count
  std::map<std::string, uint64_t> known_hits; std::map<std::string, std::string> known_ex;
  std::map<std::string, uint64_t> vcount; std::vector<Violation> viol; std::vector<std::string> samples;
  std::vector<uint64_t> bm; uint64_t bmask;
  Mon(const Opt &op, int w, Cur *c) : g(op.seed * 1000003 + w * 7919 + 17), o(op), wid(w), cur(c) { bm.resize(1u << 20); bmask = (1ull << 26) - 1; }
  void begin(const OpDesc *d, int rm, const CallIn &in) { cur->d = d; cur->rm = rm; cur->in = in; cur->seq++; }
  void begin(const std::string &t) { cur->d = nullptr; size_t n = t.size() < 999 ? t.size() : 999; memcpy(cur->text, t.data(), n); cur->text[n] = 0; cur->seq++; }
  // count one judged, non-trivial case; distinctness through a 2^26-bit sketch (undercounts)
  void saw(uint64_t h, const char *c = nullptr) { evals++; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; uint64_t i = h & bmask; if (!((bm[i >> 6] >> (i & 63)) & 1)) { bm[i >> 6] |= 1ull << (i & 63); distinct++; } if (c) cls[c]++; }
  void fail(const std::string &key, const std::string &text) { if (vcount[key]++ < 3) viol.push_back({key, text}); }
  // a deviation that falls under a recorded finding; a violation when it is not recorded
  void known_or_fail(const std::string &id, const std::string &key, const std::string &text) {
    if (o.known.count(id)) { if (!known_hits[id]++) known_ex[id] = text; } else fail(key, text); }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
};
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
static inline uint64_t hmix(uint64_t h, u128 v) { return hmix(hmix(h, (uint64_t)v), (uint64_t)(v >> 64)); }
std::string js(const std::string &s);

typedef void (*PropFn)(Mon &);
struct Prop { const char *id; PropFn fn; };
extern std::vector<Prop> &props();
struct RegProp { RegProp(const char *id, PropFn f) { props().push_back({id, f}); } };
static inline const char *rmname(int rm) { static const char *n[] = {"tonearest", "towardzero", "upward", "downward", "tonearestfromzero"}; return rm >= 0 && rm < 5 ? n[rm] : "?"; }
static inline int fe2fx(int fe) { return (fe & FE_INVALID ? FX_INVALID : 0) | (fe & FE_DIVBYZERO ? FX_DIVZERO : 0) | (fe & FE_OVERFLOW ? FX_OVER : 0) | (fe & FE_UNDERFLOW ? FX_UNDER : 0) | (fe & FE_INEXACT ? FX_INEXACT : 0); }
static inline int fx2fe(int fx) { return (fx & FX_INVALID ? FE_INVALID : 0) | (fx & FX_DIVZERO ? FE_DIVBYZERO : 0) | (fx & FX_OVER ? FE_OVERFLOW : 0) | (fx & FX_UNDER ? FE_UNDERFLOW : 0) | (fx & FX_INEXACT ? FE_INEXACT : 0); }
static inline std::string fxs(int f) { std::string s; if (f & 1) s += "invalid|"; if (f & 2) s += "divbyzero|"; if (f & 4) s += "overflow|"; if (f & 8) s += "underflow|"; if (f & 16) s += "inexact|"; if (s.empty()) return "none"; s.pop_back(); return s; }
const OpDesc *find_op(const std::string &name, int fmt);
std::string describe_call(const OpDesc *d, int rm, const CallIn &in);
