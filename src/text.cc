// P20..P23, P29: formatted output, parsing, strfrom and round trips.
#include "text.hpp"
#include <clocale>
#include <cwchar>
extern "C" int shim_swprintf(wchar_t *buf, unsigned long n, const wchar_t *fmt, int s1, int s2, int nstar, int f, u128 a);
static const char *MODS[3] = {"H", "D", "DD"}; static int FB[3] = {32, 64, 128};
static std::string q(const std::string &s) { return s.size() < 400 ? "\"" + s + "\"" : "\"" + s.substr(0, 150) + "...(" + std::to_string(s.size()) + " characters)..." + s.substr(s.size() - 100) + "\""; }
// widths and precisions around the sizes of buffers and of small integer types
static const size_t BIG = 150000; static int big_size(Rng &g) { static const int B[] = {64, 128, 256, 512, 1000, 1024, 4096, 8192, 10000, 32768, 65536}; return B[g.n(11)] + (int)g.r(-2, 2); }

static Num text_num(Rng &g, const Fmt &f) { // decimals whose printed form sits near rounding and layout boundaries
  u128 b = gen_bits(g, f, 8); Num n = decode(f, b);
  if (g.n(3)) { n = Num(); n.neg = g.n(2); int nd = g.n(4) == 0 ? f.p : (int)g.r(1, f.p); n.c = g.n(2) ? gen_coeff(g, nd) : gen_tie(g, nd, (int)g.r(0, nd));
    long e; switch (g.n(6)) { case 0: e = g.r(-8, 8); break; case 1: e = -nd + g.r(-8, 3); break; case 2: e = g.r(-nd - 2, 1); break; case 3: e = 0; break; case 4: e = g.r(-45, 45); break; default: e = gen_exp(g, f, nd); } n.q = clampq(f, e); }
  return n; }
static Spec text_spec(Rng &g, const Fmt &f, const Num &n) { Spec s; s.conv = "fFeEgGaA"[g.n(8)]; int k = (int)g.n(4); if (k) { s.left = g.n(4) == 0; s.plus = g.n(4) == 0; s.space = g.n(5) == 0; s.zero = g.n(4) == 0; s.alt = g.n(4) == 0; if (g.n(2)) s.width = (int)g.r(0, g.n(4) ? 30 : 90); }
  int nd = n.fin() ? ndig(n.c) : 3; switch (g.n(8)) { case 0: case 1: s.prec = -1; break; case 2: s.prec = (int)g.r(0, 3); break; case 3: s.prec = std::max(0, nd - (int)g.r(0, 4)); break; case 4: s.prec = n.fin() ? (int)std::max<long>(0, std::min<long>(200, -(long)n.q - g.r(-2, 5))) : 2; break; case 5: s.prec = (int)g.r(0, 50); break; case 6: s.prec = (int)g.r(0, f.p + 2); break; default: s.prec = nd; }
  if (g.n(200) == 0) s.prec = (int)g.r(50, 700); if (g.n(1200) == 0) (g.n(2) ? s.prec : s.width) = big_size(g); return s; }
static std::string spec_text(Rng &g, const Spec &s, const char *mod, int &s1, int &s2, int &nstar) { std::string t = "%", fl; nstar = 0;
  if (s.left) fl += '-'; if (s.plus) fl += '+'; if (s.space) fl += ' '; if (s.zero) fl += '0'; if (s.alt) fl += '#'; for (size_t i = fl.size(); i > 1; i--) std::swap(fl[i - 1], fl[g.n(i)]); t += fl;
  bool ws = s.width >= 0 && g.n(4) == 0, ps = s.prec >= 0 && g.n(4) == 0;
  if (s.width >= 0) { if (ws) { t += '*'; s1 = s.width; nstar = 1; } else if (s.width > 0) t += std::to_string(s.width); }
  if (s.prec >= 0) { t += '.'; if (ps) { t += '*'; if (nstar) s2 = s.prec; else s1 = s.prec; nstar++; } else if (s.prec > 0 || g.n(2)) t += std::to_string(s.prec); }
  return t + mod + s.conv; }
static const char *text_class(const Num &n, const Spec &s, const std::string &out) { if (n.nan()) return "nan"; if (n.inf()) return "inf"; if (n.c == 0) return "zero"; switch (s.conv | 32) { case 'f': return "fixed"; case 'e': return "exponent"; case 'g': return out.find_first_of("eE") == std::string::npos ? "general-fixed" : "general-exponent"; default: return out.find_first_of("eE") == std::string::npos ? "a-fixed" : "a-exponent"; } }

static void run_printf(Mon &m) {
  for (long i = 0; i < m.o.cases; i++) {
    int k = (int)m.g.n(3); const Fmt &f = fmt_of(FB[k]); Num n = text_num(m.g, f); u128 bits = encode(f, n); if (m.g.n(30) == 0) { bits = gen_bits(m.g, f, 30); } n = decode(f, bits);
    Spec s = text_spec(m.g, f, n); int s1 = 0, s2 = 0, ns = 0; std::string fmt = spec_text(m.g, s, MODS[k], s1, s2, ns); int rm = (int)m.g.n(5);
    std::string exp = ref_format(n, rm, s), pre = m.g.n(4) == 0 ? "x%%<" : "", post = m.g.n(4) == 0 ? ">%%" : ""; fmt = pre + fmt + post; if (!pre.empty()) exp = "x%<" + exp; if (!post.empty()) exp += ">%";
    std::string what = "printf(" + q(fmt) + ", " + std::to_string(s1) + "," + std::to_string(s2) + ", d" + std::to_string(f.bits) + " 0x" + hexs(bits, f.bits) + "(" + nstr(n) + ")) rm=" + rmname(rm);
    m.begin(what); shim_setround(rm); static char buf[BIG + 1]; std::string kc = std::string(1, s.conv | 32) + std::to_string(f.bits);
    size_t sz = m.g.n(4) ? sizeof buf - 1 : m.g.n(exp.size() + 3); memset(buf, 0x5a, 64); buf[sz] = 0x5a; int r = shim_printf(buf, sz, fmt.c_str(), s1, s2, ns, f.bits, bits);
    if (buf[sz] != 0x5a) m.fail("printf:overrun:" + kc, what + " wrote past the buffer of " + std::to_string(sz));
    std::string want = sz == 0 ? "" : exp.substr(0, sz - 1), got = sz == 0 ? "" : std::string(buf, strnlen(buf, sz));
    m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(fmt)), (uint64_t)rm * 8 + k), text_class(n, s, exp)); if (exp.size() > 900) m.cls["very wide"]++;
    if (got != want) m.fail("printf:" + kc + ":" + text_class(n, s, exp) + (s.width > 0 ? ":w" : "") + (s.alt ? ":#" : "") + ":" + rmname(rm), what + " expected " + q(want) + " got " + q(got));
    else if (r != (int)exp.size()) m.fail("printf:return:" + kc, what + " printed " + std::to_string(exp.size()) + " characters but returned " + std::to_string(r));
    if (m.g.n(8) == 0) { wchar_t wf[200]; static wchar_t wb[BIG]; size_t L = 0; for (; L < fmt.size(); L++) wf[L] = (unsigned char)fmt[L]; wf[L] = 0; int wr = shim_swprintf(wb, BIG, wf, s1, s2, ns, f.bits, bits); std::string w8; if (wr >= 0) for (int j = 0; wb[j]; j++) w8 += wb[j] < 128 ? (char)wb[j] : '?'; m.cls["wide"]++;
      if (w8 != exp || wr != (int)exp.size()) m.fail("printf:wide:" + kc, "wide " + what + " expected " + q(exp) + " got " + q(w8) + " returned " + std::to_string(wr)); }
    if (shim_getround() != rm) m.fail("printf:round-mode", what + " changed the decimal rounding mode");
    if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + q(got));
  }
  shim_setround(0);
}
static RegProp r1("printf", run_printf);

static void run_strfrom(Mon &m) {
  for (long i = 0; i < m.o.cases; i++) {
    int k = (int)m.g.n(3); const Fmt &f = fmt_of(FB[k]); Num n = text_num(m.g, f); u128 bits = encode(f, n); Spec s = text_spec(m.g, f, n), t; t.conv = s.conv; t.prec = s.prec; int rm = (int)m.g.n(5);
    std::string fmt = "%"; if (t.prec >= 0) { fmt += "."; if (t.prec > 0 || m.g.n(2)) fmt += std::to_string(t.prec); } fmt += t.conv; std::string exp = ref_format(n, rm, t);
    static char buf[BIG]; size_t sz; switch (m.g.n(4)) { case 0: sz = m.g.n(4); break; case 1: sz = m.g.n(exp.size() + 4); break; case 2: sz = exp.size() + m.g.n(3); break; default: sz = std::max<size_t>(8184, exp.size() + 10); }
    std::string what = "strfromd" + std::to_string(f.bits) + "(buf, " + std::to_string(sz) + ", " + q(fmt) + ", 0x" + hexs(bits, f.bits) + "(" + nstr(n) + ")) rm=" + rmname(rm); m.begin(what); memset(buf, 0x5a, sizeof buf < 300 + sz ? sizeof buf : 300 + sz); shim_setround(rm);
    int r = shim_strfrom(f.bits, buf, sz, fmt.c_str(), bits); std::string kc = std::string(1, t.conv | 32) + std::to_string(f.bits);
    std::string want = sz == 0 ? "" : exp.substr(0, sz - 1), got = sz == 0 ? "" : std::string(buf, strnlen(buf, sz)); const char *cl = text_class(n, t, exp);
    m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(fmt)), (uint64_t)rm * 8 + k + sz * 64), sz == 0 ? "length-only" : sz <= exp.size() ? "truncated" : cl);
    if (buf[sz] != 0x5a) m.fail("strfrom:overrun:" + kc, what + " wrote past the buffer");
    if (got != want) m.fail("strfrom:" + kc + ":" + cl + ":" + rmname(rm), what + " expected " + q(want) + " got " + q(got));
    if (r != (int)exp.size()) m.fail("strfrom:return:" + kc + ":" + cl, what + " expected return " + std::to_string(exp.size()) + " got " + std::to_string(r));
    if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + q(got) + " returns " + std::to_string(r));
  }
  shim_setround(0);
}
static RegProp r2("strfrom", run_strfrom);

// --- strtod / wcstod ----------------------------------------------------------------------
static std::string num_text(Rng &g, const Fmt &f) {   // decimal text: more or fewer digits than the format, point anywhere, exponent near the range ends
  int nd; switch (g.n(6)) { case 0: nd = f.p; break; case 1: nd = f.p + 1; break; case 2: nd = (int)g.r(1, f.p); break; case 3: nd = f.p + (int)g.r(1, 6); break; case 4: nd = (int)g.r(1, 3 * f.p); break; default: nd = g.n(6) == 0 ? (int)g.r(1, 900) : (int)g.r(1, f.p + 3); }
  std::string d; if (nd > f.p && g.n(3)) {  // kept digits, then something at, just above or just below a boundary
    d = u128s(g.n(3) ? gen_coeff(g, f.p) : p10u(f.p) - 1); int t = nd - f.p; switch (g.n(5)) { case 0: d += "5" + std::string(t - 1, '0'); break; case 1: d += "5" + std::string(t - 1, '0'); if (t > 1) d.back() = '1'; break; case 2: d += "4" + std::string(t - 1, '9'); break; case 3: d += std::string(t, '0'); if (g.n(2)) d.back() = '1'; break; default: d += std::string(t, '9'); } }
  else if (nd <= 38) d = u128s(gen_coeff(g, nd)); else for (int i = 0; i < nd; i++) d += (char)('0' + (g.n(3) ? g.n(10) : g.n(2) * 9));
  if (g.n(12) == 0) d = std::string(1 + g.n(4), '0'); if (g.n(5) == 0) d = std::string(g.n(6) ? g.n(4) : g.n(500), '0') + d;
  long L = (long)d.size(), pt; std::string s; switch (g.n(5)) { case 0: pt = L; break; case 1: pt = 0; break; case 2: pt = g.r(0, L); break; case 3: pt = -g.r(0, g.n(8) ? 5 : 450); break; default: pt = 1; }
  long frac = L - pt; if (pt <= 0) s = (g.n(4) ? "0." : ".") + std::string(-pt, '0') + d; else { s = d.substr(0, pt); if (pt < L || g.n(3) == 0) s += "." + d.substr(pt); else frac = 0; }
  if (g.n(5)) { long q; switch (g.n(7)) { case 0: q = g.r(-60, 60); break; case 1: q = f.qmin + g.r(-4, 12); break; case 2: q = f.qmax + g.r(-f.p - 2, 4) - (nd - f.p > 0 ? nd - f.p : 0); break; case 3: q = f.qmax + f.p - nd + g.r(-2, 2); break; case 4: q = g.r(f.qmin, f.qmax); break; case 5: q = 0; break; default: q = g.n(4) ? g.r(-20, 20) : g.r(-100000, 100000); }
    long e = q + frac; std::string x = std::to_string(labs(e)); if (g.n(6) == 0) x = std::string(g.n(5), '0') + x; if (g.n(60) == 0) x += std::string(g.n(30), '0'); s += (g.n(2) ? "e" : "E") + std::string(e < 0 ? "-" : g.n(3) ? "" : "+") + x; }
  return s; }
static std::string any_text(Rng &g, const Fmt &f) {
  static const char *ws[] = {"", "", "", "", " ", "\t", "\n", "  ", "\v\f\r "}; std::string s = ws[g.n(9)]; s += g.n(3) == 0 ? "-" : g.n(5) == 0 ? "+" : "";
  unsigned k = (unsigned)g.n(24); if (k == 0) { static const char *w[] = {"inf", "INF", "Infinity", "infinit", "iNfInItY", "in", "i", "infi", "nan", "NaN", "nan()", "nan(12_aZ)", "nan(", "nan(1 )", "na", "NAN(7)x", "n"}; s += w[g.n(17)]; }
  else if (k == 1) { static const char *w[] = {"", "-", "+", ".", "e5", ".e5", "x1", "-.", "+-1", "0x", "0x1p3", "--1", "E", ",1", ". 5", "0.e", "00e+", "1e-", "1.e", "1..2", "1.5.2", "5e5.5", "1e+-3", "1ee3", "0e", ".0", "-0", "0.", "-.0e9"}; s += w[g.n(29)]; }
  else if (k == 2) { static const char al[] = "0123456789.eE+-,x 00599"; int n = (int)g.r(0, 12); for (int i = 0; i < n; i++) s += al[g.n(sizeof al - 1)]; }
  else s += num_text(g, f);
  if (g.n(4) == 0) { static const char *t[] = {" ", "x", "e", "E+", ".", "f", "DD", ",000", "-1", "e1", "\n", "_"}; s += t[g.n(12)]; }
  return s; }
struct Want { bool nan = false, inf = false, maybe_zero = false, over = false, exact_q = true; Num n; int err = 0; const char *cls = "exact"; };
static Want want_of(const Parsed &p, const Fmt &f, int rm) {
  Want w; w.n = Num(); w.n.neg = p.neg; if (!p.conv) { w.n.neg = false; w.exact_q = false; w.cls = "no-conversion"; return w; } if (p.nan) { w.nan = true; w.cls = "nan"; return w; } if (p.inf) { w.inf = true; w.cls = "inf"; return w; }
  if (p.c == 0) { w.cls = "zero"; w.exact_q = p.e >= f.qmin && p.e <= f.qmax && p.x >= f.qmin && p.x <= f.qmax; w.n.q = w.exact_q ? (int)p.e.get_si() : 0; return w; }
  Z c = p.c, e = p.e; long nd = ndigz(c); bool inex = false; if (nd > f.p) { Z o = c; c = round_drop(c, nd - f.p, p.neg, rm); inex = c * p10(nd - f.p) != o; e += nd - f.p; w.cls = inex ? "rounded" : "exact"; if (ndigz(c) > f.p) { c /= 10; e += 1; w.cls = "carried"; } }
  if (e > f.qmax) { if (e > f.qmax + f.p) { w.over = true; } else { long k = e.get_si() - f.qmax, n = ndigz(c); if (n + k > f.p) w.over = true; else { w.exact_q = false; c *= p10(k); e = f.qmax; w.cls = "clamped"; } } if (w.over) { w.inf = true; w.err = ERANGE; w.cls = "overflow"; return w; } }
  if (e < f.qmin) { w.maybe_zero = true; w.err = ERANGE; w.cls = "underflow"; Z k = f.qmin - p.e; c = k > 100000 ? (round_drop(p.c, ndigz(p.c) + 5, p.neg, rm)) : round_drop(p.c, k.get_si(), p.neg, rm); e = f.qmin; w.exact_q = false; }
  w.n.c = uz(c); w.n.q = (int)e.get_si(); return w; }
static void judge_parse(Mon &m, const Fmt &f, const std::string &s, int rm, bool wide, bool nullend) {
  Parsed p = ref_parse(s); Want w = want_of(p, f, rm); std::string fn = std::string(wide ? "wcstod" : "strtod") + std::to_string(f.bits), what = fn + "(" + q(s) + ") rm=" + rmname(rm); m.begin(what);
  shim_setround(rm); errno = 0; u128 r; long used;
  if (wide) { std::vector<wchar_t> t(s.begin(), s.end()); t.push_back(0); wchar_t *end = nullptr; r = shim_wcstod(f.bits, t.data(), nullend ? nullptr : &end); used = nullend ? (long)p.used : end - t.data(); }
  else { std::vector<char> t(s.begin(), s.end()); t.push_back(0); char *end = nullptr; r = shim_strtod(f.bits, t.data(), nullend ? nullptr : &end); used = nullend ? (long)p.used : end - t.data(); }
  int e = errno; Num n = decode(f, r); bool ok; m.saw(hmix(std::hash<std::string>()(s), (uint64_t)rm * 8 + f.bits + wide), w.cls); std::string kc = fn + ":" + w.cls;
  if (used != (long)p.used) { m.fail(kc + ":end", what + " expected " + std::to_string(p.used) + " characters consumed, got " + std::to_string(used)); return; }
  if (w.nan) ok = n.nan(); else if (w.inf) ok = (n.inf() && n.neg == p.neg) || (w.over && rm != RM_NEAR && rm != RM_AWAY && n.fin() && n.neg == p.neg && n.c == p10u(f.p) - 1 && n.q == f.qmax);
  else if (w.maybe_zero && n.fin() && n.c == 0) ok = n.neg == w.n.neg; else if (w.n.c == 0) ok = n.fin() && n.c == 0 && n.neg == w.n.neg && (!w.exact_q || n.q == w.n.q);
  else ok = n.fin() && n.neg == w.n.neg && (w.exact_q ? n.c == w.n.c && n.q == w.n.q : ndigz(zu(n.c)) + n.q == ndigz(zu(w.n.c)) + w.n.q && (n.q <= w.n.q ? Z(zu(w.n.c) * p10(w.n.q - n.q)) == zu(n.c) : Z(zu(n.c) * p10(n.q - w.n.q)) == zu(w.n.c)));
  if (!ok) m.fail(kc + ":" + rmname(rm), what + " expected " + (w.nan ? "nan" : w.inf ? (p.neg ? "-inf" : "inf") : nstr(w.n)) + " got 0x" + hexs(r, f.bits) + " (" + nstr(n) + ")");
  else if (w.err == ERANGE && e != ERANGE && !(w.maybe_zero && n.c != 0)) m.fail(kc + ":errno", what + " out of range but errno is " + std::to_string(e));
  else if (w.err == 0 && e != 0) m.fail(kc + ":errno", what + " in range but errno is " + std::to_string(e));
  if (shim_getround() != rm) m.fail("parse:round-mode", what + " changed the decimal rounding mode");
  if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + nstr(n) + " used " + std::to_string(used));
}
static void run_parse(Mon &m) { for (long i = 0; i < m.o.cases; i++) { const Fmt &f = fmt_of(FB[m.g.n(3)]); std::string s = any_text(m.g, f); judge_parse(m, f, s, (int)m.g.n(5), m.g.n(3) == 0, m.g.n(16) == 0); } shim_setround(0); }
static RegProp r3("parse", run_parse);
