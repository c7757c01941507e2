// P24: C++ stream insertion and extraction of decimal values.
#include "text.hpp"
#include "ios_calls.hpp"
static int FB[3] = {32, 64, 128};
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static void run_out(Mon &m) { Rng &g = m.g;
  for (long it = 0; it < m.o.cases; it++) { const Fmt &f = fmt_of(FB[g.n(3)]); u128 bits = gen_bits(g, f, 6); Num n = decode(f, bits); if (n.fin() && g.n(2)) { n.q = clampq(f, g.r(-f.p - 8, 10)); bits = encode(f, n); }
    int flags = (int)g.n(8), rm = (int)g.n(5), width = g.n(2) ? (int)g.n(60) : 0, adjust = (int)g.n(3); long prec = g.n(5) ? (long)g.n(f.p + 6) : g.n(2) ? 6 : (long)g.n(100); char fill = " *0#"[g.n(4)]; Spec s; bool up = flags & 4; long P = std::min<long>(prec, f.p); if ((flags & 3) == 3) { s.conv = up ? 'A' : 'a'; s.prec = -1; } else { s.conv = (flags & 1) ? (up ? 'F' : 'f') : (flags & 2) ? (up ? 'E' : 'e') : up ? 'G' : 'g'; s.prec = (int)P; }
    std::string body = ref_format(n, rm, s), exp = body; if ((int)body.size() < width) exp = adjust == 1 ? body + std::string(width - body.size(), fill) : std::string(width - body.size(), fill) + body;
    std::string what = "ostream << decimal" + std::to_string(f.bits) + " " + nstr(n) + ((flags & 1) ? " fixed" : "") + ((flags & 2) ? " scientific" : "") + (up ? " uppercase" : "") + " precision " + std::to_string(prec) + " width " + std::to_string(width) + (adjust == 1 ? " left" : adjust == 2 ? " right" : "") + " rm=" + rmname(rm); m.begin(what); shim_setround(rm);
    std::string out; long wa; bool good; ios_out(out, f.bits, bits, flags, prec, width, fill, adjust, wa, good); static const char *C[] = {"general", "fixed", "scientific", "hexfloat"}; m.saw(hmix(hmix(bits, (uint64_t)flags * 1000 + prec), (uint64_t)width * 16 + adjust * 4 + rm), !n.fin() ? "special" : body.size() > 64 ? "long" : C[flags & 3]);
    if (out != exp) m.fail(std::string("ostream:") + C[flags & 3] + ":" + std::to_string(f.bits), what + " expected " + q(exp) + " got " + q(out)); else if (!good) m.fail("ostream:state", what + " left the stream failed"); else if (wa != 0) m.fail("ostream:width", what + " did not reset the width");
    if ((m.evals & 0x3fff) == 1) m.sample(what + " -> " + q(out)); }
  shim_setround(0); }
static RegProp r1("ostream", run_out);

static void run_in(Mon &m) { Rng &g = m.g;
  for (long it = 0; it < m.o.cases; it++) { // a line of numbers in several notations, then something that is not one
    int k = (int)g.r(1, 5); std::vector<int> kinds; std::vector<Num> want; std::vector<std::string> tok; std::string text; int rm = (int)g.n(5); static const char *SP[] = {" ", "\n", "\t", "  ", " \r\n"};
    for (int i = 0; i < k; i++) { const Fmt &f = fmt_of(FB[g.n(3)]); u128 b = gen_bits(g, f, 8); Num n = decode(f, b); if (n.fin() && g.n(3)) n.q = clampq(f, g.r(-f.p - 6, 6)); Spec s; s.conv = "aAeEfFgG"[g.n(8)]; s.prec = s.conv == 'a' || s.conv == 'A' || g.n(4) == 0 ? -1 : (int)g.n(f.p + 3); s.plus = g.n(4) == 0; std::string t = ref_format(n, 0, s); if (n.inf() && g.n(2)) t += g.n(2) ? "inity" : "INITY"; if (n.nan() && g.n(3) == 0) t += "(a_9)";
      if (g.n(40) == 0) { t = ""; int L = (int)g.r(100, 400); for (int j = 0; j < L; j++) t += '0' + g.n(10); } kinds.push_back(f.bits); tok.push_back(t); text += (i || g.n(3) == 0 ? SP[g.n(5)] : "") + t; }
    static const char *TAIL[] = {"", "", " ", ",5", ";", " abc", "\n7x", ")", "  -"}; std::string tail = TAIL[g.n(9)]; text += tail; int extra = g.n(4) == 0; if (extra) kinds.push_back(FB[g.n(3)]);
    std::string what = "istream >> from " + q(text); m.begin(what); shim_setround(rm); std::vector<IosItem> items; std::string rest; ios_in(text, kinds, items, rest); bool bad = false;
    for (int i = 0; i < k && !bad; i++) { const Fmt &f = fmt_of(kinds[i]); if (i >= (int)items.size() || !items[i].ok) { m.fail("istream:fail", what + " item " + std::to_string(i) + " " + q(tok[i]) + " was not read"); bad = true; break; }
      Num n = decode(f, items[i].v); Parsed p = ref_parse(tok[i]); bool ok; const char *cl = "exact"; m.saw(hmix(hmix(std::hash<std::string>()(tok[i]), (uint64_t)f.bits * 8 + rm), (uint64_t)i));
      if (p.nan) ok = n.nan(); else if (p.inf) ok = n.inf() && n.neg == p.neg; else if (p.c == 0) ok = n.fin() && n.c == 0 && n.neg == p.neg;
      else { Z c = p.c, e = p.e; long nd = ndigz(c); if (nd > f.p) { c = round_drop(c, nd - f.p, p.neg, rm); e += nd - f.p; if (ndigz(c) > f.p) { c /= 10; e += 1; } } if (e < f.qmin) { m.cls["below-least-exponent"]++; continue; } if (e > f.qmax) { bool over = e - f.qmax + ndigz(c) > f.p; m.cls[over ? "overflow" : "clamped"]++; if (over) { ok = n.neg == p.neg && (n.inf() || (rm && rm != RM_AWAY)); } else { long sh = 0; Z x = zu(n.c); Z y = c; if (e > n.q) { Z d = e - n.q; y *= p10(d.get_si()); } ok = n.fin() && n.neg == p.neg && x == y; (void)sh; } } else ok = n.fin() && n.neg == p.neg && zu(n.c) == c && Z(n.q) == e; }
      m.cls[p.nan ? "nan" : p.inf ? "inf" : p.c == 0 ? "zero" : cl]++; if (!ok) { m.fail("istream:value:" + std::to_string(f.bits), what + " item " + q(tok[i]) + " read as " + nstr(n) + " rm=" + rmname(rm)); bad = true; } }
    if (bad) continue;
    if (!extra) { m.cls["rest"]++; if (rest != tail) m.fail("istream:rest", what + " left " + q(rest) + " unread instead of " + q(tail)); }
    else { m.cls["failed-extraction"]++; bool more = tail == "\n7x"; if ((int)items.size() > k && items[k].ok != more) m.fail("istream:extra", what + (more ? " did not read the number after the newline" : " reported success where no number follows")); }
    if ((m.evals & 0x3fff) < 4) m.sample(what + " read " + std::to_string(items.size()) + " values, rest " + q(rest)); }
  shim_setround(0); }
static RegProp r2("istream", run_in);
