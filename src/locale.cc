// P29: formatted output and parsing under the numeric conventions of other locales.
#include <wctype.h>
#include "text.hpp"
#include <clocale>
#include <climits>
#include <cwchar>
#include <langinfo.h>
extern "C" int shim_swprintf(wchar_t *buf, unsigned long n, const wchar_t *fmt, int s1, int s2, int nstar, int f, u128 a);
static const char *MODS[3] = {"H", "D", "DD"}; static int FB[3] = {32, 64, 128};
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static const char *LOCS[] = {"C", "en_US.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "de_CH.UTF-8", "en_IN.UTF-8", "ps_AF.UTF-8", "unm_US.UTF-8", "cmn_TW.UTF-8", "de_DE.ISO-8859-1", "fr_FR.ISO-8859-1", "tr_TR.UTF-8", "tr_TR.ISO-8859-9"};
static std::wstring widen(const std::string &s) { std::wstring w; mbstate_t st; memset(&st, 0, sizeof st); const char *p = s.data(), *e = p + s.size(); while (p < e) { wchar_t c; size_t k = mbrtowc(&c, p, e - p, &st); if (k == (size_t)-1 || k == (size_t)-2) { w += L'\xfffd'; p++; memset(&st, 0, sizeof st); } else { w += c; p += k ? k : 1; } } return w; }
// separators go between digits where the locale's grouping says so, counting from the decimal point
static std::string group_digits(const std::string &ip, const char *gr, const std::string &sep) { if (!gr || !*gr || sep.empty()) return ip; std::string out; size_t end = ip.size(); std::vector<std::string> parts; int g = (unsigned char)*gr; while (end > 0) { if (g == CHAR_MAX || (signed char)g <= 0 || (size_t)g >= end) { parts.push_back(ip.substr(0, end)); end = 0; } else { parts.push_back(ip.substr(end - g, g)); end -= g; if (gr[1]) gr++, g = (unsigned char)*gr; } } for (size_t i = parts.size(); i--;) { out += parts[i]; if (i) out += sep; } return out; }
static void run_locale(Mon &m) { Rng &g = m.g; struct L { const char *name; std::string dec, sep, gr; locale_t loc; wchar_t wsep; }; std::vector<L> ls;
  for (auto n : LOCS) { if (!setlocale(LC_ALL, n)) { fprintf(stderr, "locale %s missing\n", n); exit(3); } lconv *c = localeconv(); ls.push_back({n, c->decimal_point, c->thousands_sep, c->grouping, newlocale(LC_ALL_MASK, n, 0), (wchar_t)(uintptr_t)nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC)}); }
  setlocale(LC_ALL, "C");
  for (size_t li = 0; li < ls.size() * 24; li++) { L &l = ls[(li + m.wid) % ls.size()]; bool per_thread = g.n(3) == 0; setlocale(LC_ALL, per_thread ? ls[g.n(ls.size())].name : l.name); if (per_thread) uselocale(l.loc);
    for (long it = 0; it < m.o.cases / (long)(ls.size() * 24) + 1; it++) {
      int k = (int)g.n(3); const Fmt &f = fmt_of(FB[k]); int rm = (int)g.n(5); shim_setround(rm);
      if (g.n(2)) { u128 bits = gen_bits(g, f, 5); Num n = decode(f, bits); if (n.fin() && g.n(4)) { n.q = clampq(f, g.r(-f.p - 2, 9)); bits = encode(f, n); }
        Spec s; s.conv = "ffFgGea"[g.n(7)]; s.prec = g.n(3) ? (int)g.n(f.p + 8) : -1; s.plus = g.n(4) == 0; s.alt = g.n(5) == 0; int w = g.n(2) ? (int)g.n(50) : -1; bool left = g.n(3) == 0, zero = !left && g.n(3) == 0, grp = (s.conv | 32) != 'a' && (s.conv | 32) != 'e' && g.n(2);
        std::string body = ref_format(n, rm, s), exp; size_t sg = !body.empty() && (body[0] == '-' || body[0] == '+'), b = sg, e = b; while (e < body.size() && isdigit((unsigned char)body[e])) e++; std::string ip = body.substr(b, e - b); bool dot = e < body.size() && body[e] == '.'; std::string tail = body.substr(e + dot); std::string gi = grp && n.fin() ? group_digits(ip, l.gr.c_str(), l.sep) : ip; std::string num = gi + (dot ? l.dec : "") + tail, sign = body.substr(0, sg); long cols = (long)sg + (long)widen(num).size(), pd = std::max<long>(0, w - cols); bool nonascii = false; for (unsigned char c : num) nonascii |= c > 127;
        exp = left ? sign + num + std::string(pd, ' ') : zero && n.fin() ? sign + std::string(pd, '0') + num : std::string(pd, ' ') + sign + num;
        if (nonascii && pd > 0) continue; // the unit of the field width (bytes or characters) is not specified for multibyte separators
        std::string fmt = std::string("%") + (grp ? "'" : "") + (left ? "-" : "") + (zero ? "0" : "") + (s.plus ? "+" : "") + (s.alt ? "#" : "") + (w > 0 ? std::to_string(w) : "") + (s.prec >= 0 ? "." + std::to_string(s.prec) : "") + MODS[k] + s.conv;
        std::string what = std::string(l.name) + (per_thread ? " (uselocale)" : "") + ": printf(" + q(fmt) + ", " + nstr(n) + ") rm=" + rmname(rm); m.begin(what); static char buf[20000]; int r = shim_printf(buf, sizeof buf, fmt.c_str(), 0, 0, 0, f.bits, bits); std::string kc = std::string(l.name) + (grp ? ":grouped" : ":plain");
        m.saw(hmix(hmix(bits, (uint64_t)std::hash<std::string>()(fmt)), (uint64_t)li), (std::string(l.name) + (gi != ip ? " grouped" : dot ? " decimal point" : " digits only")).c_str());
        if (exp != buf) m.fail("locale:print:" + kc, what + " expected " + q(exp) + " got " + q(buf)); else if (r != (int)exp.size()) m.fail("locale:return:" + kc, what + " expected return " + std::to_string(exp.size()) + " got " + std::to_string(r));
        if (g.n(4) == 0) { wchar_t wf[80]; size_t i = 0; for (; i < fmt.size(); i++) wf[i] = fmt[i]; wf[i] = 0; static wchar_t wb[20000]; int wr = shim_swprintf(wb, 20000, wf, 0, 0, 0, f.bits, bits); std::wstring we; { std::string x = exp; if (gi != ip) { std::string sp(l.sep); size_t at; std::string mark("\x01"); while ((at = x.find(sp)) != std::string::npos) x.replace(at, sp.size(), mark); } we = widen(x); for (auto &c : we) if (c == 1) c = l.wsep; } m.cls["wide"]++; if (we != wb || wr != (int)we.size()) { std::string t; for (wchar_t *p = wb; *p; p++) { char x[12]; if (*p < 128) t += (char)*p; else { snprintf(x, 12, "<%x>", *p); t += x; } } m.fail("locale:wprint:" + kc, "wide " + what + " expected " + q(exp) + " got " + q(t) + " returned " + std::to_string(wr)); } }
        if (!grp && n.fin() && g.n(2)) { // what was printed reads back under the same locale
          char *end; u128 r2 = shim_strtod(f.bits, buf, &end); Num bk = decode(f, r2); std::string t = buf; Spec s2 = s; size_t pos = end - buf; size_t last = t.find_last_not_of(' '); if (pos != last + 1) m.fail("locale:readback-end:" + kc, what + " printed " + q(buf) + " but strtod stopped after " + std::to_string(pos)); m.cls["read back"]++; (void)bk; } }
      else if (g.n(6) == 0) { // words and white space: the words are the same in every locale, white space is the locale's
        static const char *W[] = {"inf", "infinity", "nan", "nan(i)", "nan(I)", "nan(aZi_9)", "infinitx", "in", "na", "nan(", "nan(i"}; std::string w = W[g.n(11)]; for (auto &c : w) if (g.n(2) && c >= 'a' && c <= 'z' && c != '_') c -= 32; if (g.n(4) == 0) { static const char *X[] = {"i", "I", "x", "(", "_", "\xdd", "\xfd", "\xc4\xb0", "\xc4\xb1", "\xe2\x84\xaa"}; w.insert(w.size() - (g.n(2) && w.size() > 4 ? 1 : 0), X[g.n(10)]); } if (g.n(4) == 0) w = (g.n(2) ? "-" : "+") + w; bool num = g.n(4) == 0; if (num) w = std::to_string(g.n(100000));
        bool wide = g.n(2); std::wstring ws; std::string ns; size_t nw = g.n(3); bool stop = false; if (wide) for (size_t i = 0; i < nw; i++) ws += (wchar_t[]){L' ', L'\t', 0x2003, 0x3000, 0xa0, 0x85, 0x200b, L'\n'}[g.n(8)]; else for (size_t i = 0; i < nw; i++) ns += (char[]){' ', '\t', '\v', '\n', '\xa0', '\x85', '\r', '\f'}[g.n(8)];
        for (wchar_t c : ws) stop |= !iswspace(c); for (char c : ns) stop |= !isspace((unsigned char)c); Parsed p = ref_parse(w); std::string what = std::string(l.name) + (per_thread ? " (uselocale)" : "") + (wide ? ": wcstod" : ": strtod") + std::to_string(f.bits) + "(" + (ns.size() + ws.size() ? "white space " : "") + q(w) + ")"; for (wchar_t c : ws) { char x[12]; snprintf(x, 12, " <%x>", (unsigned)c); what += x; } for (char c : ns) { char x[12]; snprintf(x, 12, " <%x>", (unsigned char)c); what += x; }
        m.begin(what); long got; u128 r; long used = stop || !p.conv ? 0 : (long)(nw + p.used); if (wide) { std::wstring wt = ws + widen(w); wchar_t *e; r = shim_wcstod(f.bits, wt.c_str(), &e); got = e - wt.c_str(); } else { std::string t = ns + w; char *e; r = shim_strtod(f.bits, t.c_str(), &e); got = e - t.c_str(); }
        Num n = decode(f, r); m.saw(hmix(std::hash<std::string>()(what), (uint64_t)li), (std::string(l.name) + (num ? " number" : p.conv ? " word" : " not a word") + (nw ? " after white space" : "")).c_str()); bool ok = stop || !p.conv ? n.fin() && n.c == 0 && !n.neg : p.nan ? n.nan() : p.inf ? n.inf() && n.neg == p.neg : n.fin();
        if (got != used) m.fail(std::string("locale:word-end:") + l.name, what + " expected " + std::to_string(used) + " consumed, got " + std::to_string(got)); else if (!ok) m.fail(std::string("locale:word:") + l.name, what + " got " + nstr(n)); }
      else { // parsing: the locale's decimal point is recognised, any other is not
        std::string ip, fp; int a = (int)g.n(f.p / 2 + 2), b2 = (int)g.n(f.p / 2); for (int i = 0; i < a; i++) ip += '0' + g.n(10); for (int i = 0; i < b2; i++) fp += '0' + g.n(10); if (ip.empty() && fp.empty()) ip = "7"; int ex = g.n(2) ? (int)g.r(-20, 20) : 0; std::string dp = g.n(4) ? l.dec : ls[g.n(ls.size())].dec; if (g.n(12) == 0) { dp = g.n(2) && l.dec.size() > 1 ? l.dec.substr(0, 1 + g.n(l.dec.size() - 1)) : ls[g.n(ls.size())].dec; if (dp != l.dec && g.n(2)) dp += (char)(g.n(2) ? 33 + g.n(15) : 128 + g.n(128)); } std::string es = ex || g.n(3) == 0 ? "e" + std::to_string(ex) : "", txt = (g.n(3) == 0 ? "-" : "") + ip + dp + fp + es, ctxt; bool same = dp == l.dec;
        if (same) ctxt = (txt[0] == '-' ? "-" : "") + ip + "." + fp + es; else ctxt = (txt[0] == '-' ? "-" : "") + ip + "!" ; // '!' ends the number
        Parsed p = ref_parse(ctxt); size_t used = p.used; if (p.conv && same && used > ip.size() + (txt[0] == '-')) used += l.dec.size() - 1; bool wide = g.n(3) == 0; std::string what = std::string(l.name) + (per_thread ? " (uselocale)" : "") + (wide ? ": wcstod" : ": strtod") + std::to_string(f.bits) + "(" + q(txt) + ") rm=" + rmname(rm); m.begin(what); long got; u128 r; errno = 0;
        if (wide) { std::wstring wt = widen(txt); wchar_t *e; r = shim_wcstod(f.bits, wt.c_str(), &e); got = e - wt.c_str(); used = p.used; } else { char *e; r = shim_strtod(f.bits, txt.c_str(), &e); got = e - txt.c_str(); }
        Num n = decode(f, r), en; en.neg = p.neg && p.conv; bool ok; std::string kc = std::string(l.name) + (same ? ":own-point" : ":foreign-point"); m.saw(hmix(std::hash<std::string>()(txt), (uint64_t)li * 8 + rm), (std::string(l.name) + (same ? " parse own point" : " parse foreign point")).c_str());
        if (!p.conv || p.c == 0) ok = n.fin() && n.c == 0 && n.neg == en.neg; else { Z c = p.c, e = p.e; long nd = ndigz(c); if (nd > f.p) { c = round_drop(c, nd - f.p, p.neg, rm); e += nd - f.p; if (ndigz(c) > f.p) { c /= 10; e += 1; } } ok = n.fin() && n.neg == p.neg && zu(n.c) == c && Z(n.q) == e; }
        if (got != (long)used) m.fail("locale:parse-end:" + kc, what + " expected " + std::to_string(used) + " consumed, got " + std::to_string(got)); else if (!ok) m.fail("locale:parse:" + kc, what + " got " + nstr(n)); }
      if ((m.evals & 0xfff) == 1) m.sample(std::string(l.name) + " ok"); }
    uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); shim_setround(0); } }
static RegProp r1("locale", run_locale);
