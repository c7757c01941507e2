// Reference model of decimal text conversion (ISO C formatted output, TS 18661-2 %a rule and
// strtodN grammar), on exact integers. Independent of the library under test.
#pragma once
#include "ops.hpp"
struct Spec { bool left = false, plus = false, space = false, zero = false, alt = false; int width = -1, prec = -1; char conv = 'f'; };
// |c| with `drop` low digits rounded away
static inline Z round_drop(const Z &c, long drop, bool neg, int rm) {
  if (drop <= 0) return c; Z quo, rem; int cmp;
  if (drop > ndigz(c) + 2) { quo = 0; rem = c; cmp = -1; } else { mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), c.get_mpz_t(), p10(drop).get_mpz_t()); cmp = ::cmp(Z(rem * 2), p10(drop)); }
  if (rem == 0) return quo; bool up = false;
  switch (rm) { case RM_NEAR: up = cmp > 0 || (cmp == 0 && mpz_odd_p(quo.get_mpz_t())); break; case RM_AWAY: up = cmp >= 0; break; case RM_ZERO: break; case RM_UP: up = !neg; break; case RM_DOWN: up = neg; break; }
  return up ? Z(quo + 1) : quo;
}
static inline std::string body_f(const Num &n, int rm, long prec, bool alt) {      // digits.digits, no sign
  Z c = zu(n.c); long q = n.q; if (-q > prec) { c = round_drop(c, -q - prec, n.neg, rm); q = -prec; }
  std::string s = c == 0 ? "0" : c.get_str(); if (c != 0 && q > 0) { s += std::string(q, '0'); q = 0; } else if (q > 0) q = 0;
  long frac = -q; if ((long)s.size() <= frac) s = std::string(frac + 1 - s.size(), '0') + s; std::string ip = s.substr(0, s.size() - frac), fp = s.substr(s.size() - frac);
  fp += std::string(prec - frac, '0'); return fp.empty() ? (alt ? ip + "." : ip) : ip + "." + fp;
}
// rounds to prec+1 significant digits; returns digit string and adjusted exponent
static inline std::string sig_digits(const Num &n, int rm, long prec, long &X) {
  if (n.c == 0) { X = 0; return std::string(prec + 1, '0'); }
  Z c = zu(n.c); long nd = ndigz(c); X = n.q + nd - 1; if (nd > prec + 1) { c = round_drop(c, nd - prec - 1, n.neg, rm); if (ndigz(c) > prec + 1) { c /= 10; X++; } }
  std::string s = c.get_str(); s += std::string(prec + 1 - s.size(), '0'); return s;
}
static inline std::string body_e(const std::string &s, long X, bool alt, char E, int mindig) {
  std::string r = s.substr(0, 1); if (s.size() > 1) r += "." + s.substr(1); else if (alt) r += "."; r += E; r += X < 0 ? '-' : '+'; std::string x = std::to_string(labs(X)); while ((int)x.size() < mindig) x = "0" + x; return r + x; }
static inline std::string ref_format(const Num &n, int rm, const Spec &sp) {
  bool up = sp.conv >= 'A' && sp.conv <= 'Z'; char c = up ? sp.conv + 32 : sp.conv; std::string sign = n.neg ? "-" : sp.plus ? "+" : sp.space ? " " : "", body;
  bool num = n.fin();
  if (!num) body = n.inf() ? (up ? "INF" : "inf") : (up ? "NAN" : "nan");
  else if (c == 'f') body = body_f(n, rm, sp.prec < 0 ? 6 : sp.prec, sp.alt);
  else if (c == 'e') { long X; std::string s = sig_digits(n, rm, sp.prec < 0 ? 6 : sp.prec, X); body = body_e(s, X, sp.alt, up ? 'E' : 'e', 2); }
  else if (c == 'g') { long P = sp.prec < 0 ? 6 : sp.prec == 0 ? 1 : sp.prec, X; std::string s = sig_digits(n, rm, P - 1, X);
    if (P > X && X >= -4) { Num m = n; body = body_f(m, rm, P - 1 - X, sp.alt); if (!sp.alt && body.find('.') != std::string::npos) { while (body.back() == '0') body.pop_back(); if (body.back() == '.') body.pop_back(); } }
    else { if (!sp.alt) { while (s.size() > 1 && s.back() == '0') s.pop_back(); } body = body_e(s, X, sp.alt, up ? 'E' : 'e', 2); } }
  else { Z k = zu(n.c); long q = n.q, nd = k == 0 ? 1 : ndigz(k); long P = sp.prec == 0 ? 1 : sp.prec;
    if (P > 0 && P < nd) { k = round_drop(k, nd - P, n.neg, rm); q += nd - P; if (ndigz(k) > P) { k /= 10; q++; } nd = P; }
    if (q <= 0 && q >= -(nd + 5)) { Num m; m.neg = n.neg; m.c = uz(k); m.q = (int)q; body = body_f(m, rm, -q, sp.alt); }
    else { std::string s = k.get_str(); body = body_e(s, q + nd - 1, sp.alt, up ? 'E' : 'e', 1); } }
  long pad = sp.width - (long)sign.size() - (long)body.size(); if (pad < 0) pad = 0;
  if (sp.left) return sign + body + std::string(pad, ' '); if (sp.zero && num) return sign + std::string(pad, '0') + body; return std::string(pad, ' ') + sign + body;
}
// strtodN grammar (base 10 only): what the text denotes and how much of it is consumed
struct Parsed { bool conv = false, inf = false, nan = false, neg = false; Z c, e, x = 0; size_t used = 0; };
static inline bool ieq(const std::string &s, size_t i, const char *w) { for (; *w; w++, i++) if (i >= s.size() || (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]) != *w) return false; return true; }
static inline Parsed ref_parse(const std::string &s) {
  Parsed r; size_t i = 0, n = s.size(); auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
  while (i < n && strchr(" \t\n\v\f\r", s[i])) i++; if (i < n && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
  if (ieq(s, i, "inf")) { r.conv = r.inf = true; r.used = i + (ieq(s, i, "infinity") ? 8 : 3); return r; }
  if (ieq(s, i, "nan")) { r.conv = r.nan = true; r.used = i + 3; size_t k = i + 3; if (k < n && s[k] == '(') { k++; while (k < n && (dig(k) || (s[k] >= 'a' && s[k] <= 'z') || (s[k] >= 'A' && s[k] <= 'Z') || s[k] == '_')) k++; if (k < n && s[k] == ')') r.used = k + 1; } return r; }
  if (!dig(i) && !(i < n && s[i] == '.' && dig(i + 1))) return r;
  std::string d; long frac = 0; while (dig(i)) d += s[i++]; if (i < n && s[i] == '.') { i++; while (dig(i)) { d += s[i++]; frac++; } }
  r.e = -frac; if (i < n && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; bool en = false; if (k < n && (s[k] == '+' || s[k] == '-')) en = s[k++] == '-'; if (dig(k)) { std::string x; while (dig(k)) x += s[k++]; Z X(x, 10); r.x = en ? Z(-X) : X; r.e += r.x; i = k; } }
  r.c = Z(d, 10); r.conv = true; r.used = i; return r;
}
