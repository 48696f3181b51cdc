// P16: string utilities are total and do what they say
#include "mo.h"
#include "utilities_pub.h"
#include <cstring>
using std::string; using std::vector;
static string str(int lo, int hi) { int n = vx_pick("length", lo, hi); string s; for (int i = 0; i < n; i++) { unsigned char c = vx_byte("char"); vx_assume(c != 0); s.push_back((char)c); } return s; }
static string rev(const string& s) { return string(s.rbegin(), s.rend()); }
extern "C" void p16_trim() { string s = str(0, TIER > 1 ? 7 : 5), t = s; TrimWhitespace(t); size_t a = 0, b = s.size(); auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n'; };
  while (a < b && ws(s[a])) a++; while (b > a && ws(s[b - 1])) b--; if (b - a == 1) { vx_check(t.size() == 1, "a single non-blank character is kept"); return; } vx_check(t.size() == b - a, "trimmed length"); for (size_t i = 0; i < b - a && i < t.size(); i++) vx_check(t[i] == s[a + i], "trimmed text"); vx_reach("trim"); }
static void split(const string& delims, bool add) { string s = str(0, TIER > 1 ? 6 : 4); vector<string> got, want; if (add) { got.push_back("kept"); SplitStringAdd(s, got, delims); } else { got.push_back("old"); SplitString(s, got, delims); }
  if (add) want.push_back("kept"); string cur; bool any = false; for (size_t i = 0; i <= s.size(); i++) { bool d = i == s.size(); if (!d) for (char c : delims) if (s[i] == c) d = true; if (d) { if (cur.size()) want.push_back(cur); cur.clear(); if (i < s.size()) any = true; } else cur.push_back(s[i]); }
  if (!add && !any && s.empty()) want.push_back(s);   // a string without any delimiter is returned whole, also when it is empty
  vx_check(got.size() == want.size(), "number of pieces"); for (size_t i = 0; i < got.size() && i < want.size(); i++) { vx_check(got[i].size() == want[i].size(), "length of a piece"); for (size_t j = 0; j < got[i].size() && j < want[i].size(); j++) vx_check(got[i][j] == want[i][j], "text of a piece"); } vx_reach("split"); }
extern "C" void p16_split() { int k = vx_pick("delimiters", 0, 2); if (k == 0) split(",", false); else if (k == 1) split(":", false); else split("\n\t ", false); }
extern "C" void p16_splitadd() { int k = vx_pick("delimiters", 0, 1); if (k == 0) split(",", true); else split("\n\t ", true); }
extern "C" void p16_chop() { string s = str(0, TIER > 1 ? 8 : 5), t = s; char d = vx_pick("delimiter", 0, 1) ? '#' : '['; if (d == '#') ChopComment(t); else StripBrackets(s, t); size_t a = 0; while (a < s.size() && s[a] != d) a++; vx_check(t.size() == a, "chopped length"); for (size_t i = 0; i < a && i < t.size(); i++) vx_check(t[i] == s[i], "chopped text"); vx_reach("chop"); }
// decimal numbers: optional sign, digits with at most one point and at least one digit, optional exponent; also inf/nan/hexadecimal as in strtod (excluded here)
extern "C" void p16_isnumeric() { string s = str(0, TIER > 1 ? 5 : 4); for (char c : s) vx_assume(c != 'x' && c != 'X' && c != 'n' && c != 'N' && c != 'i' && c != 'I'); int got = IsNumeric(s.c_str()); size_t i = 0, n = s.size(), nd = 0; if (i < n && (s[i] == '+' || s[i] == '-')) i++; while (i < n && s[i] >= '0' && s[i] <= '9') { i++; nd++; } if (i < n && s[i] == '.') { i++; while (i < n && s[i] >= '0' && s[i] <= '9') { i++; nd++; } }
  bool ok = nd > 0; if (ok && i < n && (s[i] == 'e' || s[i] == 'E')) { i++; size_t k = 0; if (i < n && (s[i] == '+' || s[i] == '-')) i++; while (i < n && s[i] >= '0' && s[i] <= '9') { i++; k++; } if (!k) ok = false; } ok = ok && i == n; vx_check((got != 0) == ok, "accepts exactly the numbers"); vx_reach("isnumeric"); }
extern "C" void p16_notanumber() { string s = str(0, TIER > 1 ? 6 : 4); int k = vx_pick("kind", 0, 4); const char* p = s.c_str(); int kinds[] = {kAnyInt, kNonzeroInt, kPosInt, kAnyReal, kPosReal}; bool got = NotANumber(p, 0, kinds[k]); auto dig = [](char c) { return c >= '0' && c <= '9'; }; bool ok;
  const char* q = p; if (kinds[k] == kAnyInt || kinds[k] == kAnyReal) while (*q == '-') q++; if (kinds[k] == kAnyInt) ok = dig(*q); else if (kinds[k] == kNonzeroInt) ok = *p == '-' || dig(*p); else if (kinds[k] == kPosInt) ok = dig(*p) && *p != '0'; else if (*q == '.') { q++; while (*q == '-') q++; ok = dig(*q); } else ok = dig(*q); vx_check(got == !ok, "accepts exactly the documented forms"); vx_reach("notanumber"); }
extern "C" void p16_format() { static const int L[] = {0, 1, 2, 1021, 1022, 1023, 1024, 1025, 1500, 3000}; int n = L[vx_pick("length", 0, TIER > 1 ? 9 : 8)]; string s(n, 'a'); if (n) { unsigned char c = vx_byte("first"), d = vx_byte("last"); vx_assume(c != 0 && d != 0); s[0] = (char)c; s[n - 1] = (char)d; } int two = vx_pick("arguments", 0, 2);
  string r = two == 0 ? PrintToString("%s", s.c_str()) : two == 1 ? PrintToString("%s%s", s.c_str(), "xy") : PrintToString("%d %s|%c", 37, s.c_str(), 'z'), w = two == 0 ? s : two == 1 ? s + "xy" : "37 " + s + "|z"; vx_check(r.size() == w.size(), "formatted length"); for (size_t i = 0; i < w.size() && i < r.size(); i++) vx_check(r[i] == w[i], "formatted text"); vx_reach("format"); }
