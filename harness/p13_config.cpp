// P13: configuration files of every line sequence
#include "mo.h"
#include "config_file_parser.h"
#include "utilities_pub.h"
#include <map>
using std::string; using std::vector; using std::map;
static int moredigits = TIER > 1 ? 1 : 0; static string num() { string s; int n = 1 + vx_pick("digits", 0, moredigits); for (int i = 0; i < n; i++) { unsigned char c = vx_byte("digit"); vx_assume(c >= '0' && c <= '9'); s.push_back((char)c); } return s; }
static double val(const string& s) { return strtod(s.c_str(), nullptr); }
// what a line states, independently of its text
struct Line { string text; int kind; string v, lo, hi, name, label; bool lim = false, fixed = false, bad = false; };   // kind: 0 X0, 1 Y0, 2 FUNCTION, 3 parameter, 4 start of optional, 5 end of optional, 6 option-like "KEY value", 7 ignored
static Line gen(int forms) { Line l; int f = vx_pick("form", 0, forms); string n = "P";
  if (f <= 5) { l.kind = f < 2 ? 0 : f < 4 ? 1 : 3; n = l.kind == 0 ? "X0" : l.kind == 1 ? "Y0" : "P"; if (f & 1) { l.v = num(); l.text = n + " " + l.v; } else { l.v = num(); l.lo = num(); l.hi = num(); l.lim = true; l.text = n + "\t" + l.v + "  " + l.lo + "," + l.hi + " # was " + "9"; } return l; }
  switch (f) {
  case 6: l.kind = 2; l.name = "Fun"; l.text = "FUNCTION Fun"; break;
  case 7: l.kind = 2; l.name = "Gun"; l.label = "disk one"; l.text = "  FUNCTION Gun   # LABEL  disk one "; break;
  case 8: l.kind = 4; l.text = "OPTIONAL_PARAMS_START"; break;
  case 9: l.kind = 5; l.text = "OPTIONAL_PARAMS_END"; break;
  case 10: l.kind = 6; l.name = "KEY"; l.v = "word"; l.text = "KEY word"; break;
  case 11: l.kind = 7; l.text = vx_pick("blank", 0, 1) ? " \t" : "# X0 FUNCTION P 3"; break;
  case 12: l.kind = 3; l.v = num(); l.fixed = true; l.text = "P " + l.v + " fixed # not FUNCTION or X0"; break;
  // malformed
  case 13: l.kind = 2; l.bad = true; l.text = "FUNCTION"; break;
  case 14: l.kind = 2; l.bad = true; l.text = "FUNCTION # LABEL nothing"; break;
  case 15: l.kind = 0; l.bad = true; l.text = "X0 # FUNCTION"; break;
  case 16: l.kind = 1; l.bad = true; l.text = "Y0"; break;
  case 17: l.kind = 3; l.bad = true; l.text = "Par"; break;
  case 18: l.kind = 3; l.bad = true; l.v = num(); l.text = "P " + l.v + " 5,"; break;
  case 19: l.kind = 3; l.bad = true; l.v = num(); l.text = "P " + l.v + " ,"; break;
  case 20: l.kind = 3; l.bad = true; l.v = num(); l.text = "P " + l.v + " nan,5"; break;
  default: l.kind = 0; l.bad = true; l.text = "X0 word"; break; }
  return l; }
struct Want { int rc = 0; vector<string> names, labels, optn, optv; vector<double> vals; vector<Line> pl; vector<int> sets; vector<map<string, string>> opts; bool limits = false; };
// the documented meaning of a sequence of lines; limits are checked only by the full reader
static Want meaning(const vector<Line>& in, bool full) { Want w; vector<Line> L; for (auto& l : in) if (l.kind != 7) L.push_back(l); size_t s = 0; while (s < L.size() && L[s].kind != 0) s++; w.rc = -1; if (s == L.size()) return w; bool fn = false; for (size_t i = s; i < L.size(); i++) if (L[i].kind == 2) fn = true; if (!fn) return w;
  for (size_t i = 0; i < s; i++) if (L[i].kind == 6) { w.optn.push_back(L[i].name); w.optv.push_back(L[i].v); } else if (L[i].kind == 1 || L[i].kind == 3) { if (!L[i].lim && !L[i].fixed && !L[i].bad) { w.optn.push_back(L[i].kind == 1 ? "Y0" : "P"); w.optv.push_back(L[i].v); } } else if (L[i].kind == 2 && !L[i].bad) { w.optn.push_back("FUNCTION"); w.optv.push_back(L[i].name); }
  bool opt = false; for (size_t i = s; i < L.size(); i++) { const Line& l = L[i]; 
    if (l.kind == 4) { if (w.names.empty()) return w; opt = true; continue; } if (l.kind == 5) { opt = false; continue; }
    if (l.kind == 0) { if (l.bad || i + 1 == L.size() || L[i + 1].kind != 1) return w; w.sets.push_back((int)w.names.size()); }
    if (l.kind == 2) { if (l.bad) return w; w.names.push_back(l.name); w.labels.push_back(l.label); w.opts.push_back(map<string, string>()); continue; }
    bool pos = l.kind == 0 || (l.kind == 1 && i > s && L[i - 1].kind == 0);
    if (opt && !pos) { if (l.bad && l.v.empty()) return w; w.opts.back()[l.kind == 6 ? l.name : l.kind == 1 ? "Y0" : "P"] = l.v; continue; }
    if (l.kind == 6) return w;
    if (l.bad && (full || l.text.find("nan") == string::npos)) return w;
    w.vals.push_back(val(l.v)); w.pl.push_back(l); if (l.lim || l.fixed) w.limits = true; if (full && l.lim) { double lo = val(l.lo), hi = val(l.hi), v = val(l.v); if (!(lo < hi) || v < lo || v > hi) return w; } }
  w.rc = 0; return w; }
static void check(const vector<Line>& L) { vector<string> t; for (auto& l : L) t.push_back(l.text); std::vx_ifstream::add("cfg", t); bool full = vx_pick("full", 0, 1); Want w = meaning(L, full);
  vector<string> fn, fl; vector<double> pv; vector<mp_par> lim; vector<int> st; bool found = false; configOptions o; vector<map<string, string>> op; int rc;
  fn.push_back("old"); pv.push_back(1); st.push_back(3); fl.push_back("old"); if (full) rc = ReadConfigFile("cfg", true, fn, fl, pv, lim, st, found, o, op); else rc = ReadConfigFile("cfg", true, fn, fl, pv, st, o, op);
  vx_check((rc < 0) == (w.rc < 0), "accepted exactly when well formed"); if (rc < 0 || w.rc < 0) { vx_reach("rejected"); return; }
  vx_check(fn == w.names, "function names"); vx_check(fl == w.labels, "labels"); vx_check(st == w.sets, "set boundaries"); vx_check(pv.size() == w.vals.size(), "number of values"); for (size_t i = 0; i < pv.size() && i < w.vals.size(); i++) vx_check(vx_same(pv[i], w.vals[i]), "value");
  vx_check(op == w.opts, "optional parameters"); vx_check(o.nOptions == (int)w.optn.size() && o.optionNames == w.optn && o.optionValues == w.optv, "options before the first set");
  if (full) { vx_check(found == w.limits, "limits found"); vx_check(lim.size() == w.vals.size(), "one limit entry per value"); for (size_t i = 0; i < lim.size() && i < w.pl.size(); i++) { const Line& l = w.pl[i]; vx_check(lim[i].fixed == (l.fixed ? 1 : 0), "fixed flag"); vx_check(lim[i].limited[0] == (l.lim ? 1 : 0) && lim[i].limited[1] == (l.lim ? 1 : 0), "limit flags"); if (l.lim) { vx_check(vx_same(lim[i].limits[0], val(l.lo)), "lower limit"); vx_check(vx_same(lim[i].limits[1], val(l.hi)), "upper limit"); } } }
  vx_reach("accepted"); }
extern "C" void p13_lines() { moredigits = 0; int n = vx_pick("lines", 0, TIER > 1 ? 3 : 2); vector<Line> L; for (int i = 0; i < n; i++) L.push_back(gen(21)); check(L); }
static Line fix(int kind, const string& t, const string& v = "") { Line l; l.kind = kind; l.text = t; l.v = v; l.name = kind == 2 ? "Fun" : ""; return l; }
// a well-formed start, then every continuation
extern "C" void p13_section() { vector<Line> L; int pre = vx_pick("before", 0, 2); if (pre == 1) { Line g = fix(6, "KEY word", "word"); g.name = "KEY"; L.push_back(g); } if (pre == 2) L.push_back(gen(21)); L.push_back(fix(0, "X0 5", "5")); L.push_back(fix(1, "Y0 6", "6")); if (vx_pick("function", 0, 1)) L.push_back(fix(2, "FUNCTION Fun")); int n = vx_pick("lines", 0, pre == 2 ? 1 : 2); for (int i = 0; i < n; i++) L.push_back(gen(21)); if (vx_pick("closing", 0, 1)) L.push_back(fix(2, "FUNCTION Fun")); check(L); }
extern "C" void p13_sets() { vector<Line> L; L.push_back(fix(0, "X0 5", "5")); L.push_back(fix(1, "Y0 6", "6")); L.push_back(fix(2, "FUNCTION Fun")); L.push_back(gen(12)); Line x = fix(0, "X0 7", "7"); L.push_back(x); L.push_back(gen(6)); L.push_back(gen(12)); check(L); }
// one arbitrary line (any bytes) between well-formed ones: never reads outside its input; values only from the text
extern "C" void p13_bytes() { int n = vx_pick("length", 0, TIER > 1 ? 5 : 4); string s; for (int i = 0; i < n; i++) { unsigned char c = vx_byte("char"); vx_assume(c != 0 && c != '\n' && c != 'x' && c != 'X' && c != 'n' && c != 'N' && c != 'i' && c != 'I'); s.push_back((char)c); } static const char* head[] = {"", "X0 ", "FUNCTION ", "P ", "P 3 ", "OPTIONAL_PARAMS_START", "Y0 "}; int h = vx_pick("head", 0, 6), where = vx_pick("where", 0, 3);
  vector<string> t; if (where == 0) t.push_back(head[h] + s); t.push_back("X0 5"); if (where == 1) t.push_back(head[h] + s); t.push_back("Y0 6"); if (where == 2) t.push_back(head[h] + s); t.push_back("FUNCTION Fun"); if (where == 3) t.push_back(head[h] + s); t.push_back("P 4 1,9"); std::vx_ifstream::add("cfg", t);
  vector<string> fn, fl; vector<double> pv; vector<mp_par> lim; vector<int> st; bool found = false; configOptions o; vector<map<string, string>> op; int rc = ReadConfigFile("cfg", true, fn, fl, pv, lim, st, found, o, op); if (rc >= 0) { vx_check(fn.size() == fl.size() && fn.size() == op.size(), "names, labels and optional parameters agree in number"); vx_check(pv.size() == lim.size(), "one limit entry per value"); for (int k : st) vx_check(k >= 0 && k <= (int)fn.size(), "set boundary in range");
    for (size_t i = 0; i < lim.size(); i++) if (lim[i].limited[0]) vx_check(lim[i].limits[0] < lim[i].limits[1] && pv[i] >= lim[i].limits[0] && pv[i] <= lim[i].limits[1], "value inside its limits"); vx_reach("read"); } }
