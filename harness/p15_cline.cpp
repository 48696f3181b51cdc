// P15: command lines
#include "mo.h"
#include "commandline_parser.h"
#include <cstring>
using std::string; using std::vector;
static char* keep(const string& s) { char* p = (char*)calloc(s.size() + 1, 1); for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; return p; }
static string bytes(int lo, int hi) { int n = vx_pick("length", lo, hi); string s; for (int i = 0; i < n; i++) { unsigned char c = vx_byte("char"); vx_assume(c != 0); s.push_back((char)c); } return s; }
struct Want { int rc = 0; bool q = false, f = false, empty = true; vector<string> o, Q, x, args; };
// the documented meaning
static Want meaning(const vector<string>& a, bool strict) { Want w; for (size_t i = 0; i < a.size(); i++) { w.empty = false; const string& t = a[i]; if (t.empty() || t[0] != '-') { w.args.push_back(t); continue; }
  size_t d = 0; while (d < t.size() && t[d] == '-') d++; if (d == t.size()) { w.rc = -1; return w; } string n; size_t e = d; while (e < t.size() && t[e] != '=') n.push_back(t[e++]); string v; if (e < t.size()) for (size_t k = e + 1; k < t.size(); k++) v.push_back(t[k]);
  if (n == "q" || n == "quiet") { w.q = true; continue; } if (n == "f") { w.f = true; continue; }
  vector<string>* to = n == "o" || n == "output" ? &w.o : n == "Q" || n == "queue" ? &w.Q : n == "x" ? &w.x : nullptr;
  if (!to) { if (strict) { w.rc = -1; return w; } continue; }
  if (!v.empty()) { to->push_back(v); continue; } if (i + 1 >= a.size()) { w.rc = -1; return w; } to->push_back(a[++i]); }
  return w; }
static void same(CLineParser& p, const char* s1, const char* s2, const vector<string>& want, bool done) { for (const char* s : {s1, s2}) if (s) { vx_check(p.OptionSet(s) == !want.empty(), "option set"); vx_check(p.GetNTargets(s) == (int)want.size(), "number of values"); for (size_t i = 0; i < want.size() && (int)i < p.GetNTargets(s); i++) vx_check(p.GetTargetString(s, (int)i) == want[i], "value"); } }
static void run(const vector<string>& a) { bool strict = vx_pick("strict", 0, 1); Want w = meaning(a, strict); CLineParser* p = new CLineParser(); if (strict) p->UnrecognizedAreErrors(); p->AddFlag("q", "quiet"); p->AddFlag("f"); p->AddOption("o", "output"); p->AddOption("x"); p->AddQueueOption("Q", "queue"); p->AddUsageLine("usage");
  char** v = (char**)malloc((a.size() + 1) * sizeof(char*)); v[0] = keep("prog"); for (size_t i = 0; i < a.size(); i++) v[i + 1] = keep(a[i]);
  int rc = p->ParseCommandLine((int)a.size() + 1, v); vx_check((rc < 0) == (w.rc < 0), "error reported exactly when there is one"); vx_check(p->CommandLineEmpty() == w.empty, "empty command line");
  if (w.rc >= 0 && rc >= 0) { vx_check(p->FlagSet("q") == w.q && p->FlagSet("quiet") == w.q && p->FlagSet("f") == w.f, "flags"); same(*p, "o", "output", w.o, true); same(*p, "Q", "queue", w.Q, true); same(*p, "x", nullptr, w.x, true); vx_check(p->nArguments() == (int)w.args.size(), "number of arguments"); for (size_t i = 0; i < w.args.size() && (int)i < p->nArguments(); i++) vx_check(p->GetArgument((int)i) == w.args[i], "argument"); vx_reach("parsed"); } else vx_reach("error");
  delete p; for (size_t i = 0; i <= a.size(); i++) free(v[i]); free(v); }
static string token() { switch (vx_pick("token", 0, 14)) { case 0: return "-q"; case 1: return "--quiet"; case 2: return "-f=1"; case 3: return "-o"; case 4: return "--output"; case 5: { string v = bytes(1, 2); return "-o=" + v; } case 6: { string v = bytes(1, 2); return "--queue=" + v; } case 7: return "-Q"; case 8: return "-x"; case 9: return "--"; case 10: return "-z"; case 11: return "--oo=v"; case 12: return ""; case 13: return "-="; default: { string v = bytes(1, 2); vx_assume(v[0] != '-'); return v; } } }
extern "C" void p15_tokens() { int n = vx_pick("tokens", 0, TIER > 1 ? 3 : 2); vector<string> a; for (int i = 0; i < n; i++) a.push_back(token()); run(a); }
extern "C" void p15_mixed() { vector<string> a; a.push_back(vx_pick("first", 0, 1) ? "-Q" : "--queue=first"); a.push_back("one"); a.push_back(token()); if (TIER > 1) a.push_back(token()); a.push_back("-o"); a.push_back(vx_pick("second", 0, 1) ? "-q" : "two"); a.push_back("--queue"); a.push_back("three"); a.push_back("four"); run(a); }
// any bytes
extern "C" void p15_bytes() { string s = bytes(0, TIER > 1 ? 6 : 4); vector<string> a; int where = vx_pick("where", 0, 2); if (where == 1) a.push_back("-o"); a.push_back((where == 2 ? "-" : "") + s); if (vx_pick("more", 0, 1)) a.push_back("last"); run(a); }
extern "C" void p15_dashes() { string s = bytes(0, TIER > 1 ? 8 : 6), t = s; StripLeadingDashes(t); size_t d = 0; while (d < s.size() && s[d] == '-') d++; vx_check(t == s.substr(d), "leading dashes removed, nothing else"); vx_reach("stripped"); }
