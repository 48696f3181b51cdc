// P14: image-section suffixes
#include "mo.h"
#include "utilities_pub.h"
#include <tuple>
using std::string; using std::vector; using std::tuple;
static string digits(int most) { string s; int n = 1 + vx_pick("digits", 0, most - 1); for (int i = 0; i < n; i++) { unsigned char c = vx_byte("digit"); vx_assume(c >= '0' && c <= '9'); if (i == 0) vx_assume(c != '0'); s.push_back((char)c); } return s; }
static int num(const string& s) { int v = 0; for (char c : s) v = 10 * v + (c - '0'); return v; }
static string str(int lo, int hi) { int n = vx_pick("length", lo, hi); string s; for (int i = 0; i < n; i++) { unsigned char c = vx_byte("char"); vx_assume(c != 0); s.push_back((char)c); } return s; }
struct Side { string text; bool ok = true; int lo = 0, hi = 0; };
static Side side(int most) { Side r; string a = digits(most), b = digits(most); switch (vx_pick("form", 0, 8)) {
  case 0: case 1: r.text = a + ":" + b; r.lo = num(a); r.hi = num(b); break;
  case 2: r.text = "*"; r.lo = 1; break;
  case 3: r.text = a; r.ok = false; break;
  case 4: r.text = a + ":"; r.ok = false; break;
  case 5: r.text = ":" + b; r.ok = false; break;
  case 6: r.text = a + ":" + b + ":" + a; r.ok = false; break;
  case 7: r.text = ""; r.ok = false; break;
  default: r.text = ":"; r.ok = false; break; }
  return r; }
static string name() { switch (vx_pick("name", 0, 3)) { case 0: return ""; case 1: return "im.fits"; case 2: return "a,b:c*.fits"; default: return "i"; } }
// name, optional extension number, optional section with every kind of side
extern "C" void p14_offset() { string nm = name(), full = nm; int ext = vx_pick("extension", 0, 2), sec = vx_pick("section", 0, 1); string e; if (ext) { e = ext == 1 ? digits(1) : string("SCI"); full += "[" + e + "]"; } bool ok = true; int x = 1, y = 1;
  if (sec) { int most = TIER > 1 ? 3 : 2; Side a = side(most), b = side(most); full += "[" + a.text + "," + b.text + "]"; ok = a.ok && b.ok; x = a.lo; y = b.lo; }
  int x0, y0, px, py; std::tie(px, py) = GetPixelStartCoords(full); std::tie(x0, y0) = DetermineImageOffset(full);
  vx_check(x0 == px - 1 && y0 == py - 1, "offset is the start less one");
  if (ok) { vx_check(px == x && py == y, "lower-left corner"); vx_check(x0 >= 0 && y0 >= 0, "offset not negative"); vx_reach("good"); } else { vx_check(px == 0 && py == 0, "error value for a malformed section"); vx_reach("bad"); }
  string base = "junk"; StripBrackets(full, base); vx_check(base == nm, "file name without its brackets"); }
extern "C" void p14_all() { int most = TIER > 1 ? 4 : 2; Side a = side(most), b = side(most); int br = vx_pick("brackets", 0, 2); string t = a.text + "," + b.text; string w = br == 1 ? "[" + t + "]" : br == 2 ? "[[" + t + "]]" : t;
  int x1, x2, y1, y2, sx, sy; std::tie(x1, x2, y1, y2) = GetAllCoordsFromBracket(w); std::tie(sx, sy) = GetStartCoordsFromBracket(t, "f");
  if (a.ok && b.ok) { vx_check(x1 == a.lo && y1 == b.lo && x2 == a.hi && y2 == b.hi, "all four coordinates"); vx_check(sx == a.lo && sy == b.lo, "start coordinates"); vx_reach("good"); } else { vx_check(x1 == 0 && x2 == 0 && y1 == 0 && y2 == 0, "error values"); vx_check(sx == 0 && sy == 0, "error start"); vx_reach("bad"); } }
// malformed bracket structure
extern "C" void p14_brackets() { string a = digits(2) + ":" + digits(2), s; switch (vx_pick("form", 0, 8)) { case 0: s = "f[" + a + "," + a; break; case 1: s = "f[" + a + "]"; break; case 2: s = "f[" + a + "," + a + "," + a + "]"; break; case 3: s = "f[]"; break; case 4: s = "f[][" + a + "," + a + "]"; break; case 5: s = "f[2][" + a + "," + a; break; case 6: s = "f[2][" + a + "]"; break; case 7: s = "f["; break; default: s = "f[2]["; }
  int x, y; std::tie(x, y) = GetPixelStartCoords(s); bool one = s.find(',') == string::npos && s[s.size() - 1] == ']' && s.find("][") == string::npos && s != "f[]"; 
  if (one) vx_check(x == 1 && y == 1, "a lone bracket without a comma is an extension"); else vx_check(x == 0 && y == 0, "error value for malformed brackets"); vx_reach("structure"); }
// any bytes at all
extern "C" void p14_bytes() { int n = TIER > 1 ? 7 : 5; string s = str(0, n), o; int where = vx_pick("routine", 0, 4); switch (where) { 
  case 0: { int x, y; std::tie(x, y) = DetermineImageOffset(s); if (s.find('[') == string::npos) vx_check(x == 0 && y == 0, "no section, no offset"); break; }
  case 1: { int x, y; std::tie(x, y) = DetermineImageOffset("[" + s + "]"); break; }
  case 2: GetStartCoordsFromBracket(s, "name"); break;
  case 3: GetAllCoordsFromBracket(s); break;
  default: StripBrackets(s, o); vx_check(o == s.substr(0, s.find('[')), "text before the first bracket"); }
  vx_reach("survived"); }
