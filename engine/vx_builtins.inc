// ---------------------------------------------------------------- models of library functions
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_sf_bessel.h>
typedef std::function<bool(FnInfo*, Ins&, vector<Val>&, Val&)> BFn;
static vector<BFn> bfns; static std::unordered_map<string, int> bmap; static std::unordered_map<string, int> bcache;
static void B(const string& n, BFn f) { bmap[n] = bfns.size(); bfns.push_back(f); }
static int b_skip, b_zero, b_throw, b_noreturn_exit;
static bool starts(const string& s, const char* p) { return s.rfind(p, 0) == 0; }
static int classify(const string& n) {
  auto it = bmap.find(n); if (it != bmap.end()) return it->second;
  if (starts(n, "_ZSt") && n.find("__throw_") != string::npos) return b_throw;
  // output streams: no effect on program state
  if (starts(n, "_ZNSo") || starts(n, "_ZNSolsE") || starts(n, "_ZStls") || starts(n, "_ZSt4endl") || starts(n, "_ZSt5flush") || starts(n, "_ZSt16__ostream_insert") || starts(n, "_ZNSt8ios_base4InitC") || starts(n, "_ZNSt8ios_base4InitD") || starts(n, "_ZNSt9basic_iosIcSt11char_traitsIcEE") || starts(n, "_ZStlsI") ) return b_skip;
  if (starts(n, "_ZNKSt9basic_iosIcSt11char_traitsIcEE")) return b_zero;
  // llvm intrinsics with type suffixes
  if (starts(n, "llvm.")) { string s = n; for (;;) { size_t p = s.rfind('.'); if (p == string::npos || p < 5) break; s = s.substr(0, p); auto q = bmap.find(s); if (q != bmap.end()) return q->second; } }
  return -1;
}
static int builtinOf(const string& n) { auto it = bcache.find(n); if (it != bcache.end()) return it->second; int r = classify(n); bcache[n] = r; return r; }
static bool callBuiltin(int id, FnInfo* fn, Ins& x, vector<Val>& a, Val& r) { return bfns[id](fn, x, a, r); }

// continuation hooks (callbacks run by modelled functions)
static std::function<bool(Ins&, const Val&)> g_retHook; static bool kmpcReturn(Ins& c, const Val& v);
static bool onReturnHook(Ins& c, const Val& v) { return kmpcReturn(c, v); }

static void registerHostFns() {
#define R1(nm) register_call(#nm, [](const vector<u64>& v) { return db(::nm(bd(v[0]))); })
#define R2(nm) register_call(#nm, [](const vector<u64>& v) { return db(::nm(bd(v[0]), bd(v[1]))); })
  R1(sin); R1(cos); R1(tan); R1(asin); R1(acos); R1(atan); R1(sinh); R1(cosh); R1(tanh); R1(asinh); R1(acosh); R1(atanh); R1(exp); R1(exp2); R1(expm1); R1(log); R1(log2); R1(log10); R1(log1p); R1(cbrt); R1(erf); R1(erfc); R1(tgamma); R1(lgamma); R1(j0); R1(j1); R1(y0); R1(y1);
  R2(pow); R2(atan2); R2(hypot);
  register_call("gsl_sf_gamma", [](const vector<u64>& v) { double x = bd(v[0]); if (!(x > -170 && x < 170)) return DNAN; return db(gsl_sf_gamma(x)); });
  register_call("gsl_sf_bessel_K1", [](const vector<u64>& v) { double x = bd(v[0]); if (!(x > 0 && x < 700)) return DNAN; return db(gsl_sf_bessel_K1(x)); });
  register_call("gsl_sf_bessel_I0", [](const vector<u64>& v) { double x = bd(v[0]); return db(fabs(x) < 700 ? gsl_sf_bessel_I0(x) : 0); });
  register_call("gsl_sf_bessel_I0_scaled", [](const vector<u64>& v) { return db(gsl_sf_bessel_I0_scaled(bd(v[0]))); });
}
static double ufHost(const string& name, const double* a) { // a fixed smooth-less function used when an uninterpreted function must be evaluated
  u64 h = 1469598103934665603ULL; for (char c : name) { h ^= (unsigned char)c; h *= 1099511628211ULL; } for (int i = 0; i < 4; i++) { double q = a[i]; if (q == q && fabs(q) < 1e300) { char t[40]; snprintf(t, 40, "%.10e", q); q = atof(t); } u64 b = db(q == 0 ? 0.0 : q != q ? NAN : q); for (int k = 0; k < 8; k++) { h ^= (b >> (8 * k)) & 255; h *= 1099511628211ULL; } } h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return 0.25 + (double)(h >> 11) / 9007199254740992.0; }
static E ufCall(const string& name, const vector<E>& as) { string n = "uf_" + name; int id = call_id(n); if (!g_calls[id].fn) g_calls[id].fn = [name](const vector<u64>& v) { double d[4] = {0, 0, 0, 0}; for (size_t i = 0; i < v.size() && i < 4; i++) d[i] = bd(v[i]); return db(ufHost(name, d)); }; return mk_call(id, as, 64); }
static E ufrCall(const string& name, const vector<E>& as, double lo, double hi) { string n = "ufr_" + name + std::to_string(lo) + ":" + std::to_string(hi); int id = call_id(n); if (!g_calls[id].fn) g_calls[id].fn = [name, lo, hi](const vector<u64>& v) { double d[4] = {0, 0, 0, 0}; for (size_t i = 0; i < v.size() && i < 4; i++) d[i] = bd(v[i]); double u = ufHost(name, d) - 0.25; return db(u < 0.125 ? lo : u > 0.875 ? hi : lo + (hi - lo) * u); }; return mk_call(id, as, 64); }
static std::unordered_map<string, E> g_varByName;
static E inputVar(const string& base, unsigned w, bool isd) { State& s = *cur; int k = s.occ[base]++; string n = base + "#" + std::to_string(k); string key = n + ":" + std::to_string(w); auto it = g_varByName.find(key); E e; if (it == g_varByName.end()) { e = mk_var(n, w, isd); g_varE[e->aux] = e; g_varByName[key] = e; } else e = it->second; InputRec r; r.name = n; r.e = e; r.c = 0; r.w = w; r.isd = isd; s.inputs.push_back(r); return e; }
static void assumeC(E c) { if (is_c(c)) { if (!c->c) { st.pruned++; cur->hasModel = false; cur->cons.push_back(c); endPath(); } return; } if (c->uninit) { c = clearU(c); if (!c->uninit) return assumeC(c); report("uninit", "assumption on uninitialised value"); endPath(); }
  State& s = *cur; int k = lookup(s, c); if (k == 1) return; if (k == 0) { st.pruned++; endPath(); }
  if (s.hasModel && evalr(s).ev(c)) { addCons(s, c); return; }
  Model m; Res r = query(s, c, &m); if (r == R_UNSAT) { st.pruned++; endPath(); } addCons(s, c); if (r == R_SAT) { setModel(s, m); s.hasModel = true; } else { s.hasModel = false; noteUnknown("assumption feasibility unknown"); } }
static void checkC(E c, const string& msg) {
  st.checks++; checkcount[msg]++; State& s = *cur; if (is_c(c)) { if (c->c) { st.discharged++; return; } report("check", msg); endPath(); }
  if (c->uninit) { c = clearU(c); if (!c->uninit) { st.checks--; checkcount[msg]--; return checkC(c, msg); } report("uninit", "checked value is uninitialised: " + msg); endPath(); }
  int k = lookup(s, c); if (k < 0) { k = triState(c); if (k >= 0) st.interval++; } if (k == 1) { st.discharged++; return; } if (k == 0) { report("check", msg); endPath(); }
  if (s.hasModel && !evalr(s).ev(c)) { report("check", msg); } else { Model m; Res r = query(s, mk_not(c), &m); if (r == R_UNSAT) { st.discharged++; setKnown(s, c, true); return; } if (r == R_UNK) { noteUnknown("check not decided: " + msg); addCons(s, c); return; } report("check", msg, &m); }
  // continue on the side where the check holds, if any
  Model m2; Res r2 = query(s, c, &m2); if (r2 == R_UNSAT) endPath(); addCons(s, c); if (r2 == R_SAT) { setModel(s, m2); s.hasModel = true; } else s.hasModel = false;
}
// ---- formatting
static vector<Val> fmtToken(E v, const string& spec) { vector<Val> o; for (int i = 0; i < 6; i++) { string n = "fmt" + spec + "_" + std::to_string(i); int id = call_id(n); if (!g_calls[id].fn) g_calls[id].fn = [i, spec](const vector<u64>& a) { u64 h = a[0] * 0x9E3779B97F4A7C15ULL + std::hash<string>()(spec) + i * 77; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; return (h >> 17) & 0x7f; }; o.push_back(VE(mk_bin(K_OR, mk_zext(mk_call(id, {v}, 7), 8), mk_const(0x80, 8)))); } return o; }
static vector<Val> formatAll(const string& fmt, std::function<Val()> next) {
  vector<Val> out; auto put = [&](const string& s) { for (unsigned char c : s) out.push_back(Val(c)); };
  for (size_t i = 0; i < fmt.size(); i++) { if (fmt[i] != '%') { out.push_back(Val((unsigned char)fmt[i])); continue; } if (fmt[i + 1] == '%') { out.push_back(Val('%')); i++; continue; }
    string spec = "%"; i++; int nl = 0; while (i < fmt.size() && strchr("-+ #0", fmt[i])) spec += fmt[i++];
    for (int q = 0; q < 2; q++) { if (fmt[i] == '*') { i64 v = sx(concretize(next(), 32, "format width"), 32); spec += std::to_string(v); i++; } else while (isdigit(fmt[i])) spec += fmt[i++]; if (q == 0 && fmt[i] == '.') spec += fmt[i++]; else break; }
    while (i < fmt.size() && strchr("hlzjt", fmt[i])) { nl += fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't'; i++; }
    char c = i < fmt.size() ? fmt[i] : 0; char buf[512];
    switch (c) {
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': { Val v = next(); unsigned w = nl ? 64 : 32; if (v.e) { E e = v.e->w > w ? mk_extract(v.e, 0, w) : v.e; if (!is_c(e)) { for (auto& t : fmtToken(e, spec + c)) out.push_back(t); break; } v = Val(e->c); } 
        if (c == 'c') { out.push_back(Val(v.c & 255)); break; } if (c == 'd' || c == 'i') snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (long long)sx(v.c, w)); else snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (unsigned long long)(v.c & maskw(w))); put(buf); break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { Val v = next(); if (v.e) { if (v.e->uninit && v.e->k == K_UNINIT) { report("uninit", "uninitialised value printed"); endPath(); } for (auto& t : fmtToken(v.e, spec + c)) out.push_back(t); break; } snprintf(buf, sizeof buf, (spec + c).c_str(), bd(v.c)); put(buf); break; }
      case 'p': next(); put("0x0"); break;
      case 's': { Val v = next(); u64 p = concretize(v, 64, "%s pointer"); size_t dot = spec.find('.'); long prec = dot == string::npos ? -1 : atol(spec.c_str() + dot + 1); long width = atol(spec.c_str() + 1 + (spec[1] == '-')); vector<Val> t; for (u64 k = 0; prec < 0 || (long)k < prec; k++) { Val b = byteAt(p + k); if (b.e ? decide(mk_eq(b.e, mk_const(0, 8)), "string end") : !b.c) break; t.push_back(b); } bool left = spec.find('-') == 1; if (!left) for (long k = t.size(); k < width; k++) out.push_back(Val(' ')); for (auto& q : t) out.push_back(q); if (left) for (long k = t.size(); k < width; k++) out.push_back(Val(' ')); break; }
      default: noteUnknown("unsupported printf conversion"); endPath(); } }
  return out; }
static u64 emit(u64 buf, u64 n, bool bounded, const vector<Val>& o) { u64 lim = bounded ? (n ? std::min<u64>(n - 1, o.size()) : 0) : o.size(); if (bounded && n == 0) return o.size(); 
  u64 off, slot; if (lim + 1 > 0) access(buf, lim + 1, true, off, slot); Data& d = dataMut(slot); for (u64 i = 0; i < lim; i++) storeBytes(d, off + i, 1, o[i]); storeBytes(d, off + lim, 1, Val(0)); return o.size(); }
static std::function<Val()> vaNext(u64 va) { auto pos = make_shared<u64>(loadMem(Val(va + 8), 8).c); return [va, pos]() { Val v = loadMem(Val(*pos), 8); *pos += 8; return v; }; }

#define ARGW(i) a[i]
static Val retE(E e) { return VE(e); }
static void libm1(const char* n) { int id = call_id(n); B(n, [id](FnInfo*, Ins&, vector<Val>& a, Val& r) { r = VE(mk_call(id, {toE(a[0], 64)}, 64)); return false; }); }
static void libm2(const char* n) { int id = call_id(n); B(n, [id](FnInfo*, Ins&, vector<Val>& a, Val& r) { r = VE(mk_call(id, {toE(a[0], 64), toE(a[1], 64)}, 64)); return false; }); }
#define BI(name) B(name, [](FnInfo* fn, Ins& x, vector<Val>& a, Val& r) -> bool { (void)fn; (void)x; (void)a; (void)r;
#define BE return false; });
static E lowc(const Val& v, unsigned w) { E e = toE(v, w); return e->w > w ? mk_extract(e, 0, w) : e; }
static vector<E> symStr(u64 p) { vector<E> o; for (u64 k = 0;; k++) { Val b = byteAt(p + k); if (b.e ? decide(mk_eq(b.e, mk_const(0, 8)), "string end") : !b.c) break; o.push_back(toE(b, 8)); if (k > 20000) { noteUnknown("string too long"); endPath(); } } return o; }
static E g_lastEnd = nullptr;
static Val strnum(const char* kind, u64 p, u64* endOff) { // numeric conversion of a C string: concrete on the host, symbolic as an opaque function of its bytes
  vector<E> s = symStr(p); bool allc = true; string cs; for (E e : s) if (is_c(e)) cs += (char)e->c; else allc = false;
  int base = kind[0] == 'd' ? 0 : atoi(kind + 1); if (allc) { char* ep; u64 v; if (kind[0] == 'd') v = db(strtod(cs.c_str(), &ep)); else v = (u64)strtol(cs.c_str(), &ep, base); *endOff = ep - cs.c_str(); return Val(v); }
  string n = string("strto_") + kind; int id = call_id(n); bool isd = kind[0] == 'd';
  if (!g_calls[id].fn) g_calls[id].fn = [isd, base](const vector<u64>& v) { string t; for (u64 c : v) { if (!c) break; t += (char)c; } return isd ? db(strtod(t.c_str(), nullptr)) : (u64)strtol(t.c_str(), nullptr, base); };
  string n2 = n + "_end"; int id2 = call_id(n2); if (!g_calls[id2].fn) g_calls[id2].fn = [isd, base](const vector<u64>& v) { string t; for (u64 c : v) { if (!c) break; t += (char)c; } char* ep; if (isd) strtod(t.c_str(), &ep); else strtol(t.c_str(), &ep, base); return (u64)(ep - t.c_str()); };
  auto is = [](E c, char k) { return mk_eq(c, mk_const((u64)(unsigned char)k, 8)); }; auto rng = [](E c, int lo, int hi) { return mk_bin(K_AND, mk_bin(K_ULE, mk_const(lo, 8), c), mk_bin(K_ULE, c, mk_const(hi, 8))); }; auto O = [](E a, E b) { return mk_bin(K_OR, a, b); }; auto A = [](E a, E b) { return mk_bin(K_AND, a, b); }; E F0 = mk_const(0, 1), T1 = mk_const(1, 1), Z = mk_const(0, 64);
  bool dec = base == 10; if (base == 0 && !isd && s.size() <= 18) { E lead = T1, sg = F0, z0 = F0; for (E c : s) { z0 = O(z0, A(O(lead, sg), is(c, '0'))); E ns = A(lead, O(is(c, '-'), is(c, '+'))); lead = A(lead, O(is(c, ' '), rng(c, 9, 13))); sg = ns; } dec = !decide(z0, "leading zero"); }
  if (!isd && dec && s.size() <= 18) { // exact: blanks, sign, digits
    E lead = T1, act = F0, neg = F0, any = F0, val = Z, end = Z;
    for (size_t i = 0; i < s.size(); i++) { E c = s[i], ws = A(lead, O(is(c, ' '), rng(c, 9, 13))), mi = A(lead, is(c, '-')), sg = O(mi, A(lead, is(c, '+'))), dg = A(O(lead, act), rng(c, '0', '9')); val = mk_ite(dg, mk_bin(K_ADD, mk_bin(K_MUL, val, mk_const(10, 64)), mk_bin(K_SUB, mk_zext(c, 64), mk_const('0', 64))), val); neg = O(neg, mi); any = O(any, dg); end = mk_ite(dg, mk_const(i + 1, 64), end); act = O(sg, dg); lead = ws; }
    *endOff = ~0ULL; g_lastEnd = end; return VE(mk_ite(neg, mk_bin(K_SUB, Z, val), val)); }
  E exactEnd = nullptr;
  if (isd && s.size() && s.size() <= 9) { E all = T1; for (E c : s) all = A(all, rng(c, '0', '9')); if (decide(all, "plain digits")) { E val = mk_const(0, 32); for (E c : s) val = mk_bin(K_ADD, mk_bin(K_MUL, val, mk_const(10, 32)), mk_bin(K_SUB, mk_zext(c, 32), mk_const('0', 32))); *endOff = ~0ULL; g_lastEnd = mk_const(s.size(), 64); return VE(mk_un(K_SI2F, val, 64)); } }
  if (isd) { E sp = F0; for (E c : s) for (char k : {'x', 'X', 'i', 'I', 'n', 'N'}) sp = O(sp, is(c, k)); if (!decide(sp, "hexadecimal, infinite or NaN text")) { // exact end of a decimal number
      E lead = T1, sg = F0, in = F0, d0 = F0, fr = F0, ex = F0, xs = F0, xd = F0, end = Z;
      for (size_t i = 0; i < s.size(); i++) { E c = s[i], dg = rng(c, '0', '9'), dot = is(c, '.'), pm = O(is(c, '+'), is(c, '-')), ee = O(is(c, 'e'), is(c, 'E')); E nl = A(lead, O(is(c, ' '), rng(c, 9, 13))), ns = A(lead, pm), ni = A(O(O(lead, sg), in), dg), nd0 = A(O(lead, sg), dot), nf = O(A(in, dot), A(O(d0, fr), dg)), nx = A(O(in, fr), ee), nxs = A(ex, pm), nxd = A(O(O(ex, xs), xd), dg); lead = nl; sg = ns; in = ni; d0 = nd0; fr = nf; ex = nx; xs = nxs; xd = nxd; end = mk_ite(O(O(ni, nf), nxd), mk_const(i + 1, 64), end); }
      exactEnd = end; } }
  while (s.size() < 24) s.push_back(mk_const(0, 8)); *endOff = ~0ULL; if (s.size() > 24) { noteUnknown("numeric string too long"); endPath(); }
  E off = exactEnd ? exactEnd : mk_call(id2, s, 64); Val o = VE(off); cur->occ["__strend"] = 0; g_opt["__strend"] = 0; g_lastEnd = off; (void)o; return VE(mk_call(id, s, 64)); }


static void setupBuiltins() {
  BI("__vx_skip") if (!a.empty()) r = a[0]; BE b_skip = bmap["__vx_skip"];
  BI("__vx_zero") r = Val(0); BE b_zero = bmap["__vx_zero"];
  B("__vx_throw", [](FnInfo* fn, Ins&, vector<Val>&, Val&) -> bool { if (g_opt["throw_ok"]) { cur->forceEnd = true; endPath(); } report("exception", "uncaught exception from " + fn->dem.substr(0, fn->dem.find('('))); endPath(); return false; }); b_throw = bmap["__vx_throw"];
  // ---- harness interface
  BI("vx_double") E e = inputVar(cstr(a[0]), 64, true); if (cur->hasModel && !cur->model.count(e->aux)) { cur->model[e->aux] = db(1.0 + 0.37 * (cur->inputs.size() % 11)); } r = VE(e); BE
  BI("vx_real") double lo = bd(a[1].c), hi = bd(a[2].c); E e = inputVar(cstr(a[0]), 64, true); double init = lo + (hi - lo) * (0.3 + 0.05 * (cur->inputs.size() % 9)); if (lo <= 1 && hi >= 8 && true) init = 1.0 + 0.37 * (cur->inputs.size() % 11); cur->model[e->aux] = db(init); addCons(*cur, mk_fcmp(K_FLE, mk_const(db(lo), 64), e)); addCons(*cur, mk_fcmp(K_FLE, e, mk_const(db(hi), 64))); r = VE(e); BE
  BI("vx_int") i64 lo = sx(a[1].c, 32), hi = sx(a[2].c, 32); E e = inputVar(cstr(a[0]), 32, false); cur->model[e->aux] = (u64)lo & maskw(32); addCons(*cur, mk_bin(K_SLE, mk_const((u64)lo, 32), e)); addCons(*cur, mk_bin(K_SLE, e, mk_const((u64)hi, 32))); r = VE(e); BE
  BI("vx_long") E e = inputVar(cstr(a[0]), 64, false); cur->model[e->aux] = a[1].c; addCons(*cur, mk_bin(K_SLE, mk_const(a[1].c, 64), e)); addCons(*cur, mk_bin(K_SLE, e, mk_const(a[2].c, 64))); r = VE(e); BE
  BI("vx_byte") E e = inputVar(cstr(a[0]), 8, false); if (!cur->model.count(e->aux)) cur->model[e->aux] = 'a'; r = VE(e); BE
  B("vx_pick", [](FnInfo*, Ins& x, vector<Val>& a, Val& r) -> bool { i64 lo = sx(a[1].c, 32), hi = sx(a[2].c, 32); string n = cstr(a[0]); if (hi < lo) { st.pruned++; endPath(); }
    State& s = *cur; int k = s.occ[n]++; vector<i64> vals; for (i64 v = lo; v <= hi; v++) if (s.pickdepth != 0 || g_nparts == 1 || (v - lo) % g_nparts == g_part) vals.push_back(v); s.pickdepth++; if (vals.empty()) { st.pruned++; endPath(); }
    for (size_t i = vals.size(); i-- > 0;) { State* t = &s; if (i) { t = new State(s); t->ev.reset(); st.forks++; } InputRec ir; ir.name = n + "#" + std::to_string(k); ir.e = nullptr; ir.c = (u64)vals[i] & maskw(32); ir.w = 32; ir.isd = false; t->inputs.push_back(ir);
      if (i) { State* save = cur; cur = t; Frame& g = top(); if (x.dest >= 0) g.r[x.dest] = Val((u64)vals[i] & maskw(32)); if (x.succ[0] >= 0) enterBlock(g, x.bb, x.succ[0]); else g.pc++; cur = save; work.push_back(t); } }
    r = Val((u64)vals[0] & maskw(32)); return false; });
  BI("vx_assume") assumeC(mk_not(mk_eq(lowc(a[0], 32), mk_const(0, 32)))); BE
  BI("vx_check") checkC(mk_not(mk_eq(lowc(a[0], 32), mk_const(0, 32))), cstr(a[1])); BE
  BI("vx_same") E p = toE(a[0], 64), q = toE(a[1], 64); r = VE(mk_zext(mk_bin(K_OR, mk_eq(p, q), mk_bin(K_AND, mk_isnan(p), mk_isnan(q))), 32)); BE
  BI("vx_and") r = VE(mk_zext(mk_bin(K_AND, mk_not(mk_eq(lowc(a[0], 32), mk_const(0, 32))), mk_not(mk_eq(lowc(a[1], 32), mk_const(0, 32)))), 32)); BE
  BI("vx_or") r = VE(mk_zext(mk_bin(K_OR, mk_not(mk_eq(lowc(a[0], 32), mk_const(0, 32))), mk_not(mk_eq(lowc(a[1], 32), mk_const(0, 32)))), 32)); BE
  BI("vx_number") u64 p = concretize(a[0], 64, "address"), o = concretize(a[1], 64, "address"); Val b = byteAt(p); r = Val((u64)0);   // reads back a printed number: a symbolic one as the very expression that was printed
    auto src = [](E e) -> E { if (e && e->k == K_OR) for (E c : e->a) if (c->k == K_ZEXT && c->a[0]->k == K_CALL && g_calls[c->a[0]->aux].name.compare(0, 3, "fmt") == 0) return c->a[0]; return nullptr; };
    if (b.e) { E c = src(b.e); if (c && c->a[0]->w == 64) { int n = 0; for (;;) { Val q = byteAt(p + n); E d = q.e ? src(q.e) : nullptr; if (!d || d->a[0] != c->a[0] || (n && d == c) || n >= 6) break; n++; } storeMem(Val(o), 8, VE(c->a[0])); r = Val((u64)n); } }
    else { string t; for (u64 k = 0; k < 60; k++) { Val q = byteAt(p + k); if (q.e || !q.c) break; t += (char)q.c; } char* ep; double v = strtod(t.c_str(), &ep); if (ep != t.c_str()) { storeMem(Val(o), 8, Val(db(v))); r = Val((u64)(ep - t.c_str())); } } BE
  BI("vx_ite") r = VE(mk_ite(mk_not(mk_eq(lowc(a[0], 32), mk_const(0, 32))), toE(a[1], 64), toE(a[2], 64))); BE
  BI("vx_check_real") checkReal(toE(a[0], 64), toE(a[1], 64), bd(a[2].c), cstr(a[3])); BE
  BI("vx_uf") vector<E> as; for (int i = 1; i < 5; i++) as.push_back(toE(a[i], 64)); r = VE(ufCall(cstr(a[0]), as)); BE
  BI("vx_ufr") vector<E> as; for (int i = 1; i < 5; i++) as.push_back(toE(a[i], 64)); double lo = bd(a[5].c), hi = bd(a[6].c); E e = ufrCall(cstr(a[0]), as, lo, hi); if (!is_c(e)) { g_callRange[e->id] = {lo, hi}; addCons(*cur, mk_fcmp(K_FLE, mk_const(db(lo), 64), e)); addCons(*cur, mk_fcmp(K_FLE, e, mk_const(db(hi), 64))); } r = VE(e); BE
  BI("vx_observe_d") Observation o; o.tag = cstr(a[0]); o.e = a[1].e; o.c = a[1].c; o.isd = true; if (o.e && o.e->uninit) { report("uninit", "observed value is uninitialised: " + o.tag); endPath(); } cur->obs.push_back(o); BE
  BI("vx_observe_i") Observation o; o.tag = cstr(a[0]); o.e = a[1].e; o.c = a[1].c; o.isd = false; if (o.e && o.e->uninit) { report("uninit", "observed value is uninitialised: " + o.tag); endPath(); } cur->obs.push_back(o); BE
  BI("vx_reach") cur->reach.insert(cstr(a[0])); BE
  BI("vx_option") g_opt[cstr(a[0])] = (i64)a[1].c; g_realArith = g_opt.count("realarith") && g_opt["realarith"]; g_realBranch = g_opt.count("realbranch") && g_opt["realbranch"]; if (g_opt.count("uftimeout") && g_opt["uftimeout"]) S->uf_timeout = g_opt["uftimeout"]; if (g_opt.count("fpatimeout") && g_opt["fpatimeout"]) S->fpa_timeout = g_opt["fpatimeout"]; BE
  BI("vx_end") cur->forceEnd = true; endPath(); BE
  BI("vx_symbolic") r = Val(1); BE
  BI("vx_debug") fprintf(stderr, "[vx] %s %s\n", cstr(a[0]).c_str(), a[1].e ? estr(a[1].e, 8).c_str() : hexs(a[1].c).c_str()); BE
  // ---- heap
  BI("malloc") r = Val(doMalloc(AK_MALLOC, a[0], false, "malloc")); BE
  BI("calloc") u64 n = concretize(a[0], 64, "allocation size"), m = concretize(a[1], 64, "allocation size"); r = Val(doMalloc(AK_MALLOC, Val(n * m), true, "calloc")); BE
  BI("realloc") u64 p = concretize(a[0], 64, "realloc"); u64 n = concretize(a[1], 64, "allocation size"); u64 q = doMalloc(AK_MALLOC, Val(n), false, "malloc"); if (p) { u64 off; const Obj* o = objAt(p, off); if (!o || o->freed || off) memfault("realloc of invalid pointer"); copyMem(q, p, std::min(n, o->size)); doFree(Val(p), AK_MALLOC, "realloc"); } r = Val(q); BE
  BI("free") doFree(a[0], AK_MALLOC, "free"); BE
  for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) BI(n) r = Val(doMalloc(AK_NEW, a[0], false, "new")); BE
  for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) BI(n) r = Val(doMalloc(AK_NEWARR, a[0], false, "new[]")); BE
  for (auto n : {"_ZdlPv", "_ZdlPvm"}) BI(n) doFree(a[0], AK_NEW, "delete"); BE
  for (auto n : {"_ZdaPv", "_ZdaPvm"}) BI(n) doFree(a[0], AK_NEWARR, "delete[]"); BE
  // ---- memory / strings
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "mempcpy"}) BI(n) u64 d = concretize(a[0], 64, "address"), s = concretize(a[1], 64, "address"), c = concretize(a[2], 64, "length"); copyMem(d, s, c); r = a[0]; BE
  for (auto n : {"memset", "llvm.memset"}) BI(n) u64 d = concretize(a[0], 64, "address"), c = concretize(a[2], 64, "length"); Val b = a[1].e ? VE(lowc(a[1], 8)) : Val(a[1].c & 255); setMem(d, b, c); r = a[0]; BE
  BI("bzero") u64 d = concretize(a[0], 64, "address"), c = concretize(a[1], 64, "length"); setMem(d, Val((u64)0), c); BE
  for (auto n : {"memcmp", "bcmp", "strncmp_"}) BI(n) u64 p = concretize(a[0], 64, "address"), q = concretize(a[1], 64, "address"), c = concretize(a[2], 64, "length"); E res = mk_const(0, 32); for (u64 i = c; i-- > 0;) { E x1 = toE(byteAt(p + i), 8), y1 = toE(byteAt(q + i), 8); res = mk_ite(mk_eq(x1, y1), res, mk_bin(K_SUB, mk_zext(x1, 32), mk_zext(y1, 32))); } r = VE(res); BE
  BI("memchr") u64 p = concretize(a[0], 64, "address"), c = concretize(a[2], 64, "length"); E ch = lowc(a[1], 8); E res = mk_const(0, 64); for (u64 i = c; i-- > 0;) { E x1 = toE(byteAt(p + i), 8); res = mk_ite(mk_eq(x1, ch), mk_const(p + i, 64), res); } r = VE(res); BE
  BI("strlen") r = Val(symStr(concretize(a[0], 64, "address")).size()); BE
  BI("strnlen") r = Val(std::min<u64>(symStr(concretize(a[0], 64, "address")).size(), a[1].c)); BE
  for (auto n : {"strcmp", "strncmp", "strcasecmp"}) B(n, [n](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { u64 p = concretize(a[0], 64, "address"), q = concretize(a[1], 64, "address"); u64 lim = string(n) == "strncmp" ? concretize(a[2], 64, "length") : ~0ULL; bool ic = string(n) == "strcasecmp"; for (u64 i = 0; i < lim; i++) { E x1 = toE(byteAt(p + i), 8), y1 = toE(byteAt(q + i), 8); if (ic && is_c(x1)) x1 = mk_const(tolower(x1->c), 8); if (ic && is_c(y1)) y1 = mk_const(tolower(y1->c), 8);
    if (!decide(mk_eq(x1, y1), "strcmp")) { r = VE(mk_bin(K_SUB, mk_zext(x1, 32), mk_zext(y1, 32))); return false; } if (decide(mk_eq(x1, mk_const(0, 8)), "strcmp end")) break; } r = Val(0); return false; });
  BI("strcpy") u64 d = concretize(a[0], 64, "address"), s = concretize(a[1], 64, "address"); u64 n = symStr(s).size(); copyMem(d, s, n + 1); r = a[0]; BE
  BI("strncpy") u64 d = concretize(a[0], 64, "address"), s = concretize(a[1], 64, "address"), c = concretize(a[2], 64, "length"); u64 n = symStr(s).size(); copyMem(d, s, std::min(n, c)); if (n < c) setMem(d + n, Val(0), c - n); r = a[0]; BE
  BI("strcat") u64 d = concretize(a[0], 64, "address"), s = concretize(a[1], 64, "address"); u64 m = symStr(d).size(), n = symStr(s).size(); copyMem(d + m, s, n + 1); r = a[0]; BE
  BI("strdup") u64 s = concretize(a[0], 64, "address"); u64 n = symStr(s).size(); u64 d = doMalloc(AK_MALLOC, Val(n + 1), false, "malloc"); copyMem(d, s, n + 1); r = Val(d); BE
  for (auto n : {"strchr", "strrchr"}) B(n, [n](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { u64 p = concretize(a[0], 64, "address"); vector<E> s = symStr(p); E ch = lowc(a[1], 8); E res = mk_ite(mk_eq(ch, mk_const(0, 8)), mk_const(p + s.size(), 64), mk_const(0, 64)); if (string(n) == "strchr") for (size_t i = s.size(); i-- > 0;) res = mk_ite(mk_eq(s[i], ch), mk_const(p + i, 64), res); else for (size_t i = 0; i < s.size(); i++) res = mk_ite(mk_eq(s[i], ch), mk_const(p + i, 64), res); r = VE(res); return false; });
  BI("strstr") string h = cstr(a[0]), nn = cstr(a[1]); size_t p = h.find(nn); r = p == string::npos ? Val(0) : Val(concretize(a[0], 64, "address") + p); BE
  BI("strerror") { static u64 dummy = 0; (void)dummy; } r = Val(allocObj(AK_MALLOC, 8, 0, "strerror text")); BE
  for (auto n : {"strtod", "strtol", "__isoc23_strtol", "strtoll", "strtof", "atof", "atoi", "atol"}) B(n, [n](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { string nm = n; bool isd = nm == "strtod" || nm == "atof"; u64 p = concretize(a[0], 64, "address"); u64 eo; int base = nm.find("tol") != string::npos && nm[0] != 'a' ? (int)sx(concretize(a[2], 32, "base"), 32) : 10; Val v = strnum(isd ? "d" : ("l" + std::to_string(base)).c_str(), p, &eo); if (nm[0] == 's' || nm[0] == '_') { u64 ep = concretize(a[1], 64, "address"); if (ep) { if (eo != ~0ULL) storeMem(Val(ep), 8, Val(p + eo)); else { E o = g_lastEnd; u64 len = symStr(p).size(); E ok = mk_bin(K_ULE, o, mk_const(len, 64)); addCons(*cur, ok); u64 c = concretize(VE(o), 64, "strtod end"); storeMem(Val(ep), 8, Val(p + c)); } } } if (nm == "atoi") { if (v.e) v = VE(mk_extract(v.e, 0, 32)); else v.c &= maskw(32); } r = v; return false; });
  for (auto n : {"isspace", "isdigit", "isalpha", "isalnum", "isprint", "toupper", "tolower", "isupper", "islower", "ispunct"}) B(n, [n](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { string nm = n; auto host = [nm](int c) -> int { if (c < 0 || c > 255) return nm[0] == 't' ? c : 0; return nm == "isspace" ? isspace(c) != 0 : nm == "isdigit" ? isdigit(c) != 0 : nm == "isalpha" ? isalpha(c) != 0 : nm == "isalnum" ? isalnum(c) != 0 : nm == "isprint" ? isprint(c) != 0 : nm == "toupper" ? toupper(c) : nm == "tolower" ? tolower(c) : nm == "isupper" ? isupper(c) != 0 : nm == "islower" ? islower(c) != 0 : ispunct(c) != 0; };
    E e = lowc(a[0], 32); if (is_c(e)) { r = Val((u64)host((int)sx(e->c, 32)) & maskw(32)); return false; }
    E res; if (nm == "toupper") { E rng = mk_bin(K_AND, mk_bin(K_SLE, mk_const('a', 32), e), mk_bin(K_SLE, e, mk_const('z', 32))); res = mk_ite(rng, mk_bin(K_SUB, e, mk_const(32, 32)), e); } else if (nm == "tolower") { E rng = mk_bin(K_AND, mk_bin(K_SLE, mk_const('A', 32), e), mk_bin(K_SLE, e, mk_const('Z', 32))); res = mk_ite(rng, mk_bin(K_ADD, e, mk_const(32, 32)), e); }
    else { E c = mk_const(0, 1); int i = 0; while (i < 128) { if (!host(i)) { i++; continue; } int j = i; while (j + 1 < 128 && host(j + 1)) j++; c = mk_bin(K_OR, c, mk_bin(K_AND, mk_bin(K_SLE, mk_const(i, 32), e), mk_bin(K_SLE, e, mk_const(j, 32)))); i = j + 1; } res = mk_zext(c, 32); } r = VE(res); return false; });
  BI("__ctype_b_loc") noteUnknown("ctype table"); endPath(); BE
  // ---- output
  for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "fwrite", "vprintf", "vfprintf", "perror", "setvbuf", "fclose_"}) BI(n) r = Val(0); BE
  BI("fopen") string nm = cstr(a[0]); r = Val(allocObj(AK_MALLOC, 16, 0, "FILE")); BE
  BI("fclose") u64 p = concretize(a[0], 64, "FILE"); u64 off, slot; access(p, 1, false, off, slot); objMut(slot)->freed = true; r = Val(0); BE
  BI("snprintf") size_t i = 3; vector<Val> av = a; string f = cstr(a[2]); auto o = formatAll(f, [&]() { if (i >= av.size()) { report("memory", "format reads a missing argument"); endPath(); } return av[i++]; }); r = Val(emit(concretize(a[0], 64, "address"), concretize(a[1], 64, "length"), true, o)); BE
  BI("sprintf") size_t i = 2; vector<Val> av = a; string f = cstr(a[1]); auto o = formatAll(f, [&]() { if (i >= av.size()) { report("memory", "format reads a missing argument"); endPath(); } return av[i++]; }); r = Val(emit(concretize(a[0], 64, "address"), 0, false, o)); BE
  BI("vsnprintf") u64 va = concretize(a[3], 64, "va_list"); u64 pos0 = loadMem(Val(va + 8), 8).c; u64 pos = pos0; string f = cstr(a[2]); auto o = formatAll(f, [&]() { Val v = loadMem(Val(pos), 8); pos += 8; return v; }); storeMem(Val(va + 8), 8, Val(pos)); r = Val(emit(concretize(a[0], 64, "address"), concretize(a[1], 64, "length"), true, o)); BE
  BI("llvm.va_start") Frame& f = *cur->fr.back(); u64 p = concretize(a[0], 64, "va_list"); storeMem(Val(p), 4, Val(48)); storeMem(Val(p + 4), 4, Val(176)); storeMem(Val(p + 8), 8, Val(f.vaAddr)); storeMem(Val(p + 16), 8, Val(0)); BE
  BI("llvm.va_end") BE
  BI("llvm.va_copy") copyMem(concretize(a[0], 64, "va_list"), concretize(a[1], 64, "va_list"), 24); BE
  // ---- process
  for (auto n : {"exit", "_exit", "_Exit"}) BI(n) if (g_opt["exit_violation"]) { report("exit", "process exit"); } cur->reach.insert("exit"); cur->forceEnd = true; endPath(); BE
  for (auto n : {"abort", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__stack_chk_fail", "_ZSt20__glibcxx_assert_failPKciS0_S0_", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) B(n, [n](FnInfo*, Ins&, vector<Val>&, Val&) -> bool { report("abort", string("abnormal termination: ") + n); endPath(); return false; });
  for (auto n : {"__cxa_atexit", "atexit", "signal", "srand", "getpid", "time", "clock", "usleep", "omp_set_num_threads", "omp_get_thread_num", "gettimeofday", "getrusage", "isatty", "fileno", "setlocale", "fftw_cleanup_threads_", "sysconf"}) BI(n) r = Val(0); BE
  for (auto n : {"omp_get_max_threads", "omp_get_num_threads", "omp_get_num_procs"}) BI(n) r = Val(1); BE
  BI("__errno_location") static std::unordered_map<int,int> z; r = Val(allocObj(AK_MALLOC, 8, 0, "errno")); BE
  BI("__cxa_guard_acquire") u64 p = concretize(a[0], 64, "guard"); Val v = byteAt(p); if (v.c & 1) r = Val(0); else { r = Val(1); } BE
  BI("__cxa_guard_release") u64 p = concretize(a[0], 64, "guard"); storeMem(Val(p), 1, Val(1)); BE
  BI("__cxa_guard_abort") BE
  // ---- LLVM intrinsics
  for (auto n : {"llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.prefetch", "llvm.var.annotation", "llvm.sideeffect"}) BI(n) BE
  BI("llvm.stacksave") r = Val(0); BE
  for (auto n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.annotation", "llvm.ptr.annotation"}) BI(n) r = a[0]; BE
  BI("llvm.objectsize") r = Val(~0ULL); BE
  BI("llvm.is.constant") r = Val(0); BE
  for (auto n : {"llvm.trap", "llvm.debugtrap", "llvm.ubsantrap"}) BI(n) report("trap", "trap reached"); endPath(); BE
  for (auto n : {"llvm.fabs", "fabs"}) BI(n) r = VE(mk_fabs(toE(a[0], x.w))); BE
  BI("llvm.fneg") r = VE(mk_fneg(toE(a[0], x.w))); BE
  for (auto n : {"llvm.sqrt", "sqrt"}) BI(n) if (x.w != 64) { noteUnknown("float sqrt"); endPath(); } r = VE(mk_un(K_FSQRT, toE(a[0], 64), 64)); BE
  const char* rn[][2] = {{"llvm.floor", "floor"}, {"llvm.ceil", "ceil"}, {"llvm.trunc", "trunc"}, {"llvm.round", "round"}, {"llvm.rint", "rint"}, {"llvm.nearbyint", "nearbyint"}};
  for (int k = 0; k < 6; k++) for (int q = 0; q < 2; q++) B(rn[k][q], [k](FnInfo*, Ins& x, vector<Val>& a, Val& r) -> bool { if (x.w != 64) { noteUnknown("float rounding"); endPath(); } r = VE(mk_un(K_FROUND, toE(a[0], 64), 64, k > 4 ? 4 : k)); return false; });
  for (auto n : {"lround", "lrint", "llvm.lround", "llvm.lrint"}) B(n, [n](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { r = VE(mk_un(K_F2SI, mk_un(K_FROUND, toE(a[0], 64), 64, string(n).find("rint") != string::npos ? 4 : 3), 64)); return false; });
  for (auto n : {"llvm.fmuladd", "llvm.fma", "fma"}) BI(n) r = VE(mk_fadd(mk_fmul(toE(a[0], x.w), toE(a[1], x.w)), toE(a[2], x.w))); BE
  for (auto n : {"llvm.minnum", "fmin"}) BI(n) E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_isnan(p), q, mk_ite(mk_isnan(q), p, mk_ite(mk_fcmp(K_FLT, q, p), q, p)))); BE
  for (auto n : {"llvm.maxnum", "fmax"}) BI(n) E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_isnan(p), q, mk_ite(mk_isnan(q), p, mk_ite(mk_fcmp(K_FLT, p, q), q, p)))); BE
  for (auto n : {"llvm.copysign", "copysign"}) BI(n) E p = toE(a[0], x.w), q = toE(a[1], x.w); u64 sb = x.w == 64 ? DSIGN : 0x80000000ULL; r = VE(mk_bin(K_OR, mk_bin(K_AND, p, mk_const(sb - 1, x.w)), mk_bin(K_AND, q, mk_const(sb, x.w)))); BE
  BI("llvm.is.fpclass") unsigned m = a[1].c; unsigned w = a[0].e ? a[0].e->w : widthOf(x.I->getOperand(0)->getType()); E v = toE(a[0], w); E res = mk_const(0, 1); auto inf = mk_const(w == 64 ? DINF : 0x7f800000ULL, w); E mag = mk_fabs(v); E neg = mk_eq(mk_extract(v, w - 1, 1), mk_const(1, 1)); auto add = [&](E c) { res = mk_bin(K_OR, res, c); };
    if (m & 3) add(mk_isnan(v)); if ((m & 0x204) == 0x204) add(mk_eq(mag, inf)); else { if (m & 4) add(mk_bin(K_AND, neg, mk_eq(mag, inf))); if (m & 0x200) add(mk_bin(K_AND, mk_not(neg), mk_eq(mag, inf))); }
    if ((m & 0x1f8) == 0x1f8) add(mk_bin(K_ULT, mag, inf)); else { E mn = mk_const(w == 64 ? 0x0010000000000000ULL : 0x00800000ULL, w); E z = mk_eq(mag, mk_const(0, w)), sub = mk_bin(K_AND, mk_not(z), mk_bin(K_ULT, mag, mn)), nor = mk_bin(K_AND, mk_bin(K_ULE, mn, mag), mk_bin(K_ULT, mag, inf)); if (m & 8) add(mk_bin(K_AND, neg, nor)); if (m & 16) add(mk_bin(K_AND, neg, sub)); if (m & 32) add(mk_bin(K_AND, neg, z)); if (m & 64) add(mk_bin(K_AND, mk_not(neg), z)); if (m & 128) add(mk_bin(K_AND, mk_not(neg), sub)); if (m & 256) add(mk_bin(K_AND, mk_not(neg), nor)); } r = VE(res); BE
  for (auto n : {"isnan", "__isnan"}) BI(n) r = VE(mk_zext(mk_isnan(toE(a[0], 64)), 32)); BE
  for (auto n : {"isinf", "__isinf"}) BI(n) r = VE(mk_zext(mk_eq(mk_fabs(toE(a[0], 64)), mk_const(DINF, 64)), 32)); BE
  for (auto n : {"__finite", "finite"}) BI(n) r = VE(mk_zext(mk_isfinite(toE(a[0], 64)), 32)); BE
  BI("llvm.umin") E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_bin(K_ULT, p, q), p, q)); BE
  BI("llvm.umax") E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_bin(K_ULT, p, q), q, p)); BE
  BI("llvm.smin") E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_bin(K_SLT, p, q), p, q)); BE
  BI("llvm.smax") E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_bin(K_SLT, p, q), q, p)); BE
  BI("llvm.abs") E p = toE(a[0], x.w); r = VE(mk_ite(mk_bin(K_SLT, p, mk_const(0, x.w)), mk_bin(K_SUB, mk_const(0, x.w), p), p)); BE
  for (auto n : {"abs", "labs"}) BI(n) E p = lowc(a[0], x.w); r = VE(mk_ite(mk_bin(K_SLT, p, mk_const(0, x.w)), mk_bin(K_SUB, mk_const(0, x.w), p), p)); BE
  BI("llvm.usub.sat") E p = toE(a[0], x.w), q = toE(a[1], x.w); r = VE(mk_ite(mk_bin(K_ULT, p, q), mk_const(0, x.w), mk_bin(K_SUB, p, q))); BE
  struct OV { const char* n; int op; bool sg; }; 
  for (OV o : {OV{"llvm.sadd.with.overflow", 0, true}, OV{"llvm.uadd.with.overflow", 0, false}, OV{"llvm.ssub.with.overflow", 1, true}, OV{"llvm.usub.with.overflow", 1, false}, OV{"llvm.smul.with.overflow", 2, true}, OV{"llvm.umul.with.overflow", 2, false}})
    B(o.n, [o](FnInfo*, Ins& x, vector<Val>& a, Val& r) -> bool { unsigned w = widthOf(x.I->getOperand(0)->getType()); u64 p = concretize(a[0], w, "overflow op"), q = concretize(a[1], w, "overflow op"); __int128 P = o.sg ? (__int128)sx(p, w) : (__int128)(p & maskw(w)), Q = o.sg ? (__int128)sx(q, w) : (__int128)(q & maskw(w)); __int128 R = o.op == 0 ? P + Q : o.op == 1 ? P - Q : P * Q; u64 lo = (u64)R & maskw(w); bool ov = o.sg ? R != (__int128)sx(lo, w) : R != (__int128)lo; r.agg = make_shared<vector<Val>>(); r.agg->push_back(Val(lo)); r.agg->push_back(Val(ov)); return false; });
  BI("llvm.ctlz") unsigned w = x.w; u64 v = concretize(a[0], w, "ctlz") & maskw(w); r = Val(v ? (u64)(__builtin_clzll(v) - (64 - w)) : w); BE
  BI("llvm.cttz") unsigned w = x.w; u64 v = concretize(a[0], w, "cttz") & maskw(w); r = Val(v ? (u64)__builtin_ctzll(v) : w); BE
  BI("llvm.ctpop") r = Val((u64)__builtin_popcountll(concretize(a[0], x.w, "ctpop") & maskw(x.w))); BE
  BI("llvm.eh.typeid.for") r = Val(1); BE
  // ---- libm
  for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "erf", "erfc", "tgamma", "lgamma", "gsl_sf_gamma", "gsl_sf_bessel_K1", "gsl_sf_bessel_I0", "gsl_sf_bessel_I0_scaled"}) libm1(n);
  for (auto n : {"pow", "atan2", "hypot"}) libm2(n);
  for (auto n : {"sin", "cos", "exp", "log", "log10", "log2", "exp2"}) { int id = call_id(n); B(string("llvm.") + n, [id](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { r = VE(mk_call(id, {toE(a[0], 64)}, 64)); return false; }); }
  { int id = call_id("pow"); B("llvm.pow", [id](FnInfo*, Ins&, vector<Val>& a, Val& r) -> bool { r = VE(mk_call(id, {toE(a[0], 64), toE(a[1], 64)}, 64)); return false; }); }
  BI("fmod") r = VE(mk_bin(K_FREM, toE(a[0], 64), toE(a[1], 64))); BE
  BI("ldexp") int e = (int)sx(concretize(a[1], 32, "ldexp"), 32); r = VE(mk_fmul(toE(a[0], 64), mk_const(db(ldexp(1.0, e)), 64))); BE
  BI("gsl_set_error_handler_off") r = Val(0); BE
#include "vx_omp.inc"
}
static bool kmpcReturn(Ins&, const Val&) { return false; }
static void raceAccess(u64, u64, bool) {}
