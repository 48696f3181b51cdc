// ---------------------------------------------------------------- real-arithmetic normal forms
// FP expressions read as exact real arithmetic: polynomials over atoms (inputs, opaque calls with normalised arguments, inverses, square roots, absolute values)
typedef vector<std::pair<u32, int>> Mono;                 // sorted (atom, exponent)
typedef std::map<Mono, long double> Poly;
struct AtomInfo { string key; E e; int kind; Poly arg; };        // kind 0 opaque, 1 sqrt(arg), 2 inverse of arg
static vector<AtomInfo> atoms; static std::unordered_map<string, u32> atomByKey;
static u32 atomOf(const string& key, E e, int kind, const Poly& arg = Poly()) { auto it = atomByKey.find(key); if (it != atomByKey.end()) return it->second; u32 id = atoms.size(); atoms.push_back({key, e, kind, arg}); atomByKey[key] = id; return id; }
static Poly pconst(long double c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
static Poly patom(u32 a, int ex = 1) { Poly p; p[Mono{{a, ex}}] = 1; return p; }
static void pclean(Poly& p) { long double mx = 0; for (auto& k : p) mx = std::max(mx, fabsl(k.second)); for (auto it = p.begin(); it != p.end();) { if (fabsl(it->second) <= mx * 1e-17L || it->second == 0) it = p.erase(it); else ++it; } }
static Poly padd(const Poly& a, const Poly& b, long double s = 1) { Poly r = a; for (auto& k : b) { auto& c = r[k.first]; long double old = c; c += s * k.second; if (fabsl(c) <= 1e-15L * (fabsl(old) + fabsl(k.second))) r.erase(k.first); } return r; }
struct RealFail { string why; };
static Poly pmul(const Poly& a, const Poly& b);
static Poly monoMul(const Mono& a, const Mono& b, long double c) {
  Mono m; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) m.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) m.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) m.push_back({a[i].first, e}); i++; j++; } }
  Poly extra = pconst(1); bool has = false; Mono m2; for (auto& t : m) { if (atoms[t.first].kind == 1 && t.second >= 2) { int q = t.second / 2; for (int k = 0; k < q; k++) extra = pmul(extra, atoms[t.first].arg); has = true; if (t.second % 2) m2.push_back({t.first, 1}); } else m2.push_back(t); }
  Poly r; if (!has) { r[m] = c; return r; } Poly base; base[m2] = c; return pmul(base, extra); }
static Poly pmul(const Poly& a, const Poly& b) { if ((double)a.size() * b.size() > 200000) throw RealFail{"polynomial too large"}; Poly r; for (auto& x : a) for (auto& y : b) { Poly t = monoMul(x.first, y.first, x.second * y.second); r = r.empty() ? t : (t.size() == 1 ? [&]() { auto& c = r[t.begin()->first]; long double old = c; c += t.begin()->second; if (fabsl(c) <= 1e-15L * (fabsl(old) + fabsl(t.begin()->second))) r.erase(t.begin()->first); return std::move(r); }() : padd(r, t)); } return r; }
static string pkey(const Poly& p) { string s; char b[48]; for (auto& k : p) { snprintf(b, 48, "%.11Lg", k.second); s += b; for (auto& t : k.first) { s += "*a" + std::to_string(t.first); if (t.second != 1) s += "^" + std::to_string(t.second); } s += "+"; } return s.empty() ? "0" : s; }
static bool pisconst(const Poly& p, long double& c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { c = p.begin()->second; return true; } return false; }
static Poly pinv(const Poly& p) {
  if (p.empty()) throw RealFail{"division by zero polynomial"};
  if (p.size() == 1) { Poly r; Mono m = p.begin()->first; bool sq = false; for (auto& t : m) if (atoms[t.first].kind == 1 || atoms[t.first].kind == 2) sq = true; if (!sq) { for (auto& t : m) t.second = -t.second; r[m] = 1 / p.begin()->second; return r; }
    Poly out = pconst(1 / p.begin()->second); for (auto& t : m) { for (int k = 0; k < abs(t.second); k++) { if (t.second < 0) out = pmul(out, patom(t.first)); else if (atoms[t.first].kind == 2) out = pmul(out, atoms[t.first].arg); else if (atoms[t.first].kind == 1) { Poly q = pinv(atoms[t.first].arg); out = pmul(pmul(out, patom(t.first)), q); } else out = pmul(out, patom(t.first, -1)); } } return out; }
  long double lead = p.begin()->second; Poly n; for (auto& k : p) n[k.first] = k.second / lead; u32 a = atomOf("inv(" + pkey(n) + ")", nullptr, 2, n); Poly r = patom(a); for (auto& k : r) k.second /= lead; return r; }
struct RealCtx { std::unordered_map<u32, Poly> memo; };
static Poly toPoly(E e, RealCtx& cx);
static bool finiteCond(E c) { return c->k == K_ULT && is_c(c->a[1]) && c->a[1]->c == DINF && c->a[0]->k == K_AND && is_c(c->a[0]->a[1]) && c->a[0]->a[1]->c == DSIGN - 1; }
static Poly intPoly(E e, RealCtx& cx) {  // integer expressions without wrap-around (inputs are small)
  if (is_c(e)) return pconst((long double)sx(e->c, e->w));
  if (e->k == K_ADD) return padd(intPoly(e->a[0], cx), intPoly(e->a[1], cx)); if (e->k == K_SUB) return padd(intPoly(e->a[0], cx), intPoly(e->a[1], cx), -1); if (e->k == K_MUL) return pmul(intPoly(e->a[0], cx), intPoly(e->a[1], cx));
  if (e->k == K_SEXT || e->k == K_ZEXT) return intPoly(e->a[0], cx);
  if (e->k == K_ITE) { bool t = decide(e->a[0], "real: ite"); return intPoly(e->a[t ? 1 : 2], cx); }
  return patom(atomOf("i" + std::to_string(e->id), e, 0)); }
static Poly opaqueAtom(E e) { if (g_verbose && e->k != K_VAR) fprintf(stderr, "[real opaque] x%u = %s\n", e->id, estr(e, 3).substr(0, 300).c_str()); return patom(atomOf("x" + std::to_string(e->id), e, 0)); }
static Poly toPoly(E e, RealCtx& cx) {
  if (is_c(e)) { double d = e->w == 64 ? bd(e->c) : bf(e->c); if (!(fabs(d) <= 1.7e308)) throw RealFail{"non-finite constant"}; return pconst(d); }
  if (e->uninit && e->k == K_UNINIT) { report("uninit", "result depends on uninitialised memory"); endPath(); }
  auto it = cx.memo.find(e->id); if (it != cx.memo.end()) return it->second;
  Poly r; 
  switch (e->k) {
    case K_FADD: r = padd(toPoly(e->a[0], cx), toPoly(e->a[1], cx)); break;
    case K_FMUL: r = pmul(toPoly(e->a[0], cx), toPoly(e->a[1], cx)); break;
    case K_FDIV: { Poly d = toPoly(e->a[1], cx); Poly n = toPoly(e->a[0], cx); r = n.empty() ? n : pmul(n, pinv(d)); break; }
    case K_FSQRT: { Poly a = toPoly(e->a[0], cx); long double c; if (pisconst(a, c)) { if (c < 0) throw RealFail{"sqrt of negative"}; r = pconst(sqrtl(c)); break; } r = patom(atomOf("sqrt(" + pkey(a) + ")", e, 1, a)); break; }
    case K_ITE: { E c = e->a[0]; auto fpc = [](E x, double& d) { if (!is_c(x)) return false; d = x->w == 64 ? bd(x->c) : bf(x->c); return true; }; double d1, d2;
      if (c->k == K_EQ && (c->a[0] == e->a[2] || c->a[1] == e->a[2])) { E k = c->a[0] == e->a[2] ? c->a[1] : c->a[0]; if (fpc(k, d1) && fpc(e->a[1], d2) && d1 == d2) { r = toPoly(e->a[2], cx); break; } }  // only the sign of zero differs
      if (fpc(e->a[2], d2) && d2 != d2 && finiteCond(c)) { r = toPoly(e->a[1], cx); break; }  // exact arithmetic: operands are finite
      bool t = decide(c, "real: ite"); r = toPoly(e->a[t ? 1 : 2], cx); break; }
    case K_SI2F: case K_UI2F: r = intPoly(e->a[0], cx); break;
    case K_FCONV: r = toPoly(e->a[0], cx); break;
    case K_XOR: if (is_c(e->a[1]) && e->a[1]->c == DSIGN) { Poly a = toPoly(e->a[0], cx); for (auto& k : a) k.second = -k.second; r = a; break; } r = opaqueAtom(e); break;
    case K_AND: if (is_c(e->a[1]) && e->a[1]->c == DSIGN) break;  // a signed zero
      if (is_c(e->a[1]) && e->a[1]->c == DSIGN - 1) { Poly a = toPoly(e->a[0], cx); long double c; if (pisconst(a, c)) { r = pconst(fabsl(c)); break; } 
        E sc = mk_fcmp(K_FLT, e->a[0], mk_const(0, 64)); int neg = is_c(sc) ? (int)sc->c : g_realBranch ? -1 : lookup(*cur, sc); if (neg < 0 && !g_realBranch) neg = triState(sc);   // one form throughout the path when branches depend on it
        if (neg >= 0) { if (neg) for (auto& k : a) k.second = -k.second; r = a; break; }
        Poly sq = pmul(a, a); r = patom(atomOf("sqrt(" + pkey(sq) + ")", e, 1, sq)); break; } r = opaqueAtom(e); break;
    case K_CALL: { string key = g_calls[e->aux].name + "("; bool allc = true; vector<u64> cv; for (E a : e->a) { if (a->w == 64 || a->w == 32) { Poly p = toPoly(a, cx); long double c; if (!pisconst(p, c)) allc = false; else cv.push_back(db((double)c)); key += pkey(p) + ","; } else { allc = false; key += "e" + std::to_string(a->id) + ","; } }
      if (allc && g_calls[e->aux].fn && g_calls[e->aux].name.compare(0, 2, "uf")) { double v = bd(g_calls[e->aux].fn(cv)); if (!(fabs(v) <= 1e308)) throw RealFail{"non-finite call value"}; r = pconst(v); break; }
      if (g_calls[e->aux].name == "pow") { Poly ex = toPoly(e->a[1], cx); long double c; if (pisconst(ex, c)) { if (c == 2) { Poly b = toPoly(e->a[0], cx); r = pmul(b, b); break; } if (c == 1) { r = toPoly(e->a[0], cx); break; } if (c == 0.5L) { Poly b = toPoly(e->a[0], cx); r = patom(atomOf("sqrt(" + pkey(b) + ")", e, 1, b)); break; } } }
      r = patom(atomOf(key + ")", e, 0)); break; }
    default: r = opaqueAtom(e); break;
  }
  cx.memo[e->id] = r; return r;
}
static bool realConst(E e, long double& v) { RealCtx cx; try { Poly p = toPoly(e, cx); return pisconst(p, v); } catch (RealFail&) { return false; } }
// sign set (1 negative, 2 zero, 4 positive) of a-b for which the comparison holds; an empty key means a constant difference (0x10: holds)
static bool realCond(E c, string& key, int& mask) {
  bool neg = false; while (c->k == K_XOR && c->w == 1 && is_c(c->a[1]) && (c->a[1]->c & 1)) { neg = !neg; c = c->a[0]; }
  if ((c->k != K_FLT && c->k != K_FLE && c->k != K_FEQ) || c->a[0]->w != 64 || c->a[0]->uninit || c->a[1]->uninit) return false;
  for (int i = 0; i < 2; i++) if (is_c(c->a[i]) && !(fabs(bd(c->a[i]->c)) <= 1.7e308)) return false;
  RealCtx cx; Poly d; try { d = padd(toPoly(c->a[0], cx), toPoly(c->a[1], cx), -1); } catch (RealFail&) { return false; }
  mask = c->k == K_FLT ? 1 : c->k == K_FLE ? 3 : 2; long double k; if (pisconst(d, k)) { bool h = mask & (k < 0 ? 1 : k == 0 ? 2 : 4); key = ""; mask = (h != neg) ? 0x10 : 0; return true; }
  long double lead = d.begin()->second; Poly n; for (auto& t : d) n[t.first] = t.second / lead; key = pkey(n); if (lead < 0) mask = (mask & 1 ? 4 : 0) | (mask & 2); if (neg) mask = 7 & ~mask; return true; }
// multiply both sides by the denominators they contain
static void clearDenominators(Poly& pa, Poly& pb) {
  for (int it = 0; it < 12; it++) { u32 at = 0; int mx = 0, mn = 0; bool plain = false;
    for (Poly* p : {&pa, &pb}) for (auto& k : *p) for (auto& t : k.first) { if (atoms[t.first].kind == 2 && t.second > 0 && (!mx || t.first >= at)) { if (t.first > at || !mx) { at = t.first; mx = 0; } mx = std::max(mx, t.second); } }
    (void)mn; (void)plain; if (!mx) return;
    Poly pw[2]; for (int q = 0; q < 2; q++) { Poly& p = q ? pb : pa; Poly out; std::map<int, Poly> by; for (auto& k : p) { Mono m; int e = 0; for (auto& t : k.first) if (t.first == at) e = t.second; else m.push_back(t); by[mx - e][m] += k.second; }
      Poly f = pconst(1); int cur_ = 0; for (auto& g : by) { while (cur_ < g.first) { f = pmul(f, atoms[at].arg); cur_++; } out = padd(out, pmul(g.second, f)); } pw[q] = out; }
    pa = pw[0]; pb = pw[1]; } }
static std::mt19937_64 g_rng(12345);
// try to find concrete inputs satisfying the path constraints where a and b differ
static bool findDiff(E a, E b, double tol, Model& out) {
  State& s = *cur; vector<u32> vs = vars_of(a); for (u32 v : vars_of(b)) vs.push_back(v); for (E c : s.cons) for (u32 v : vars_of(c)) vs.push_back(v); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  std::uniform_real_distribution<double> U(0, 1);
  for (int t = 0; t < 400; t++) { Model m = s.model;
    for (u32 v : vs) { if (!g_vars[v].isfp) continue; if (t % 4 == 3 && U(g_rng) < 0.5) continue; double base = bd(m[v]); double x = 0; switch (t % 3) { case 0: x = (U(g_rng) * 4 + 0.25); break; case 1: x = (U(g_rng) - 0.5) * 8; break; default: x = std::isfinite(base) ? base + (U(g_rng) - 0.5) * 0.2 * (1 + fabs(base)) : U(g_rng); } m[v] = db(x); }
    // repair against simple bound constraints by falling back to the path model value
    for (int rep = 0; rep < 3; rep++) { Evaluator ev(&m); bool bad = false; for (E c : s.cons) if (!ev.ev(c)) { bad = true; for (u32 v : vars_of(c)) m[v] = s.model.count(v) ? s.model[v] : 0; } if (!bad) break; }
    Evaluator ev(&m); bool ok = true; for (E c : s.cons) if (!ev.ev(c)) { ok = false; break; } if (!ok) continue;
    double x = bd(ev.ev(a)), y = bd(ev.ev(b)); if (x != x || y != y || fabs(x - y) > tol * (1 + fabs(x) + fabs(y))) { out = m; return true; } }
  return false;
}
static void checkReal(E a, E b, double tol, const string& msg) {
  st.realchecks++; RealCtx cx; Poly d; long double scale = 1;
  if (a->uninit || b->uninit) { report("uninit", "result depends on uninitialised memory: " + msg); endPath(); }
  try { Poly pa = toPoly(a, cx), pb = toPoly(b, cx); d = padd(pa, pb, -1); if (!d.empty()) clearDenominators(pa, pb); d = padd(pa, pb, -1); for (auto& k : pa) scale = std::max(scale, fabsl(k.second)); }
  catch (RealFail& rf) { Model m; if (findDiff(a, b, tol, m)) { st.checks++; report("check", msg, &m); endPath(); } st.checks++; noteUnknown("real-mode check not decided (" + rf.why + "): " + msg); return; }
  st.checks++; checkcount[msg]++;
  vector<double> coef; for (auto& k : d) { double c = fabsl(k.second); if (c > 1e-13 * scale) coef.push_back((double)k.second); }
  Res r = S->check_linear(coef, tol * (double)scale);
  if (r == R_UNSAT) { st.discharged++; return; }
  Model m; if (findDiff(a, b, tol, m)) { report("check", msg, &m); endPath(); }
  // the polynomials differ but every candidate agrees numerically: undecided
  if (g_verbose) { string s; int n = 0; for (auto& k : d) { s += " " + std::to_string((double)k.second); for (auto& t : k.first) s += "*" + atoms[t.first].key.substr(0, 200) + "^" + std::to_string(t.second); if (++n > 4) break; } fprintf(stderr, "[real undecided] %s:%s\n", msg.c_str(), s.c_str()); }
  noteUnknown("real-mode normal forms differ without a numeric difference: " + msg);
}
