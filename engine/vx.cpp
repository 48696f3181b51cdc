// vx: a bounded symbolic executor for LLVM IR (C++ compiled by clang), deciding with Z3.
// See /verif/DESIGN.md, section "Engine".
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <map>
#include <set>
#include <unordered_set>
#include <random>
#include <sys/resource.h>
#include <unistd.h>
#include <array>
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- values
struct Val { u64 c = 0; E e = nullptr; shared_ptr<vector<Val>> agg; Val() {} Val(u64 x) : c(x) {} };
static inline Val VE(E e) { Val v; if (is_c(e)) v.c = e->c; else v.e = e; return v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mk_const(v.c, w); }

// ---------------------------------------------------------------- memory
enum AllocKind : uint8_t { AK_GLOBAL, AK_STACK, AK_MALLOC, AK_NEW, AK_NEWARR, AK_CONSTG };
struct Data { vector<uint8_t> b, st; vector<std::pair<E, uint8_t>> sym; };   // st: 0 concrete, 1 symbolic, 2 uninit
struct Obj { u64 size = 0; AllocKind kind = AK_GLOBAL; bool freed = false; bool live = false; shared_ptr<Data> d; const char* what = ""; u32 tid = 0; };
static const u64 SLOTSH = 36, HALF = 1ULL << 35, HEAP0 = 1ULL << 20, STACK0 = 1ULL << 26, FNSLOT = 1ULL << 19;
struct ObjTable {
  static const int CH = 32; typedef std::array<Obj, CH> Chunk;
  vector<shared_ptr<Chunk>> ch; u64 n = 0;
  const Obj* get(u64 i) const { if (i >= n) return nullptr; return &(*ch[i / CH])[i % CH]; }
  Obj* mut(u64 i) { auto& c = ch[i / CH]; if (c.use_count() > 1) c = make_shared<Chunk>(*c); return &(*c)[i % CH]; }
  u64 add(Obj o) { if (n / CH >= ch.size()) ch.push_back(make_shared<Chunk>()); u64 i = n++; *mut(i) = std::move(o); return i; }
  void pop_to(u64 k) { while (n > k) { n--; *mut(n) = Obj(); } while (ch.size() > (n + CH - 1) / CH) ch.pop_back(); }
};

// ---------------------------------------------------------------- translated code
struct Op { bool k; u32 r; Val v; };
struct Ins {
  unsigned opc; int dest; unsigned w; u32 aux = 0; u64 imm = 0; vector<Op> ops; vector<u32> idx; vector<std::pair<u32, u64>> gep;
  const llvm::Instruction* I; llvm::Type* ty; int succ[2] = {-1, -1}; vector<std::pair<u64, int>> cases; int bb; int calleeKind = -1; struct FnInfo* callee = nullptr; string* bname = nullptr;
};
struct Phi { int dest; vector<std::pair<int, Op>> in; };
struct Block { u32 start; vector<Phi> phis; };
struct FnInfo { const llvm::Function* F; string name; bool ready = false; u32 nregs = 0; vector<Ins> code; vector<Block> blocks; int builtin = -1; bool decl = false; string file; int line = 0; bool inrepo = false; bool executed = false; u64 addr = 0; string dem; };

struct Frame { FnInfo* fn; u32 pc = 0; vector<Val> r; u64 stackMark = 0; int retDest = -1; vector<std::pair<u64,u64>> va; /* addr,size of varargs block */ u64 vaAddr = 0; unsigned vaCount = 0; };
struct Observation { string tag; E e; u64 c; bool isd; };
struct InputRec { string name; E e; u64 c; uint8_t w; bool isd; };
struct IvCtx;
struct State {
  shared_ptr<IvCtx> iv;
  vector<shared_ptr<Frame>> fr; ObjTable g, h, s;
  vector<E> cons, ors; std::unordered_map<u32, bool> known; Model model; bool hasModel = true; shared_ptr<Evaluator> ev;
  std::map<string, int> rsign; std::map<string, int> occ; vector<InputRec> inputs; vector<Observation> obs; std::set<string> reach;
  long steps = 0; u32 pickdepth = 0; bool forceEnd = false;
  // parallel region bookkeeping
  int ptid = -1; 
};
struct Violation { string kind, msg, loc; vector<string> stack; vector<std::pair<string, string>> inputs; };

// ---------------------------------------------------------------- options / globals
static llvm::LLVMContext LCtx; static std::unique_ptr<llvm::Module> M; static const llvm::DataLayout* DL;
static Solver* S;
static string g_entry, g_out, g_repo = "/repo"; static double g_tmax = 600; static long g_maxsteps = 60000000; static int g_part = 0, g_nparts = 1; static bool g_verbose = false; static int g_maxviol = 6; static int g_maxwit = 12; static long g_maxpaths = 1000000000;
static bool g_realBranch = false; static std::map<string, i64> g_opt;     // vx_option
static std::unordered_map<const llvm::Function*, FnInfo*> fninfo; static vector<FnInfo*> fnByIdx; 
static std::unordered_map<const llvm::GlobalVariable*, u64> gaddr;
struct Stats { long paths = 0, instr = 0, forks = 0, checks = 0, discharged = 0, unknown = 0, pruned = 0, realchecks = 0, maxdepth = 0, timeouts = 0, checksites = 0, interval = 0, quick = 0, over = 0; } st;
static vector<Violation> viols; static std::set<string> violkeys; static std::map<string, long> reachcount; static vector<string> unknowns; static vector<string> witnesses; static std::set<string> checkmsgs; static std::map<string,long> checkcount; static std::set<string> unmodelled;
static vector<State*> work;
static State* cur; static bool g_stop = false;
struct PathEnd { };   // thrown to end current path
struct Refork { };    // re-execute the current instruction

static FnInfo* infoOf(const llvm::Function* F);
static string locOf(const llvm::Instruction* I) { if (!I) return "?"; if (auto& dl = I->getDebugLoc()) { auto* sc = llvm::cast<llvm::DIScope>(dl.getScope()); return (sc->getFilename() + ":" + llvm::Twine(dl.getLine())).str(); } return "?"; }
static Ins* curIns() { Frame& f = *cur->fr.back(); return &f.fn->code[f.pc]; }
static string curLoc() { // innermost location; prefer a frame within the repository
  for (int i = (int)cur->fr.size() - 1; i >= 0; i--) { Frame& f = *cur->fr[i]; if (f.fn->inrepo && f.pc < f.fn->code.size()) return locOf(f.fn->code[f.pc].I); }
  if (!cur->fr.empty()) return locOf(curIns()->I); return "?"; }
static string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static string jesc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// ---------------------------------------------------------------- constraints / decisions
static Evaluator& evalr(State& s) { if (!s.ev || s.ev.use_count() > 1 || s.ev->m != &s.model) { auto n = make_shared<Evaluator>(&s.model); if (s.ev) n->memo = s.ev->memo; n->m = &s.model; s.ev = n; } return *s.ev; }
static void setModel(State& s, const Model& m, const vector<u32>* only = nullptr) { for (auto& kv : m) s.model[kv.first] = kv.second; s.ev.reset(); }
struct QKey { vector<u32> k; bool operator==(const QKey& o) const { return k == o.k; } };
struct QHash { size_t operator()(const QKey& q) const { u64 h = 1469598103934665603ULL; for (u32 x : q.k) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<QKey, std::pair<Res, Model>, QHash> qcache; static long qhits = 0;
// constraints relevant to c (shared variables, transitively)
static vector<E> slice(const vector<E>& cons, E c) {
  std::unordered_set<u32> vs; for (u32 v : vars_of(c)) vs.insert(v);
  vector<char> in(cons.size(), 0); bool ch = true; 
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!in[i]) { bool hit = false; for (u32 v : vars_of(cons[i])) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; for (u32 v : vars_of(cons[i])) vs.insert(v); } } }
  vector<E> r; for (size_t i = 0; i < cons.size(); i++) if (in[i]) r.push_back(cons[i]); return r;
}
static bool hasUF(E e) { static std::unordered_map<u32, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second; bool r = e->k == K_CALL && !g_calls[e->aux].name.compare(0, 2, "uf"); for (E x : e->a) r = r || hasUF(x); memo[e->id] = r; return r; }
static std::pair<double, double> varRange(u32 v);
// cheap search for a satisfying assignment among special values before asking the solver
static bool quickModel(State& s, const vector<E>& q, E c, Model& out) {
  static const double sv[] = {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, NAN, INFINITY, -INFINITY, 1e-310, 1e-200, 1e200, -1e200, 1e-20, 1e20, 1.7e308, 10, 1000, -10, 3.5};
  vector<u32> vs; for (u32 v : vars_of(c)) if (g_vars[v].isfp) vs.push_back(v); if (vs.empty()) return false; Model base; std::unordered_set<u32> all; for (E e : q) for (u32 v : vars_of(e)) all.insert(v); for (u32 v : all) { auto it = s.model.find(v); base[v] = it == s.model.end() ? 0 : it->second; }
  static u64 rs = 88172645463325252ULL; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  int n = sizeof sv / sizeof *sv; int tries = 0, lim = vs.size() == 1 ? n : 60; size_t budget = 0; for (E e : q) budget += vars_of(e).size(); if (budget > 400) lim = 12;
  for (; tries < lim; tries++) { Model m = base; if (vs.size() == 1) m[vs[0]] = db(sv[tries]); else { u32 v = vs[rnd() % vs.size()]; m[v] = db(sv[rnd() % n]); if (tries & 1) m[vs[rnd() % vs.size()]] = tries & 2 ? m[v] : db(sv[rnd() % n]); }
    Evaluator ev(&m); if (!ev.ev(c)) continue; bool ok = true; for (E e : q) if (!ev.ev(e)) { ok = false; break; } if (ok) { out = m; return true; } }
  if (hasUF(c)) { // arbitrary functions have fixed values at given arguments natively: sample the arguments inside their ranges
    double t0 = now(); vector<std::pair<double, double>> rg; for (u32 v : vs) { auto r = varRange(v); rg.push_back({std::max(r.first, -1e6), std::min(r.second, 1e6)}); }
    for (int t = 0; t < 3000 && now() - t0 < 0.3; t++) { Model m = base; for (size_t i = 0; i < vs.size(); i++) if (t % 3 == 0 || (rnd() & 1)) { double u = (rnd() >> 11) * 0x1p-53; m[vs[i]] = db(rg[i].first + u * (rg[i].second - rg[i].first)); }
      Evaluator ev(&m); if (!ev.ev(c)) continue; bool ok = true; for (size_t k = q.size(); k-- > 0;) if (!ev.ev(q[k])) { ok = false; break; } if (ok) { out = m; return true; } } }
  return false; }
static Res query(State& s, E c, Model* out) {
  if (is_c(c)) return c->c ? R_SAT : R_UNSAT;
  vector<E> q = slice(s.cons, c); q.push_back(c);
  QKey key; for (E e : q) key.k.push_back(e->id); std::sort(key.k.begin(), key.k.end());
  auto it = qcache.find(key); if (it != qcache.end()) { qhits++; if (out) *out = it->second.second; return it->second.first; }
  Model m; if (c->hasfp && quickModel(s, q, c, m)) { st.quick++; qcache[key] = {R_SAT, m}; if (out) *out = m; return R_SAT; }
  Res r = S->check(q, &m); qcache[key] = {r, m}; if (out) *out = m; return r;
}
#include "vx_iv.inc"
static IvCtx* ivOf() { State& s = *cur; if (!s.iv) s.iv = make_shared<IvCtx>(); else if (s.iv.use_count() > 1) s.iv = make_shared<IvCtx>(*s.iv); return s.iv.get(); }
static std::unordered_map<u32, E> g_varE;
static std::pair<double, double> varRange(u32 v) { auto it = cur->iv ? cur->iv->rng.find(g_varE.count(v) ? g_varE[v]->id : 0) : decltype(cur->iv->rng.end()){}; if (!cur->iv || it == cur->iv->rng.end()) return {-100, 100}; return {it->second.lo, it->second.hi}; }
static void noteUnknown(const string& what) { st.unknown++; if (unknowns.size() < 20) unknowns.push_back(what + " at " + curLoc()); }
static void unitProp(State& s, E c) {   // disjunctions whose other side is decided false narrow their remaining side
  bool neg = c->w == 1 && c->k == K_XOR && is_c(c->a[1]); E b = neg ? c->a[0] : c; if (b->w == 1 && b->k == (neg ? K_AND : K_OR)) s.ors.push_back(c);
  for (size_t i = 0; i < s.ors.size(); i++) { E o = s.ors[i]; bool n = o->k == K_XOR; E q = n ? o->a[0] : o; int x = triState(q->a[0]), y = triState(q->a[1]); int dead = n ? 1 : 0; if (x < 0 && y < 0) continue; if (x == dead && y < 0) narrow(q->a[1], !n); else if (y == dead && x < 0) narrow(q->a[0], !n); s.ors.erase(s.ors.begin() + i--); } }
static void addCons(State& s, E c) { if (is_c(c)) return; auto it = s.known.find(c->id); if (it != s.known.end() && it->second) return; { State* sv = cur; cur = &s; narrow(c, true); unitProp(s, c); cur = sv; } s.cons.push_back(c); s.known[c->id] = true; E n = mk_not(c); s.known[n->id] = false;
  if (c->k == K_AND && c->w == 1) { addCons(s, c->a[0]); addCons(s, c->a[1]); } }
static void setKnown(State& s, E c, bool v) { if (is_c(c)) return; s.known[c->id] = v; s.known[mk_not(c)->id] = !v; }
static int lookup(State& s, E c) {
  if (is_c(c)) return c->c; auto it = s.known.find(c->id); if (it != s.known.end()) return it->second;
  if (c->w == 1 && (c->k == K_AND || c->k == K_OR)) { int a = lookup(s, c->a[0]), b = lookup(s, c->a[1]); if (c->k == K_AND) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; } else { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; } }
  return -1; }

static void report(const string& kind, const string& msg, const Model* m = nullptr);
static void endPath() { throw PathEnd(); }
static bool decide(E c, const char* what = "branch");
static bool realConst(E e, long double& v);
static bool realCond(E c, string& key, int& mask);   // exact-real reading of a comparison: sign set of a normal form
// selects between an uninitialised and an initialised value are resolved on the path, so that only real uses are reported
static void knownBits(E e, u64& kn, u64& v, int depth = 0) { u64 m = e->w >= 64 ? ~0ull : (1ull << e->w) - 1; kn = v = 0; if (is_c(e)) { kn = m; v = e->c & m; return; } if (depth > 200) return; u64 k1 = 0, v1 = 0, k2 = 0, v2 = 0;
  switch (e->k) {
    case K_AND: kn = m; v = m; for (E x : e->a) { knownBits(x, k1, v1, depth + 1); u64 z = (kn & ~v) | (k1 & ~v1); u64 o = kn & v & k1 & v1; kn = z | o; v = o; } kn &= m; v &= m; break;
    case K_OR: kn = m; v = 0; for (E x : e->a) { knownBits(x, k1, v1, depth + 1); u64 o = (kn & v) | (k1 & v1); u64 z = kn & ~v & k1 & ~v1; kn = z | o; v = o; } kn &= m; v &= m; break;
    case K_XOR: kn = m; v = 0; for (E x : e->a) { knownBits(x, k1, v1, depth + 1); kn &= k1; v ^= v1; } v &= kn; break;
    case K_SHL: if (is_c(e->a[1]) && e->a[1]->c < e->w) { knownBits(e->a[0], k1, v1, depth + 1); u64 s = e->a[1]->c; kn = ((k1 << s) | ((1ull << s) - 1)) & m; v = (v1 << s) & m; } break;
    case K_LSHR: if (is_c(e->a[1]) && e->a[1]->c < e->w) { knownBits(e->a[0], k1, v1, depth + 1); u64 s = e->a[1]->c; kn = (k1 >> s) | (m & ~(m >> s)); v = v1 >> s; } break;
    case K_ZEXT: { knownBits(e->a[0], k1, v1, depth + 1); u64 im = e->a[0]->w >= 64 ? ~0ull : (1ull << e->a[0]->w) - 1; kn = (k1 & im) | (m & ~im); v = v1 & im; break; }
    case K_EXTRACT: knownBits(e->a[0], k1, v1, depth + 1); kn = (k1 >> e->aux) & m; v = (v1 >> e->aux) & m; break;
    case K_CONCAT: { knownBits(e->a[0], k1, v1, depth + 1); knownBits(e->a[1], k2, v2, depth + 1); unsigned s = e->a[1]->w; kn = (k1 << s | k2) & m; v = (v1 << s | v2) & m; break; }
    case K_EQ: { knownBits(e->a[0], k1, v1, depth + 1); knownBits(e->a[1], k2, v2, depth + 1); u64 im = e->a[0]->w >= 64 ? ~0ull : (1ull << e->a[0]->w) - 1; if ((k1 & k2) & (v1 ^ v2)) { kn = 1; v = 0; } else if ((k1 & k2 & im) == im) { kn = 1; v = 1; } break; }
    case K_ITE: knownBits(e->a[1], k1, v1, depth + 1); knownBits(e->a[2], k2, v2, depth + 1); kn = k1 & k2 & ~(v1 ^ v2); v = v1 & kn; break;
    default: break; } }
static E clearU(E e) { if (!e->uninit || e->k == K_UNINIT) return e;
  { u64 kn, v, m = e->w >= 64 ? ~0ull : (1ull << e->w) - 1; knownBits(e, kn, v); if ((kn & m) == m) return mk_const(v & m, e->w); }
  if (e->k == K_ITE && !e->a[0]->uninit) return clearU(decide(e->a[0], "select") ? e->a[1] : e->a[2]);
  if (e->w == 1 && (e->k == K_AND || e->k == K_OR) && e->a.size() == 2) for (int i = 0; i < 2; i++) if (!e->a[i]->uninit) { bool v = decide(e->a[i], "select"); if (v == (e->k == K_OR)) return mk_const(v, 1); return clearU(e->a[1 - i]); }
  vector<E> n; bool ch = false; for (E x : e->a) { E y = clearU(x); ch |= y != x; n.push_back(y); } return ch ? mk_rebuild(e->k, e->w, e->aux, n) : e; }
static bool decide(E c, const char* what) {
  if (is_c(c)) return c->c;
  State& s = *cur;
  if (c->uninit) { c = clearU(c); if (is_c(c)) return c->c; }
  if (c->uninit) { if (getenv("VX_EDEPTH")) fprintf(stderr, "[uninit] %s\n", estr(c).c_str()); report("uninit", string("use of uninitialised value in ") + what); endPath(); }
  int k = lookup(s, c); if (k >= 0) return k;
  if (g_realBranch) { bool ng = false; E q = c; while (q->k == K_XOR && q->w == 1 && is_c(q->a[1]) && (q->a[1]->c & 1)) { ng = !ng; q = q->a[0]; }   // conjuncts one by one, so that each sign set is used
    if (q->w == 1 && (q->k == K_AND || q->k == K_OR) && q->a.size() == 2) { bool r = decide(q->a[0], what); if (r != (q->k == K_OR)) r = decide(q->a[1], what); setKnown(*cur, c, r != ng); return r != ng; } }
  string rk; int rm = 0; bool real = g_realBranch && realCond(c, rk, rm);
  k = triState(c); if (k >= 0) { if (real && getenv("VX_RDBG")) fprintf(stderr, "[rb] tri=%d %s key=%s mask=%d\n", k, estr(c, 4).substr(0,200).c_str(), rk.c_str(), rm); st.interval++; setKnown(s, c, k); if (real) { auto& al = s.rsign.emplace(rk, 7).first->second; if (al & (k ? rm : 7 & ~rm)) al &= k ? rm : 7 & ~rm; } return k; }
  if (real) { int al = s.rsign.emplace(rk, 7).first->second; bool f = !(al & rm), t = !(al & ~rm & 7); if (rk.empty()) { f = !(rm & 0x10); t = !f; } if (getenv("VX_RDBG")) fprintf(stderr, "[rb] %s key=%s mask=%d al=%d\n", estr(c, 4).substr(0,200).c_str(), rk.c_str(), rm, al); if (f || t) { st.interval++; if (s.hasModel && evalr(s).ev(c) == (u64)t) addCons(s, t ? c : mk_not(c)); setKnown(s, c, t); return t; } }
  bool side = true; Model om; 
  if (s.hasModel) side = evalr(s).ev(c);
  else { Model m; Res r = query(s, c, &m); if (r == R_SAT) { setModel(s, m); s.hasModel = true; side = evalr(s).ev(c); if (!side) { s.hasModel = false; side = true; } } else if (r == R_UNSAT) { setKnown(s, c, false); return false; } }
  E other = side ? mk_not(c) : c;
  unsigned su = S->uf_timeout, sf = S->fpa_timeout; S->uf_timeout = std::min(su, 3000u); S->fpa_timeout = std::min(sf, 4000u);
  Res r = query(s, other, &om); S->uf_timeout = su; S->fpa_timeout = sf;
  if (r == R_UNSAT) { setKnown(s, c, side); if (real) s.rsign[rk] &= side ? rm : 7 & ~rm; return side; }
  if (r == R_UNK) { st.over++; (void)what; }   // explored anyway: an over-approximation
  // fork
  if (s.forceEnd) { }
  State* n = new State(s); n->ev.reset(); st.forks++;
  if (real) { n->rsign[rk] &= side ? 7 & ~rm : rm; s.rsign[rk] &= side ? rm : 7 & ~rm; }
  addCons(*n, other); setKnown(*n, c, !side); if (r == R_SAT) setModel(*n, om); else n->hasModel = false;
  work.push_back(n);
  addCons(s, side ? c : mk_not(c)); setKnown(s, c, side);
  return side;
}
static u64 concretize(const Val& v, unsigned w, const char* what) {
  if (!v.e) return v.c & maskw(w);
  if (v.e->uninit) { E e = clearU(v.e); if (!e->uninit) return concretize(is_c(e) ? Val(e->c) : VE(e), w, what); report("uninit", string("use of uninitialised value as ") + what); endPath(); }
  for (int i = 0; i < 4096; i++) { State& s = *cur; if (!s.hasModel) { Model m; Res r = query(s, mk_const(1, 1), &m); (void)r; }
    u64 x = evalr(s).ev(v.e) & maskw(w);
    // if some equality is already known use it
    if (decide(mk_eq(v.e, mk_const(x, w)), what)) return x; }
  noteUnknown("concretisation limit"); endPath(); return 0;
}
// ---------------------------------------------------------------- violations
static string inputVal(const InputRec& r, Evaluator& ev) { u64 v = r.e ? ev.ev(r.e) : r.c; return hexs(v & maskw(r.w)); }
static void report(const string& kind, const string& msg, const Model* m) {
  State& s = *cur; Violation v; v.kind = kind; v.msg = msg; v.loc = curLoc();
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) { Frame& f = *s.fr[i]; string l = f.pc < f.fn->code.size() ? locOf(f.fn->code[f.pc].I) : "?"; v.stack.push_back(f.fn->dem.substr(0, 120) + " @ " + l); if (v.stack.size() > 14) break; }
  string key = kind + "|" + msg + "|" + v.loc; 
  int samekey = 0; for (auto& o : viols) if (o.kind + "|" + o.msg + "|" + o.loc == key) samekey++;
  if (samekey >= 3) return;
  Model mm = s.model; if (m) for (auto& kv : *m) mm[kv.first] = kv.second;
  if (!s.hasModel && !m) { Model q; E t = nullptr; (void)t; vector<E> cs = s.cons; Res r = S->check(cs, &q); if (r == R_UNSAT) return; if (r == R_UNK) { noteUnknown("possible " + kind + " on a path of unknown feasibility: " + msg); return; } mm = q; }
  Evaluator ev(&mm); for (auto& in : s.inputs) v.inputs.push_back({in.name, inputVal(in, ev)});
  viols.push_back(v); violkeys.insert(key);
  if (g_verbose) { fprintf(stderr, "[violation] %s: %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str()); for (auto& x : v.stack) fprintf(stderr, "    %s\n", x.c_str()); for (auto& p : v.inputs) fprintf(stderr, "      %s=%s\n", p.first.c_str(), p.second.c_str()); }
  if ((int)viols.size() >= g_maxviol * 3 || (int)violkeys.size() >= g_maxviol) g_stop = true;
}
static void memfault(const string& msg) { report("memory", msg); endPath(); }

// ---------------------------------------------------------------- memory access
static inline u64 baseOf(u64 slot) { return (slot << SLOTSH) + HALF; }
static ObjTable* tableOf(State& s, u64 slot, u64& idx) { if (slot >= STACK0) { idx = slot - STACK0; return &s.s; } if (slot >= HEAP0) { idx = slot - HEAP0; return &s.h; } idx = slot; return &s.g; }
static const Obj* objAt(u64 addr, u64& off, u64* slotOut = nullptr) { u64 slot = addr >> SLOTSH, i; ObjTable* t = tableOf(*cur, slot, i); const Obj* o = t->get(i); if (slotOut) *slotOut = slot; off = addr - baseOf(slot); return o && o->live ? o : nullptr; }
static Obj* objMut(u64 slot) { u64 i; ObjTable* t = tableOf(*cur, slot, i); return t->mut(i); }
static Data& dataMut(u64 slot) { Obj* o = objMut(slot); if (o->d.use_count() > 1) o->d = make_shared<Data>(*o->d); return *o->d; }
static shared_ptr<Data> newData(u64 size, int st) { auto d = make_shared<Data>(); d->b.assign(size, 0); d->st.assign(size, st); return d; }
static u64 allocObj(AllocKind k, u64 size, int init, const char* what) {
  State& s = *cur; Obj o; o.size = size; o.kind = k; o.live = true; o.d = newData(size, init); o.what = what; o.tid = s.ptid + 1;
  if (k == AK_STACK) return baseOf(STACK0 + s.s.add(o)); if (k == AK_GLOBAL || k == AK_CONSTG) return baseOf(s.g.add(o)); return baseOf(HEAP0 + s.h.add(o));
}
// race detection (OpenMP regions)
struct RaceLog { bool on = false; int iter = 0; std::unordered_map<u64, std::pair<int,int>> rd; std::unordered_map<u64, int> wr; u64 stackMark = 0; u64 heapMark = 0; int atomicDepth = 0; long accesses = 0; };
static RaceLog* g_race = nullptr; static void raceAccess(u64 a, u64 n, bool write);

static const Obj* access(u64 addr, u64 n, bool write, u64& off, u64& slot) {
  const Obj* o = objAt(addr, off, &slot);
  if (!o) { if (addr < (1ULL << SLOTSH)) memfault(string(write ? "write" : "read") + " through null/invalid pointer"); if (slot == FNSLOT) memfault("access to function address"); memfault(string(write ? "write" : "read") + " outside any live object"); }
  if (o->freed) memfault(string(write ? "write to" : "read of") + " freed memory");
  if (off > o->size || n > o->size - off) { char b[160]; snprintf(b, 160, "out-of-bounds %s (%s object)", write ? "write" : "read", o->what); memfault(b); }
  if (write && o->kind == AK_CONSTG) memfault("write to constant object");
  if (g_race) raceAccess(addr, n, write);
  return o;
}
static Val loadBytes(const Data& d, u64 off, unsigned n) { // n<=8
  unsigned allc = 1; for (unsigned i = 0; i < n; i++) if (d.st[off + i]) { allc = 0; break; }
  if (allc) { u64 v = 0; memcpy(&v, &d.b[off], n); return Val(v); }
  // whole expression?
  bool same = d.st[off] == 1 && d.sym[off].second == 0 && d.sym[off].first->w == n * 8; E e0 = same ? d.sym[off].first : nullptr;
  if (same) for (unsigned i = 1; i < n; i++) if (d.st[off + i] != 1 || d.sym[off + i].first != e0 || d.sym[off + i].second != i) { same = false; break; }
  if (same) return VE(e0);
  E r = nullptr;
  bool allun = true; for (unsigned i = 0; i < n; i++) if (d.st[off + i] != 2) allun = false; if (allun) return VE(mk_uninit(n * 8));
  for (unsigned i = 0; i < n; i++) { E x; u64 o = off + i; if (d.st[o] == 0) x = mk_const(d.b[o], 8); else if (d.st[o] == 2) x = mk_uninit(8); else { E y = d.sym[o].first; unsigned lo = d.sym[o].second * 8; unsigned w = std::min<unsigned>(8, y->w - lo); x = mk_extract(y, lo, w); if (w < 8) x = mk_zext(x, 8); } r = r ? mk_concat(x, r) : x; }
  return VE(r);
}
static void storeBytes(Data& d, u64 off, unsigned n, const Val& v) {
  if (!v.e) { u64 x = v.c; memcpy(&d.b[off], &x, n); memset(&d.st[off], 0, n); return; }
  if (v.e->k == K_UNINIT) { memset(&d.st[off], 2, n); return; }
  if (d.sym.empty()) d.sym.resize(d.b.size());
  E e = v.e; if (e->w < n * 8) e = mk_zext(e, n * 8); if (is_c(e)) { storeBytes(d, off, n, Val(e->c)); return; }
  if (e->k == K_CONCAT && e->uninit) { for (unsigned i = 0; i < n; i++) storeBytes(d, off + i, 1, VE(mk_extract(e, i * 8, 8))); return; }
  for (unsigned i = 0; i < n; i++) { d.st[off + i] = 1; d.sym[off + i] = {e, (uint8_t)i}; }
}
// is expression provably a multiple of n (power of two)?
static bool multOf(E e, u64 n) { if (n == 1) return true; if (is_c(e)) return e->c % n == 0; switch (e->k) { case K_ADD: case K_SUB: return multOf(e->a[0], n) && multOf(e->a[1], n); case K_MUL: return multOf(e->a[0], n) || multOf(e->a[1], n); case K_SHL: return is_c(e->a[1]) && (1ULL << e->a[1]->c) % n == 0; case K_ITE: return multOf(e->a[1], n) && multOf(e->a[2], n); default: return false; } }
// resolve a possibly symbolic address to (slot, list of candidate offsets with conditions); returns concrete address when unique
static bool resolveSym(const Val& a, u64 n, bool write, u64& slot, E& offE) {
  E e = a.e; if (e->uninit) { report("uninit", "uninitialised value used as address"); endPath(); }
  State& s = *cur; u64 ca = evalr(s).ev(e); u64 off; const Obj* o = objAt(ca, off, &slot);
  if (!o || o->freed || off > o->size || n > o->size - off) { // concrete model address is bad: is this path's model valid?
    if (s.hasModel) access(ca, n, write, off, slot); noteUnknown("symbolic address on path without model"); endPath(); }
  u64 b = baseOf(slot); offE = mk_bin(K_SUB, e, mk_const(b, 64));
  E inb = mk_bin(K_ULE, offE, mk_const(o->size - n, 64));
  if (!decide(inb, "address")) { // re-resolve under other model
    return resolveSym(a, n, write, slot, offE); }
  return true;
}
static Val loadMem(const Val& a, unsigned n) {
  u64 off, slot;
  if (!a.e) { const Obj* o = access(a.c, n, false, off, slot); return loadBytes(*o->d, off, n); }
  E offE; resolveSym(a, n, false, slot, offE); const Obj* o = objAt(baseOf(slot), off);
  u64 cnt = o->size / n; u64 rem = 0; E idx = offE; if (!multOf(offE, n) || cnt > 512 || n > 8) { u64 c = concretize(a, 64, "address"); o = access(c, n, false, off, slot); return loadBytes(*o->d, off, n); }
  (void)rem; (void)idx;
  if (g_race) for (u64 i = 0; i < cnt; i++) raceAccess(baseOf(slot) + i * n, n, false);
  E r = nullptr; for (u64 i = cnt; i-- > 0;) { E c = mk_eq(offE, mk_const(i * n, 64)); int k = lookup(*cur, c); if (k == 0 || (is_c(c) && !c->c)) continue; E v = toE(loadBytes(*o->d, i * n, n), n * 8); r = r ? mk_ite(c, v, r) : v; if (k == 1) { r = v; break; } }
  if (!r) { endPath(); } return VE(r);
}
static void storeMem(const Val& a, unsigned n, const Val& v) {
  u64 off, slot;
  if (!a.e) { access(a.c, n, true, off, slot); storeBytes(dataMut(slot), off, n, v); return; }
  E offE; resolveSym(a, n, true, slot, offE); const Obj* o = objAt(baseOf(slot), off); if (o->kind == AK_CONSTG) memfault("write to constant object");
  u64 cnt = o->size / n; if (!multOf(offE, n) || cnt > 256) { u64 c = concretize(a, 64, "address"); access(c, n, true, off, slot); storeBytes(dataMut(slot), off, n, v); return; }
  if (g_race) for (u64 i = 0; i < cnt; i++) raceAccess(baseOf(slot) + i * n, n, true);
  Data& d = dataMut(slot); E ve = toE(v, n * 8); if (ve->w < n * 8) ve = mk_zext(ve, n * 8);
  for (u64 i = 0; i < cnt; i++) { E c = mk_eq(offE, mk_const(i * n, 64)); if (is_c(c) && !c->c) continue; E old = toE(loadBytes(d, i * n, n), n * 8); storeBytes(d, i * n, n, VE(mk_ite(c, ve, old))); }
}
static void copyMem(u64 dst, u64 src, u64 n) {
  if (!n) return; u64 so, ss, dо, ds; const Obj* o = access(src, n, false, so, ss); shared_ptr<Data> sd = o->d; access(dst, n, true, dо, ds); Data& d = dataMut(ds);
  memmove(&d.b[dо], &sd->b[so], n); bool anysym = false; for (u64 i = 0; i < n; i++) if (sd->st[so + i] == 1) { anysym = true; break; }
  if (anysym) { if (d.sym.empty()) d.sym.resize(d.b.size()); vector<std::pair<E, uint8_t>> tmp(sd->sym.begin() + so, sd->sym.begin() + so + n); std::copy(tmp.begin(), tmp.end(), d.sym.begin() + dо); }
  memmove(&d.st[dо], &sd->st[so], n);
}
static void setMem(u64 dst, const Val& v, u64 n) { if (!n) return; u64 off, slot; access(dst, n, true, off, slot); Data& d = dataMut(slot); if (!v.e) { memset(&d.b[off], (int)v.c & 255, n); memset(&d.st[off], 0, n); } else for (u64 i = 0; i < n; i++) storeBytes(d, off + i, 1, v); }
static Val byteAt(u64 a) { return loadMem(Val(a), 1); }
static u64 doMalloc(AllocKind k, const Val& sz, bool zero, const char* what) {
  u64 n = concretize(sz, 64, "allocation size"); if (n > (1ULL << 31)) { report("alloc", "unreasonable allocation size"); endPath(); } return allocObj(k, n, zero ? 0 : 2, what); }
static void doFree(const Val& p, AllocKind k, const char* fn) {
  u64 a = concretize(p, 64, "pointer to free"); if (!a) return; u64 off, slot; const Obj* o = objAt(a, off, &slot);
  if (!o || slot < HEAP0 || slot >= STACK0) memfault(string(fn) + " of a pointer that is not heap memory"); if (o->freed) memfault(string("double ") + fn); if (off != 0) memfault(string(fn) + " of an interior pointer");
  if (o->kind != k) memfault(string("mismatched deallocation: ") + fn + " of memory from " + o->what);
  Obj* m = objMut(slot); m->freed = true; m->d = nullptr;
}
static string cstr(const Val& p, const char* what = "string", bool conc = true) { u64 a = concretize(p, 64, what); string r; for (;; a++) { Val b = byteAt(a); u64 c = concretize(b, 8, what); if (!c) return r; r += (char)c; if (r.size() > 100000) return r; } }

// ---------------------------------------------------------------- translation of IR
static unsigned widthOf(llvm::Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy() || t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static Val constVal(const llvm::Constant* C);
static Val uninitOf(llvm::Type* t) { if (auto* stt = llvm::dyn_cast<llvm::StructType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); for (auto* e : stt->elements()) v.agg->push_back(uninitOf(e)); return v; } if (auto* at = llvm::dyn_cast<llvm::ArrayType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(uninitOf(at->getElementType())); return v; } unsigned w = widthOf(t); if (!w || w > 64) return Val(0); return VE(mk_uninit(w)); }
static u64 fnAddr(const llvm::Function* F) { FnInfo* fi = infoOf(F); return fi->addr; }
static u64 globalAddr(const llvm::GlobalValue* G) {
  if (auto* F = llvm::dyn_cast<llvm::Function>(G)) return fnAddr(F);
  if (auto* A = llvm::dyn_cast<llvm::GlobalAlias>(G)) { Val v = constVal(A->getAliasee()); return v.c; }
  auto it = gaddr.find(llvm::cast<llvm::GlobalVariable>(G)); if (it == gaddr.end()) { fprintf(stderr, "no global\n"); exit(3); } return it->second; }
static Val constVal(const llvm::Constant* C) {
  if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(C)) { if (ci->getBitWidth() > 64) { return Val(ci->getValue().getLimitedValue()); } return Val(ci->getZExtValue()); }
  if (auto* cf = llvm::dyn_cast<llvm::ConstantFP>(C)) { if (C->getType()->isDoubleTy() || C->getType()->isFloatTy()) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()); bool li; auto f = cf->getValueAPF(); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); return Val(f.bitcastToAPInt().getZExtValue()); }
  if (llvm::isa<llvm::ConstantPointerNull>(C)) return Val(0);
  if (llvm::isa<llvm::UndefValue>(C)) return uninitOf(C->getType());
  if (auto* gv = llvm::dyn_cast<llvm::GlobalValue>(C)) return Val(globalAddr(gv));
  if (auto* ce = llvm::dyn_cast<llvm::ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case llvm::Instruction::GetElementPtr: { llvm::APInt off(64, 0); llvm::cast<llvm::GEPOperator>(ce)->accumulateConstantOffset(*DL, off); Val b = constVal(ce->getOperand(0)); return Val(b.c + off.getZExtValue()); }
      case llvm::Instruction::BitCast: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case llvm::Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); return Val(b.c & maskw(widthOf(ce->getType()))); }
      case llvm::Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
      case llvm::Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
      default: fprintf(stderr, "constexpr opcode %u\n", ce->getOpcode()); exit(3); } }
  if (llvm::isa<llvm::ConstantAggregate>(C) || llvm::isa<llvm::ConstantAggregateZero>(C) || llvm::isa<llvm::ConstantDataSequential>(C)) {
    Val v; v.agg = make_shared<vector<Val>>(); for (unsigned i = 0;; i++) { llvm::Constant* el = C->getAggregateElement(i); if (!el) break; v.agg->push_back(constVal(el)); } return v; }
  return Val(0);
}
static void initGlobalBytes(Data& d, u64 off, const llvm::Constant* C) {
  llvm::Type* t = C->getType();
  if (llvm::isa<llvm::ConstantAggregateZero>(C)) { u64 n = DL->getTypeAllocSize(t); memset(&d.st[off], 0, n); return; }
  if (llvm::isa<llvm::UndefValue>(C)) return;
  if (auto* ds = llvm::dyn_cast<llvm::ConstantDataSequential>(C)) { auto raw = ds->getRawDataValues(); memcpy(&d.b[off], raw.data(), raw.size()); memset(&d.st[off], 0, raw.size()); return; }
  if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobalBytes(d, off + i * es, ca->getOperand(i)); return; }
  if (auto* cs = llvm::dyn_cast<llvm::ConstantStruct>(C)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalBytes(d, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  Val v = constVal(C); unsigned n = DL->getTypeStoreSize(t); if (n > 8) { if (t->isX86_FP80Ty()) { memset(&d.st[off], 0, n); return; } memset(&d.st[off], 0, n); return; } storeBytes(d, off, n, v);
}
static int builtinOf(const string& name);
static string demangle(const string& n) { return llvm::demangle(n); }
static FnInfo* infoOf(const llvm::Function* F) {
  auto it = fninfo.find(F); if (it != fninfo.end()) return it->second;
  auto* fi = new FnInfo; fi->F = F; fi->name = F->getName().str(); fi->decl = F->isDeclaration(); fi->dem = demangle(fi->name); fi->addr = baseOf(FNSLOT) + fnByIdx.size() * 16; fnByIdx.push_back(fi);
  if (auto* sp = F->getSubprogram()) { fi->file = sp->getFile() ? (sp->getFile()->getFilename().str()) : ""; if (!fi->file.empty() && fi->file[0] != '/' && sp->getFile()) fi->file = sp->getFile()->getDirectory().str() + "/" + fi->file; fi->line = sp->getLine(); fi->inrepo = fi->file.rfind(g_repo + "/", 0) == 0; }
  fninfo[F] = fi; return fi;
}
static void translate(FnInfo* fi) {
  const llvm::Function* F = fi->F; fi->ready = true; std::unordered_map<const llvm::Value*, u32> reg; u32 nr = 0; for (auto& a : F->args()) reg[&a] = nr++;
  std::unordered_map<const llvm::BasicBlock*, int> bbi; int nb = 0; for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = nr++; }
  fi->nregs = nr; fi->blocks.resize(nb);
  auto op = [&](const llvm::Value* v) { Op o; o.k = false; o.r = 0; if (auto* C = llvm::dyn_cast<llvm::Constant>(v)) { o.k = true; o.v = constVal(C); } else if (llvm::isa<llvm::MetadataAsValue>(v) || llvm::isa<llvm::InlineAsm>(v) || llvm::isa<llvm::BasicBlock>(v)) { o.k = true; } else o.r = reg.at(v); return o; };
  for (auto& B : *F) {
    Block& blk = fi->blocks[bbi[&B]]; blk.start = fi->code.size();
    for (auto& I : B) {
      if (auto* ph = llvm::dyn_cast<llvm::PHINode>(&I)) { Phi p; p.dest = reg[&I]; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) p.in.push_back({bbi[ph->getIncomingBlock(i)], op(ph->getIncomingValue(i))}); blk.phis.push_back(p); continue; }
      if (llvm::isa<llvm::DbgInfoIntrinsic>(I)) continue;
      if (auto* ii = llvm::dyn_cast<llvm::IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == llvm::Intrinsic::lifetime_start || id == llvm::Intrinsic::lifetime_end || id == llvm::Intrinsic::assume || id == llvm::Intrinsic::experimental_noalias_scope_decl) continue; }
      Ins x; x.opc = I.getOpcode(); x.I = &I; x.ty = I.getType(); x.dest = I.getType()->isVoidTy() ? -1 : (int)reg[&I]; x.w = widthOf(I.getType()); x.bb = bbi[&B];
      switch (I.getOpcode()) {
        case llvm::Instruction::Br: { auto* br = llvm::cast<llvm::BranchInst>(&I); x.succ[0] = bbi[br->getSuccessor(0)]; if (br->isConditional()) { x.succ[1] = bbi[br->getSuccessor(1)]; x.ops.push_back(op(br->getCondition())); } break; }
        case llvm::Instruction::Switch: { auto* sw = llvm::cast<llvm::SwitchInst>(&I); x.ops.push_back(op(sw->getCondition())); x.w = widthOf(sw->getCondition()->getType()); x.succ[0] = bbi[sw->getDefaultDest()]; for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
        case llvm::Instruction::GetElementPtr: {
          auto* g = llvm::cast<llvm::GetElementPtrInst>(&I); x.ops.push_back(op(g->getPointerOperand())); u64 off = 0;
          for (auto gi = llvm::gep_type_begin(g), ge = llvm::gep_type_end(g); gi != ge; ++gi) { const llvm::Value* ix = gi.getOperand();
            if (auto* stt = gi.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(llvm::cast<llvm::ConstantInt>(ix)->getZExtValue()); continue; }
            u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(ix)) { off += sz * (u64)ci->getSExtValue(); continue; }
            x.ops.push_back(op(ix)); x.gep.push_back({widthOf(ix->getType()), sz}); }
          x.imm = off; break; }
        case llvm::Instruction::ExtractValue: { auto* ev = llvm::cast<llvm::ExtractValueInst>(&I); x.ops.push_back(op(ev->getAggregateOperand())); for (unsigned i : ev->indices()) x.idx.push_back(i); break; }
        case llvm::Instruction::InsertValue: { auto* iv = llvm::cast<llvm::InsertValueInst>(&I); x.ops.push_back(op(iv->getAggregateOperand())); x.ops.push_back(op(iv->getInsertedValueOperand())); for (unsigned i : iv->indices()) x.idx.push_back(i); break; }
        case llvm::Instruction::Alloca: { auto* al = llvm::cast<llvm::AllocaInst>(&I); x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.ops.push_back(op(al->getArraySize())); break; }
        case llvm::Instruction::Call: case llvm::Instruction::Invoke: { auto* cb = llvm::cast<llvm::CallBase>(&I); for (auto& a : cb->args()) x.ops.push_back(op(a.get())); x.ops.push_back(op(cb->getCalledOperand()));
          if (auto* cf = cb->getCalledFunction()) { auto* wr = M->getFunction(("__wrap_" + cf->getName()).str()); x.callee = infoOf(wr ? wr : cf); } else if (auto* al = llvm::dyn_cast<llvm::GlobalAlias>(cb->getCalledOperand())) { if (auto* f2 = llvm::dyn_cast<llvm::Function>(al->getAliaseeObject())) x.callee = infoOf(f2); }
          if (auto* iv = llvm::dyn_cast<llvm::InvokeInst>(&I)) x.succ[0] = bbi[iv->getNormalDest()]; break; }
        default: for (auto& o : I.operands()) x.ops.push_back(op(o.get())); break;
      }
      if (I.getOpcode() == llvm::Instruction::Store) x.w = widthOf(I.getOperand(0)->getType());
      if (auto* cm = llvm::dyn_cast<llvm::CmpInst>(&I)) { x.aux = cm->getPredicate(); x.w = widthOf(I.getOperand(0)->getType()); }
      if (llvm::isa<llvm::CastInst>(I)) x.aux = widthOf(I.getOperand(0)->getType());
      if (auto* ob = llvm::dyn_cast<llvm::OverflowingBinaryOperator>(&I)) x.aux = ob->hasNoSignedWrap();
      fi->code.push_back(std::move(x));
    }
  }
}
#include "vx_exec.inc"
