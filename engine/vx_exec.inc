// ---------------------------------------------------------------- execution
static inline Val getv(Frame& f, const Op& o) { return o.k ? o.v : f.r[o.r]; }
static Frame& top() { auto& p = cur->fr.back(); if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
static Val loadTyped(const Val& a, llvm::Type* t);
static Val loadTyped(const Val& a, llvm::Type* t) {
  if (auto* stt = llvm::dyn_cast<llvm::StructType>(t)) { auto* sl = DL->getStructLayout(stt); Val v; v.agg = make_shared<vector<Val>>(); u64 b = concretize(a, 64, "address"); for (unsigned i = 0; i < stt->getNumElements(); i++) v.agg->push_back(loadTyped(Val(b + sl->getElementOffset(i)), stt->getElementType(i))); return v; }
  if (auto* at = llvm::dyn_cast<llvm::ArrayType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); u64 b = concretize(a, 64, "address"); u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadTyped(Val(b + i * es), at->getElementType())); return v; }
  if (auto* vt = llvm::dyn_cast<llvm::FixedVectorType>(t)) { Val v; v.agg = make_shared<vector<Val>>(); u64 b = concretize(a, 64, "address"); u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) v.agg->push_back(loadTyped(Val(b + i * es), vt->getElementType())); return v; }
  unsigned n = DL->getTypeStoreSize(t), w = widthOf(t); if (n > 8 || !w) { unmodelled.insert("load of unsupported type"); noteUnknown("unsupported load type"); endPath(); }
  Val v = loadMem(a, n); if (w < n * 8) { if (v.e) return VE(mk_extract(v.e, 0, w)); v.c &= maskw(w); } return v;
}
static void storeTyped(const Val& a, llvm::Type* t, const Val& v) {
  if (auto* stt = llvm::dyn_cast<llvm::StructType>(t)) { auto* sl = DL->getStructLayout(stt); u64 b = concretize(a, 64, "address"); for (unsigned i = 0; i < stt->getNumElements(); i++) storeTyped(Val(b + sl->getElementOffset(i)), stt->getElementType(i), v.agg ? (*v.agg)[i] : Val(0)); return; }
  if (auto* at = llvm::dyn_cast<llvm::ArrayType>(t)) { u64 b = concretize(a, 64, "address"); u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeTyped(Val(b + i * es), at->getElementType(), v.agg ? (*v.agg)[i] : Val(0)); return; }
  if (auto* vt = llvm::dyn_cast<llvm::FixedVectorType>(t)) { u64 b = concretize(a, 64, "address"); u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) storeTyped(Val(b + i * es), vt->getElementType(), v.agg ? (*v.agg)[i] : Val(0)); return; }
  unsigned n = DL->getTypeStoreSize(t); if (n > 8 || !widthOf(t)) { unmodelled.insert("store of unsupported type"); noteUnknown("unsupported store type"); endPath(); }
  storeMem(a, n, v);
}
static void enterBlock(Frame& f, int from, int to) {
  Block& b = f.fn->blocks[to]; if (!b.phis.empty()) { vector<Val> t(b.phis.size()); for (size_t i = 0; i < b.phis.size(); i++) { for (auto& in : b.phis[i].in) if (in.first == from) { t[i] = getv(f, in.second); break; } } for (size_t i = 0; i < b.phis.size(); i++) f.r[b.phis[i].dest] = t[i]; }
  f.pc = b.start;
}
static void pushFrame(FnInfo* fn, const vector<Val>& args, int retDest) {
  if (!fn->ready) translate(fn); fn->executed = true; if (cur->fr.size() > 4000) { report("recursion", "call depth over 4000"); endPath(); }
  auto f = make_shared<Frame>(); f->fn = fn; f->r.resize(fn->nregs); size_t na = fn->F->arg_size(); for (size_t i = 0; i < na && i < args.size(); i++) f->r[i] = args[i];
  f->retDest = retDest; f->stackMark = cur->s.n;
  if (fn->F->isVarArg()) { size_t extra = args.size() > na ? args.size() - na : 0; u64 a = allocObj(AK_STACK, extra * 8, 2, "variadic argument area"); u64 off, slot; objAt(a, off, &slot); for (size_t i = 0; i < extra; i++) storeBytes(dataMut(slot), i * 8, 8, args[na + i]); f->vaAddr = a; f->vaCount = extra; }
  f->pc = fn->blocks[0].start; cur->fr.push_back(f); if ((long)cur->fr.size() > st.maxdepth) st.maxdepth = cur->fr.size();
}
static u64 cbin(unsigned opc, u64 a, u64 b, unsigned w, bool& ok) {
  u64 Mk = maskw(w); ok = true;
  switch (opc) {
    case llvm::Instruction::Add: return (a + b) & Mk; case llvm::Instruction::Sub: return (a - b) & Mk; case llvm::Instruction::Mul: return (a * b) & Mk;
    case llvm::Instruction::And: return a & b; case llvm::Instruction::Or: return a | b; case llvm::Instruction::Xor: return a ^ b;
    case llvm::Instruction::Shl: return b >= w ? 0 : (a << b) & Mk; case llvm::Instruction::LShr: return b >= w ? 0 : (a & Mk) >> b; case llvm::Instruction::AShr: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & Mk;
    case llvm::Instruction::UDiv: if (!b) { ok = false; return 0; } return (a / b) & Mk; case llvm::Instruction::URem: if (!b) { ok = false; return 0; } return a % b;
    case llvm::Instruction::SDiv: { i64 x = sx(a, w), y = sx(b, w); if (!y || (y == -1 && (u64)x == (1ULL << (w - 1)))) { ok = false; return 0; } if (y == -1) return (u64)(-x) & Mk; return (u64)(x / y) & Mk; }
    case llvm::Instruction::SRem: { i64 x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return 0; return (u64)(x % y) & Mk; }
  } ok = false; return 0;
}
static EK ekbin(unsigned opc) { switch (opc) { case llvm::Instruction::Add: return K_ADD; case llvm::Instruction::Sub: return K_SUB; case llvm::Instruction::Mul: return K_MUL; case llvm::Instruction::And: return K_AND; case llvm::Instruction::Or: return K_OR; case llvm::Instruction::Xor: return K_XOR; case llvm::Instruction::Shl: return K_SHL; case llvm::Instruction::LShr: return K_LSHR; case llvm::Instruction::AShr: return K_ASHR; case llvm::Instruction::UDiv: return K_UDIV; case llvm::Instruction::SDiv: return K_SDIV; case llvm::Instruction::URem: return K_UREM; default: return K_SREM; } }
static u64 canonNaN(u64 v, unsigned w) { if (w == 64) return bd(v) != bd(v) ? DNAN : v; return bf(v) != bf(v) ? 0x7fc00000u : v; }
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  using P = llvm::CmpInst;
  if (!a.e && !b.e) { u64 x = a.c & maskw(w), y = b.c & maskw(w); i64 sxx = sx(x, w), syy = sx(y, w); bool r = false; switch (pred) { case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break; case P::ICMP_UGT: r = x > y; break; case P::ICMP_UGE: r = x >= y; break; case P::ICMP_ULT: r = x < y; break; case P::ICMP_ULE: r = x <= y; break; case P::ICMP_SGT: r = sxx > syy; break; case P::ICMP_SGE: r = sxx >= syy; break; case P::ICMP_SLT: r = sxx < syy; break; case P::ICMP_SLE: r = sxx <= syy; break; } return Val(r); }
  E x = toE(a, w), y = toE(b, w); switch (pred) { case P::ICMP_EQ: return VE(mk_eq(x, y)); case P::ICMP_NE: return VE(mk_not(mk_eq(x, y))); case P::ICMP_UGT: return VE(mk_bin(K_ULT, y, x)); case P::ICMP_UGE: return VE(mk_bin(K_ULE, y, x)); case P::ICMP_ULT: return VE(mk_bin(K_ULT, x, y)); case P::ICMP_ULE: return VE(mk_bin(K_ULE, x, y)); case P::ICMP_SGT: return VE(mk_bin(K_SLT, y, x)); case P::ICMP_SGE: return VE(mk_bin(K_SLE, y, x)); case P::ICMP_SLT: return VE(mk_bin(K_SLT, x, y)); default: return VE(mk_bin(K_SLE, x, y)); }
}
static Val fcmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  using P = llvm::CmpInst; E x = toE(a, w), y = toE(b, w); bool unord = pred >= P::FCMP_UNO && pred != P::FCMP_TRUE; 
  E r; switch (pred) {
    case P::FCMP_FALSE: return Val(0); case P::FCMP_TRUE: return Val(1);
    case P::FCMP_OEQ: r = mk_fcmp(K_FEQ, x, y); break; case P::FCMP_OGT: r = mk_fcmp(K_FLT, y, x); break; case P::FCMP_OGE: r = mk_fcmp(K_FLE, y, x); break; case P::FCMP_OLT: r = mk_fcmp(K_FLT, x, y); break; case P::FCMP_OLE: r = mk_fcmp(K_FLE, x, y); break;
    case P::FCMP_ORD: r = mk_not(mk_fcmp(K_FUNO, x, y)); break; case P::FCMP_UNO: r = mk_fcmp(K_FUNO, x, y); break;
    case P::FCMP_ONE: r = mk_bin(K_OR, mk_fcmp(K_FLT, x, y), mk_fcmp(K_FLT, y, x)); break;
    case P::FCMP_UNE: r = mk_not(mk_fcmp(K_FEQ, x, y)); break;
    case P::FCMP_UGT: r = mk_not(mk_fcmp(K_FLE, x, y)); break; case P::FCMP_UGE: r = mk_not(mk_fcmp(K_FLT, x, y)); break; case P::FCMP_ULT: r = mk_not(mk_fcmp(K_FLE, y, x)); break; case P::FCMP_ULE: r = mk_not(mk_fcmp(K_FLT, y, x)); break;
    case P::FCMP_UEQ: r = mk_bin(K_OR, mk_fcmp(K_FEQ, x, y), mk_fcmp(K_FUNO, x, y)); break; default: r = mk_const(0, 1); }
  (void)unord; return VE(r);
}
static Val fbin(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w == 64) { double x = bd(a.c), y = bd(b.c), r; switch (opc) { case llvm::Instruction::FAdd: r = x + y; break; case llvm::Instruction::FSub: r = x - y; break; case llvm::Instruction::FMul: r = x * y; break; case llvm::Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return Val(r != r ? DNAN : db(r)); }
  E x = toE(a, w), y = toE(b, w); switch (opc) { case llvm::Instruction::FAdd: return VE(mk_fadd(x, y)); case llvm::Instruction::FSub: return VE(mk_fsub(x, y)); case llvm::Instruction::FMul: return VE(mk_fmul(x, y)); case llvm::Instruction::FDiv: return VE(mk_fdiv(x, y)); default: return VE(mk_bin(K_FREM, x, y)); }
}
static Val castv(unsigned opc, const Val& a, unsigned from, unsigned to, const Ins& x) {
  using I = llvm::Instruction;
  switch (opc) {
    case I::ZExt: return a.e ? VE(mk_zext(a.e, to)) : Val(a.c & maskw(from)); case I::SExt: return a.e ? VE(mk_sext(a.e, to)) : Val((u64)sx(a.c, from) & maskw(to));
    case I::Trunc: case I::PtrToInt: return a.e ? (to < a.e->w ? VE(mk_extract(a.e, 0, to)) : a) : Val(a.c & maskw(to)); case I::IntToPtr: return a.e ? VE(mk_zext(a.e, 64)) : Val(a.c & maskw(from)); case I::BitCast: case I::AddrSpaceCast: return a;
    case I::SIToFP: return VE(mk_un(K_SI2F, toE(a, from), to)); case I::UIToFP: return VE(mk_un(K_UI2F, toE(a, from), to));
    case I::FPToSI: case I::FPToUI: { E e = toE(a, from);
      if (g_opt["fptoint"] && from == 64 && cur->fr.back()->fn->inrepo) { double lo = opc == I::FPToSI ? -ldexp(1.0, to - 1) - (to < 53 ? 1 : 0) : -1.0, hi = opc == I::FPToSI ? ldexp(1.0, to - 1) : ldexp(1.0, to); E ok = mk_bin(K_AND, mk_fcmp((to < 53 || opc == I::FPToUI) ? K_FLT : K_FLE, mk_const(db(lo), 64), e), mk_fcmp(K_FLT, e, mk_const(db(hi), 64))); if (!decide(ok, "float-to-int range")) { report("fptoint", "floating-point value outside the range of the integer type"); endPath(); } }
      if (from == 64) { Iv r = rangeOf(e); double t = trunc(r.lo); if (!r.nan && t == trunc(r.hi) && fabs(t) < ldexp(1.0, std::min<unsigned>(to - 1, 52)) && (opc == I::FPToSI || t >= 0)) return Val((u64)(i64)t & maskw(to)); }
      { long double v; if (from == 64 && g_realBranch && !e->uninit && realConst(e, v) && fabsl(v) < 2e9L && (v >= 0 || opc == I::FPToSI) && fabsl(v - roundl(v)) > 1e-6L) return Val((u64)(long long)truncl(v) & maskw(to)); }
      return VE(mk_un(opc == I::FPToSI ? K_F2SI : K_F2UI, e, to)); }
    case I::FPExt: case I::FPTrunc: return VE(mk_un(K_FCONV, toE(a, from), to));
  } (void)x; return a;
}
#include "vx_real.inc"
#include "vx_builtins.inc"

static void stepCall(Frame& f, Ins& x) {
  vector<Val> args; args.reserve(x.ops.size()); for (size_t i = 0; i + 1 < x.ops.size(); i++) args.push_back(getv(f, x.ops[i]));
  FnInfo* fn = x.callee;
  if (!fn) { Val t = getv(f, x.ops.back()); u64 a = concretize(t, 64, "call target"); u64 off = a - baseOf(FNSLOT); if ((a >> SLOTSH) != FNSLOT || off % 16 || off / 16 >= fnByIdx.size()) memfault("call through invalid function pointer"); fn = fnByIdx[off / 16]; }
  if (fn->builtin == -1) fn->builtin = builtinOf(fn->name) >= 0 ? builtinOf(fn->name) : -2;
  if (fn->builtin < 0 && fn->decl) { unmodelled.insert(fn->dem); noteUnknown("call of unmodelled function " + fn->dem); endPath(); }
  if (fn->builtin >= 0) {
    Val r; bool pushed = callBuiltin(fn->builtin, fn, x, args, r); if (pushed) return; 
    Frame& g = top(); if (x.dest >= 0) g.r[x.dest] = r; if (x.succ[0] >= 0) enterBlock(g, x.bb, x.succ[0]); else g.pc++; return; }
  // byval arguments: callee gets a private copy
  auto* cb = llvm::cast<llvm::CallBase>(x.I); vector<std::pair<int, u64>> byval; for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) byval.push_back({(int)i, DL->getTypeAllocSize(cb->getParamByValType(i))});
  pushFrame(fn, args, x.dest);
  if (!byval.empty()) { for (auto& bv : byval) { u64 a = allocObj(AK_STACK, bv.second, 2, "byval argument"); copyMem(a, args[bv.first].c, bv.second); if ((size_t)bv.first < fn->F->arg_size()) cur->fr.back()->r[bv.first] = Val(a); } }
}
static void doReturn(const Val& v) {
  auto fp = cur->fr.back(); cur->s.pop_to(fp->stackMark); cur->fr.pop_back(); if (cur->fr.empty()) { throw PathEnd(); }
  Frame& g = top(); Ins& c = g.fn->code[g.pc];
  if (g_race) { }
  if (onReturnHook(c, v)) return;
  if (fp->retDest >= 0) g.r[fp->retDest] = v;
  if (c.succ[0] >= 0) enterBlock(g, c.bb, c.succ[0]); else g.pc++;
}
static void step() {
  Frame& f = top(); Ins& x = f.fn->code[f.pc]; cur->steps++; st.instr++;
  using I = llvm::Instruction;
  switch (x.opc) {
    case I::Br: if (x.succ[1] < 0) { enterBlock(f, x.bb, x.succ[0]); return; } { Val c = getv(f, x.ops[0]); bool t = c.e ? decide(c.e, "branch") : (c.c & 1); Frame& g = top(); enterBlock(g, x.bb, x.succ[t ? 0 : 1]); return; }
    case I::Switch: { Val c = getv(f, x.ops[0]); if (!c.e) { u64 v = c.c & maskw(x.w); for (auto& k : x.cases) if (k.first == v) { enterBlock(f, x.bb, k.second); return; } enterBlock(f, x.bb, x.succ[0]); return; }
      std::map<int, E> tg; for (auto& k : x.cases) { E q = mk_eq(c.e, mk_const(k.first, x.w)); auto it = tg.find(k.second); if (it == tg.end()) tg[k.second] = q; else it->second = mk_bin(K_OR, it->second, q); }
      for (auto& kv : tg) if (kv.first != x.succ[0] && decide(kv.second, "switch")) { enterBlock(top(), x.bb, kv.first); return; } enterBlock(top(), x.bb, x.succ[0]); return; }
    case I::Ret: { Val v; if (!x.ops.empty()) v = getv(f, x.ops[0]); doReturn(v); return; }
    case I::Unreachable: report("unreachable", "execution reached unreachable code (undefined behaviour)"); endPath(); return;
    case I::Call: case I::Invoke: stepCall(f, x); return;
    case I::Alloca: { u64 n = concretize(getv(f, x.ops[0]), 64, "alloca size"); u64 a = allocObj(AK_STACK, n * x.imm, 2, "stack"); top().r[x.dest] = Val(a); break; }
    case I::Load: { Val v = loadTyped(getv(f, x.ops[0]), x.ty); top().r[x.dest] = v; break; }
    case I::Store: { Val v = getv(f, x.ops[0]); storeTyped(getv(f, x.ops[1]), x.I->getOperand(0)->getType(), v); break; }
    case I::GetElementPtr: { Val b = getv(f, x.ops[0]); if (!b.e) { bool sym = false; u64 a = b.c + x.imm; for (size_t i = 0; i < x.gep.size(); i++) { const Val& o = x.ops[i + 1].k ? x.ops[i + 1].v : f.r[x.ops[i + 1].r]; if (o.e) { sym = true; break; } a += (u64)sx(o.c, x.gep[i].first) * x.gep[i].second; } if (!sym) { f.r[x.dest] = Val(a); break; } }
      E a = mk_bin(K_ADD, toE(b, 64), mk_const(x.imm, 64)); for (size_t i = 0; i < x.gep.size(); i++) { E o = toE(getv(f, x.ops[i + 1]), x.gep[i].first); a = mk_bin(K_ADD, mk_bin(K_MUL, mk_sext(o, 64), mk_const(x.gep[i].second, 64)), a); } f.r[x.dest] = VE(a); break; }
    case I::ICmp: f.r[x.dest] = icmp(x.aux, getv(f, x.ops[0]), getv(f, x.ops[1]), x.w); break;
    case I::FCmp: { Val a = getv(f, x.ops[0]), b = getv(f, x.ops[1]); f.r[x.dest] = fcmp(x.aux, a, b, x.w); break; }
    case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem: { Val r = fbin(x.opc, getv(f, x.ops[0]), getv(f, x.ops[1]), x.w); if (r.e && r.e->k == K_ITE && r.e->w == 64) r = VE(resolveIte(r.e)); f.r[x.dest] = r; break; }
    case I::FNeg: { Val a = getv(f, x.ops[0]); if (a.e) f.r[x.dest] = VE(mk_fneg(a.e)); else f.r[x.dest] = Val(canonNaN(a.c ^ (x.w == 64 ? DSIGN : 0x80000000ULL), x.w)); break; }
    case I::Add: case I::Sub: case I::Mul: case I::And: case I::Or: case I::Xor: case I::Shl: case I::LShr: case I::AShr: case I::UDiv: case I::SDiv: case I::URem: case I::SRem: {
      Val a = getv(f, x.ops[0]), b = getv(f, x.ops[1]); unsigned w = x.w; bool isdiv = x.opc == I::UDiv || x.opc == I::SDiv || x.opc == I::URem || x.opc == I::SRem;
      if (w > 64) { unmodelled.insert("integers wider than 64 bits"); noteUnknown("wide integer arithmetic"); endPath(); }
      if (!a.e && !b.e) { bool ok; u64 ca = a.c & maskw(w), cb = b.c & maskw(w); if (x.aux && g_opt["overflow"] && f.fn->inrepo && (x.opc == I::Add || x.opc == I::Sub || x.opc == I::Mul)) { __int128 p = sx(ca, w), q = sx(cb, w), r = x.opc == I::Add ? p + q : x.opc == I::Sub ? p - q : p * q; if (r != (__int128)sx((u64)r, w)) { report("overflow", "signed integer overflow"); endPath(); } }
        u64 r = cbin(x.opc, ca, cb, w, ok); if (!ok) { report("arith", "integer division by zero or overflow"); endPath(); } f.r[x.dest] = Val(r); break; }
      E ea = toE(a, w), eb = toE(b, w);
      if (isdiv) { if (!decide(mk_not(mk_eq(eb, mk_const(0, w))), "divisor")) { report("arith", "integer division by zero"); endPath(); } }
      if (x.aux && g_opt["overflow"] && f.fn->inrepo && w <= 32 && (x.opc == I::Add || x.opc == I::Sub || x.opc == I::Mul)) { E p = mk_sext(ea, 64), q = mk_sext(eb, 64); E wide = mk_bin(ekbin(x.opc), p, q); E nar = mk_sext(mk_bin(ekbin(x.opc), ea, eb), 64); if (!decide(mk_eq(wide, nar), "overflow check")) { report("overflow", "signed integer overflow"); endPath(); } }
      if ((x.opc == I::Mul) && x.aux && g_opt["overflow"] && f.fn->inrepo && w == 64) { // bounded exactness via high part: use fp-free check  |a|,|b| in 63-bit: a*b/b==a
        E r = mk_bin(K_MUL, ea, eb); if (!decide(mk_bin(K_OR, mk_eq(eb, mk_const(0, 64)), mk_eq(mk_bin(K_SDIV, r, eb), ea)), "overflow check")) { report("overflow", "signed integer overflow"); endPath(); } }
      top().r[x.dest] = VE(mk_bin(ekbin(x.opc), ea, eb)); break; }
    case I::Select: { Val c = getv(f, x.ops[0]), a = getv(f, x.ops[1]), b = getv(f, x.ops[2]); if (!c.e) { f.r[x.dest] = (c.c & 1) ? a : b; break; } int k = lookup(*cur, c.e); if (k < 0 && x.ty->isDoubleTy()) { k = triState(c.e); if (k >= 0) st.interval++; } if (k >= 0) { f.r[x.dest] = k ? a : b; break; } if (a.agg || b.agg || x.w == 0) { bool t = decide(c.e, "select"); top().r[x.dest] = t ? a : b; break; }
      if (x.ty->isPointerTy() && (!a.e && !b.e) && a.c != b.c && a.c && b.c) { bool t = decide(c.e, "select"); top().r[x.dest] = t ? a : b; break; }
      f.r[x.dest] = VE(mk_ite(c.e, toE(a, x.w), toE(b, x.w))); break; }
    case I::ExtractValue: { Val a = getv(f, x.ops[0]); for (unsigned i : x.idx) { if (!a.agg) { a = Val(0); break; } Val t = (*a.agg)[i]; a = t; } f.r[x.dest] = a; break; }
    case I::InsertValue: { Val a = getv(f, x.ops[0]); if (!a.agg) a = uninitOf(x.ty); a.agg = make_shared<vector<Val>>(*a.agg); Val* p = &a; for (size_t i = 0; i < x.idx.size(); i++) { if (i) p->agg = make_shared<vector<Val>>(*p->agg); p = &(*p->agg)[x.idx[i]]; } *p = getv(f, x.ops[1]); f.r[x.dest] = a; break; }
    case I::ExtractElement: { Val a = getv(f, x.ops[0]); u64 i = concretize(getv(f, x.ops[1]), 64, "vector index"); top().r[x.dest] = a.agg ? (*a.agg)[i] : Val(0); break; }
    case I::InsertElement: { Val a = getv(f, x.ops[0]); auto n = make_shared<vector<Val>>(*a.agg); (*n)[concretize(getv(f, x.ops[2]), 64, "vector index")] = getv(f, x.ops[1]); a.agg = n; top().r[x.dest] = a; break; }
    case I::Freeze: f.r[x.dest] = getv(f, x.ops[0]); break;
    case I::ZExt: case I::SExt: case I::Trunc: case I::PtrToInt: case I::IntToPtr: case I::BitCast: case I::AddrSpaceCast: case I::SIToFP: case I::UIToFP: case I::FPToSI: case I::FPToUI: case I::FPExt: case I::FPTrunc: {
      if (x.w > 64 || x.aux > 64 || (x.w == 0 && !x.ty->isPointerTy())) { unmodelled.insert("cast of unsupported type"); noteUnknown("unsupported cast"); endPath(); }
      Val a = getv(f, x.ops[0]); Val r = castv(x.opc, a, x.aux, x.w, x); top().r[x.dest] = r; break; }
    case I::AtomicRMW: { auto* rm = llvm::cast<llvm::AtomicRMWInst>(x.I); unsigned n = DL->getTypeStoreSize(x.ty); if (g_race) g_race->atomicDepth++; Val p = getv(f, x.ops[0]); Val old = loadMem(p, n); Val v = getv(f, x.ops[1]); E a = toE(old, x.w), b = toE(v, x.w), r = b; switch (rm->getOperation()) { case llvm::AtomicRMWInst::Add: r = mk_bin(K_ADD, a, b); break; case llvm::AtomicRMWInst::Sub: r = mk_bin(K_SUB, a, b); break; case llvm::AtomicRMWInst::FAdd: r = mk_fadd(a, b); break; default: break; } storeMem(p, n, VE(r)); if (g_race) g_race->atomicDepth--; top().r[x.dest] = old; break; }
    case I::AtomicCmpXchg: { unsigned n = DL->getTypeStoreSize(x.I->getOperand(1)->getType()); unsigned w = widthOf(x.I->getOperand(1)->getType()); if (g_race) g_race->atomicDepth++; Val p = getv(f, x.ops[0]); Val old = loadMem(p, n); E a = toE(old, w), c = toE(getv(f, x.ops[1]), w), nv = toE(getv(f, x.ops[2]), w); E eq = mk_eq(a, c); storeMem(p, n, VE(mk_ite(eq, nv, a))); if (g_race) g_race->atomicDepth--; Val r; r.agg = make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(VE(eq)); top().r[x.dest] = r; break; }
    case I::Fence: break;
    case I::VAArg: default: unmodelled.insert(string("instruction ") + x.I->getOpcodeName()); noteUnknown(string("unsupported instruction ") + x.I->getOpcodeName()); endPath();
  }
  top().pc++;
}
static double g_start;
static void finishPath(bool normal) {
  st.paths++; State& s = *cur;
  for (auto& r : s.reach) reachcount[r]++;
  bool want = normal && s.hasModel && (int)witnesses.size() < g_maxwit && (st.paths <= 4 || (st.paths & (st.paths - 1)) == 0 || st.paths % 97 == 0);
  if (want) { Evaluator ev(&s.model); string j = "{\"inputs\":["; bool c = false; for (auto& in : s.inputs) { j += string(c ? "," : "") + "[\"" + jesc(in.name) + "\",\"" + inputVal(in, ev) + "\"]"; c = true; } j += "],\"obs\":["; c = false;
    for (auto& o : s.obs) { u64 v = o.e ? ev.ev(o.e) : o.c; j += string(c ? "," : "") + "[\"" + jesc(o.tag) + "\",\"" + hexs(v) + "\"," + (o.isd ? "1" : "0") + "]"; c = true; } j += "]}"; witnesses.push_back(j); }
}
static void runAll() {
  while (!work.empty() && !g_stop) {
    cur = work.back(); work.pop_back(); bool normal = false;
    try {
      int tick = 0;
      for (;;) { step(); if (++tick >= 20000) { tick = 0; if (now() - g_start > g_tmax) { st.timeouts++; g_stop = true; break; } if (cur->steps > g_maxsteps) { report("steps", "instruction budget exceeded on one path (possible non-termination)"); break; } } }
    } catch (PathEnd&) { normal = cur->fr.empty() || cur->forceEnd; }
    finishPath(normal); delete cur; cur = nullptr;
    if (st.paths >= g_maxpaths) g_stop = true;
    if (now() - g_start > g_tmax && !work.empty()) { st.timeouts++; g_stop = true; }
  }
}
static void writeOut(bool complete) {
  FILE* f = g_out.empty() ? stdout : fopen(g_out.c_str(), "w"); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"entry\":\"%s\",\"part\":\"%d/%d\",\"complete\":%s,\"paths\":%ld,\"instructions\":%ld,\"forks\":%ld,\"checks\":%ld,\"checks_discharged\":%ld,\"real_checks\":%ld,\"unknown\":%ld,\"over\":%ld,\"pending\":%zu,\n", g_entry.c_str(), g_part, g_nparts, complete ? "true" : "false", st.paths, st.instr, st.forks, st.checks, st.discharged, st.realchecks, st.unknown, st.over, work.size());
  fprintf(f, "\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unk\":%ld,\"fpa_queries\":%ld,\"refinements\":%ld,\"cache_hits\":%ld,\"interval_decided\":%ld,\"solver_seconds\":%.3f,\"max_query_seconds\":%.3f,\"seconds\":%.3f,\"max_rss_mb\":%ld,\n", S->st.queries, S->st.sat, S->st.unsat, S->st.unk, S->st.fpa, S->st.refinements, qhits, st.interval, S->st.secs, S->st.maxsecs, now() - g_start, ru.ru_maxrss / 1024);
  fprintf(f, "\"functions\":["); bool c = false; for (auto* fi : fnByIdx) if (fi->executed && fi->inrepo) { fprintf(f, "%s[\"%s\",\"%s\",%d]", c ? "," : "", jesc(fi->dem).c_str(), jesc(fi->file.substr(g_repo.size() + 1)).c_str(), fi->line); c = true; } fprintf(f, "],\n");
  fprintf(f, "\"reach\":{"); c = false; for (auto& r : reachcount) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(r.first).c_str(), r.second); c = true; } fprintf(f, "},\n");
  fprintf(f, "\"check_sites\":{"); c = false; for (auto& r : checkcount) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(r.first).c_str(), r.second); c = true; } fprintf(f, "},\n");
  fprintf(f, "\"unmodelled\":["); c = false; for (auto& r : unmodelled) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(r).c_str()); c = true; } fprintf(f, "],\n\"unknowns\":["); c = false; for (auto& r : unknowns) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(r).c_str()); c = true; }
  fprintf(f, "],\n\"violations\":["); c = false;
  for (auto& v : viols) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":[", c ? ",\n" : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str()); bool d = false; for (auto& x : v.stack) { fprintf(f, "%s\"%s\"", d ? "," : "", jesc(x).c_str()); d = true; } fprintf(f, "],\"inputs\":["); d = false; for (auto& p : v.inputs) { fprintf(f, "%s[\"%s\",\"%s\"]", d ? "," : "", jesc(p.first).c_str(), p.second.c_str()); d = true; } fprintf(f, "]}"); c = true; }
  fprintf(f, "],\n\"witnesses\":["); c = false; for (auto& w : witnesses) { fprintf(f, "%s%s", c ? ",\n" : "", w.c_str()); c = true; } fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}
int main(int argc, char** argv) {
  string bc; for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--repo") g_repo = nx(); else if (a == "--time") g_tmax = atof(nx().c_str()); else if (a == "--steps") g_maxsteps = atol(nx().c_str()); else if (a == "--part") { string p = nx(); sscanf(p.c_str(), "%d/%d", &g_part, &g_nparts); } else if (a == "-v") g_verbose = true; else if (a == "--maxviol") g_maxviol = atoi(nx().c_str()); else if (a == "--uftimeout") { g_opt["uftimeout"] = atol(nx().c_str()); } else if (a == "--fpatimeout") g_opt["fpatimeout"] = atol(nx().c_str()); else if (a == "--maxpaths") g_maxpaths = atol(nx().c_str()); else if (a == "--witnesses") g_maxwit = atoi(nx().c_str()); else bc = a; }
  g_start = now(); S = new Solver(); S->verbose = g_verbose; if (g_opt.count("uftimeout")) S->uf_timeout = g_opt["uftimeout"]; if (g_opt.count("fpatimeout")) S->fpa_timeout = g_opt["fpatimeout"];
  llvm::SMDiagnostic err; M = llvm::parseIRFile(bc, err, LCtx); if (!M) { err.print("vx", llvm::errs()); return 3; } DL = &M->getDataLayout();
  { llvm::LoopAnalysisManager LAM; llvm::FunctionAnalysisManager FAM; llvm::CGSCCAnalysisManager CGAM; llvm::ModuleAnalysisManager MAM; llvm::PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); llvm::ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "globaldce,function(sroa,simplifycfg)")) { llvm::errs() << "pipeline\n"; return 3; } 
    if (!M->getFunction(g_entry)) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
    MPM.run(*M, MAM); }
  registerHostFns(); setupBuiltins();
  State* s0 = new State; cur = s0; cur->g.n = 0; { Obj null; cur->g.add(null); }
  for (auto& G : M->globals()) { Obj o; o.live = true; llvm::Type* t = G.getValueType(); o.size = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8; o.kind = AK_GLOBAL; o.what = "global"; if (G.isDeclaration() && o.size < 1024) o.size = 1024; o.d = newData(o.size, G.isDeclaration() ? 0 : 2); gaddr[&G] = baseOf(cur->g.add(o)); }
  for (auto& G : M->globals()) if (G.hasInitializer()) { u64 off, slot; objAt(gaddr[&G], off, &slot); initGlobalBytes(dataMut(slot), 0, G.getInitializer()); if (G.isConstant()) objMut(slot)->kind = AK_CONSTG; }
  // static constructors
  vector<std::pair<u64, const llvm::Function*>> ctors; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* cs = llvm::cast<llvm::ConstantStruct>(o); if (auto* F = llvm::dyn_cast<llvm::Function>(cs->getOperand(1))) ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  try { for (auto& c : ctors) { pushFrame(infoOf(c.second), {}, -1); try { for (;;) step(); } catch (PathEnd&) { if (!cur->fr.empty()) { fprintf(stderr, "static constructor %s ended abnormally\n", c.second->getName().str().c_str()); for (auto& u : unknowns) fprintf(stderr, "  %s\n", u.c_str()); return 3; } } } } catch (...) { return 3; }
  st = Stats(); cur->steps = 0;
  pushFrame(infoOf(M->getFunction(g_entry)), {}, -1); work.push_back(s0); 
  runAll();
  bool complete = work.empty() && !st.timeouts && !g_stop; if (viols.size() && work.empty() && !st.timeouts) complete = true;
  writeOut(complete); if (g_verbose) fprintf(stderr, "%s: paths=%ld instr=%ld forks=%ld queries=%ld (%.1fs) checks=%ld/%ld viol=%zu unknown=%ld complete=%d %.1fs\n", g_entry.c_str(), st.paths, st.instr, st.forks, S->st.queries, S->st.secs, st.discharged, st.checks, viols.size(), st.unknown, complete, now() - g_start);
  fflush(stdout); _exit(0);
}
