// LLVM IR -> flat instruction arrays
#pragma once
static int builtinId(const std::string& n);
static void flat(llvm::Type* t, std::vector<u8>& w) {
  if (auto* st = dyn_cast<llvm::StructType>(t)) { for (auto* e : st->elements()) flat(e, w); return; }
  if (auto* at = dyn_cast<llvm::ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), w); return; }
  if (t->isIntegerTy()) { w.push_back((u8)std::min(255u, t->getIntegerBitWidth())); return; }
  if (t->isPointerTy() || t->isDoubleTy()) { w.push_back(64); return; }
  if (t->isFloatTy()) { w.push_back(32); return; }
  if (t->isVoidTy()) return;
  w.push_back(255);   // unsupported
}
static bool okW(const std::vector<u8>& w) { for (u8 x : w) if (x > 64) return false; return true; }
static bool evalConst(const llvm::Constant* c, std::vector<u64>& out) {
  if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out.push_back(ci->getZExtValue()); return true; }
  if (auto* cf = dyn_cast<llvm::ConstantFP>(c)) { auto bi = cf->getValueAPF().bitcastToAPInt(); if (bi.getBitWidth() > 64) return false; out.push_back(bi.getZExtValue()); return true; }
  if (isa<llvm::ConstantPointerNull>(c)) { out.push_back(0); return true; }
  if (isa<llvm::UndefValue>(c) || isa<llvm::ConstantAggregateZero>(c)) { std::vector<u8> w; flat(c->getType(), w); if (!okW(w)) return false; for (size_t i = 0; i < w.size(); i++) out.push_back(0); return true; }
  if (isa<llvm::GlobalValue>(c)) { auto it = gaddr.find(c); if (it == gaddr.end()) { if (auto* ga = dyn_cast<llvm::GlobalAlias>(c)) return evalConst(ga->getAliasee(), out); return false; } out.push_back(it->second); return true; }
  if (isa<llvm::ConstantStruct>(c) || isa<llvm::ConstantArray>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) if (!evalConst(cast<llvm::Constant>(c->getOperand(i)), out)) return false; return true; }
  if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) if (!evalConst(cd->getElementAsConstant(i), out)) return false; return true; }
  if (auto* ce = dyn_cast<llvm::ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<llvm::GEPOperator>(ce)) { llvm::APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) return false; std::vector<u64> b; if (!evalConst(cast<llvm::Constant>(gep->getPointerOperand()), b)) return false; out.push_back(b[0] + off.getZExtValue()); return true; }
    std::vector<u64> a; unsigned oc = ce->getOpcode();
    if (!evalConst(ce->getOperand(0), a)) return false;
    if (oc == llvm::Instruction::PtrToInt || oc == llvm::Instruction::IntToPtr || oc == llvm::Instruction::BitCast) { std::vector<u8> w; flat(ce->getType(), w); if (!okW(w)) return false; out.push_back(a[0] & maskw(w[0])); return true; }
    if (oc == llvm::Instruction::Trunc) { out.push_back(a[0] & maskw(ce->getType()->getIntegerBitWidth())); return true; }
    if (ce->getNumOperands() == 2) { std::vector<u64> b; if (!evalConst(ce->getOperand(1), b)) return false; std::vector<u8> w; flat(ce->getOperand(0)->getType(), w);
      K k; switch (oc) { case llvm::Instruction::Add: k = K_ADD; break; case llvm::Instruction::Sub: k = K_SUB; break; case llvm::Instruction::Xor: k = K_XOR; break;
        case llvm::Instruction::ICmp: { auto p = ce->getPredicate(); bool r = p == llvm::CmpInst::ICMP_EQ ? a[0] == b[0] : p == llvm::CmpInst::ICMP_NE ? a[0] != b[0] : p == llvm::CmpInst::ICMP_ULT ? a[0] < b[0] : p == llvm::CmpInst::ICMP_UGT ? a[0] > b[0] : false; out.push_back(r); return true; }
        default: return false; }
      out.push_back(cbin(k, w[0], a[0], b[0])); return true; }
    return false;
  }
  return false;
}
static void writeConst(Object* o, u64 off, const llvm::Constant* c) {
  if (isa<llvm::ConstantAggregateZero>(c) || isa<llvm::UndefValue>(c) || isa<llvm::ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(c)) { auto r = cd->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); return; }
  if (auto* st = dyn_cast<llvm::ConstantStruct>(c)) { auto* sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), st->getOperand(i)); return; }
  if (auto* ar = dyn_cast<llvm::ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); i++) writeConst(o, off + i * es, ar->getOperand(i)); return; }
  std::vector<u64> v; if (!evalConst(c, v) || v.size() != 1) { fprintf(stderr, "csx: unsupported global initialiser\n"); return; }
  memcpy(&o->data[off], &v[0], std::min<u64>(8, DL->getTypeStoreSize(c->getType())));
}
static void initGlobals(State& s) {
  for (auto& F : *M) { if (F.isIntrinsic()) continue; Object* o = s.mem.alloc(1, OK_FUNC, F.getName().data()); gaddr[&F] = o->base; faddr[o->base] = &F; }
  std::vector<std::pair<llvm::GlobalVariable*, u32>> gv;
  for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0; Object* o = s.mem.alloc(sz, OK_GLOBAL, G.getName().data()); gaddr[&G] = o->base; gv.push_back({&G, o->slot}); }
  for (auto& p : gv) { Object* o = s.mem.bySlot(p.second); if (p.first->hasInitializer()) writeConst(o, 0, p.first->getInitializer()); o->ro = p.first->isConstant(); if (p.first->getName().starts_with("csxh_")) o->harness = true; }
}

struct Decoder {
  Func* g; const llvm::Function* F; std::unordered_map<const llvm::Value*, int> reg; std::unordered_map<const llvm::BasicBlock*, u32> start;
  bool bad = false;
  Opnd op(const llvm::Value* v, unsigned i = 0) {
    auto it = reg.find(v); if (it != reg.end()) return {it->second + (int)i, 0};
    if (auto* c = dyn_cast<llvm::Constant>(v)) { std::vector<u64> o; if (evalConst(c, o) && i < o.size()) return {-1, o[i]}; }
    bad = true; return {-1, 0};
  }
  static bool skip(const llvm::Instruction& I) {
    if (isa<llvm::PHINode>(I) || isa<llvm::DbgInfoIntrinsic>(I)) return true;
    if (auto* II = dyn_cast<llvm::IntrinsicInst>(&I)) switch (II->getIntrinsicID()) {
      case llvm::Intrinsic::lifetime_start: case llvm::Intrinsic::lifetime_end: case llvm::Intrinsic::assume: case llvm::Intrinsic::experimental_noalias_scope_decl: case llvm::Intrinsic::donothing: case llvm::Intrinsic::prefetch: case llvm::Intrinsic::vaend: case llvm::Intrinsic::invariant_start: case llvm::Intrinsic::sideeffect: return true; default: break; }
    return false;
  }
  Edge edge(const llvm::BasicBlock* from, const llvm::BasicBlock* to) {
    Edge e; e.target = start[to];
    for (auto& p : to->phis()) { const llvm::Value* v = p.getIncomingValueForBlock(from); std::vector<u8> w; flat(p.getType(), w); for (unsigned i = 0; i < w.size(); i++) e.moves.push_back({reg[&p] + (int)i, op(v, i), w[i], p.getType()->isPointerTy()}); }
    return e;
  }
  void inst(const llvm::Instruction& I, Instr& o) {
    o.I = &I; std::vector<u8> w; flat(I.getType(), w); if (!w.empty()) { o.dst = reg[&I]; o.n = (u32)w.size(); o.w = w[0]; } else o.n = 0;
    bad = !okW(w);
    using LI = llvm::Instruction;
    unsigned oc = I.getOpcode();
    auto w0 = [&](unsigned i) { std::vector<u8> x; flat(I.getOperand(i)->getType(), x); if (!okW(x) || x.size() != 1) { bad = true; return (u8)0; } return x[0]; };
    switch (oc) {
      case LI::Alloca: { auto& A = cast<llvm::AllocaInst>(I); o.op = O_ALLOCA; o.a = op(A.getArraySize()); o.imm = (i64)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue(); break; }
      case LI::Load: o.op = O_LOAD; o.a = op(I.getOperand(0)); if (w.size() != 1) bad = true; o.n = (o.w + 7) / 8; break;
      case LI::Store: { o.op = O_STORE; o.b = op(I.getOperand(0)); o.a = op(I.getOperand(1)); u8 x = w0(0); o.n = (x + 7) / 8; break; }
      case LI::GetElementPtr: {
        o.op = O_GEP; auto& G = cast<llvm::GetElementPtrInst>(I); if (G.getType()->isVectorTy()) { bad = true; break; } o.a = op(G.getPointerOperand());
        for (auto it = llvm::gep_type_begin(G), e = llvm::gep_type_end(G); it != e; ++it) {
          const llvm::Value* ix = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) { o.imm += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<llvm::ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = (i64)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
          if (auto* ci = dyn_cast<llvm::ConstantInt>(ix)) { o.imm += ci->getSExtValue() * sc; continue; }
          if (!o.idx) o.idx = new std::vector<std::pair<Opnd, std::pair<i64, u8>>>();
          o.idx->push_back({op(ix), {sc, (u8)ix->getType()->getIntegerBitWidth()}});
        }
        break; }
      case LI::Add: case LI::Sub: case LI::Mul: case LI::UDiv: case LI::SDiv: case LI::URem: case LI::SRem: case LI::And: case LI::Or: case LI::Xor: case LI::Shl: case LI::LShr: case LI::AShr: {
        static const std::map<unsigned, K> t = {{LI::Add, K_ADD}, {LI::Sub, K_SUB}, {LI::Mul, K_MUL}, {LI::UDiv, K_UDIV}, {LI::SDiv, K_SDIV}, {LI::URem, K_UREM}, {LI::SRem, K_SREM}, {LI::And, K_AND}, {LI::Or, K_OR}, {LI::Xor, K_XOR}, {LI::Shl, K_SHL}, {LI::LShr, K_LSHR}, {LI::AShr, K_ASHR}};
        o.op = O_BIN; o.sub = t.at(oc); o.a = op(I.getOperand(0)); o.b = op(I.getOperand(1)); break; }
      case LI::FAdd: case LI::FSub: case LI::FMul: case LI::FDiv: case LI::FRem: {
        static const std::map<unsigned, K> t = {{LI::FAdd, K_FADD}, {LI::FSub, K_FSUB}, {LI::FMul, K_FMUL}, {LI::FDiv, K_FDIV}, {LI::FRem, K_FREM}};
        o.op = O_FBIN; o.sub = t.at(oc); o.a = op(I.getOperand(0)); o.b = op(I.getOperand(1)); break; }
      case LI::FNeg: o.op = O_FNEG; o.a = op(I.getOperand(0)); break;
      case LI::ICmp: {
        auto& C = cast<llvm::ICmpInst>(I); o.op = O_ICMP; o.w2 = w0(0); o.a = op(I.getOperand(0)); o.b = op(I.getOperand(1));
        using P = llvm::CmpInst;
        switch (C.getPredicate()) {
          case P::ICMP_EQ: o.sub = K_EQ; break; case P::ICMP_NE: o.sub = K_EQ; o.imm = 1; break;
          case P::ICMP_ULT: o.sub = K_ULT; break; case P::ICMP_ULE: o.sub = K_ULE; break; case P::ICMP_UGT: o.sub = K_ULT; o.imm = 2; break; case P::ICMP_UGE: o.sub = K_ULE; o.imm = 2; break;
          case P::ICMP_SLT: o.sub = K_SLT; break; case P::ICMP_SLE: o.sub = K_SLE; break; case P::ICMP_SGT: o.sub = K_SLT; o.imm = 2; break; case P::ICMP_SGE: o.sub = K_SLE; o.imm = 2; break; default: bad = true;
        }
        break; }
      case LI::FCmp: o.op = O_FCMP; o.w2 = w0(0); o.sub = (int)cast<llvm::FCmpInst>(I).getPredicate(); o.a = op(I.getOperand(0)); o.b = op(I.getOperand(1)); break;
      case LI::Trunc: o.op = O_TRUNC; w0(0); o.a = op(I.getOperand(0)); break;
      case LI::ZExt: o.op = O_ZEXT; o.a = op(I.getOperand(0)); break;
      case LI::SExt: o.op = O_SEXT; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::PtrToInt: case LI::IntToPtr: { u8 x = w0(0); o.a = op(I.getOperand(0)); o.op = x > o.w ? O_TRUNC : O_ZEXT; break; }
      case LI::BitCast: case LI::AddrSpaceCast: w0(0); o.op = O_ZEXT; o.a = op(I.getOperand(0)); break;
      case LI::Freeze: { o.op = O_COPY; o.ops = new std::vector<Opnd>(); for (u32 i = 0; i < o.n; i++) o.ops->push_back(op(I.getOperand(0), i)); break; }
      case LI::FPExt: o.op = O_FUN; o.sub = K_FEXT; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::FPTrunc: o.op = O_FUN; o.sub = K_FTRUNC; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::SIToFP: o.op = O_FUN; o.sub = K_SITOF; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::UIToFP: o.op = O_FUN; o.sub = K_UITOF; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::FPToSI: o.op = O_FUN; o.sub = K_FTOSI; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::FPToUI: o.op = O_FUN; o.sub = K_FTOUI; o.w2 = w0(0); o.a = op(I.getOperand(0)); break;
      case LI::Select: { if (w0(0) != 1) bad = true; o.op = O_SELECT; o.d = op(I.getOperand(0)); o.ops = new std::vector<Opnd>(); o.cases = new std::vector<u64>(); for (u32 i = 0; i < o.n; i++) { o.ops->push_back(op(I.getOperand(1), i)); o.ops->push_back(op(I.getOperand(2), i)); o.cases->push_back(w[i]); } break; }
      case LI::Br: { auto& B = cast<llvm::BranchInst>(I); o.edges = new std::vector<Edge>();
        if (B.isUnconditional()) { o.op = O_BR; o.edges->push_back(edge(I.getParent(), B.getSuccessor(0))); }
        else { o.op = O_CBR; o.a = op(B.getCondition()); o.edges->push_back(edge(I.getParent(), B.getSuccessor(0))); o.edges->push_back(edge(I.getParent(), B.getSuccessor(1))); } break; }
      case LI::Switch: { auto& B = cast<llvm::SwitchInst>(I); o.op = O_SWITCH; o.a = op(B.getCondition()); o.w = w0(0); o.edges = new std::vector<Edge>(); o.cases = new std::vector<u64>(); o.edges->push_back(edge(I.getParent(), B.getDefaultDest()));
        for (auto& c : B.cases()) { o.cases->push_back(c.getCaseValue()->getZExtValue()); o.edges->push_back(edge(I.getParent(), c.getCaseSuccessor())); } break; }
      case LI::Ret: { o.op = O_RET; auto* rv = cast<llvm::ReturnInst>(I).getReturnValue(); if (rv) { std::vector<u8> x; flat(rv->getType(), x); if (!okW(x)) bad = true; o.ops = new std::vector<Opnd>(); for (unsigned i = 0; i < x.size(); i++) o.ops->push_back(op(rv, i)); } break; }
      case LI::Unreachable: o.op = O_UNREACH; break;
      case LI::ExtractValue: case LI::InsertValue: {
        o.ops = new std::vector<Opnd>(); auto* T = I.getOperand(0)->getType(); llvm::ArrayRef<unsigned> ix = oc == LI::ExtractValue ? cast<llvm::ExtractValueInst>(I).getIndices() : cast<llvm::InsertValueInst>(I).getIndices();
        unsigned off = 0; for (unsigned i : ix) { if (auto* st = dyn_cast<llvm::StructType>(T)) { for (unsigned j = 0; j < i; j++) { std::vector<u8> x; flat(st->getElementType(j), x); off += x.size(); } T = st->getElementType(i); } else { auto* at = cast<llvm::ArrayType>(T); std::vector<u8> x; flat(at->getElementType(), x); off += i * x.size(); T = at->getElementType(); } }
        o.op = oc == LI::ExtractValue ? O_EXTRACTV : O_INSERTV;
        if (oc == LI::ExtractValue) for (u32 i = 0; i < o.n; i++) o.ops->push_back(op(I.getOperand(0), off + i));
        else { std::vector<u8> x; flat(I.getOperand(1)->getType(), x); for (u32 i = 0; i < o.n; i++) o.ops->push_back(i >= off && i < off + x.size() ? op(I.getOperand(1), i - off) : op(I.getOperand(0), i)); }
        break; }
      case LI::Call: {
        auto& C = cast<llvm::CallInst>(I); o.op = O_CALL; o.call = new CallInfo(); CallInfo& ci = *o.call;
        if (C.isInlineAsm()) { bad = true; break; }
        const llvm::Value* cv = C.getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<llvm::GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* fn = dyn_cast<llvm::Function>(cv)) { ci.fn = fn; if (fn->isIntrinsic()) { ci.builtin = 0; ci.iid = fn->getIntrinsicID(); } else if (fn->isDeclaration()) ci.builtin = builtinId(fn->getName().str()); } else ci.callee = op(C.getCalledOperand());
        for (unsigned i = 0; i < C.arg_size(); i++) {
          if (C.getArgOperand(i)->getType()->isMetadataTy()) { bad = true; break; }
          std::vector<u8> x; flat(C.getArgOperand(i)->getType(), x); if (!okW(x)) bad = true;
          for (unsigned j = 0; j < x.size(); j++) { ci.args.push_back(op(C.getArgOperand(i), j)); ci.w.push_back(x[j]); ci.byval.push_back(C.isByValArgument(i) ? DL->getTypeAllocSize(C.getParamByValType(i)).getFixedValue() : 0); }
        }
        break; }
      default: bad = true;
    }
    if (bad) { o.op = O_UNSUP; }
  }
};
static Func* getFunc(const llvm::Function* F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  Func* g = new Func(); g->F = F; funcs[F] = g; Decoder d; d.g = g; d.F = F; int n = 0;
  for (auto& A : F->args()) { std::vector<u8> w; flat(A.getType(), w); d.reg[&A] = n; for (size_t i = 0; i < w.size(); i++) g->argReg.push_back(n + (int)i); n += (int)w.size(); }
  u32 pc = 0;
  for (auto& B : *F) { d.start[&B] = pc; for (auto& I : B) { std::vector<u8> w; flat(I.getType(), w); if (!w.empty()) { d.reg[&I] = n; n += (int)w.size(); } if (!Decoder::skip(I)) pc++; } }
  g->nregs = n; g->code.resize(pc); pc = 0;
  for (auto& B : *F) for (auto& I : B) if (!Decoder::skip(I)) d.inst(I, g->code[pc++]);
  return g;
}
static Expr* fcmpE(int p, Expr* a, Expr* b) {
  using P = llvm::CmpInst; Expr* un = mkBin(K_FUNO, a, b);
  switch (p) {
    case P::FCMP_FALSE: return mkC(0, 1); case P::FCMP_TRUE: return mkC(1, 1);
    case P::FCMP_OEQ: return mkBin(K_FEQ, a, b); case P::FCMP_OLT: return mkBin(K_FLT, a, b); case P::FCMP_OLE: return mkBin(K_FLE, a, b); case P::FCMP_OGT: return mkBin(K_FLT, b, a); case P::FCMP_OGE: return mkBin(K_FLE, b, a);
    case P::FCMP_ONE: return mkBin(K_AND, mkNot(mkBin(K_FEQ, a, b)), mkNot(un)); case P::FCMP_ORD: return mkNot(un); case P::FCMP_UNO: return un;
    case P::FCMP_UEQ: return mkBin(K_OR, mkBin(K_FEQ, a, b), un); case P::FCMP_UNE: return mkNot(mkBin(K_FEQ, a, b));
    case P::FCMP_ULT: return mkNot(mkBin(K_FLE, b, a)); case P::FCMP_ULE: return mkNot(mkBin(K_FLT, b, a)); case P::FCMP_UGT: return mkNot(mkBin(K_FLE, a, b)); case P::FCMP_UGE: return mkNot(mkBin(K_FLT, a, b));
  }
  return mkC(0, 1);
}
