// ---------------------------------------------------------------- interpreter
struct Violation { std::string label; };
struct Opnd { int reg = -1; Val c; };
struct CInst {
  unsigned op = 0; Instruction* I = nullptr; int dst = -1; std::vector<Opnd> o; unsigned w = 0, w2 = 0; Type* ty = nullptr;
  std::vector<int> bbs; i64 goff = 0; std::vector<std::tuple<int, i64, unsigned>> gidx; unsigned pred = 0;
  Function* callee = nullptr; void* bi = nullptr; bool resolved = false; unsigned intr = 0; u64 asz = 0;
  std::vector<std::pair<u64, int>> cases;
};
struct CPhi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct CBlock { size_t start; std::vector<CPhi> phis; u32 gid; };
struct FnInfo { Function* F; int nregs = 0; std::vector<CInst> code; std::vector<CBlock> blocks; u32 id; bool repo; };
struct Frame { FnInfo* fn; int block = 0; size_t pc = 0; std::vector<Val> r; size_t mark = 0; u64 topMark = 0; std::vector<Val> va; std::vector<Type*> vt; };

static Module* M; static const DataLayout* DL;
static std::vector<std::unique_ptr<Frame>> stk;
static std::unordered_map<const Value*, u64> gaddr;  // globals & functions
static std::vector<Function*> fnByIdx;
static constexpr u64 FN0 = 0x310000000000ull;
static std::unordered_map<Function*, std::unique_ptr<FnInfo>> fnInfo;
static u8* covMap; static constexpr u32 COVN = 1 << 20; static u32 nBlocks = 0;
static u8* fnHit; static constexpr u32 FNN = 1 << 17; static u32 nFns = 0;
static std::vector<std::pair<std::string, std::string>> gReplace;  // demangled regex -> function name
static std::unordered_map<Function*, Function*> gReplaced;

struct InputRec { std::string name; char kind; Val v; u64 conc; bool isConc; int var; };
static std::vector<InputRec> gInputs;
struct ObsRec { std::string name; char kind; Val v; };
static std::vector<ObsRec> gObs;

static u64 evalConst(const Constant* c, Val& out);
static Val constVal(const Constant* c) { Val v; evalConst(c, v); return v; }
static u64 gepConstOff(const GEPOperator* g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) unsup("constant gep");
  return off.getZExtValue();
}
static u64 evalConst(const Constant* c, Val& out) {
  out = Val();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& a = ci->getValue();
    if (a.getBitWidth() > 128) unsup("wide int constant");
    out.lo = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
    if (a.getBitWidth() > 64) out.hi = a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64);
    return 0;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    out.lo = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
    if (a.getBitWidth() > 64) out.hi = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64);
    return 0;
  }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (isa<UndefValue>(c)) {
    Type* t = c->getType();
    if (t->isAggregateType()) {
      out.agg = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) { Val e; evalConst(c->getAggregateElement(i), e); out.agg->push_back(e); }
      return 0;
    }
    out.undef = 0xFFFF; return 0;
  }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee(), out);
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) unsup("global without address: " + gv->getName().str());
    out.lo = it->second; return 0;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { Val b; evalConst(ce->getOperand(0), b); out.lo = b.lo + gepConstOff(cast<GEPOperator>(ce)); return 0; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: evalConst(ce->getOperand(0), out); return 0;
      case Instruction::Trunc: evalConst(ce->getOperand(0), out); out.hi = 0; out.lo &= maskb(ce->getType()->getIntegerBitWidth()); return 0;
      case Instruction::Sub: case Instruction::Add: { Val a, b; evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b); out.lo = ce->getOpcode() == Instruction::Sub ? a.lo - b.lo : a.lo + b.lo; out.lo &= maskb(ce->getType()->getIntegerBitWidth()); return 0; }
      default: unsup(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  if (c->getType()->isAggregateType()) {
    Type* t = c->getType(); out.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Val e; evalConst(c->getAggregateElement(i), e); out.agg->push_back(e); }
    return 0;
  }
  unsup("constant kind");
}
static void writeConst(u64 a, const Constant* c) {
  Type* t = c->getType();
  u64 sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { memset((void*)a, 0, sz); memset(shadowOf(a), 1, sz); return; }
  if (isa<UndefValue>(c)) { memset(shadowOf(a), 0, sz); return; }
  if (auto* s = dyn_cast<StructType>(t)) {
    const StructLayout* L = DL->getStructLayout(s);
    memset(shadowOf(a), 1, sz); memset((void*)a, 0, sz);
    for (unsigned i = 0; i < s->getNumElements(); i++) writeConst(a + L->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); memset(shadowOf(a), 1, sz); return; }
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    u64 es = DL->getTypeAllocSize(et); u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (u64 i = 0; i < n; i++) writeConst(a + i * es, c->getAggregateElement((unsigned)i));
    return;
  }
  Val v; evalConst(c, v);
  memset(shadowOf(a), 1, sz); memset((void*)a, 0, sz);
  u64 tmp[2] = {v.lo, v.hi};
  memcpy((void*)a, tmp, std::min<u64>(16, DL->getTypeStoreSize(t)));
}
static std::string dem(const std::string& n) { return llvm::demangle(n); }

// ---- function compilation
static FnInfo* getFn(Function* F) {
  auto it = fnInfo.find(F);
  if (it != fnInfo.end()) return it->second.get();
  auto fi = std::make_unique<FnInfo>(); fi->F = F;
  static std::unordered_map<Function*, u32> ids;
  fi->id = (u32)F->getValueID();  // replaced below
  std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, int> bbi;
  for (auto& a : F->args()) reg[&a] = fi->nregs++;
  int nb = 0;
  for (auto& bb : *F) { bbi[&bb] = nb++; for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
  auto mkop = [&](const Value* v) { Opnd o; auto r = reg.find(v); if (r != reg.end()) { o.reg = r->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) { try { o.c = constVal(c); } catch (Unsupported&) { o.reg = -2; } return o; }
    o.reg = -3; return o; };
  std::string nm = dem(F->getName().str());
  fi->repo = nm.find("signal_tl") != std::string::npos || nm.find("mono_wedge") != std::string::npos;
  for (auto& bb : *F) {
    CBlock cb; cb.start = 0; cb.gid = 0;
    for (auto& I : bb) if (auto* p = dyn_cast<PHINode>(&I)) {
      CPhi cp; cp.dst = reg[p];
      for (unsigned k = 0; k < p->getNumIncomingValues(); k++) cp.in.emplace_back(bbi[p->getIncomingBlock(k)], mkop(p->getIncomingValue(k)));
      cb.phis.push_back(std::move(cp));
    }
    cb.start = fi->code.size();
    for (auto& I : bb) {
      if (isa<PHINode>(&I)) continue;
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      CInst c; c.I = &I; c.op = I.getOpcode(); c.ty = I.getType();
      auto rr = reg.find(&I); if (rr != reg.end()) c.dst = rr->second;
      auto wid = [&](Type* t) -> unsigned { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; };
      c.w = wid(I.getType());
      if (auto* cbk = dyn_cast<CallBase>(&I)) {
        for (auto& a : cbk->args()) {
          if (a->getType()->isMetadataTy()) { Opnd o; c.o.push_back(o); } else c.o.push_back(mkop(a.get()));
        }
        c.callee = dyn_cast<Function>(cbk->getCalledOperand()->stripPointerCasts());
        if (!c.callee) if (auto* ga = dyn_cast<GlobalAlias>(cbk->getCalledOperand()->stripPointerCasts())) c.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (!c.callee) c.o.push_back(mkop(cbk->getCalledOperand()));
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { c.bbs = {bbi[inv->getNormalDest()], bbi[inv->getUnwindDest()]}; }
        if (c.callee && c.callee->isIntrinsic()) c.intr = c.callee->getIntrinsicID();
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { c.o.push_back(mkop(br->getCondition())); c.bbs = {bbi[br->getSuccessor(0)], bbi[br->getSuccessor(1)]}; }
        else c.bbs = {bbi[br->getSuccessor(0)]};
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        c.o.push_back(mkop(sw->getCondition())); c.w2 = wid(sw->getCondition()->getType());
        c.bbs = {bbi[sw->getDefaultDest()]};
        for (auto& cs : sw->cases()) c.cases.emplace_back(cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]);
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        c.o.push_back(mkop(g->getPointerOperand()));
        for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
          Value* ix = gt.getOperand();
          if (StructType* st = gt.getStructTypeOrNull()) { c.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = (i64)DL->getTypeAllocSize(gt.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { c.goff += ci->getSExtValue() * sc; continue; }
          c.gidx.emplace_back((int)c.o.size(), sc, wid(ix->getType())); c.o.push_back(mkop(ix));
        }
      } else if (auto* ai = dyn_cast<AllocaInst>(&I)) {
        c.asz = DL->getTypeAllocSize(ai->getAllocatedType()); c.o.push_back(mkop(ai->getArraySize()));
      } else {
        for (auto& u : I.operands()) c.o.push_back(mkop(u.get()));
        if (I.getNumOperands()) c.w2 = wid(I.getOperand(0)->getType());
        if (auto* cmp = dyn_cast<CmpInst>(&I)) c.pred = cmp->getPredicate();
      }
      fi->code.push_back(std::move(c));
    }
    fi->blocks.push_back(std::move(cb));
  }
  auto* p = fi.get();
  fnInfo.emplace(F, std::move(fi));
  return p;
}
static std::unordered_map<const Function*, std::pair<u32, u32>> fnIds;  // fn -> (id, first block gid)
static void numberFns() {
  for (auto& F : *M) { u32 b = nBlocks; for (auto& bb : F) { (void)bb; nBlocks++; } fnIds[&F] = {nFns++, b}; }
}

// ---- concretisation by exhaustive forking
static bool numOf(const z3::expr& e, u64& out) {
  if (e.is_numeral()) { uint64_t x; if (Z3_get_numeral_uint64(*Z, e, &x)) { out = x; return true; } }
  return false;
}
static u64 concretize(const Val& v, unsigned bits) {
  if (v.undef) throw Violation{"uninitialised value used"};
  if (!v.s) return v.lo;
  if (bits > 64) unsup("concretize wide");
  Sym s = toBV(v, bits);
  for (;;) {
    u64 c; bool ok = false;
    z3::expr se = s->e.simplify();
    if (numOf(se, c)) return c;
    if (gAssignOK) {
      z3::expr_vector from(*Z), to(*Z); bool all = true;
      for (u32 x : s->vars) { auto it = gAssign->find(x); if (it == gAssign->end()) { all = false; break; } from.push_back(gVars[x].e); to.push_back(it->second); }
      if (all) { z3::expr x = se; x = x.substitute(from, to).simplify(); ok = numOf(x, c); }
    }
    if (!ok) {
      auto q = queryWith(Z->bool_val(true), s->vars);
      if (q.r != SAT) unsup("cannot concretise");
      updateAssign(q);
      z3::expr_vector from(*Z), to(*Z);
      for (auto& [x, val] : q.model) { from.push_back(gVars[x].e); to.push_back(val); }
      z3::expr x = se; x = x.substitute(from, to).simplify();
      if (!numOf(x, c)) unsup("cannot concretise");
    }
    if (decideE(se == Z->bv_val((uint64_t)c, bits), s->vars)) return c;
  }
}

// ---- exceptions
struct ExcObj { u64 ti, dtor; int handlers; u64 adj; bool rethrown; };
static std::map<u64, ExcObj> excs; static std::vector<u64> caught;
static u64 rd64(u64 a) { u64 x; memcpy(&x, (void*)a, 8); return x; }
static std::string cstrAt(u64 a) {
  std::string s;
  for (;; a++) { chk(a, 1, false, "read"); if (shadowOf(a)[0] != 1) unsup("symbolic C string"); char c = *(char*)a; if (!c) break; s += c; if (s.size() > 4096) break; }
  return s;
}
static u64 vtCls, vtSi, vtVmi;
static std::string tiName(u64 ti) { if (!ti || !findObj(ti)) return "?"; u64 n = rd64(ti + 8); return cstrAt(n); }
static std::unordered_map<u64, const GlobalVariable*> tiGlobals;
static bool tiSame(u64 a, u64 b) {
  if (a == b) return true;
  auto ga = tiGlobals.find(a), gb = tiGlobals.find(b);
  if (ga != tiGlobals.end() && gb != tiGlobals.end()) return ga->second->getName() == gb->second->getName();
  return false;
}
static bool tiMatch(u64 ti, u64 want, u64& adj) {  // is `want` ti or a public base of it
  if (tiSame(ti, want)) return true;
  auto g = tiGlobals.find(ti);
  if (g != tiGlobals.end() && g->second->isDeclaration()) {
    // typeinfo of a library class that is not modelled: only std::exception roots are known
    unsup("typeinfo without definition: " + g->second->getName().str());
  }
  u64 vt = rd64(ti);
  if (vt == vtSi) return tiMatch(rd64(ti + 16), want, adj);
  if (vt == vtVmi) {
    u32 n; memcpy(&n, (void*)(ti + 20), 4);
    for (u32 i = 0; i < n; i++) {
      u64 b = rd64(ti + 24 + 16 * i); i64 of = (i64)rd64(ti + 32 + 16 * i);
      if (!(of & 2)) continue;
      u64 a2 = adj;
      if (of & 1) { u64 vp = rd64(adj); a2 = adj + rd64(vp + (of >> 8)); } else a2 = adj + (of >> 8);
      if (tiMatch(b, want, a2)) { adj = a2; return true; }
    }
  }
  return false;
}
static void popFrame() {
  Frame& f = *stk.back();
  while (stkObjs.size() > f.mark) {
    Obj& o = stkObjs.back();
    if (o.size) clearCells(o.base, o.size);
    stkObjs.pop_back();
  }
  stkTop = f.topMark;
  stk.pop_back();
}
static void enterBlock(Frame& f, int b) {
  CBlock& cb = f.fn->blocks[b];
  if (!cb.phis.empty()) {
    static thread_local std::vector<Val> tmp; tmp.clear();
    for (auto& p : cb.phis) {
      bool ok = false;
      for (auto& [pb, o] : p.in) if (pb == f.block) { if (o.reg == -2) unsup("phi constant"); tmp.push_back(o.reg >= 0 ? f.r[o.reg] : o.c); ok = true; break; }
      if (!ok) unsup("phi without incoming edge");
    }
    for (size_t i = 0; i < cb.phis.size(); i++) f.r[cb.phis[i].dst] = tmp[i];
  }
  f.block = b; f.pc = cb.start;
  u32 gid = cb.gid; if (gid < COVN) covMap[gid] = 1;
}
static int selId(u64 ti) { return ti ? (int)((ti >> 3) & 0x7fffffff) : 1; }
static void unwindTo(u64 exc) {
  ExcObj& e = excs.at(exc);
  while (!stk.empty()) {
    Frame& f = *stk.back();
    CInst& c = f.fn->code[f.pc - 1];
    if (c.op == Instruction::Invoke) {
      auto* inv = cast<InvokeInst>(c.I); auto* lp = inv->getLandingPadInst();
      u64 adj = exc; int sel = 0; bool hit = false;
      for (unsigned k = 0; k < lp->getNumClauses() && !hit; k++) {
        if (lp->isCatch(k)) {
          Val t = constVal(lp->getClause(k)); adj = exc;
          if (t.lo == 0) { hit = true; sel = selId(0); }
          else {
            u64 a = exc;
            // thrown pointers match by identity only
            if (tiMatch(e.ti, t.lo, a)) { adj = a; hit = true; sel = selId(t.lo); }
          }
        } else {  // filter: dynamic exception specification; an empty filter catches everything
          Constant* fc = lp->getClause(k); bool in = false;
          if (auto* ca = dyn_cast<ConstantArray>(fc)) for (unsigned q = 0; q < ca->getNumOperands(); q++) { Val t = constVal(ca->getOperand(q)); u64 a = exc; if (tiMatch(e.ti, t.lo, a)) in = true; }
          if (!in) { hit = true; sel = -1; }
        }
      }
      if (hit || lp->isCleanup()) {
        e.adj = adj;
        int lb = c.bbs[1];
        enterBlock(f, lb);
        // landingpad is the first non-phi instruction
        CInst& l = f.fn->code[f.pc];
        if (l.op != Instruction::LandingPad) unsup("landingpad expected");
        Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(cval(exc)); v.agg->push_back(cval((u32)sel));
        f.r[l.dst] = v; f.pc++;
        return;
      }
    }
    if (f.fn->F->doesNotThrow()) throw Violation{"std::terminate: exception leaves a noexcept function (" + dem(f.fn->F->getName().str()).substr(0, 100) + ")"};
    popFrame();
  }
  throw Violation{"uncaught exception of type " + dem(tiName(e.ti))};
}

// ---------------------------------------------------------------- models, candidates, witnesses
static bool onGrid(const z3::expr& v, int scale, std::string& hex, double* dout = nullptr) {
  // v: rational numeral; is v*2^scale an integer that fits a double exactly?
  if (!v.is_numeral()) return false;
  std::string num = Z3_get_numeral_string(*Z, v);
  std::string n = num, d = "1"; auto p = num.find('/');
  if (p != std::string::npos) { n = num.substr(0, p); d = num.substr(p + 1); }
  z3::expr t = (v * Z->real_val(pow2str(scale).c_str())).simplify();
  std::string ts = Z3_get_numeral_string(*Z, t);
  if (ts.find('/') != std::string::npos) return false;
  long double k = strtold(ts.c_str(), nullptr);
  if (fabsl(k) > 9.1e15L) return false;
  double x = std::ldexp((double)k, -scale);
  char b[32]; snprintf(b, 32, "%016lx", (unsigned long)asB(x)); hex = b;
  if (dout) *dout = x;
  return true;
}
static double ratToD(const z3::expr& v) {
  std::string s = Z3_get_numeral_string(*Z, v); auto p = s.find('/');
  if (p == std::string::npos) return strtod(s.c_str(), nullptr);
  return (double)(strtold(s.substr(0, p).c_str(), nullptr) / strtold(s.substr(p + 1).c_str(), nullptr));
}
using Model = std::unordered_map<u32, z3::expr>;
static bool fullModel(const std::vector<z3::expr>& extra, const std::vector<u32>& evars, Model& m, bool& approx, bool& unk, bool obsToo = false) {
  approx = false; unk = false;
  std::vector<z3::expr> cs; std::vector<u32> vars = evars; std::set<u32> vs(evars.begin(), evars.end());
  // definitions of fresh variables (always satisfiable) are needed only if the variable is
  std::vector<const PC*> rel;
  {
    std::vector<char> in(gVars.size(), 0); std::vector<u32> w;
    auto need = [&](const std::vector<u32>& v) { for (u32 x : v) in[x] = 1; };
    need(evars); for (auto& p : gPC) if (p.def < 0) { need(p.vars); rel.push_back(&p); }
    if (obsToo) for (auto& o : gObs) if (o.v.s) need(o.v.s->vars);
    std::vector<char> used(gPC.size(), 0);
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < gPC.size(); i++) if (gPC[i].def >= 0 && !used[i] && in[gPC[i].def]) { used[i] = 1; ch = true; need(gPC[i].vars); rel.push_back(&gPC[i]); } }
  }
  for (auto* p : rel) { cs.push_back(p->e); vs.insert(p->vars.begin(), p->vars.end()); }
  for (auto& e : extra) cs.push_back(e);
  vars.assign(vs.begin(), vs.end());
  // split by sort family so that bit-vector/FP and real parts get their own solvers
  std::vector<z3::expr> cr, cb; std::set<u32> vr, vb; bool mixed = false;
  auto famAdd = [&](const z3::expr& e, const std::vector<u32>& v) {
    bool r = false, b = false; for (u32 x : v) (gVars[x].k == KREAL ? r : b) = true;
    if (r && b) mixed = true;
    if (r) { cr.push_back(e); vr.insert(v.begin(), v.end()); } else { cb.push_back(e); vb.insert(v.begin(), v.end()); }
  };
  for (auto* p : rel) famAdd(p->e, p->vars);
  for (auto& e : extra) famAdd(e, evars);
  auto run = [&](std::vector<z3::expr>& c, const std::set<u32>& v, u64 rl) {
    auto q = solve(c, std::vector<u32>(v.begin(), v.end()), true, rl);
    if (q.r == UNK) unk = true;
    if (q.r == SAT) for (auto& [x, val] : q.model) { m.erase(x); m.emplace(x, val); }
    return q.r;
  };
  if (mixed) { if (run(cs, vs, gRlimit * 4) != SAT) return false; }
  else {
    if (!cb.empty() && run(cb, vb, gRlimit * 4) != SAT) return false;
    if (!cr.empty() && run(cr, vr, gRlimit * 4) != SAT) return false;
  }
  // grid integrality of real inputs
  std::vector<u32> off;
  auto isOn = [&](u32 v) { auto it = m.find(v); if (it == m.end()) return true; std::string h; return onGrid(it->second, gVars[v].scale, h); };
  bool bad = false;
  for (auto& in : gInputs) if (in.var >= 0 && gVars[in.var].k == KREAL && !isOn(in.var)) bad = true;
  if (!bad) return true;
  std::vector<z3::expr>& base = mixed ? cs : cr; std::set<u32>& bvs = mixed ? vs : vr;
  {  // 1: ask for integrality
    std::vector<z3::expr> c2 = base;
    for (auto& in : gInputs) if (in.var >= 0 && gVars[in.var].k == KREAL && bvs.count(in.var)) {
      z3::expr t = gVars[in.var].e * Z->real_val(pow2str(gVars[in.var].scale).c_str());
      c2.push_back(z3::expr(*Z, Z3_mk_is_int(*Z, t)));
    }
    auto t0 = std::chrono::steady_clock::now();
    z3::solver s(*Z); z3::params p(*Z); p.set("rlimit", (unsigned)std::min<u64>(gRlimit, 2000000ull)); s.set(p);
    SH->queries++;
    try {
      QueryAlarm alarm(obsToo ? 2 : 10);
      for (auto& c : c2) s.add(c);
      auto r = s.check();
      if (r == z3::sat) {
        SH->qsat++; z3::model mm = s.get_model(); for (u32 v : bvs) { m.erase(v); m.emplace(v, mm.eval(gVars[v].e, true)); }
        bool ok = true; for (auto& in : gInputs) if (in.var >= 0 && gVars[in.var].k == KREAL && !isOn(in.var)) ok = false;
        SH->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        if (ok) return true;
      } else if (r == z3::unsat) { SH->qunsat++; SH->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); return false; }
      else SH->qunknown++;
    } catch (z3::exception&) { SH->qunknown++; }
    SH->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  }
  // 2: fix the inputs one by one to nearby grid points
  std::vector<z3::expr> c3 = base;
  for (auto& in : gInputs) {
    if (in.var < 0 || gVars[in.var].k != KREAL || !bvs.count(in.var)) continue;
    auto it = m.find(in.var); double cur = 0;
    if (it != m.end()) { z3::expr t = it->second; if (t.is_numeral()) cur = ratToD(t); else { z3::expr ap(*Z, Z3_get_algebraic_number_lower(*Z, t, 20)); cur = ratToD(ap); } }
    double g = std::ldexp(1.0, -gVars[in.var].scale);
    std::vector<double> cand{std::nearbyint(cur), std::nearbyint(cur / g) * g, std::floor(cur / g) * g, std::ceil(cur / g) * g, std::floor(cur), std::ceil(cur), std::nearbyint(cur * 16) / 16};
    bool done = false;
    for (double cd : cand) {
      if (std::fabs(cd / g) > TWO53) continue;
      z3::expr eq = gVars[in.var].e == realConst(asB(cd == 0 ? 0.0 : cd)).first;
      c3.push_back(eq);
      auto q = solve(c3, std::vector<u32>(bvs.begin(), bvs.end()), true, gRlimit / 4);
      if (q.r == SAT) { for (auto& [x, val] : q.model) { m.erase(x); m.emplace(x, val); } done = true; break; }
      c3.pop_back();
    }
    if (!done) approx = true;
  }
  return true;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static u64 fpBits(const z3::expr& v) {
  z3::expr b(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)); b = b.simplify(); u64 x = 0; if (!numOf(b, x)) x = 0x7ff8000000000000ull; return x;
}
static bool inputBits(const InputRec& in, const Model& m, std::string& hex) {
  char b[32];
  if (in.isConc) { snprintf(b, 32, "%016lx", (unsigned long)in.conc); hex = b; return true; }
  auto it = m.find(in.var);
  if (it == m.end()) {
    if (gVars[in.var].k == KREAL) { // unconstrained on this path: any value in range; lower bound is stored in conc
      snprintf(b, 32, "%016lx", (unsigned long)in.conc); hex = b; return true; }
    hex = "0000000000000000"; return true;
  }
  if (gVars[in.var].k == KREAL) {
    if (onGrid(it->second, gVars[in.var].scale, hex)) return true;
    double cur; if (it->second.is_numeral()) cur = ratToD(it->second); else cur = ratToD(z3::expr(*Z, Z3_get_algebraic_number_lower(*Z, it->second, 20)));
    double g = std::ldexp(1.0, -gVars[in.var].scale); cur = std::nearbyint(cur / g) * g;
    snprintf(b, 32, "%016lx", (unsigned long)asB(cur)); hex = b; return true;
  }
  u64 x = 0; if (!numOf(it->second, x)) return false;
  snprintf(b, 32, "%016lx", (unsigned long)x); hex = b; return true;
}
static bool evalVal(const Val& v, char kind, const Model& m, std::string& out, bool& exact) {
  char b[64]; exact = true;
  if (v.undef) { out = "undef"; return true; }
  if (!v.s) { snprintf(b, 64, "%016lx", (unsigned long)v.lo); out = b; return true; }
  z3::expr_vector from(*Z), to(*Z);
  for (u32 x : v.s->vars) {
    from.push_back(gVars[x].e); auto it = m.find(x);
    if (it != m.end()) to.push_back(it->second);
    else if (gVars[x].k == KREAL) { u64 lo = 0; for (auto& in : gInputs) if (in.var == (int)x) lo = in.conc; to.push_back(realConst(lo).first); }
    else if (gVars[x].k == KBV) to.push_back(Z->bv_val(0, gVars[x].bits)); else to.push_back(Z->bool_val(false));
  }
  z3::expr e = v.s->e; e = e.substitute(from, to).simplify();
  if (v.s->k == KREAL) { if (!e.is_numeral()) return false; exact = v.s->scale >= 0; snprintf(b, 64, "%016lx", (unsigned long)asB(ratToD(e))); out = b; return true; }
  u64 x;
  if (v.s->k == KFP) x = fpBits(e); else if (v.s->k == KBOOL) x = e.is_true(); else if (!numOf(e, x)) return false;
  snprintf(b, 64, "%016lx", (unsigned long)x); out = b; return true;
}
static std::string inputsJson(const Model& m) {
  std::string s = "[";
  for (size_t i = 0; i < gInputs.size(); i++) { std::string h; if (!inputBits(gInputs[i], m, h)) h = "0"; s += (i ? "," : "") + std::string("[\"") + jesc(gInputs[i].name) + "\",\"" + gInputs[i].kind + "\",\"" + h + "\"]"; }
  return s + "]";
}
static std::string stackTrace() {
  std::string s; int n = 0;
  for (auto it = stk.rbegin(); it != stk.rend() && n < 6; ++it, n++) {
    auto& f = **it; auto& c = f.fn->code[f.pc ? f.pc - 1 : 0]; s += dem(f.fn->F->getName().str()).substr(0, 90);
    if (auto& dl = c.I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
    s += " < ";
  }
  return s;
}
static void emitCandidate(const std::string& label, const std::vector<z3::expr>& extra, const std::vector<u32>& evars, const char* kind) {
  SH->violations++;
  u64 slot = SH->candSlots++;
  if (slot < (u64)gMaxCand) {
    Model m; bool approx, unk;
    bool ok = fullModel(extra, evars, m, approx, unk);
    if (!ok) {
      SH->violations--; SH->candSlots--;
      if (unk) SH->undecided++;  // no model within the resource limit
      else { SH->infeasible++; if (!strcmp(kind, "check")) SH->discharged++; }  // the path condition itself has no model
      return;
    }
    std::string s = "{\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"approx\":" + (approx ? "true" : "false") + ",\"stack\":\"" + jesc(stackTrace()) + "\",\"inputs\":" + inputsJson(m) + "}\n";
    appendFile("candidates.jsonl", s);
  }
  if (SH->violations.load() >= (u64)gMaxCand * 3) SH->stop = 1;
}
static void emitWitness() {
  u64 k = SH->completed.load();
  if (SH->witnesses.load() >= (u64)gWitness) return;
  // spread: the first few, then every so often
  if (k > 8 && (k * 2654435761u + gSeed) % 7 != 0) return;
  SH->witnesses++;
  Model m; bool approx, unk;
  if (!fullModel({}, {}, m, approx, unk, true) || approx) { SH->witnesses--; return; }
  bool rounded = gPathRounded; for (auto& v : gVars) if (v.rounding) rounded = true;
  std::string s = std::string("{\"rounded\":") + (rounded ? "true" : "false") + ",\"inputs\":" + inputsJson(m) + ",\"obs\":[";
  bool first = true;
  for (auto& o : gObs) { std::string h; bool ex; if (!evalVal(o.v, o.kind, m, h, ex)) { h = "?"; ex = false; } s += std::string(first ? "" : ",") + "[\"" + jesc(o.name) + "\",\"" + o.kind + "\",\"" + h + "\"," + (ex ? "1" : "0") + "]"; first = false; }
  s += "]}\n";
  appendFile("witnesses.jsonl", s);
}
static void writeSummary();
[[noreturn]] static void finishPathX(const char* why) {
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  u64 rss = (u64)ru.ru_maxrss; u64 cur = SH->maxrss_kb.load(); while (rss > cur && !SH->maxrss_kb.compare_exchange_weak(cur, rss)) {}
  if (gTrace) { fprintf(stderr, "[%d] path end: %s (pc %zu)\n", getpid(), why, gPC.size()); }
  SH->paths++;
  if (!strcmp(why, "stopped")) SH->timedout++;
  // the parent token of a synchronous child goes back to the waiting parent
  if (!amSyncChild) SH->running--;
  SH->live--;
  if (!isRoot) _exit(0);
  for (;;) {
    if (SH->live.load() <= 0) break;
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; SH->live--; SH->running--; } continue; }
    if (p < 0 && errno == ECHILD && SH->live.load() > 0) { usleep(2000); if (waitpid(-1, &st, WNOHANG) < 0 && SH->live.load() > 0) { SH->crashed += SH->live.load(); break; } continue; }
    if (elapsed() > gTimeLimit) SH->stop = 1;
    if (elapsed() > gTimeLimit + 60) { SH->crashed += SH->live.load(); break; }
    usleep(500);
  }
  writeSummary();
  fflush(nullptr);
  _exit(0);
}
static void finishPath(const char* why) { finishPathX(why); }

// ---------------------------------------------------------------- builtins
using BF = std::function<Val(std::vector<Val>&, CInst&)>;
static std::unordered_map<std::string, BF>* BI;
struct CppThrow { u64 exc; };
static u64 A(const Val& v) { return concretize(v, 64); }
static Sym condOf(const Val& v, unsigned w) {
  if (v.undef) throw Violation{"uninitialised value used in a condition"};
  if (!v.s) return mk(Z->bool_val((v.lo & maskb(w)) != 0), KBOOL, 1, {});
  if (v.s->k == KBOOL) return v.s;
  if (v.s->boolOrigin) return v.s->boolOrigin;
  Sym b = toBV(v, w);
  return mk((b->e != Z->bv_val(0, w)).simplify(), KBOOL, 1, b->vars);
}
static Val loadChk(u64 a, unsigned n) { chk(a, n, false, "read"); return loadVal(a, n); }
static Val memcmpVal(u64 a, u64 b, u64 n) {
  if (!n) return cval(0);
  chk(a, n, false, "read"); chk(b, n, false, "read");
  if (!memchr(shadowOf(a), 2, n) && !memchr(shadowOf(b), 2, n)) {
    for (u64 i = 0; i < n; i++) {
      if (shadowOf(a)[i] == 0 || shadowOf(b)[i] == 0) throw Violation{"uninitialised memory compared"};
      int d = (int)((u8*)a)[i] - (int)((u8*)b)[i]; if (d) return cval((u32)d);
    }
    return cval(0);
  }
  z3::expr e = Z->bv_val(0, 32); std::vector<u32> vars;
  for (i64 i = (i64)n - 1; i >= 0; i--) {
    Val x = loadVal(a + i, 1), y = loadVal(b + i, 1);
    if (x.undef || y.undef) throw Violation{"uninitialised memory compared"};
    Sym p = toBV(x, 8), q = toBV(y, 8);
    vars = uni(vars, uni(p->vars, q->vars));
    if (!x.s && !y.s) { if (x.lo != y.lo) e = Z->bv_val((int)x.lo - (int)y.lo, 32); continue; }
    e = z3::ite(p->e == q->e, e, z3::zext(p->e, 24) - z3::zext(q->e, 24));
  }
  return fin(mk(e.simplify(), KBV, 32, vars));
}
static u64 doFree(u64 p, const char* what) {
  if (!p) return 0;
  Obj* o = findObj(p);
  if (!o || o->base != p || o->kind != 0) throw MemError{std::string(what) + " of a pointer that is not a live allocation"};
  if (!o->alive) throw MemError{std::string("double ") + what};
  o->alive = false;
  if (gReuse && o->size) { auto& fr = gFreed[sizeClass(o->size)]; if (fr.size() < 7) fr.push_back(p); }
  return 0;
}
static void recordReach(const std::string& l) { SH->lreach[labelIdx(l)]++; }
static void doCheck(const Sym& c, const std::string& label) {
  SH->checks++; int li = labelIdx(label); SH->lchecks[li]++;
  z3::expr e = c->e.simplify();
  if (e.is_true()) { SH->checks_trivial++; SH->discharged++; return; }
  SH->checks_sym++;
  if (e.is_false()) { emitCandidate(label, {}, {}, "check"); throw PathEnd{"check failed"}; }
  z3::expr ne = (!e).simplify();
  auto q = queryWith(ne, c->vars, gRlimit * 2);
  if (q.r == UNSAT) { SH->discharged++; addPC(e, c->vars); return; }
  if (q.r == SAT) emitCandidate(label, {ne}, c->vars, "check"); else SH->undecided++;
  // continue on the inputs for which it holds
  auto q2 = queryWith(e, c->vars);
  if (q2.r == UNSAT) throw PathEnd{"check always fails here"};
  updateAssign(q2); addPC(e, c->vars);
}
static void doAssume(const Sym& c) {
  z3::expr e = c->e.simplify();
  if (e.is_true()) return;
  if (e.is_false()) { SH->assumed_away++; throw PathEnd{"assume"}; }
  int mv = evalUnder(e, c->vars);
  if (mv == 1) { addPC(e, c->vars); return; }
  auto q = queryWith(e, c->vars);
  if (q.r == UNSAT) { SH->assumed_away++; throw PathEnd{"assume"}; }
  updateAssign(q); addPC(e, c->vars);
}
static Val exprIte(const Sym& c, const Val& a, const Val& b, Type* t) {
  z3::expr e = c->e; if (e.is_true()) return a; if (e.is_false()) return b;
  return symIte(c, a, b, t);
}
static Sym cmpD(FCmpInst::Predicate p, const Val& a, const Val& b) {
  if (!a.s && !b.s) {
    double x = asD(a.lo), y = asD(b.lo); bool r = p == FCmpInst::FCMP_OLT ? x < y : p == FCmpInst::FCMP_OGT ? x > y : p == FCmpInst::FCMP_OEQ ? x == y : false;
    return mk(Z->bool_val(r), KBOOL, 1, {});
  }
  Val v = fpCmp(p, a, b); return toBool(v);
}
static std::vector<u32> gNoVars;

static void initBuiltins() {
  BI = new std::unordered_map<std::string, BF>();
  auto& B = *BI;
  auto D = Type::getDoubleTy(M->getContext());
  // --- harness API
  B["sx_double"] = [](std::vector<Val>& a, CInst&) {
    std::string n = cstrAt(a[0].lo) + "#" + std::to_string(gInputs.size());
    z3::expr e = Z->bv_const(n.c_str(), 64); u32 id = newVar(e, n, KBV, 64, true, -1);
    Sym b = mk(e, KBV, 64, {id}); Val bvv = sv(b); Sym f = toFP(bvv);
    gAssign->emplace(id, Z->bv_val(0, 64));
    gInputs.push_back({n, 'd', sv(f), 0, false, (int)id}); return sv(f);
  };
  B["sx_real"] = [](std::vector<Val>& a, CInst&) {
    std::string n = cstrAt(a[0].lo) + "#" + std::to_string(gInputs.size());
    double lo = asD(a[1].lo), hi = asD(a[2].lo); int sc = (int)a[3].lo;
    z3::expr e = Z->real_const(n.c_str()); u32 id = newVar(e, n, KREAL, 64, true, sc);
    gAssign->emplace(id, realConst(a[1].lo).first);
    addPC(e >= realConst(a[1].lo).first, {id}); addPC(e <= realConst(a[2].lo).first, {id});
    Val v = sv(mkReal(e, {id}, std::max(std::fabs(lo), std::fabs(hi)), sc));
    gInputs.push_back({n, 'd', v, a[1].lo, false, (int)id}); return v;
  };
  auto intIn = [](unsigned bits) { return [bits](std::vector<Val>& a, CInst&) {
    std::string n = cstrAt(a[0].lo) + "#" + std::to_string(gInputs.size());
    z3::expr e = Z->bv_const(n.c_str(), bits); u32 id = newVar(e, n, KBV, bits, true, -1);
    gAssign->emplace(id, Z->bv_val(0, bits));
    Val v = sv(mk(e, KBV, bits, {id})); gInputs.push_back({n, 'i', v, 0, false, (int)id}); return v; }; };
  B["sx_u64"] = intIn(64); B["sx_u32"] = intIn(32); B["sx_byte"] = intIn(8);
  B["sx_choose"] = [](std::vector<Val>& a, CInst&) {
    std::string nm = cstrAt(a[0].lo); u64 n = a[1].lo; u64 pick = n - 1;
    if (n == 0) throw PathEnd{"empty choice"};
    for (u64 i = 0; i + 1 < n; i++) if (forkPath()) { pick = i; break; }
    gInputs.push_back({nm + "#" + std::to_string(gInputs.size()), 'i', cval(pick), pick, true, -1});
    return cval(pick);
  };
  B["sx_assume"] = [](std::vector<Val>& a, CInst&) { doAssume(condOf(a[0], 32)); return Val(); };
  B["sx_check"] = [](std::vector<Val>& a, CInst&) { doCheck(condOf(a[0], 32), cstrAt(a[1].lo)); return Val(); };
  B["sx_reach"] = [](std::vector<Val>& a, CInst&) { recordReach(cstrAt(a[0].lo)); return Val(); };
  B["sx_min"] = [D](std::vector<Val>& a, CInst&) { return exprIte(cmpD(FCmpInst::FCMP_OLT, a[1], a[0]), a[1], a[0], D); };
  B["sx_max"] = [D](std::vector<Val>& a, CInst&) { return exprIte(cmpD(FCmpInst::FCMP_OGT, a[1], a[0]), a[1], a[0], D); };
  B["sx_ite"] = [D](std::vector<Val>& a, CInst&) { return exprIte(condOf(a[0], 32), a[1], a[2], D); };
  B["sx_same"] = [](std::vector<Val>& a, CInst&) {
    if (a[0].undef || a[1].undef) throw Violation{"uninitialised value compared"};
    if (!a[0].s && !a[1].s) return cval((u64)(a[0].lo == a[1].lo || (asD(a[0].lo) == 0 && asD(a[1].lo) == 0 && false)));
    if (isRealV(a[0]) || isRealV(a[1])) { if (isSpecial(a[0]) || isSpecial(a[1])) return cval(0); Sym x = toReal(a[0]), y = toReal(a[1]); Sym b = mk((x->e == y->e).simplify(), KBOOL, 1, uni(x->vars, y->vars)); return fin(symZextBool(b, 32)); }
    Sym x = toFP(a[0]), y = toFP(a[1]);
    z3::expr eq(*Z);
    if ((x->bvOrigin || !a[0].s) && (y->bvOrigin || !a[1].s)) { Sym p = toBV(a[0], 64), q = toBV(a[1], 64); eq = p->e == q->e; }
    else eq = x->e == y->e;  // structural FP equality (NaN = NaN, -0 != +0)
    Sym b = mk(eq.simplify(), KBOOL, 1, uni(x->vars, y->vars)); return fin(symZextBool(b, 32));
  };
  B["sx_fork"] = [](std::vector<Val>& a, CInst&) { return cval(decide(condOf(a[0], 32)) ? 1 : 0); };
  B["sx_obs_d"] = [](std::vector<Val>& a, CInst&) { gObs.push_back({cstrAt(a[0].lo), 'd', a[1]}); return Val(); };
  B["sx_obs_i"] = [](std::vector<Val>& a, CInst&) { gObs.push_back({cstrAt(a[0].lo), 'i', a[1]}); return Val(); };
  B["sx_symbolic"] = [](std::vector<Val>&, CInst&) { return cval(1); };
  B["sx_is_conc"] = [](std::vector<Val>& a, CInst&) { return cval(a[0].s ? 0 : 1); };
  B["sx_bytes_conc"] = [](std::vector<Val>& a, CInst&) { u64 p = A(a[0]), n = A(a[1]); if (n) chk(p, n, false, "read"); for (u64 i = 0; i < n; i++) if (shadowOf(p)[i] != 1) return cval(0); return cval(1); };
  B["sx_strtod_conc"] = [](std::vector<Val>& a, CInst&) { u64 p = A(a[0]), n = A(a[1]); std::string s((char*)p, n); return cval(asB(strtod(s.c_str(), nullptr))); };
  B["sx_some"] = [](std::vector<Val>& a, CInst&) {  // some value the number can have
    if (a[0].undef) throw Violation{"uninitialised value used"};
    if (!a[0].s) return a[0];
    Sym s = a[0].s;
    auto get = [&](double& d) -> bool {
      z3::expr_vector from(*Z), to(*Z);
      for (u32 x : s->vars) { auto it = gAssign->find(x); if (it == gAssign->end()) return false; from.push_back(gVars[x].e); to.push_back(it->second); }
      z3::expr x = s->e; x = x.substitute(from, to).simplify();
      if (s->k == KFP) { x = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, x)).simplify(); u64 b; if (!numOf(x, b)) return false; d = asD(b); return true; }
      if (s->k == KREAL) { Z3_string t = nullptr; if (!x.is_numeral()) return false; t = Z3_get_numeral_decimal_string(*Z, x, 40); d = strtod(t, nullptr); return true; }
      u64 b; if (!numOf(x, b)) return false; d = asD(b); return true; };
    double d;
    if (gAssignOK && get(d)) return cval(asB(d));
    auto q = queryWith(Z->bool_val(true), s->vars); if (q.r != SAT) unsup("cannot pick a value");
    updateAssign(q); if (!get(d)) unsup("cannot pick a value");
    return cval(asB(d)); };
  B["sx_format_double"] = [](std::vector<Val>& a, CInst&) { // (buffer, size, format, precision, value): one conversion of a concrete number
    u64 p = A(a[0]), n = A(a[1]); std::string f = cstrAt(a[2].lo); char t[2000];
    int k = f.find('*') != std::string::npos ? snprintf(t, sizeof t, f.c_str(), (int)a[3].lo, asD(a[4].lo)) : snprintf(t, sizeof t, f.c_str(), asD(a[4].lo));
    if (k < 0 || (u64)k + 1 > n || (size_t)k + 1 > sizeof t) unsup("formatted number too long");
    chk(p, (u64)k + 1, true, "write"); storeBytes(p, (u8*)t, (u64)k + 1); return cval((u64)k); };
  B["sx_one_value"] = [](std::vector<Val>&, CInst&) -> Val { unsup("a number was turned into text: only some of its values were followed"); };
  B["sx_unsupported_number"] = [](std::vector<Val>&, CInst&) -> Val { unsup("symbolic numeral outside the exactly modelled range"); };
  // --- memory
  auto mal = [](std::vector<Val>& a, CInst&) { return cval(allocObj(A(a[0]), 0, "heap")); };
  B["malloc"] = mal; B["_Znwm"] = mal; B["_Znam"] = mal;
  B["_ZnwmRKSt9nothrow_t"] = mal; B["_ZnamRKSt9nothrow_t"] = mal;
  B["_ZnwmSt11align_val_t"] = mal;
  B["calloc"] = [](std::vector<Val>& a, CInst&) { return cval(allocObj(A(a[0]) * A(a[1]), 0, "heap", true)); };
  B["realloc"] = [](std::vector<Val>& a, CInst&) { u64 p = A(a[0]), n = A(a[1]); u64 q = allocObj(n, 0, "heap"); if (p) { Obj* o = findObj(p); if (!o || o->base != p) throw MemError{"realloc of a bad pointer"}; copyMem(q, p, std::min(n, o->size)); doFree(p, "realloc"); } return cval(q); };
  auto fre = [](std::vector<Val>& a, CInst&) { doFree(A(a[0]), "free"); return Val(); };
  B["free"] = fre; B["_ZdlPv"] = fre; B["_ZdlPvm"] = fre; B["_ZdaPv"] = fre; B["_ZdaPvm"] = fre; B["_ZdlPvSt11align_val_t"] = fre; B["_ZdlPvmSt11align_val_t"] = fre; B["_ZdlPvRKSt9nothrow_t"] = fre;
  auto cpy = [](std::vector<Val>& a, CInst&) { u64 d = A(a[0]), s = A(a[1]), n = A(a[2]); if (n) { chk(d, n, true, "write"); chk(s, n, false, "read"); copyMem(d, s, n); } return cval(d); };
  B["memcpy"] = cpy; B["memmove"] = cpy;
  B["memset"] = [](std::vector<Val>& a, CInst&) { u64 d = A(a[0]), n = A(a[2]); if (n) { chk(d, n, true, "write"); std::vector<u8> t(n, (u8)concretize(a[1], 32)); storeBytes(d, t.data(), n); } return cval(d); };
  B["memcmp"] = [](std::vector<Val>& a, CInst&) { return memcmpVal(A(a[0]), A(a[1]), A(a[2])); };
  B["bcmp"] = B["memcmp"];
  B["strlen"] = [](std::vector<Val>& a, CInst&) {
    u64 p = A(a[0]), n = 0;
    for (;; n++) { Val v = loadChk(p + n, 1); if (v.undef) throw Violation{"uninitialised memory read by strlen"}; if (!v.s) { if (!(v.lo & 255)) break; } else { Sym b = toBV(v, 8); if (decideE(b->e == Z->bv_val(0, 8), b->vars)) break; } }
    return cval(n); };
  B["memchr"] = [](std::vector<Val>& a, CInst&) {
    u64 p = A(a[0]), n = A(a[2]); u64 c = concretize(a[1], 32) & 255;
    for (u64 i = 0; i < n; i++) { Val v = loadChk(p + i, 1); if (v.undef) throw Violation{"uninitialised memory read by memchr"}; if (!v.s) { if ((v.lo & 255) == c) return cval(p + i); } else { Sym b = toBV(v, 8); if (decideE(b->e == Z->bv_val((unsigned)c, 8), b->vars)) return cval(p + i); } }
    return cval(0); };
  // --- C++ runtime
  B["__cxa_allocate_exception"] = [](std::vector<Val>& a, CInst&) { return cval(allocObj(A(a[0]), 0, "exception")); };
  B["__cxa_free_exception"] = fre;
  B["__cxa_throw"] = [](std::vector<Val>& a, CInst&) -> Val { u64 e = A(a[0]); excs[e] = ExcObj{a[1].lo, a[2].lo, 0, e, false}; throw CppThrow{e}; };
  B["__cxa_get_exception_ptr"] = [](std::vector<Val>& a, CInst&) { return cval(excs.at(A(a[0])).adj); };
  B["__cxa_begin_catch"] = [](std::vector<Val>& a, CInst&) { u64 e = A(a[0]); auto& x = excs.at(e); x.handlers++; x.rethrown = false; caught.push_back(e); return cval(x.adj); };
  B["__cxa_rethrow"] = [](std::vector<Val>&, CInst&) -> Val { if (caught.empty()) throw Violation{"std::terminate: rethrow without exception"}; u64 e = caught.back(); excs.at(e).rethrown = true; throw CppThrow{e}; };
  B["__cxa_guard_acquire"] = [](std::vector<Val>& a, CInst&) { u64 g = A(a[0]); chk(g, 8, false, "read"); return cval(*(u8*)g == 0 ? 1 : 0); };
  B["__cxa_guard_release"] = [](std::vector<Val>& a, CInst&) { u64 g = A(a[0]); u64 one = 1; storeBytes(g, &one, 8); return Val(); };
  B["__cxa_guard_abort"] = [](std::vector<Val>&, CInst&) { return Val(); };
  B["__cxa_atexit"] = [](std::vector<Val>&, CInst&) { return cval(0); };
  B["__cxa_thread_atexit"] = B["__cxa_atexit"]; B["atexit"] = B["__cxa_atexit"];
  auto viol = [](const char* w) { return [w](std::vector<Val>&, CInst&) -> Val { throw Violation{w}; }; };
  B["abort"] = viol("abort called"); B["_ZSt9terminatev"] = viol("std::terminate called"); B["__clang_call_terminate"] = viol("std::terminate: exception leaves a noexcept function");
  B["__cxa_pure_virtual"] = viol("pure virtual call"); B["__assert_fail"] = viol("assertion failed"); B["exit"] = viol("exit called"); B["_exit"] = viol("_exit called");
  B["__cxa_call_unexpected"] = viol("std::unexpected called"); B["__stack_chk_fail"] = viol("stack smashing"); B["__cxa_bad_cast"] = viol("bad cast"); B["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = viol("libstdc++ assertion failed");
  B["_ZNSt8ios_base4InitC1Ev"] = [](std::vector<Val>&, CInst&) { return Val(); };
  B["_ZNSt8ios_base4InitD1Ev"] = B["_ZNSt8ios_base4InitC1Ev"];
  static u64 errnoAddr = 0;
  B["__errno_location"] = [](std::vector<Val>&, CInst&) { if (!errnoAddr) { errnoAddr = allocObj(4, 2, "errno", true); } return cval(errnoAddr); };
  B["pthread_self"] = [](std::vector<Val>&, CInst&) { return cval(1); };
  for (const char* n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_key_create", "pthread_once"}) B[n] = [](std::vector<Val>&, CInst&) { return cval(0); };
  // --- math
  auto m1 = [](double (*f)(double)) { return [f](std::vector<Val>& a, CInst&) -> Val { if (a[0].s) unsup("math function on a symbolic value"); return cval(asB(f(asD(a[0].lo)))); }; };
  B["floor"] = m1(std::floor); B["ceil"] = m1(std::ceil); B["round"] = m1(std::round); B["trunc"] = m1(std::trunc); B["sqrt"] = m1(std::sqrt); B["exp"] = m1(std::exp); B["log"] = m1(std::log); B["log2"] = m1(std::log2); B["log10"] = m1(std::log10); B["nearbyint"] = m1(std::nearbyint); B["rint"] = m1(std::rint);
  auto m2 = [](double (*f)(double, double)) { return [f](std::vector<Val>& a, CInst&) -> Val { if (a[0].s || a[1].s) unsup("math function on a symbolic value"); return cval(asB(f(asD(a[0].lo), asD(a[1].lo)))); }; };
  B["pow"] = m2(std::pow); B["nextafter"] = m2(std::nextafter); B["fmod"] = m2(std::fmod);
  B["fabs"] = [](std::vector<Val>& a, CInst&) { return fpAbs(a[0]); };
  // std::fmin/fmax: NaN-ignoring
  auto fminmax = [D](bool mn) { return [D, mn](std::vector<Val>& a, CInst&) -> Val {
    if (!a[0].s && !a[1].s) return cval(asB(mn ? std::fmin(asD(a[0].lo), asD(a[1].lo)) : std::fmax(asD(a[0].lo), asD(a[1].lo))));
    if (!isRealV(a[0]) && !isRealV(a[1])) {
      Val n0 = fpCmp(FCmpInst::FCMP_UNO, a[0], a[0]), n1 = fpCmp(FCmpInst::FCMP_UNO, a[1], a[1]);
      if (decide(toBool(n0))) return a[1];
      if (decide(toBool(n1))) return a[0];
    } else { if (isSpecial(a[0]) && std::isnan(asD(a[0].lo))) return a[1]; if (isSpecial(a[1]) && std::isnan(asD(a[1].lo))) return a[0]; }
    return exprIte(cmpD(mn ? FCmpInst::FCMP_OLT : FCmpInst::FCMP_OGT, a[1], a[0]), a[1], a[0], D); }; };
  B["fmin"] = fminmax(true); B["fmax"] = fminmax(false);
}

// ---------------------------------------------------------------- instruction semantics
static u16 ubmask(unsigned w) { unsigned n = (w + 7) / 8; return n >= 16 ? 0xFFFF : (u16)((1u << n) - 1); }
static Val undefV() { Val v; v.undef = 0xFFFF; return v; }
static bool boolish(const Val& v) { return v.s ? (v.s->k == KBV && (bool)v.s->boolOrigin) : (!v.undef && v.hi == 0 && v.lo <= 1); }
static Sym boolOf(const Val& v) { if (!v.s) return mk(Z->bool_val(v.lo & 1), KBOOL, 1, {}); return v.s->boolOrigin; }
static Val intBin(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (a.undef || b.undef) {
    if (op == Instruction::And) { if (!a.undef && !a.s && v128(a) == 0) return cval(0); if (!b.undef && !b.s && v128(b) == 0) return cval(0);
      // masking away undefined bytes
      if (!b.s && !b.undef && !a.s) { bool clean = true; for (unsigned k = 0; k < 16; k++) if ((a.undef >> k) & 1) { if ((u8)(v128(b) >> (8 * k))) clean = false; } if (clean) { Val r = cval128(v128(a) & v128(b)); return r; } } }
    if ((op == Instruction::Or) && !a.s && !b.s) { Val r = cval128(v128(a) | v128(b)); r.undef = a.undef | b.undef; return r; }
    if (op == Instruction::Shl && !b.s && !b.undef && !a.s && b.lo % 8 == 0) { Val r = cval128(v128(a) << b.lo); r.undef = (u16)(a.undef << (b.lo / 8)) & ubmask(w); return r; }
    if (op == Instruction::LShr && !b.s && !b.undef && !a.s && b.lo % 8 == 0) { Val r = cval128(v128(a) >> b.lo); r.undef = (u16)((a.undef & ubmask(w)) >> (b.lo / 8)); return r; }
    return undefV();
  }
  u128 msk = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
  if (!a.s && !b.s) {
    u128 x = v128(a) & msk, y = v128(b) & msk, r = 0;
    auto sx = [&](u128 v) -> i128 { u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); };
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: if (y >= w) return undefV(); r = x << (unsigned)y; break;
      case Instruction::LShr: if (y >= w) return undefV(); r = x >> (unsigned)y; break;
      case Instruction::AShr: if (y >= w) return undefV(); r = (u128)(sx(x) >> (unsigned)y); break;
      case Instruction::UDiv: if (!y) throw Violation{"integer division by zero"}; r = x / y; break;
      case Instruction::URem: if (!y) throw Violation{"integer division by zero"}; r = x % y; break;
      case Instruction::SDiv: if (!y) throw Violation{"integer division by zero"}; r = (u128)(sx(x) / sx(y)); break;
      case Instruction::SRem: if (!y) throw Violation{"integer division by zero"}; r = (u128)(sx(x) % sx(y)); break;
      default: unsup("int op");
    }
    return cval128(r & msk);
  }
  if (w == 1) {
    Sym x = toBool(a), y = toBool(b); z3::expr e(*Z); auto vars = uni(x->vars, y->vars);
    switch (op) { case Instruction::And: e = x->e && y->e; break; case Instruction::Or: e = x->e || y->e; break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: e = x->e != y->e; break; case Instruction::Mul: e = x->e && y->e; break; default: unsup("i1 op"); }
    return normBool(mk(e.simplify(), KBOOL, 1, vars));
  }
  if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && boolish(a) && boolish(b)) {
    Sym x = boolOf(a), y = boolOf(b); auto vars = uni(x->vars, y->vars);
    z3::expr e = op == Instruction::And ? (x->e && y->e) : op == Instruction::Or ? (x->e || y->e) : (x->e != y->e);
    e = e.simplify(); if (e.is_true()) return cval(1); if (e.is_false()) return cval(0);
    return sv(symZextBool(mk(e, KBOOL, 1, vars), w));
  }
  Sym x = toBV(a, w), y = toBV(b, w); auto vars = uni(x->vars, y->vars); z3::expr e(*Z);
  auto nz = [&] { if (!decideE(y->e != bvNum(0, w), y->vars)) throw Violation{"integer division by zero"}; };
  switch (op) {
    case Instruction::Add: e = x->e + y->e; break; case Instruction::Sub: e = x->e - y->e; break; case Instruction::Mul: e = x->e * y->e; break;
    case Instruction::And: e = x->e & y->e; break; case Instruction::Or: e = x->e | y->e; break; case Instruction::Xor: e = x->e ^ y->e; break;
    case Instruction::Shl: e = z3::shl(x->e, y->e); break; case Instruction::LShr: e = z3::lshr(x->e, y->e); break; case Instruction::AShr: e = z3::ashr(x->e, y->e); break;
    case Instruction::UDiv: nz(); e = z3::udiv(x->e, y->e); break; case Instruction::URem: nz(); e = z3::urem(x->e, y->e); break;
    case Instruction::SDiv: nz(); e = x->e / y->e; break; case Instruction::SRem: nz(); e = z3::srem(x->e, y->e); break;
    default: unsup("int op");
  }
  return fin(mk(e.simplify(), KBV, w, vars));
}
static Val intCmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (a.undef || b.undef) return undefV();
  u128 msk = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
  auto sx = [&](u128 v) -> i128 { u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); };
  if (!a.s && !b.s) {
    u128 x = v128(a) & msk, y = v128(b) & msk; bool r = false;
    switch (p) {
      case ICmpInst::ICMP_EQ: r = x == y; break; case ICmpInst::ICMP_NE: r = x != y; break;
      case ICmpInst::ICMP_UGT: r = x > y; break; case ICmpInst::ICMP_UGE: r = x >= y; break; case ICmpInst::ICMP_ULT: r = x < y; break; case ICmpInst::ICMP_ULE: r = x <= y; break;
      case ICmpInst::ICMP_SGT: r = sx(x) > sx(y); break; case ICmpInst::ICMP_SGE: r = sx(x) >= sx(y); break; case ICmpInst::ICMP_SLT: r = sx(x) < sx(y); break; case ICmpInst::ICMP_SLE: r = sx(x) <= sx(y); break;
    }
    return cval(r);
  }
  if (isRealV(a)) {  // sign-bit test on a real-mode double (negative zero is never produced in real mode)
    if (!b.s && p == ICmpInst::ICMP_SLT && v128(b) == 0) return realCmp(FCmpInst::FCMP_OLT, a, cval(0));
    if (!b.s && p == ICmpInst::ICMP_SGT && sx(v128(b)) == -1) return realCmp(FCmpInst::FCMP_OGE, a, cval(0));
    unsup("bit-level comparison of a real-mode double");
  }
  if (w == 1) {
    Sym x = toBool(a), y = toBool(b); auto vars = uni(x->vars, y->vars);
    z3::expr e(*Z); switch (p) { case ICmpInst::ICMP_EQ: e = x->e == y->e; break; case ICmpInst::ICMP_NE: e = x->e != y->e; break; case ICmpInst::ICMP_ULT: e = !x->e && y->e; break; case ICmpInst::ICMP_UGT: e = x->e && !y->e; break; default: unsup("i1 compare"); }
    return normBool(mk(e.simplify(), KBOOL, 1, vars));
  }
  if (boolish(a) && boolish(b) && (p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_NE)) {
    Sym x = boolOf(a), y = boolOf(b); auto vars = uni(x->vars, y->vars);
    z3::expr e = p == ICmpInst::ICMP_EQ ? (x->e == y->e) : (x->e != y->e); return normBool(mk(e.simplify(), KBOOL, 1, vars));
  }
  Sym x = toBV(a, w), y = toBV(b, w); auto vars = uni(x->vars, y->vars); z3::expr e(*Z);
  switch (p) {
    case ICmpInst::ICMP_EQ: e = x->e == y->e; break; case ICmpInst::ICMP_NE: e = x->e != y->e; break;
    case ICmpInst::ICMP_UGT: e = z3::ugt(x->e, y->e); break; case ICmpInst::ICMP_UGE: e = z3::uge(x->e, y->e); break; case ICmpInst::ICMP_ULT: e = z3::ult(x->e, y->e); break; case ICmpInst::ICMP_ULE: e = z3::ule(x->e, y->e); break;
    case ICmpInst::ICMP_SGT: e = x->e > y->e; break; case ICmpInst::ICMP_SGE: e = x->e >= y->e; break; case ICmpInst::ICMP_SLT: e = x->e < y->e; break; case ICmpInst::ICMP_SLE: e = x->e <= y->e; break;
    default: unsup("icmp");
  }
  return normBool(mk(e.simplify(), KBOOL, 1, vars));
}
static bool fcmpConc(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (p) {
    case FCmpInst::FCMP_OEQ: return !un && x == y; case FCmpInst::FCMP_OGT: return !un && x > y; case FCmpInst::FCMP_OGE: return !un && x >= y; case FCmpInst::FCMP_OLT: return !un && x < y; case FCmpInst::FCMP_OLE: return !un && x <= y; case FCmpInst::FCMP_ONE: return !un && x != y; case FCmpInst::FCMP_ORD: return !un; case FCmpInst::FCMP_UNO: return un;
    case FCmpInst::FCMP_UEQ: return un || x == y; case FCmpInst::FCMP_UGT: return un || x > y; case FCmpInst::FCMP_UGE: return un || x >= y; case FCmpInst::FCMP_ULT: return un || x < y; case FCmpInst::FCMP_ULE: return un || x <= y; case FCmpInst::FCMP_UNE: return un || x != y; case FCmpInst::FCMP_TRUE: return true; default: return false;
  }
}
static double concD(const Val& v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v.lo; memcpy(&f, &x, 4); return f; } return asD(v.lo); }
static z3::sort f32s() { return Z->fpa_sort<32>(); }
static Sym toFP32(const Val& v) {
  if (!v.s) { float f; u32 x = (u32)v.lo; memcpy(&f, &x, 4); return mk(z3::expr(*Z, Z3_mk_fpa_numeral_float(*Z, f, f32s())), KFP, 32, {}); }
  if (v.s->k == KFP && v.s->bits == 32) return v.s;
  if (v.s->k == KBV && v.s->bits == 32) { auto n = std::make_shared<SymNode>(z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, v.s->e, f32s())), KFP, 32); n->vars = v.s->vars; return n; }
  unsup("float value");
}
// Single precision. A real-mode number becomes the nearest multiple of the spacing at its magnitude, which is decided by forking.
static Val withBits(const Val& v, unsigned bits) { auto n = std::make_shared<SymNode>(*v.s); n->bits = bits; return sv(n); }
static Val realToFloat(const Val& a) {
  if (!a.s) { float f = (float)asD(a.lo); u32 x; memcpy(&x, &f, 4); return cval(x); }
  const Sym& x = a.s;
  if (x->scale >= 0 && x->scale < 120 && x->bound * std::ldexp(1.0, x->scale) <= 16777216.0) return withBits(a, 32);
  gPathRounded = true;
  auto p2 = [&](int k) { return k >= 0 ? Z->real_val(pow2str(k).c_str()) : Z->real_val(("1/" + pow2str(-k)).c_str()); };
  if (decideE(x->e == Z->real_val(0), x->vars)) return cval(0);
  bool neg = decideE(x->e < Z->real_val(0), x->vars);
  z3::expr m = neg ? -x->e : x->e;
  int top = std::ilogb(std::max(x->bound, 1e-300)), ex = top;
  if (top > 127) unsup("real-mode double to float: large");
  while (!decideE(m >= p2(ex), x->vars)) if (--ex < top - 60 || ex < -120) unsup("real-mode double to float: small");
  z3::expr n(*Z, Z3_mk_int2real(*Z, z3::expr(*Z, Z3_mk_real2int(*Z, m * p2(23 - ex) + Z->real_val("1/2")))));
  z3::expr q = n * p2(ex - 23);
  Sym r = mkReal(neg ? -q : q, x->vars, x->bound * (1 + 1e-6), std::max(0, 23 - ex));
  return withBits(sv(r), 32);
}
static Val floatReal(const Val& a) { return a.s ? withBits(a, 64) : cval(asB(concD(a, 32))); }
static Val toF64(const Val& a) { if (isRealV(a) || !a.s) return floatReal(a); Sym x = toFP32(a); return sv(mk(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), x->e, Z->fpa_sort<64>())), KFP, 64, x->vars)); }
static Val floatBin(unsigned op, const Val& a, const Val& b) {
  if (isRealV(a) || isRealV(b)) return realToFloat(fpBin(op, toF64(a), toF64(b)));
  Sym x = toFP32(a), y = toFP32(b); Z3_ast r;
  switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(*Z, rne(), x->e, y->e); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(*Z, rne(), x->e, y->e); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(*Z, rne(), x->e, y->e); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(*Z, rne(), x->e, y->e); break;
    default: unsup("fp op");
  }
  return sv(mk(z3::expr(*Z, r), KFP, 32, uni(x->vars, y->vars)));
}
static Val castOp(CInst& c, const Val& a) {
  unsigned w = c.w, w2 = c.w2;
  if (a.undef) {
    if (c.op == Instruction::Trunc) { Val r = a; r.undef &= ubmask(w); if (!r.undef && !a.s) { r.hi = w > 64 ? r.hi : 0; r.lo &= maskb(w); } else if (r.undef) r.undef = r.undef; return r; }
    if (c.op == Instruction::ZExt) { Val r = a; r.undef &= ubmask(w2); return r; }
    if (c.op == Instruction::BitCast || c.op == Instruction::PtrToInt || c.op == Instruction::IntToPtr) return a;
    return undefV();
  }
  switch (c.op) {
    case Instruction::Trunc:
      if (!a.s) return cval128(w > 64 ? v128(a) : (u128)(a.lo & maskb(w)));
      if (a.s->boolOrigin) { if (w == 1) return normBool(a.s->boolOrigin); return sv(symZextBool(a.s->boolOrigin, w)); }
      { Sym x = toBV(a, w2); z3::expr e = x->e.extract(w - 1, 0).simplify(); if (w == 1) return normBool(mk((e == Z->bv_val(1, 1)).simplify(), KBOOL, 1, x->vars)); return fin(mk(e, KBV, w, x->vars)); }
    case Instruction::ZExt:
      if (!a.s) return cval128(w2 > 64 ? v128(a) : (u128)(a.lo & maskb(w2)));
      if (a.s->k == KBOOL) return sv(symZextBool(a.s, w));
      if (a.s->boolOrigin) return sv(symZextBool(a.s->boolOrigin, w));
      { Sym x = toBV(a, w2); return fin(mk(z3::zext(x->e, w - w2), KBV, w, x->vars)); }
    case Instruction::SExt:
      if (!a.s) { i128 v = w2 > 64 ? (i128)v128(a) : (i128)sext64(a.lo, w2); u128 msk = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); return cval128((u128)v & msk); }
      if (a.s->k == KBOOL) return fin(mk(z3::ite(a.s->e, bvNum(w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1), w), bvNum(0, w)), KBV, w, a.s->vars));
      { Sym x = toBV(a, w2); return fin(mk(z3::sext(x->e, w - w2), KBV, w, x->vars)); }
    case Instruction::BitCast: return a;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (a.s) { return cval(concretize(a, 64)); } { Val r = a; if (w < 64) r.lo &= maskb(w); return r; }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = c.op == Instruction::SIToFP;
      if (!a.s) {
        double d;
        if (w2 <= 64) d = sg ? (double)sext64(a.lo, w2) : (double)(a.lo & maskb(w2)); else d = sg ? (double)(i128)v128(a) : (double)v128(a);
        if (w == 32) { float f = w2 <= 64 ? (sg ? (float)sext64(a.lo, w2) : (float)(a.lo & maskb(w2))) : (float)d; u32 x; memcpy(&x, &f, 4); return cval(x); }
        return cval(asB(d));
      }
      Sym x = toBV(a, w2);
      if (w == 32) return sv(mk(z3::expr(*Z, sg ? Z3_mk_fpa_to_fp_signed(*Z, rne(), x->e, f32s()) : Z3_mk_fpa_to_fp_unsigned(*Z, rne(), x->e, f32s())), KFP, 32, x->vars));
      return sv(mk(z3::expr(*Z, sg ? Z3_mk_fpa_to_fp_signed(*Z, rne(), x->e, Z->fpa_sort<64>()) : Z3_mk_fpa_to_fp_unsigned(*Z, rne(), x->e, Z->fpa_sort<64>())), KFP, 64, x->vars));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = c.op == Instruction::FPToSI;
      if (!a.s) { double d = concD(a, w2); if (std::isnan(d) || std::fabs(d) >= std::ldexp(1.0, w)) return undefV(); if (w > 64) return cval128(sg ? (u128)(i128)d : (u128)d); if (sg) { if (d < -std::ldexp(1.0, w - 1) - 1 || d >= std::ldexp(1.0, w - 1)) return undefV(); return cval((u64)(i64)d & maskb(w)); } if (d <= -1) return undefV(); return cval((u64)d & maskb(w)); }
      if (isRealV(a)) unsup("real-mode double to integer");
      if (w2 == 64 && (w == 32 || w == 64)) {  // by its bits: far easier to solve than the general conversion; out of range as x86 does it
        Sym b = toBV(a, 64); z3::expr B = b->e;
        z3::expr ex = (z3::lshr(B, 52) & 0x7ff), m = z3::shl((B & Z->bv_val((uint64_t)0xfffffffffffffULL, 64)) | Z->bv_val((uint64_t)1 << 52, 64), 11);
        z3::expr mag = z3::ite(z3::ult(ex, Z->bv_val(1023, 64)), Z->bv_val(0, 64), z3::lshr(m, Z->bv_val(1086, 64) - ex));
        unsigned lim = 1023 + w - (sg ? 1 : 0);  // the first exponent that does not fit
        z3::expr r = z3::ite(B.extract(63, 63) == Z->bv_val(1, 1), -mag, mag);
        if (sg || w == 64) r = z3::ite(z3::ult(ex, Z->bv_val(lim, 64)), r, Z->bv_val((uint64_t)1 << (w - 1), 64));
        return fin(mk(w == 64 ? r : r.extract(31, 0), KBV, w, b->vars));
      }
      Sym x = w2 == 32 ? toFP32(a) : toFP(a);
      return fin(mk(z3::expr(*Z, sg ? Z3_mk_fpa_to_sbv(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), x->e, w) : Z3_mk_fpa_to_ubv(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), x->e, w)), KBV, w, x->vars));
    }
    case Instruction::FPTrunc:
      if (w != 32 || w2 != 64) unsup("fptrunc");
      if (!a.s) { float f = (float)asD(a.lo); u32 x; memcpy(&x, &f, 4); return cval(x); }
      if (isRealV(a)) return realToFloat(a);
      { Sym x = toFP(a); return sv(mk(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), x->e, f32s())), KFP, 32, x->vars)); }
    case Instruction::FPExt:
      if (w != 64 || w2 != 32) unsup("fpext");
      if (!a.s) return cval(asB(concD(a, 32)));
      return toF64(a);
  }
  unsup("cast");
}
static Val loadTyped(u64 a, Type* t) {
  if (t->isAggregateType()) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) v.agg->push_back(loadTyped(a + L->getElementOffset(i), s->getElementType(i))); }
    else { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) v.agg->push_back(loadTyped(a + i * es, t->getArrayElementType())); }
    return v;
  }
  if (t->isVectorTy() || t->isX86_FP80Ty() || t->isFP128Ty()) unsup("load of an unsupported type");
  unsigned n = (unsigned)DL->getTypeStoreSize(t);
  if (n > 16) unsup("wide load");
  Val v = loadVal(a, n);
  if (v.s) {
    if (t->isIntegerTy() && t->getIntegerBitWidth() != n * 8) { CInst c; c.op = Instruction::Trunc; c.w = t->getIntegerBitWidth(); c.w2 = n * 8; return castOp(c, v); }
    if (t->isDoubleTy() && v.s->k == KBV) return sv(toFP(v));
    if (t->isFloatTy() && v.s->k == KBV) return sv(toFP32(v));
    if (t->isIntegerTy() && v.s->k == KFP) { Sym b = v.s->bits == 64 ? toBV(v, 64) : mk(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v.s->e)), KBV, 32, v.s->vars); return sv(b); }
    if (t->isPointerTy()) return cval(concretize(v, 64));
  } else if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) v.lo &= maskb(t->getIntegerBitWidth());
  return v;
}
static void storeTyped(u64 a, const Val& v, Type* t) {
  if (t->isAggregateType()) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeTyped(a + L->getElementOffset(i), v.agg ? v.agg->at(i) : undefV(), s->getElementType(i)); }
    else { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) storeTyped(a + i * es, v.agg ? v.agg->at(i) : undefV(), t->getArrayElementType()); }
    return;
  }
  if (t->isVectorTy() || t->isX86_FP80Ty() || t->isFP128Ty()) unsup("store of an unsupported type");
  unsigned n = (unsigned)DL->getTypeStoreSize(t);
  if (n > 16) unsup("wide store");
  Val w = v;
  if (w.s && w.s->k == KBV && !w.s->boolOrigin && w.s->bits < n * 8) w = sv(mk(z3::zext(w.s->e, n * 8 - w.s->bits), KBV, n * 8, w.s->vars));
  if (w.s && w.s->boolOrigin && w.s->bits != n * 8) w = sv(symZextBool(w.s->boolOrigin, n * 8));
  if (w.undef && !w.s) w.undef &= ubmask(n * 8);
  storeVal(a, w, n);
}
static void doReturn(const Val& v, bool has);
static void callFn(Function* F, std::vector<Val>& args, CInst& c);

static Val intrinsic(CInst& c, std::vector<Val>& a) {
  auto any = [&] { for (auto& x : a) if (x.undef) return true; return false; };
  auto ow = [&](unsigned k) { return cast<CallBase>(c.I)->getArgOperand(k)->getType()->getIntegerBitWidth(); };
  switch (c.intr) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::var_annotation: return Val();
    case Intrinsic::vastart: { // every variable argument in the overflow area: the register areas are used up
      Frame& f = *stk.back(); u64 n = f.va.size(), area = allocObj(n ? n * 8 : 8, 1, "variable arguments"), ap = A(a[0]); chk(ap, 24, true, "write");
      for (u64 k = 0; k < n; k++) { Type* t = f.vt[k]; if (!t || DL->getTypeStoreSize(t) > 8) unsup("variable argument type"); storeTyped(area + 8 * k, f.va[k], t); }
      Type *i32 = Type::getInt32Ty(M->getContext()), *i64t = Type::getInt64Ty(M->getContext());
      storeTyped(ap, cval(48), i32); storeTyped(ap + 4, cval(176), i32); storeTyped(ap + 8, cval(area), i64t); storeTyped(ap + 16, cval(0), i64t); return Val(); }
    case Intrinsic::vaend: return Val();
    case Intrinsic::vacopy: { u64 d = A(a[0]), s = A(a[1]); chk(d, 24, true, "write"); chk(s, 24, false, "read"); copyMem(d, s, 24); return Val(); }
    case Intrinsic::stacksave: return cval(0);
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw Violation{"trap (unreachable code reached)"};
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = A(a[2]); if (n) { u64 d = A(a[0]), s = A(a[1]); chk(d, n, true, "write"); chk(s, n, false, "read"); copyMem(d, s, n); } return Val(); }
    case Intrinsic::memset: { u64 n = A(a[2]); if (n) { u64 d = A(a[0]); chk(d, n, true, "write"); if (a[1].undef) { clearCells(d, n); memset(shadowOf(d), 0, n); } else { std::vector<u8> t(n, (u8)concretize(a[1], 8)); storeBytes(d, t.data(), n); } } return Val(); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::is_constant: return cval(0);
    case Intrinsic::objectsize: return cval(~0ull);
    case Intrinsic::eh_typeid_for: return cval((u32)selId(a[0].lo));
    case Intrinsic::fabs: if (any()) return undefV(); if (c.w == 32) { if (a[0].s) unsup("float abs"); return cval(a[0].lo & 0x7fffffff); } return fpAbs(a[0]);
    case Intrinsic::floor: return (*BI)["floor"](a, c); case Intrinsic::ceil: return (*BI)["ceil"](a, c); case Intrinsic::trunc: return (*BI)["trunc"](a, c); case Intrinsic::round: return (*BI)["round"](a, c); case Intrinsic::sqrt: return (*BI)["sqrt"](a, c); case Intrinsic::pow: return (*BI)["pow"](a, c); case Intrinsic::rint: return (*BI)["rint"](a, c); case Intrinsic::nearbyint: return (*BI)["nearbyint"](a, c);
    case Intrinsic::minnum: return (*BI)["fmin"](a, c); case Intrinsic::maxnum: return (*BI)["fmax"](a, c);
    case Intrinsic::copysign: {
      if (!a[0].s && !a[1].s) return cval((a[0].lo & ~(1ull << 63)) | (a[1].lo & (1ull << 63)));
      unsup("copysign"); }
    case Intrinsic::is_fpclass: {
      if (any()) return undefV();
      u32 m = (u32)a[1].lo; unsigned w = cast<CallBase>(c.I)->getArgOperand(0)->getType()->isFloatTy() ? 32 : 64;
      if (!a[0].s) { double d = concD(a[0], w); u32 k;
        if (std::isnan(d)) k = 0x3; else if (std::isinf(d)) k = d < 0 ? 0x4 : 0x200; else if (d == 0) k = std::signbit(d) ? 0x20 : 0x40; else if (std::fpclassify(d) == FP_SUBNORMAL) k = d < 0 ? 0x10 : 0x80; else k = d < 0 ? 0x8 : 0x100;
        return cval((m & k) != 0); }
      if (isRealV(a[0])) {
        u32 fin_ = m & 0x1F8; if (fin_ == 0) return cval(0); if (fin_ == 0x1F8) return cval(1);
        if (fin_ == 0x38 || fin_ == 0x18) return realCmp(FCmpInst::FCMP_OLT, a[0], cval(0));
        unsup("fpclass on real"); }
      Sym x = toFP(a[0]); auto E = [&](Z3_ast t) { return z3::expr(*Z, t); };
      z3::expr r = Z->bool_val(false), neg = E(Z3_mk_fpa_is_negative(*Z, x->e));
      z3::expr nan = E(Z3_mk_fpa_is_nan(*Z, x->e)), inf = E(Z3_mk_fpa_is_infinite(*Z, x->e)), nor = E(Z3_mk_fpa_is_normal(*Z, x->e)), sub = E(Z3_mk_fpa_is_subnormal(*Z, x->e)), zer = E(Z3_mk_fpa_is_zero(*Z, x->e));
      if ((m & 3) == 3) r = r || nan; else if (m & 3) unsup("snan test");
      if (m & 4) r = r || (inf && neg); if (m & 0x200) r = r || (inf && !neg); if (m & 8) r = r || (nor && neg); if (m & 0x100) r = r || (nor && !neg);
      if (m & 0x10) r = r || (sub && neg); if (m & 0x80) r = r || (sub && !neg); if (m & 0x20) r = r || (zer && neg); if (m & 0x40) r = r || (zer && !neg);
      return normBool(mk(r.simplify(), KBOOL, 1, x->vars));
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      if (any()) return undefV();
      unsigned w = ow(0);
      Val r; r.agg = std::make_shared<std::vector<Val>>();
      if (a[0].s || a[1].s) {
        Sym x = toBV(a[0], w), y = toBV(a[1], w); auto vars = uni(x->vars, y->vars); z3::expr e(*Z), o(*Z);
        auto Em = [&](Z3_ast t) { return z3::expr(*Z, t); };
        switch (c.intr) {
          case Intrinsic::umul_with_overflow: e = x->e * y->e; o = !Em(Z3_mk_bvmul_no_overflow(*Z, x->e, y->e, false)); break;
          case Intrinsic::smul_with_overflow: e = x->e * y->e; o = !(Em(Z3_mk_bvmul_no_overflow(*Z, x->e, y->e, true)) && Em(Z3_mk_bvmul_no_underflow(*Z, x->e, y->e))); break;
          case Intrinsic::uadd_with_overflow: e = x->e + y->e; o = !Em(Z3_mk_bvadd_no_overflow(*Z, x->e, y->e, false)); break;
          case Intrinsic::sadd_with_overflow: e = x->e + y->e; o = !(Em(Z3_mk_bvadd_no_overflow(*Z, x->e, y->e, true)) && Em(Z3_mk_bvadd_no_underflow(*Z, x->e, y->e))); break;
          case Intrinsic::usub_with_overflow: e = x->e - y->e; o = z3::ult(x->e, y->e); break;
          default: e = x->e - y->e; o = !(Em(Z3_mk_bvsub_no_overflow(*Z, x->e, y->e)) && Em(Z3_mk_bvsub_no_underflow(*Z, x->e, y->e, true)));
        }
        r.agg->push_back(fin(mk(e.simplify(), KBV, w, vars))); r.agg->push_back(normBool(mk(o.simplify(), KBOOL, 1, vars)));
        return r;
      }
      if (w > 64) unsup("wide overflow op");
      i128 x, y, z; bool sg = c.intr == Intrinsic::smul_with_overflow || c.intr == Intrinsic::sadd_with_overflow || c.intr == Intrinsic::ssub_with_overflow;
      if (sg) { x = sext64(a[0].lo, w); y = sext64(a[1].lo, w); } else { x = a[0].lo & maskb(w); y = a[1].lo & maskb(w); }
      bool ov; u64 res;
      if (c.intr == Intrinsic::umul_with_overflow) { u128 p = (u128)x * (u128)y; ov = p > maskb(w); res = (u64)p & maskb(w); }
      else { z = (c.intr == Intrinsic::smul_with_overflow) ? x * y : (c.intr == Intrinsic::sadd_with_overflow || c.intr == Intrinsic::uadd_with_overflow) ? x + y : x - y;
        res = (u64)z & maskb(w); ov = sg ? ((i128)sext64(res, w) != z) : (z < 0 || z > (i128)maskb(w)); }
      r.agg->push_back(cval(res)); r.agg->push_back(cval(ov)); return r;
    }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      if (any()) return undefV();
      unsigned p = c.intr == Intrinsic::umin ? ICmpInst::ICMP_ULT : c.intr == Intrinsic::umax ? ICmpInst::ICMP_UGT : c.intr == Intrinsic::smin ? ICmpInst::ICMP_SLT : ICmpInst::ICMP_SGT;
      Val cc = intCmp(p, a[0], a[1], c.w); if (!cc.s) return cc.lo ? a[0] : a[1]; return symIte(toBool(cc), a[0], a[1], c.ty); }
    case Intrinsic::abs: { if (any()) return undefV(); if (a[0].s) { Sym x = toBV(a[0], c.w); return fin(mk(z3::ite(x->e < Z->bv_val(0, c.w), -x->e, x->e), KBV, c.w, x->vars)); } i64 v = sext64(a[0].lo, c.w); return cval((u64)(v < 0 ? -v : v) & maskb(c.w)); }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      if (any()) return undefV();
      u64 x = concretize(a[0], c.w) & maskb(c.w);
      if (c.intr == Intrinsic::ctpop) return cval(__builtin_popcountll(x));
      if (!x) return cval(c.w);
      if (c.intr == Intrinsic::ctlz) return cval(__builtin_clzll(x) - (64 - c.w)); return cval(__builtin_ctzll(x)); }
    case Intrinsic::bswap: { if (any()) return undefV(); u64 x = concretize(a[0], c.w); return cval(__builtin_bswap64(x) >> (64 - c.w)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (any()) return undefV();
      u64 x = concretize(a[0], c.w), y = concretize(a[1], c.w), s = concretize(a[2], c.w) % c.w; u128 k = ((u128)x << c.w) | y;
      if (c.intr == Intrinsic::fshl) { k = k << s; return cval((u64)(k >> c.w) & maskb(c.w)); } k = k >> s; return cval((u64)k & maskb(c.w)); }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { if (any()) return undefV(); u64 x = concretize(a[0], c.w), y = concretize(a[1], c.w); if (c.intr == Intrinsic::usub_sat) return cval(x > y ? x - y : 0); u128 z = (u128)x + y; return cval(z > maskb(c.w) ? maskb(c.w) : (u64)z); }
    case Intrinsic::fmuladd: case Intrinsic::fma: { if (a[0].s || a[1].s || a[2].s) unsup("fma"); return cval(asB(c.intr == Intrinsic::fma ? std::fma(asD(a[0].lo), asD(a[1].lo), asD(a[2].lo)) : asD(a[0].lo) * asD(a[1].lo) + asD(a[2].lo))); }
    default: unsup("intrinsic " + c.callee->getName().str());
  }
}
static void pushFrame(Function* F, std::vector<Val>& args, CallBase* cs) {
  if (stk.size() > gMaxStack) throw Violation{"call stack exhausted (unbounded recursion)"};
  FnInfo* fi = getFn(F);
  auto fr = std::make_unique<Frame>(); fr->fn = fi; fr->r.resize(fi->nregs); fr->mark = stkObjs.size(); fr->topMark = stkTop;
  u32 id = fnIds[F].first; if (id < FNN) fnHit[id] = 1;
  unsigned i = 0;
  for (auto& a : F->args()) {
    if (i >= args.size()) unsup("missing argument");
    if (a.hasByValAttr()) {
      u64 n = DL->getTypeAllocSize(a.getParamByValType()); u64 d = allocObj(n, 1, "byval argument");
      u64 s = A(args[i]); chk(s, n, false, "read"); copyMem(d, s, n); fr->r[i] = cval(d);
    } else fr->r[i] = args[i];
    i++;
  }
  if (F->isVarArg()) for (; i < args.size(); i++) { fr->va.push_back(args[i]); fr->vt.push_back(cs ? cs->getArgOperand(i)->getType() : nullptr); }
  u32 gb = fnIds[F].second; for (size_t k = 0; k < fi->blocks.size(); k++) fi->blocks[k].gid = gb + (u32)k;
  stk.push_back(std::move(fr));
  Frame& f = *stk.back(); f.block = -1; f.block = 0; f.pc = fi->blocks[0].start; if (fi->blocks[0].gid < COVN) covMap[fi->blocks[0].gid] = 1;
}
static void setResult(CInst& c, const Val& v) { // in the current (caller) frame
  Frame& f = *stk.back();
  if (c.dst >= 0) f.r[c.dst] = v;
  if (c.op == Instruction::Invoke) enterBlock(f, c.bbs[0]);
}
static bool gDone = false;
static void doReturn(const Val& v) {
  popFrame();
  if (stk.empty()) { gDone = true; return; }
  Frame& f = *stk.back(); CInst& c = f.fn->code[f.pc - 1];
  if (c.op == Instruction::Call || c.op == Instruction::Invoke) setResult(c, v);
  else unsup("return to a non-call");
}
static std::set<std::string> gUnsupSeen;
static void run() {
  u64 n = 0;
  std::vector<Val> args;
  while (!gDone) {
    Frame& f = *stk.back();
    CInst& c = f.fn->code[f.pc++];
    if ((++n & 0x3ff) == 0) { SH->instrs += 0x400; if (SH->stop.load() || elapsed() > gTimeLimit) { SH->stop = 1; finishPath("stopped"); } if (n > gMaxInstr) throw Violation{"instruction budget exhausted (possible endless loop)"}; }
    auto O = [&](unsigned k) -> const Val& { const Opnd& o = c.o[k]; if (o.reg >= 0) return f.r[o.reg]; if (o.reg < -1) unsup("operand"); return o.c; };
    try {
      switch (c.op) {
        case Instruction::Br:
          if (c.bbs.size() == 1) { enterBlock(f, c.bbs[0]); break; }
          { const Val& v = O(0); if (v.undef) throw Violation{"branch on an uninitialised value"}; bool t = v.s ? decide(toBool(v)) : (v.lo & 1); enterBlock(f, c.bbs[t ? 0 : 1]); }
          break;
        case Instruction::Switch: {
          const Val& v = O(0); if (v.undef) throw Violation{"switch on an uninitialised value"};
          if (!v.s) { int t = c.bbs[0]; u64 x = v.lo & maskb(c.w2); for (auto& [k, b] : c.cases) if ((k & maskb(c.w2)) == x) { t = b; break; } enterBlock(f, t); break; }
          Sym s = c.w2 == 1 ? toBV(v, 1) : toBV(v, c.w2); std::map<int, std::vector<u64>> by; std::vector<int> order;
          for (auto& [k, b] : c.cases) { if (!by.count(b)) order.push_back(b); by[b].push_back(k); }
          int t = c.bbs[0];
          for (int b : order) { if (b == c.bbs[0]) continue; z3::expr e = Z->bool_val(false); for (u64 k : by[b]) e = e || s->e == bvNum(k, c.w2); if (decideE(e, s->vars)) { t = b; break; } }
          enterBlock(f, t); break; }
        case Instruction::Ret: { Val v; if (!c.o.empty()) v = O(0); doReturn(v); break; }
        case Instruction::Unreachable: throw Violation{"unreachable code reached"};
        case Instruction::Alloca: {
          u64 cnt = A(O(0)); u64 sz = c.asz * cnt; u64 at = allocObj(sz, 1, "stack"); if (gZeroStack) { std::vector<u8> z(sz); storeBytes(at, z.data(), sz); } f.r[c.dst] = cval(at); break; }
        case Instruction::Load: { const Val& p = O(0); if (p.undef) throw Violation{"load through an uninitialised pointer"}; u64 a = p.s ? concretize(p, 64) : p.lo; u64 n2 = DL->getTypeStoreSize(c.ty); chk(a, n2, false, "read"); f.r[c.dst] = loadTyped(a, c.ty); break; }
        case Instruction::Store: { const Val& p = O(1); if (p.undef) throw Violation{"store through an uninitialised pointer"}; u64 a = p.s ? concretize(p, 64) : p.lo; Type* t = cast<StoreInst>(c.I)->getValueOperand()->getType(); chk(a, DL->getTypeStoreSize(t), true, "write"); storeTyped(a, O(0), t); break; }
        case Instruction::GetElementPtr: {
          const Val& p = O(0); if (p.undef) { f.r[c.dst] = undefV(); break; }
          u64 a = (p.s ? concretize(p, 64) : p.lo) + c.goff; bool ud = false;
          for (auto& [k, sc, w] : c.gidx) { const Val& ix = O(k); if (ix.undef) { ud = true; break; } u64 x = ix.s ? concretize(ix, w) : ix.lo; a += (u64)(sext64(x, w) * sc); }
          f.r[c.dst] = ud ? undefV() : cval(a); break; }
        case Instruction::ICmp: f.r[c.dst] = intCmp(c.pred, O(0), O(1), c.w2); break;
        case Instruction::FCmp: {
          const Val &a = O(0), &b = O(1); if (a.undef || b.undef) { f.r[c.dst] = undefV(); break; }
          if (!a.s && !b.s) { if (!c.w2) unsup("fcmp type"); f.r[c.dst] = cval(fcmpConc(c.pred, concD(a, c.w2), concD(b, c.w2))); break; }
          if (c.w2 == 32) { f.r[c.dst] = fpCmp((FCmpInst::Predicate)c.pred, toF64(a), toF64(b)); break; }
          if (c.w2 != 64) unsup("float compare"); f.r[c.dst] = fpCmp((FCmpInst::Predicate)c.pred, a, b); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
          const Val &a = O(0), &b = O(1); if (a.undef || b.undef) { f.r[c.dst] = undefV(); break; }
          if (!a.s && !b.s) {
            if (c.w == 32) { float x = (float)concD(a, 32), y = (float)concD(b, 32), r; switch (c.op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } u32 q; memcpy(&q, &r, 4); f.r[c.dst] = cval(q); break; }
            if (c.w != 64) unsup("fp type");
            double x = asD(a.lo), y = asD(b.lo), r; switch (c.op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); }
            f.r[c.dst] = cval(asB(r)); break; }
          if (c.w == 32) { f.r[c.dst] = floatBin(c.op, a, b); break; }
          if (c.w != 64) unsup("symbolic float arithmetic"); f.r[c.dst] = fpBin(c.op, a, b); break; }
        case Instruction::FNeg: { const Val& a = O(0); if (a.undef) { f.r[c.dst] = undefV(); break; } if (c.w == 32) { if (isRealV(a)) { f.r[c.dst] = withBits(fpNeg(a), 32); break; } if (a.s) { Sym x = toFP32(a); f.r[c.dst] = sv(mk(z3::expr(*Z, Z3_mk_fpa_neg(*Z, x->e)), KFP, 32, x->vars)); break; } f.r[c.dst] = cval(a.lo ^ 0x80000000u); break; } if (c.w != 64) unsup("fneg type"); f.r[c.dst] = fpNeg(a); break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
          if (!c.w || c.w > 128) unsup("integer width"); f.r[c.dst] = intBin(c.op, O(0), O(1), c.w); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::AddrSpaceCast: {
          if (!c.w || !c.w2) unsup("cast type");
          Val a = O(0);
          if (c.op == Instruction::BitCast) { if (c.ty->isDoubleTy() && a.s && a.s->k == KBV) a = sv(toFP(a)); else if (c.ty->isIntegerTy() && a.s && a.s->k == KFP) { if (c.w == 64) a = sv(toBV(a, 64)); else if (c.w == 32) a = sv(mk(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, a.s->e)), KBV, 32, a.s->vars)); else unsup("float bitcast"); } else if (c.ty->isFloatTy() && a.s && a.s->k == KBV) a = sv(toFP32(a)); f.r[c.dst] = a; break; }
          f.r[c.dst] = castOp(c, a); break; }
        case Instruction::Select: {
          const Val& cd = O(0); if (cd.undef) throw Violation{"select on an uninitialised value"};
          if (!cd.s) { f.r[c.dst] = (cd.lo & 1) ? O(1) : O(2); break; }
          Val r = symIte(toBool(cd), O(1), O(2), c.ty); f.r[c.dst] = r; break; }
        case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(c.I); Val v = O(0); for (unsigned ix : ev->indices()) { if (!v.agg) { v = undefV(); break; } Val t = v.agg->at(ix); v = t; } f.r[c.dst] = v; break; }
        case Instruction::InsertValue: {
          auto* iv = cast<InsertValueInst>(c.I); Val v = O(0); std::function<Val(const Val&, unsigned, Type*)> ins = [&](const Val& base, unsigned d, Type* t) -> Val {
            Val r; r.agg = std::make_shared<std::vector<Val>>();
            unsigned nn = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
            if (base.agg) *r.agg = *base.agg; else r.agg->assign(nn, undefV());
            unsigned ix = iv->getIndices()[d]; Type* et = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
            if (d + 1 == iv->getNumIndices()) (*r.agg)[ix] = O(1); else (*r.agg)[ix] = ins((*r.agg)[ix], d + 1, et);
            return r; };
          f.r[c.dst] = ins(v, 0, c.ty); break; }
        case Instruction::Freeze: f.r[c.dst] = O(0); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
          auto* rm = cast<AtomicRMWInst>(c.I); u64 a = A(O(0)); unsigned nb = (unsigned)DL->getTypeStoreSize(c.ty); chk(a, nb, true, "write"); Val old = loadTyped(a, c.ty); Val nv;
          switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = intBin(Instruction::Add, old, O(1), c.w); break; case AtomicRMWInst::Sub: nv = intBin(Instruction::Sub, old, O(1), c.w); break; case AtomicRMWInst::Xchg: nv = O(1); break; case AtomicRMWInst::And: nv = intBin(Instruction::And, old, O(1), c.w); break; case AtomicRMWInst::Or: nv = intBin(Instruction::Or, old, O(1), c.w); break; default: unsup("atomicrmw"); }
          storeTyped(a, nv, c.ty); f.r[c.dst] = old; break; }
        case Instruction::AtomicCmpXchg: {
          Type* t = cast<AtomicCmpXchgInst>(c.I)->getCompareOperand()->getType(); u64 a = A(O(0)); chk(a, DL->getTypeStoreSize(t), true, "write"); Val old = loadTyped(a, t);
          unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); Val eq = intCmp(ICmpInst::ICMP_EQ, old, O(1), w); bool e = eq.s ? decide(toBool(eq)) : (eq.lo & 1); if (e) storeTyped(a, O(2), t);
          Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(cval(e)); f.r[c.dst] = r; break; }
        case Instruction::LandingPad: unsup("stray landingpad");
        case Instruction::Resume: { Val v = O(0); u64 e = v.agg->at(0).lo; throw CppThrow{e}; }
        case Instruction::Call: case Instruction::Invoke: {
          args.clear(); unsigned na = cast<CallBase>(c.I)->arg_size();
          for (unsigned k = 0; k < na; k++) args.push_back(O(k));
          if (c.intr) { Val r = intrinsic(c, args); setResult(c, r); break; }
          Function* F = c.callee;
          if (!F) {
            if (isa<InlineAsm>(cast<CallBase>(c.I)->getCalledOperand())) unsup("inline asm");
            u64 p = A(O(na)); if (p < FN0 || (p - FN0) / 16 >= fnByIdx.size()) throw MemError{"call through a bad function pointer"}; F = fnByIdx[(p - FN0) / 16]; }
          if (c.callee && c.resolved) { if (c.bi) { Val r = (*(BF*)c.bi)(args, c); setResult(c, r); } else { pushFrame(F, args, cast<CallBase>(c.I)); } break; }
          auto rp = gReplaced.find(F); if (rp != gReplaced.end()) F = rp->second;
          auto it = BI->find(F->getName().str());
          if (F->getName() == "__cxa_end_catch") {
            if (caught.empty()) throw Violation{"__cxa_end_catch without a caught exception"};
            u64 e = caught.back(); caught.pop_back(); auto& x = excs.at(e); x.handlers--;
            if (x.handlers == 0 && !x.rethrown) { if (x.dtor) { // run the destructor, then come back
                u64 d = x.dtor; if (d >= FN0 && (d - FN0) / 16 < fnByIdx.size()) { Function* DF = fnByIdx[(d - FN0) / 16]; if (!DF->isDeclaration()) { std::vector<Val> da{cval(e)}; pushFrame(DF, da, nullptr); break; } } } }
            setResult(c, Val()); break; }
          if (it != BI->end()) { if (c.callee && gReplaced.find(c.callee) == gReplaced.end()) { c.resolved = true; c.bi = &it->second; } Val r = it->second(args, c); setResult(c, r); break; }
          if (F->isDeclaration()) {
            if (F->isIntrinsic()) unsup("indirect intrinsic");
            unsup("external function " + dem(F->getName().str())); }
          if (c.callee && F == c.callee) { c.resolved = true; c.bi = nullptr; }
          pushFrame(F, args, cast<CallBase>(c.I)); break; }
        default: unsup(std::string("instruction ") + c.I->getOpcodeName());
      }
    } catch (CppThrow& t) { unwindTo(t.exc); }
  }
  SH->instrs += n & 0x3ff;
}
static void pathMain() {
  try {
    run();
    SH->completed++;
    emitWitness();
    finishPath("completed");
  } catch (Violation& v) { emitCandidate(v.label, {}, {}, "fault"); finishPath("violation"); }
  catch (MemError& m) { emitCandidate("memory error: " + m.why, {}, {}, "fault"); finishPath("memory error"); }
  catch (PathEnd& p) { finishPath(p.why.c_str()); }
  catch (Unsupported& u) { SH->unsupported++; appendFile("unsupported.txt", u.why + " @ " + stackTrace() + "\n"); finishPath("unsupported"); }
  catch (z3::exception& e) { SH->unsupported++; appendFile("unsupported.txt", std::string("z3: ") + e.msg() + " @ " + stackTrace() + "\n"); finishPath("unsupported"); }
  catch (std::exception& e) { SH->unsupported++; appendFile("unsupported.txt", std::string("internal: ") + e.what() + " @ " + stackTrace() + "\n"); finishPath("unsupported"); }
}
static std::string gEntry;
static void writeSummary() {
  std::string s = "{";
  auto add = [&](const char* k, u64 v) { s += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
#define ADD(x) add(#x, SH->x.load());
  ADD(paths) ADD(completed) ADD(assumed_away) ADD(forks) ADD(queries) ADD(qsat) ADD(qunsat) ADD(qunknown) ADD(qcached) ADD(modelhits) ADD(instrs) ADD(solver_us) ADD(checks) ADD(checks_sym) ADD(checks_trivial) ADD(discharged) ADD(undecided) ADD(infeasible) ADD(violations) ADD(unsupported) ADD(crashed) ADD(fp_exact) ADD(fp_rounded) ADD(witnesses) ADD(timedout) ADD(stop) ADD(maxrss_kb)
  s += "\"wall_s\":" + std::to_string(elapsed()) + ",\"labels\":{";
  for (int i = 0; i < SH->nlabels.load(); i++) s += (i ? "," : "") + std::string("\"") + jesc(SH->labels[i]) + "\":[" + std::to_string(SH->lreach[i].load()) + "," + std::to_string(SH->lchecks[i].load()) + "]";
  s += "},\"functions\":[";
  bool first = true; std::set<std::string> seen;
  for (auto& [F, ids] : fnIds) if (ids.first < FNN && fnHit[ids.first]) {
    std::string d = dem(F->getName().str());
    if ((d.find("signal_tl") == std::string::npos && d.find("mono_wedge") == std::string::npos) || d.rfind("std::", 0) == 0 || d.find("tao::pegtl") == 0 || d.rfind("void std::", 0) == 0) continue;
    auto* sp = F->getSubprogram(); std::string file = sp ? sp->getFilename().str() : "";
    if (file.find("/repo/") == std::string::npos) { continue; }
    if (d.size() > 160) d = d.substr(0, 157) + "...";
    seen.insert(d);
  }
  for (auto& d : seen) { s += (first ? "" : ",") + std::string("\"") + jesc(d) + "\""; first = false; }
  s += "]}";
  std::string f = outDir + "/summary.json"; FILE* o = fopen(f.c_str(), "w"); if (o) { fputs(s.c_str(), o); fclose(o); }
  // coverage of repo blocks
  std::string cov; 
  for (auto& [F, ids] : fnIds) {
    auto* sp = F->getSubprogram(); if (!sp || sp->getFilename().str().find("/repo/") == std::string::npos) continue;
    if (F->isDeclaration()) continue;
    u32 k = ids.second; u64 tot = 0, hit = 0; std::set<unsigned> miss;
    for (auto& bb : *F) { tot++; if (k < COVN && covMap[k]) hit++; else for (auto& I : bb) if (auto& dl = I.getDebugLoc()) if (dl.getLine()) { miss.insert(dl.getLine()); break; } k++; }
    if (!hit) continue;
    cov += std::to_string(hit) + "/" + std::to_string(tot) + " " + dem(F->getName().str()).substr(0, 140) + " miss:"; for (auto l : miss) cov += " " + std::to_string(l); cov += "\n";
  }
  f = outDir + "/coverage.txt"; o = fopen(f.c_str(), "w"); if (o) { fputs(cov.c_str(), o); fclose(o); }
}
static void callBlocking(Function* F) { std::vector<Val> a; pushFrame(F, a, nullptr); gDone = false; run(); gDone = false; }
int main(int argc, char** argv) {
  std::string bc, entry = "sx_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outDir = nx(); else if (a == "--jobs") gJobs = atoi(nx().c_str()); else if (a == "--time-limit") gTimeLimit = atof(nx().c_str());
    else if (a == "--rlimit") gRlimit = strtoull(nx().c_str(), nullptr, 10); else if (a == "--exact-real") gExact = true; else if (a == "--nl-rlimit") gNlRlimit = strtoull(nx().c_str(), nullptr, 10); else if (a == "--query-wall") gQueryWall = atoi(nx().c_str()); else if (a == "--zero-stack") gZeroStack = true; else if (a == "--max-stack") gMaxStack = strtoull(nx().c_str(), nullptr, 10); else if (a == "--max-cand") gMaxCand = atoi(nx().c_str()); else if (a == "--witness") gWitness = atoi(nx().c_str()); else if (a == "--trace") gTrace = true; else if (a == "--reuse") gReuse = true;
    else if (a == "--seed") gSeed = strtoull(nx().c_str(), nullptr, 10); else if (a == "--max-instr") gMaxInstr = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--replace") { std::string p = nx(); auto k = p.rfind('='); gReplace.emplace_back(p.substr(0, k), p.substr(k + 1)); }
    else bc = a;
  }
  gStart = std::chrono::steady_clock::now(); gEntry = entry;
  auto shm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
  SH = new (shm(sizeof(Shared))) Shared(); SH->running = 1; SH->live = 1;
  covMap = (u8*)shm(COVN); fnHit = (u8*)shm(FNN);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  mapArena(HEAP0); mapArena(STK0);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  z3::config cfg; Z = new z3::context(cfg); gAssign = new std::unordered_map<unsigned, z3::expr>(); gRealConst = new std::unordered_map<u64, std::pair<z3::expr, int>>();
  Z3_set_ast_print_mode(*Z, Z3_PRINT_SMTLIB2_COMPLIANT);
  numberFns(); initBuiltins();
  for (auto& F : *M) { gaddr[&F] = FN0 + 16 * fnByIdx.size(); fnByIdx.push_back(&F); }
  for (auto& [re, nm] : gReplace) {
    Function* T = M->getFunction(nm); if (!T) { fprintf(stderr, "replacement %s missing\n", nm.c_str()); continue; }
    std::regex r(re); for (auto& F : *M) { if (&F == T) continue; if (std::regex_search(dem(F.getName().str()), r)) gReplaced[&F] = T; }
  }
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 64);
    gaddr[&g] = allocObj(std::max<u64>(sz, 1), 2, "global");
    if (g.getName().starts_with("_ZTI")) tiGlobals[gaddr[&g]] = &g;
  }
  auto vt = [&](const char* n) -> u64 { auto* g = M->getNamedGlobal(n); return g ? gaddr[g] + 16 : 0; };
  vtCls = vt("_ZTVN10__cxxabiv117__class_type_infoE"); vtSi = vt("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  try {
    for (auto& g : M->globals()) if (g.hasInitializer()) { try { writeConst(gaddr[&g], g.getInitializer()); } catch (Unsupported&) { clearCells(gaddr[&g], 1); memset(shadowOf(gaddr[&g]), 0, DL->getTypeAllocSize(g.getValueType())); } if (g.isConstant()) findObj(gaddr[&g])->ro = true; }
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* F = dyn_cast<Function>(ca->getOperand(i)->getAggregateElement(1u)->stripPointerCasts()); if (F && !F->isDeclaration()) callBlocking(F); }
  } catch (Unsupported& u) { fprintf(stderr, "global initialisation: %s @ %s\n", u.why.c_str(), stackTrace().c_str()); return 2; }
  catch (Violation& v) { fprintf(stderr, "global initialisation: %s @ %s\n", v.label.c_str(), stackTrace().c_str()); return 2; }
  catch (MemError& v) { fprintf(stderr, "global initialisation: %s @ %s\n", v.why.c_str(), stackTrace().c_str()); return 2; }
  Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // a supervisor ends the exploration when it overruns its time limit
  fflush(nullptr);
  pid_t root = fork();
  if (root < 0) return 2;
  if (root > 0) {
    setpgid(root, root);
    for (;;) {
      int st; pid_t p = waitpid(root, &st, WNOHANG);
      if (p == root) {
        if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
        SH->crashed += std::max(1, SH->live.load()); kill(-root, SIGKILL); writeSummary(); _exit(0);
      }
      if (elapsed() > gTimeLimit) SH->stop = 1;
      if (elapsed() > gTimeLimit + 40) { kill(-root, SIGKILL); SH->timedout += std::max(1, SH->live.load()); writeSummary(); _exit(0); }
      usleep(2000);
    }
  }
  setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_CHILD_SUBREAPER, 1);
  std::vector<Val> none; pushFrame(E, none, nullptr); gDone = false;
  pathMain();
}
