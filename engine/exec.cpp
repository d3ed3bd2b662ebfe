#include "exec.hpp"
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <sys/resource.h>
#include <pthread.h>

using namespace llvm;

extern unsigned g_solver_timeout_ms;
static std::string g_out;
static bool g_verbose = false;
static double g_time_limit = 600;
static uint64_t g_max_viol = 6;
static std::chrono::steady_clock::time_point g_t0;
static uint64_t g_instrs = 0, g_forks = 0, g_merges = 0, g_paths = 0, g_asserts = 0, g_assert_solver = 0, g_assert_prop = 0, g_vmerge = 0;
static std::vector<const char*> g_stack;

static double elapsed () { return std::chrono::duration<double> (std::chrono::steady_clock::now () - g_t0).count (); }
static void writeReport (std::string const& status, std::string const& err);
[[noreturn]] void die (std::string const& msg) {
  std::string m = msg;
  for (size_t i = g_stack.size (); i-- > 0 && i + 12 > g_stack.size ();) m += std::string ("\n  in ") + g_stack[i];
  writeReport ("error", m);
  std::cerr << "ENGINE-ERROR: " << m << "\n";
  _exit (3);
}

// ------------------------------------------------------------------ module
static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout* g_dl;
constexpr uint64_t R_GLOB = 1, R_HEAP = 2, R_STACK = 3, R_FUNC = 4, R_EXT = 5;
static uint64_t mkAddr (uint64_t r, uint64_t slot) { return (r << 44) | (slot << 24); }
static std::vector<GlobalVariable*> g_globals;
static std::vector<ORef> g_ginit;          // initial image; constant ones stay here
static std::vector<char> g_gconst;
static std::unordered_map<const GlobalValue*, uint64_t> g_addr;
static std::vector<std::unique_ptr<Func>> g_funcs;
static std::unordered_map<const Function*, Func*> g_fmap;
static std::unordered_map<std::string, uint64_t> g_extNames;
static std::vector<std::string> g_extList;
static const Expr* UNDEF8;

static uint64_t extAddr (std::string const& n) {
  auto it = g_extNames.find (n);
  if (it != g_extNames.end ()) return it->second;
  uint64_t a = (R_EXT << 44) | ((uint64_t)(g_extList.size () + 1) << 24);
  g_extList.push_back (n); g_extNames[n] = a; return a;
}
static std::string addrName (uint64_t a) {
  uint64_t r = a >> 44, slot = (a >> 24) & 0xFFFFF;
  if (r == R_GLOB && slot < g_globals.size ()) return g_globals[slot]->getName ().str ();
  if (r == R_EXT && slot >= 1 && slot <= g_extList.size ()) return g_extList[slot - 1];
  if (r == R_FUNC) { uint64_t i = (a & ((1ULL << 44) - 1)) >> 4; if (i < g_funcs.size ()) return g_funcs[i]->name; }
  char b[40]; snprintf (b, sizeof b, "0x%llx", (unsigned long long)a); return b;
}
static Func* funcAt (uint64_t a) {
  if ((a >> 44) != R_FUNC || (a & 15)) return nullptr;
  uint64_t i = (a & ((1ULL << 44) - 1)) >> 4;
  return i < g_funcs.size () ? g_funcs[i].get () : nullptr;
}

static unsigned bitw (Type* t) {
  if (t->isPointerTy ()) return 64;
  if (t->isIntegerTy ()) return t->getIntegerBitWidth ();
  if (t->isFloatTy ()) return 32;
  if (t->isDoubleTy ()) return 64;
  if (t->isX86_FP80Ty ()) return 80;
  return 0;
}
static void leavesOf (Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType> (t)) {
    auto* l = g_dl->getStructLayout (s);
    for (unsigned i = 0; i < s->getNumElements (); ++i) leavesOf (s->getElementType (i), off + l->getElementOffset (i), out);
  } else if (auto* a = dyn_cast<ArrayType> (t)) {
    uint64_t es = g_dl->getTypeAllocSize (a->getElementType ());
    for (uint64_t i = 0; i < a->getNumElements (); ++i) leavesOf (a->getElementType (), off + i * es, out);
  } else if (t->isVoidTy ()) {
  } else {
    unsigned w = bitw (t);
    if (!w) { std::string n; raw_string_ostream os (n); t->print (os); die ("unsupported type " + n); }
    out.push_back ({(unsigned)off, w});
  }
}
static unsigned nleaves (Type* t) { std::vector<Leaf> l; leavesOf (t, 0, l); return l.size (); }
static unsigned leafIndex (Type* t, ArrayRef<unsigned> idx) {
  unsigned n = 0;
  for (unsigned i : idx) {
    if (auto* s = dyn_cast<StructType> (t)) { for (unsigned k = 0; k < i; ++k) n += nleaves (s->getElementType (k)); t = s->getElementType (i); }
    else if (auto* a = dyn_cast<ArrayType> (t)) { n += i * nleaves (a->getElementType ()); t = a->getElementType (); }
    else die ("leafIndex");
  }
  return n;
}

static void constVals (const Constant* c, std::vector<Val>& out);
static uint64_t globAddr (const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias> (g)) { std::vector<Val> v; constVals (a->getAliasee (), v); return v[0].lo; }
  auto it = g_addr.find (g);
  if (it == g_addr.end ()) die ("no address for global " + g->getName ().str ());
  return it->second;
}
static Val apVal (APInt const& v) {
  if (v.getBitWidth () <= 64) return Val (v.getZExtValue ());
  return mkWide (v.extractBitsAsZExtValue (64, 0), v.extractBitsAsZExtValue (v.getBitWidth () - 64, 64), v.getBitWidth ());
}
static void constVals (const Constant* c, std::vector<Val>& out) {
  if (auto* i = dyn_cast<ConstantInt> (c)) { out.push_back (apVal (i->getValue ())); return; }
  if (isa<ConstantPointerNull> (c)) { out.push_back (Val (0)); return; }
  if (auto* f = dyn_cast<ConstantFP> (c)) { out.push_back (apVal (f->getValueAPF ().bitcastToAPInt ())); return; }
  if (isa<UndefValue> (c)) {
    std::vector<Leaf> l; leavesOf (c->getType (), 0, l);
    for (auto const& x : l) out.push_back (mkUndef (x.w));
    return;
  }
  if (isa<ConstantAggregateZero> (c)) { unsigned n = nleaves (c->getType ()); for (unsigned i = 0; i < n; ++i) out.push_back (Val (0)); return; }
  if (auto* a = dyn_cast<ConstantAggregate> (c)) { for (auto const& o : a->operands ()) constVals (cast<Constant> (o), out); return; }
  if (auto* d = dyn_cast<ConstantDataSequential> (c)) { for (unsigned i = 0; i < d->getNumElements (); ++i) constVals (d->getElementAsConstant (i), out); return; }
  if (auto* g = dyn_cast<GlobalValue> (c)) { out.push_back (Val (globAddr (g))); return; }
  if (auto* e = dyn_cast<ConstantExpr> (c)) {
    std::vector<Val> a;
    switch (e->getOpcode ()) {
    case Instruction::GetElementPtr: {
      constVals (e->getOperand (0), a);
      APInt off (64, 0);
      if (!cast<GEPOperator> (e)->accumulateConstantOffset (*g_dl, off)) die ("constant gep");
      out.push_back (Val (a[0].lo + off.getZExtValue ())); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      constVals (e->getOperand (0), out); return;
    case Instruction::Trunc: { constVals (e->getOperand (0), a); out.push_back (Val (a[0].lo & maskw (bitw (e->getType ())))); return; }
    case Instruction::Add: case Instruction::Sub: {
      constVals (e->getOperand (0), a); constVals (e->getOperand (1), a);
      out.push_back (Val ((e->getOpcode () == Instruction::Add ? a[0].lo + a[1].lo : a[0].lo - a[1].lo) & maskw (bitw (e->getType ())))); return; }
    case Instruction::ICmp: {
      constVals (e->getOperand (0), a); constVals (e->getOperand (1), a);
      auto p = cast<CmpInst> (e)->getPredicate (); (void)p; die ("constant icmp"); }
    default: break;
    }
  }
  std::string n; raw_string_ostream os (n); c->print (os);
  die ("unsupported constant " + n);
}

// ------------------------------------------------------------------ objects
static ORef newObj (uint64_t size, ObjKind k, bool undef) {
  ORef o (new Obj);
  o->kind = k; o->d.assign (size, 0);
  if (undef && size) o->s.assign (size, UNDEF8);
  return o;
}
static void objStore (Obj& o, uint64_t off, Val v, unsigned w) {
  unsigned n = (w + 7) / 8;
  o.hv = false;
  if (v.c ()) {
    uint64_t x = v.lo & maskw (w);
    for (unsigned i = 0; i < n; ++i) o.d[off + i] = (uint8_t)(i < 8 ? x >> (8 * i) : 0);
    if (!o.s.empty ()) for (unsigned i = 0; i < n; ++i) o.s[off + i] = nullptr;
    return;
  }
  if (w & 7) { v = mkZext (v, w, n * 8); }
  if (o.s.empty ()) o.s.assign (o.d.size (), nullptr);
  for (unsigned i = 0; i < n; ++i) {
    Val b = mkExtract (v, n * 8, 8 * i, 8);
    if (b.c ()) { o.d[off + i] = (uint8_t)b.lo; o.s[off + i] = nullptr; }
    else { o.d[off + i] = 0; o.s[off + i] = b.e->kind == K_UNDEF ? UNDEF8 : b.e; }
  }
}
static Val objLoad (Obj const& o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (!o.s.empty ()) for (unsigned i = 0; i < n; ++i) if (o.s[off + i]) { sym = true; break; }
  if (!sym && n <= 8) {
    uint64_t x = 0; for (unsigned i = 0; i < n; ++i) x |= (uint64_t)o.d[off + i] << (8 * i);
    return Val (x & maskw (w));
  }
  Val b[16];
  if (n > 16) die ("wide load");
  for (unsigned i = 0; i < n; ++i) b[i] = (!o.s.empty () && o.s[off + i]) ? Val (o.s[off + i]) : Val (o.d[off + i]);
  Val v = mkFromBytes (b, n);
  return (w & 7) ? mkExtract (v, n * 8, 0, w) : v;
}
static Val objByte (Obj const& o, uint64_t i) { return (!o.s.empty () && o.s[i]) ? Val (o.s[i]) : Val (o.d[i]); }
static void objSetByte (Obj& o, uint64_t i, Val b) {
  o.hv = false;
  if (b.c ()) { o.d[i] = (uint8_t)b.lo; if (!o.s.empty ()) o.s[i] = nullptr; }
  else { if (o.s.empty ()) o.s.assign (o.d.size (), nullptr); o.d[i] = 0; o.s[i] = b.e; }
}

static void initGlobals () {
  UNDEF8 = mkUndef (8).e;
  for (auto& g : g_mod->globals ()) { g_addr[&g] = mkAddr (R_GLOB, g_globals.size ()); g_globals.push_back (&g); }
  for (auto& f : *g_mod) {
    auto fn = std::make_unique<Func> (); fn->F = &f; fn->name = f.getName ().str ();
    g_addr[&f] = (R_FUNC << 44) | ((uint64_t)g_funcs.size () << 4);
    g_fmap[&f] = fn.get (); g_funcs.push_back (std::move (fn));
  }
  for (auto* g : g_globals) {
    uint64_t sz = g->getValueType ()->isSized () ? (uint64_t)g_dl->getTypeAllocSize (g->getValueType ()) : 0;
    std::string n = g->getName ().str ();
    ORef o;
    if (g->hasInitializer ()) {
      o = newObj (sz, OK_GLOBAL, false);
      std::vector<Leaf> l; leavesOf (g->getValueType (), 0, l);
      std::vector<Val> v; constVals (g->getInitializer (), v);
      if (l.size () != v.size ()) die ("global init " + n);
      for (size_t i = 0; i < l.size (); ++i) if (!tainted (v[i])) objStore (*o.p, l[i].off, v[i], l[i].w);
    } else {
      // external data: an opaque object of generous size so that its address is usable
      o = newObj (std::max<uint64_t> (sz, 512), OK_GLOBAL, false);
    }
    o->ro = g->isConstant ();
    g_ginit.push_back (o); g_gconst.push_back (g->isConstant ());
  }
}

// ------------------------------------------------------------------ translation
struct Translator {
  Func& fn;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, int> bix;
  explicit Translator (Func& f) : fn (f) {}
  int cslot (std::vector<Val> const& v) {
    int base = (int)fn.cpool.size ();
    for (auto const& x : v) fn.cpool.push_back (x);
    return -1 - base;  // leaf k of a constant is at slot base - k
  }
  // slot of leaf k of value v
  int opnd (const Value* v, unsigned k = 0) {
    if (auto* c = dyn_cast<Constant> (v)) {
      auto it = slot.find (v);
      if (it == slot.end ()) { std::vector<Val> x; constVals (c, x); it = slot.emplace (v, cslot (x)).first; }
      return it->second - (int)k;
    }
    auto it = slot.find (v);
    if (it == slot.end ()) die ("operand without slot in " + fn.name);
    return it->second + (int)k;
  }
  void run () {
    Function& F = *fn.F;
    ReversePostOrderTraversal<Function*> rpot (&F);
    std::vector<BasicBlock*> order (rpot.begin (), rpot.end ());
    for (size_t i = 0; i < order.size (); ++i) bix[order[i]] = (int)i;
    DominatorTree DT (F); LoopInfo LI (DT);
    int s = 0;
    for (auto& a : F.args ()) { slot[&a] = s; s += nleaves (a.getType ()); }
    fn.nargs = s;
    for (auto* bb : order) for (auto& I : *bb) if (!I.getType ()->isVoidTy () && !I.getType ()->isTokenTy () && !I.getType ()->isMetadataTy ()) { slot[&I] = s; s += nleaves (I.getType ()); }
    fn.nslots = s;
    fn.blocks.resize (order.size ());
    for (size_t i = 0; i < order.size (); ++i) {
      Block& B = fn.blocks[i]; B.bb = order[i]; B.rpo = (int)i;
      std::vector<int> ls;
      for (Loop* L = LI.getLoopFor (order[i]); L; L = L->getParentLoop ()) ls.push_back (bix[L->getHeader ()]);
      B.loops.assign (ls.rbegin (), ls.rend ());
      for (auto& I : *order[i]) {
        if (auto* p = dyn_cast<PHINode> (&I)) {
          unsigned n = nleaves (p->getType ());
          for (unsigned k = 0; k < p->getNumIncomingValues (); ++k) {
            auto pb = bix.find (p->getIncomingBlock (k));
            if (pb == bix.end ()) continue;
            for (unsigned l = 0; l < n; ++l) B.phi[pb->second].push_back ({slot[p] + (int)l, opnd (p->getIncomingValue (k), l)});
          }
          continue;
        }
        if (auto* ii = dyn_cast<IntrinsicInst> (&I)) {
          auto id = ii->getIntrinsicID ();
          if (id == Intrinsic::dbg_value || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_label || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume || id == Intrinsic::donothing) continue;
        }
        B.ins.push_back (tr (I));
      }
    }
    liveness (order);
    fn.translated = true;
  }
  Inst tr (Instruction& I) {
    Inst n; n.I = &I;
    Type* T = I.getType ();
    if (!T->isVoidTy () && !T->isTokenTy ()) { n.dst = slot[&I]; n.nd = nleaves (T); if (n.nd == 1) n.w = bitw (T->isAggregateType () ? Type::getInt64Ty (g_ctx) : T); }
    auto unsup = [&] { n.op = O_UNSUP; return n; };
    if (auto* b = dyn_cast<BinaryOperator> (&I)) {
      n.op = O_BIN; n.a = {opnd (b->getOperand (0)), opnd (b->getOperand (1))};
      if (T->isVectorTy () || T->isFloatingPointTy ()) return unsup ();
      switch (b->getOpcode ()) {
      case Instruction::Add: n.sub = K_ADD; break; case Instruction::Sub: n.sub = K_SUB; break;
      case Instruction::Mul: n.sub = K_MUL; break; case Instruction::UDiv: n.sub = K_UDIV; break;
      case Instruction::SDiv: n.sub = K_SDIV; break; case Instruction::URem: n.sub = K_UREM; break;
      case Instruction::SRem: n.sub = K_SREM; break; case Instruction::And: n.sub = K_AND; break;
      case Instruction::Or: n.sub = K_OR; break; case Instruction::Xor: n.sub = K_XOR; break;
      case Instruction::Shl: n.sub = K_SHL; break; case Instruction::LShr: n.sub = K_LSHR; break;
      case Instruction::AShr: n.sub = K_ASHR; break;
      default: return unsup ();
      }
      return n;
    }
    if (auto* c = dyn_cast<ICmpInst> (&I)) {
      if (c->getOperand (0)->getType ()->isVectorTy ()) return unsup ();
      n.op = O_ICMP; n.sub = (uint8_t)c->getPredicate (); n.aw = bitw (c->getOperand (0)->getType ());
      n.a = {opnd (c->getOperand (0)), opnd (c->getOperand (1))}; return n;
    }
    if (auto* s = dyn_cast<SelectInst> (&I)) {
      n.op = O_SELECT; n.a = {opnd (s->getCondition ())};
      std::vector<Leaf> l; leavesOf (T, 0, l); n.leaves = l;
      for (int k = 0; k < n.nd; ++k) { n.a.push_back (opnd (s->getTrueValue (), k)); n.a.push_back (opnd (s->getFalseValue (), k)); }
      return n;
    }
    if (auto* c = dyn_cast<CastInst> (&I)) {
      n.aw = bitw (c->getSrcTy ()); n.a = {opnd (c->getOperand (0))};
      switch (c->getOpcode ()) {
      case Instruction::Trunc: n.op = O_TRUNC; break;
      case Instruction::ZExt: n.op = O_ZEXT; break;
      case Instruction::SExt: n.op = O_SEXT; break;
      case Instruction::BitCast: n.op = O_MOV; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: n.op = n.w == n.aw ? O_MOV : n.w < n.aw ? O_TRUNC : O_ZEXT; break;
      default: return unsup ();
      }
      return n;
    }
    if (isa<FreezeInst> (&I)) { n.op = O_FREEZE; for (int k = 0; k < n.nd; ++k) n.a.push_back (opnd (I.getOperand (0), k)); return n; }
    if (auto* g = dyn_cast<GetElementPtrInst> (&I)) {
      n.op = O_GEP; n.a = {opnd (g->getPointerOperand ())}; int64_t off = 0;
      for (auto it = gep_type_begin (g), e = gep_type_end (g); it != e; ++it) {
        Value* ix = it.getOperand ();
        if (auto* st = it.getStructTypeOrNull ()) { off += g_dl->getStructLayout (st)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue ()); continue; }
        int64_t sz = (int64_t)(uint64_t)g_dl->getTypeAllocSize (it.getIndexedType ());
        if (auto* ci = dyn_cast<ConstantInt> (ix)) off += ci->getSExtValue () * sz;
        else { n.a.push_back (opnd (ix)); n.x.push_back (sz); n.x.push_back (bitw (ix->getType ())); }
      }
      n.x.insert (n.x.begin (), off);
      return n;
    }
    if (auto* l = dyn_cast<LoadInst> (&I)) { n.op = O_LOAD; n.a = {opnd (l->getPointerOperand ())}; leavesOf (T, 0, n.leaves); return n; }
    if (auto* s = dyn_cast<StoreInst> (&I)) {
      n.op = O_STORE; n.a = {opnd (s->getPointerOperand ())}; leavesOf (s->getValueOperand ()->getType (), 0, n.leaves);
      for (size_t k = 0; k < n.leaves.size (); ++k) n.a.push_back (opnd (s->getValueOperand (), k));
      return n;
    }
    if (auto* al = dyn_cast<AllocaInst> (&I)) {
      n.op = O_ALLOCA; n.x = {(int64_t)(uint64_t)g_dl->getTypeAllocSize (al->getAllocatedType ())}; n.a = {opnd (al->getArraySize ())}; return n;
    }
    if (auto* ev = dyn_cast<ExtractValueInst> (&I)) {
      n.op = O_EXTRACTV; unsigned b = leafIndex (ev->getAggregateOperand ()->getType (), ev->getIndices ());
      for (int k = 0; k < n.nd; ++k) n.a.push_back (opnd (ev->getAggregateOperand (), b + k));
      return n;
    }
    if (auto* iv = dyn_cast<InsertValueInst> (&I)) {
      n.op = O_EXTRACTV; unsigned b = leafIndex (T, iv->getIndices ()), m = nleaves (iv->getInsertedValueOperand ()->getType ());
      for (int k = 0; k < n.nd; ++k)
        n.a.push_back ((unsigned)k >= b && (unsigned)k < b + m ? opnd (iv->getInsertedValueOperand (), k - b) : opnd (iv->getAggregateOperand (), k));
      return n;
    }
    if (auto* br = dyn_cast<BranchInst> (&I)) {
      if (br->isUnconditional ()) { n.op = O_BR; n.x = {bix[br->getSuccessor (0)]}; }
      else { n.op = O_CBR; n.a = {opnd (br->getCondition ())}; n.x = {bix[br->getSuccessor (0)], bix[br->getSuccessor (1)]}; }
      return n;
    }
    if (auto* sw = dyn_cast<SwitchInst> (&I)) {
      n.op = O_SWITCH; n.a = {opnd (sw->getCondition ())}; n.aw = bitw (sw->getCondition ()->getType ());
      n.x = {bix[sw->getDefaultDest ()]};
      for (auto const& c : sw->cases ()) { n.x.push_back ((int64_t)c.getCaseValue ()->getZExtValue ()); n.x.push_back (bix[c.getCaseSuccessor ()]); }
      return n;
    }
    if (auto* r = dyn_cast<ReturnInst> (&I)) {
      n.op = O_RET;
      if (r->getReturnValue ()) { unsigned k = nleaves (r->getReturnValue ()->getType ()); for (unsigned i = 0; i < k; ++i) n.a.push_back (opnd (r->getReturnValue (), i)); leavesOf (r->getReturnValue ()->getType (), 0, n.leaves); }
      return n;
    }
    if (isa<UnreachableInst> (&I)) { n.op = O_UNREACH; return n; }
    if (isa<ResumeInst> (&I)) { n.op = O_RESUME; n.a = {opnd (I.getOperand (0), 0)}; return n; }
    if (auto* lp = dyn_cast<LandingPadInst> (&I)) {
      n.op = O_LPAD; n.sub = lp->isCleanup ();
      for (unsigned i = 0; i < lp->getNumClauses (); ++i) {
        if (lp->isCatch (i)) { std::vector<Val> v; constVals (lp->getClause (i), v); n.x.push_back ((int64_t)v[0].lo); }
        else n.x.push_back (-1);  // filter: treated as catch-all leading to terminate/unexpected
      }
      return n;
    }
    if (auto* c = dyn_cast<CallBase> (&I)) {
      if (c->isInlineAsm ()) return unsup ();
      n.op = O_CALL;
      if (auto* ii = dyn_cast<InvokeInst> (&I)) { n.sub = 1; n.x = {bix[ii->getNormalDest ()], bix[ii->getUnwindDest ()]}; }
      else if (!isa<CallInst> (&I)) return unsup ();
      Value* cv = c->getCalledOperand ()->stripPointerCasts ();
      if (auto* al = dyn_cast<GlobalAlias> (cv)) cv = al->getAliaseeObject ();
      if (auto* cf = dyn_cast<Function> (cv)) n.callee = g_fmap[cf];
      n.a.push_back (n.callee ? -1 : opnd (c->getCalledOperand ()));
      for (unsigned i = 0; i < c->arg_size (); ++i) {
        Value* av = c->getArgOperand (i);
        if (av->getType ()->isMetadataTy ()) { continue; }
        if (c->isByValArgument (i)) n.sub2 = 1;
        unsigned k = nleaves (av->getType ());
        for (unsigned j = 0; j < k; ++j) n.a.push_back (opnd (av, j));
      }
      if (n.nd) leavesOf (T, 0, n.leaves);
      return n;
    }
    if (auto* rmw = dyn_cast<AtomicRMWInst> (&I)) { n.op = O_ATOMICRMW; n.sub = (uint8_t)rmw->getOperation (); n.a = {opnd (rmw->getPointerOperand ()), opnd (rmw->getValOperand ())}; return n; }
    if (auto* cx = dyn_cast<AtomicCmpXchgInst> (&I)) { n.op = O_CMPXCHG; n.aw = bitw (cx->getCompareOperand ()->getType ()); n.a = {opnd (cx->getPointerOperand ()), opnd (cx->getCompareOperand ()), opnd (cx->getNewValOperand ())}; return n; }
    if (isa<FenceInst> (&I)) { n.op = O_NOP; return n; }
    return unsup ();
  }
  // byval handling needs the callee's copy size
  void liveness (std::vector<BasicBlock*> const& order) {
    size_t nb = order.size (), ns = fn.nslots;
    std::vector<std::vector<bool>> in (nb, std::vector<bool> (ns)), out (nb, std::vector<bool> (ns));
    auto succ = [&] (size_t b) { std::vector<int> r; for (auto* s : successors (order[b])) r.push_back (bix[s]); return r; };
    bool ch = true;
    auto transfer = [&] (size_t b, bool record) {
      std::vector<bool> l = out[b];
      auto& B = fn.blocks[b];
      for (size_t i = B.ins.size (); i-- > 0;) {
        Inst& n = B.ins[i];
        if (n.op == O_CALL && record) { for (size_t s = 0; s < ns; ++s) if (l[s]) n.liveAfter.push_back ((int)s); }
        for (int k = 0; k < n.nd; ++k) l[n.dst + k] = false;
        for (int a : n.a) if (a >= 0 && !(n.op == O_CALL && n.callee && &a == &n.a[0])) l[a] = true;
      }
      return l;
    };
    while (ch) {
      ch = false;
      for (size_t b = nb; b-- > 0;) {
        std::vector<bool> o (ns);
        for (int s : succ (b)) {
          // live-in of successor minus its phi destinations, plus phi sources for this edge
          std::vector<bool> li = in[s];
          for (auto const& pr : fn.blocks[s].phi) for (auto const& c : pr.second) li[c.dst] = false;
          auto it = fn.blocks[s].phi.find ((int)b);
          for (size_t k = 0; k < ns; ++k) if (li[k]) o[k] = true;
          if (it != fn.blocks[s].phi.end ()) for (auto const& c : it->second) if (c.src >= 0) o[c.src] = true;
        }
        if (o != out[b]) { out[b] = o; ch = true; }
        auto l = transfer (b, false);
        if (l != in[b]) { in[b] = l; ch = true; }
      }
    }
    for (size_t b = 0; b < nb; ++b) {
      transfer (b, true);
      for (size_t s = 0; s < ns; ++s) if (in[b][s]) fn.blocks[b].liveIn.push_back ((int)s);
    }
  }
};
static void translate (Func& f) { if (!f.translated) { Translator t (f); t.run (); } }

// ------------------------------------------------------------------ results
struct Violation { std::string msg, where; Assign model; bool hasModel; };
static std::vector<Violation> g_viol;
static std::map<std::string, uint64_t> g_known;
static std::vector<std::pair<std::string, Assign>> g_knownModels;
static std::vector<PC> g_done;              // path conditions of every ended path
static Disj g_space;                        // domains of the symbolic inputs
static std::map<std::string, Assign> g_covers;
static std::set<std::string> g_expectCovers;
struct Sample { Assign as; std::vector<uint8_t> obs; };
static std::vector<Sample> g_samples;
static size_t g_maxSamples = 60;
static bool g_inconclusive = false; static std::string g_inconclusiveWhy;
struct InputSpec { std::vector<int> lit; };  // >=0: literal byte, -1-k: domain index k
// b: >=0 literal byte, -1-k byte of domain k; var: its variable or -1.  A repetition is bytes [from, to) of which the first
// counts[x] * unit are present, x being the value of the variable cvar.
struct Rep { size_t from, to, unit; std::vector<int> counts; int cvar = -1; Val cval; };
struct Input { std::vector<int> b, var; std::vector<Val> v; std::vector<Rep> reps; };
static std::map<int, Input> g_inputs;
static std::map<int, int64_t> g_params;
static std::string g_coverage = "not-run"; static uint64_t g_nDisj = 0;

static std::string loc ();
std::string whereAmI () { return loc (); }
static std::string loc () { std::string s; for (size_t i = g_stack.size (); i-- > 0 && i + 6 > g_stack.size ();) { if (!s.empty ()) s += " < "; s += g_stack[i]; } return s; }

static void addViol (std::string const& msg, Assign const& m) {
  g_viol.push_back ({msg, loc (), m, true});
  if (g_viol.size () >= g_max_viol) { writeReport ("violation", "stopped at the violation limit"); std::cerr << "status violation (limit)\n"; _exit (1); }
}
static void violation (PC const& pc, Val cond, std::string const& msg) {
  Assign m;
  Res r = solvePC (pc, cond, &m);
  if (r == UNSAT) return;
  if (r == UNKNOWN) { g_inconclusive = true; g_inconclusiveWhy = "solver gave no answer on a possible violation: " + msg; return; }
  if (g_verbose) { std::cerr << "VIOL " << msg << " @ " << loc () << " inputs";
    for (auto x : m.v) fprintf (stderr, " %02x", (unsigned)x); std::cerr << "\n"; }
  addViol (msg, m);
}
static void endPath (PC const& pc) { ++g_paths; g_done.push_back (pc); }

// ------------------------------------------------------------------ executor
static Outs callFunc (Func& fn, SP st, Val const* args, size_t nargs);
enum BStat { B_OK, B_DEAD, B_REEXEC, B_MULTI };
struct Ctx;  // per-activation context
struct Ctx {
  Func* fn;
  std::map<std::vector<uint32_t>, std::vector<FP>> wl;
  size_t wln = 0;
  Outs outs;
  size_t stackBase;
  std::vector<uint32_t> key (FState const& f) const {
    std::vector<uint32_t> k; Block const& B = fn->blocks[f.b];
    for (size_t i = 0; i < B.loops.size (); ++i) { k.push_back (fn->blocks[B.loops[i]].rpo); k.push_back (i < f.it.size () ? f.it[i] : 0); }
    k.push_back (B.rpo); k.push_back (f.ip);
    return k;
  }
};

static bool sameRegs (FState const& a, FState const& b, std::vector<int> const& live) { for (int s : live) if (a.regs[s] != b.regs[s]) return false; return true; }

// When two states agree except for a few narrow integer registers and their path conditions are single cubes that differ in
// exactly one byte domain, the registers can be merged into tables over that byte.
static bool discriminator (PC const& a, PC const& b, unsigned& var, int& da) {
  if (a->size () != 1 || b->size () != 1) return false;
  Disj const& x = (*a)[0]; Disj const& y = (*b)[0];
  if (x.cons != y.cons) return false;
  size_t n = std::max (x.dom.size (), y.dom.size ()); int v = -1;
  for (size_t i = 0; i < n; ++i) if (x.domOf (i) != y.domOf (i)) { if (v >= 0) return false; v = (int)i; }
  if (v < 0) return false;
  if (DP.And (x.domOf (v), y.domOf (v)) != DOM_EMPTY) return false;
  var = v; da = x.domOf (v); return true;
}
// Likewise for two cubes over the same domains whose constraints differ in one complementary pair.
static bool complementary (PC const& a, PC const& b, Val& cond) {
  if (a->size () != 1 || b->size () != 1) return false;
  Disj const& x = (*a)[0]; Disj const& y = (*b)[0];
  if (x.cons.empty () || x.cons.size () != y.cons.size ()) return false;
  size_t n = std::max (x.dom.size (), y.dom.size ());
  for (size_t i = 0; i < n; ++i) if (x.domOf (i) != y.domOf (i)) return false;
  const Expr *p = nullptr, *q = nullptr;
  for (auto* c : x.cons) if (std::find (y.cons.begin (), y.cons.end (), c) == y.cons.end ()) { if (p) return false; p = c; }
  for (auto* c : y.cons) if (std::find (x.cons.begin (), x.cons.end (), c) == x.cons.end ()) { if (q) return false; q = c; }
  if (!p || !q || mkNot (Val (p)) != Val (q)) return false;
  cond = Val (p); return true;
}
static Val domCond (unsigned var, int dom) {
  uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = DP.d[dom].test (i);
  return EP.table (var, 1, t);
}
static bool g_ite = true;

static void push (Ctx& cx, FP f, std::vector<int> const* live) {
  auto k = cx.key (*f);
  auto& v = cx.wl[k];
  f->phv = false;
  if (live) {
    auto hash = [live] (FState& x) {
      if (!x.phv) { uint64_t h = x.st->hash (); for (int r : *live) h = hmix (h, hval (x.regs[r])); x.ph = h; x.phv = true; }
      return x.ph;
    };
    for (auto& o : v) {
      if (hash (*o) != hash (*f) || !o->st->same (*f->st)) continue;
      if (sameRegs (*o, *f, *live)) { o->st->pc = unionPC (o->st->pc, f->st->pc); ++g_merges; return; }
    }
  }
  v.push_back (std::move (f)); ++cx.wln;
}

static FP cloneF (FState const& f) {
  auto n = std::make_unique<FState> ();
  n->st = std::make_unique<State> (*f.st);
  n->regs = f.regs; n->b = f.b; n->ip = f.ip; n->it = f.it;
  return n;
}
static SP cloneS (State const& s) { return std::make_unique<State> (s); }

// ---- memory access
static const ORef* findObj (State& st, uint64_t addr, uint64_t& off, std::string& why) {
  uint64_t r = addr >> 44, slot = (addr >> 24) & 0xFFFFF; off = addr & 0xFFFFFF;
  switch (r) {
  case R_GLOB:
    if (slot < g_ginit.size ()) { if (g_gconst[slot]) return &g_ginit[slot]; return &st.glob[slot]; }
    break;
  case R_HEAP:
    if (slot < st.heap.size () && st.heap[slot]) return &st.heap[slot];
    why = "access to freed or never allocated heap memory"; return nullptr;
  case R_STACK:
    if (slot < st.stack.size () && st.stack[slot]) return &st.stack[slot];
    why = "access to dead stack memory"; return nullptr;
  case R_FUNC: why = "data access to function address"; return nullptr;
  default: break;
  }
  why = addr < 4096 ? "null pointer dereference" : "access through invalid pointer";
  return nullptr;
}
static bool checkAcc (State& st, uint64_t addr, uint64_t n, bool wr, const ORef*& o, uint64_t& off, std::string& why) {
  o = findObj (st, addr, off, why);
  if (!o) return false;
  if (off + n > (*o)->d.size ()) { why = wr ? "out-of-bounds write" : "out-of-bounds read"; return false; }
  if (wr && (*o)->ro) { why = "write to read-only memory"; return false; }
  return true;
}
static Obj& writable (State& st, uint64_t addr) {
  uint64_t r = addr >> 44, slot = (addr >> 24) & 0xFFFFF;
  ORef& o = r == R_GLOB ? st.glob[slot] : r == R_HEAP ? st.heap[slot] : st.stack[slot];
  if (o.p->rc > 1) { o = ORef (new Obj (*o.p)); o.p->rc = 1; }
  return *o.p;
}
static uint64_t heapAlloc (State& st, uint64_t size, ObjKind k) {
  // lowest free slot, by size class so that buffers of different size never share an address
  size_t cls = 0; while (cls < 7 && size > (16ULL << cls)) ++cls;
  size_t slot = cls;
  while (slot < st.heap.size () && st.heap[slot]) slot += 8;
  if (slot >= 0xFFFFF) die ("heap exhausted");
  if (slot >= st.heap.size ()) st.heap.resize (slot + 1);
  if (size >= 0xFFFFFF) die ("allocation too large");
  st.heap[slot] = newObj (size, k, true);
  return mkAddr (R_HEAP, slot);
}

struct Exec;
// make operand a[i] of the instruction concrete, forking if it has several values
static BStat splitTerm (Ctx& cx, FP& f, int slot, unsigned w);
static BStat concretize (Ctx& cx, FP& f, int slot, unsigned w, uint64_t& out, const char* what) {
  Val v = slot < 0 ? cx.fn->cpool[-1 - slot] : f->regs[slot];
  if (v.c ()) { out = v.lo; return B_OK; }
  if (tainted (v)) { violation (f->st->pc, Val (1), std::string ("use of uninitialised value as ") + what); endPath (f->st->pc); return B_DEAD; }
  if (constUnder (f->st->pc, v, w, out)) { if (slot >= 0) f->regs[slot] = Val (out); return B_OK; }
  bool complete;
  auto vals = feasibleValues (f->st->pc, v, w, 2048, complete);
  if (!complete) die (std::string ("cannot enumerate the values of a symbolic ") + what);
  std::vector<FP> kids;
  for (auto x : vals) {
    PC pc = restrictPC (f->st->pc, mkEq (v, Val (x), w), true);
    if (!pc) continue;
    auto k = cloneF (*f); k->st->pc = pc; k->regs[slot] = Val (x);
    kids.push_back (std::move (k));
  }
  if (kids.size () == 1) { f = std::move (kids[0]); out = f->regs[slot].lo; return B_OK; }
  g_forks += kids.size (); cx.fn->forks += kids.size ();
  for (auto& k : kids) push (cx, std::move (k), nullptr);
  return B_REEXEC;
}

// A value of several variables: fork on a subterm that is a function of one variable with few values, so that what
// remains depends on fewer variables. B_OK: nothing to split on.
static BStat splitTerm (Ctx& cx, FP& f, int slot, unsigned w) {
  if (slot < 0) return B_OK;
  Val v = f->regs[slot];
  if (v.c () || tainted (v)) return B_OK;
  if (f->st->pc->size () == 1) { Val old = v; v = simplifyUnder (f->st->pc->front (), v, w); f->regs[slot] = v; if (v.c () || (v.e->kind == K_TABLE && v != old)) return B_REEXEC; }
  unsigned nvars = 0; v.e->sup.each ([&] (unsigned) { ++nvars; });
  if (nvars < 2) return B_OK;
  std::unordered_set<const Expr*> seen; const Expr* best = nullptr; std::set<uint64_t> bestVals;
  std::function<void (Val)> walk = [&] (Val x) {
    if (x.c () || !seen.insert (x.e).second || seen.size () > 4000) return;
    if (x.e->kind == K_TABLE) {
      std::set<uint64_t> vals;
      for (auto const& d : *f->st->pc) { Dom const& D = DP.d[d.domOf (x.e->imm)]; for (unsigned i = 0; i < 256 && vals.size () <= 16; ++i) if (D.test (i)) vals.insert (x.e->tab[i]); }
      if (vals.size () >= 2 && vals.size () <= 16 && (!best || vals.size () < bestVals.size ())) { best = x.e; bestVals = vals; }
      return;
    }
    for (auto const& a : x.e->a) walk (a);
  };
  walk (v);
  if (!best) return B_OK;
  Val t (best); unsigned tw = best->width;
  // worth it only if that removes the variable from the value
  { PC pc = restrictPC (f->st->pc, mkEq (t, Val (*bestVals.begin ()), tw), true);
    if (!pc) return B_OK;
    Val r = simplifyUnder (pc->front (), v, w);
    if (!r.c () && r.e->sup.test (best->imm)) return B_OK; }
  std::vector<FP> kids;
  for (auto x : bestVals) {
    PC pc = restrictPC (f->st->pc, mkEq (t, Val (x), tw), true);
    if (!pc) continue;
    auto k = cloneF (*f); k->st->pc = pc;
    if (pc->size () == 1) k->regs[slot] = simplifyUnder (pc->front (), v, w);
    kids.push_back (std::move (k));
  }
  if (kids.size () == 1) { f = std::move (kids[0]); return f->regs[slot] == v ? B_OK : B_REEXEC; }
  g_forks += kids.size (); cx.fn->forks += kids.size ();
  for (auto& k : kids) push (cx, std::move (k), nullptr);
  f.reset ();
  return B_REEXEC;
}

#include "builtins.inc"

static void gotoBlock (Func& fn, FState& f, int to) {
  int from = f.b;
  Block& B = fn.blocks[to];
  if (!B.phi.empty ()) {
    auto it = B.phi.find (from);
    if (it != B.phi.end ()) {
      Val tmp[32]; std::vector<Val> big; auto const& cs = it->second;
      Val* t = tmp; if (cs.size () > 32) { big.resize (cs.size ()); t = big.data (); }
      for (size_t i = 0; i < cs.size (); ++i) t[i] = cs[i].src >= 0 ? f.regs[cs[i].src] : fn.cpool[-1 - cs[i].src];
      for (size_t i = 0; i < cs.size (); ++i) f.regs[cs[i].dst] = t[i];
    }
  }
  // loop iteration counters
  Block& A = fn.blocks[from];
  if (!B.loops.empty () || !A.loops.empty ()) {
    size_t common = 0;
    while (common < A.loops.size () && common < B.loops.size () && A.loops[common] == B.loops[common]) ++common;
    f.it.resize (B.loops.size (), 0);
    for (size_t i = common; i < B.loops.size (); ++i) f.it[i] = 0;
    if (!B.loops.empty () && B.loops.back () == to && common == B.loops.size ()) ++f.it.back ();
  }
  f.b = to; f.ip = 0;
}

static void mergeOuts (Outs& o, std::vector<Leaf> const& leaves) {
  if (o.size () < 2) return;
  std::unordered_multimap<uint64_t, size_t> ix; Outs r;
  bool diff = false;
  std::unordered_map<uint64_t, std::vector<PC>> pend;
  for (auto& x : o) {
    uint64_t h = x.st->hash () * 31 + x.unw + x.exc;
    for (auto const& v : x.ret) h = hmix (h, hval (v));
    auto rg = ix.equal_range (h); bool done = false;
    for (auto it = rg.first; it != rg.second; ++it) {
      Outcome& y = r[it->second];
      if (y.unw == x.unw && y.exc == x.exc && y.ret == x.ret && y.st->same (*x.st)) { pend[it->second].push_back (x.st->pc); ++g_merges; done = true; break; }
    }
    if (!done) { ix.emplace (h, r.size ()); r.push_back (std::move (x)); }
    else diff = true;
  }
  (void)diff;
  for (auto& pr : pend) {
    auto all = std::make_shared<PCv> (*r[pr.first].st->pc);
    for (auto const& p : pr.second) all->insert (all->end (), p->begin (), p->end ());
    PCv t = *all; extern void simplifyPCx (PCv&); simplifyPCx (t);
    r[pr.first].st->pc = std::make_shared<const PCv> (std::move (t));
  }
  // ite-merge of narrow integer results
  if (g_ite && r.size () > 1 && leaves.size () == 1 && leaves[0].w <= 32) {
    for (size_t i = 0; i < r.size (); ++i)
      for (size_t j = i + 1; j < r.size ();) {
        unsigned var; int da;
        if (!r[i].unw && !r[j].unw && discriminator (r[i].st->pc, r[j].st->pc, var, da) && r[i].st->same (*r[j].st)) {
          Val v = mkIte (domCond (var, da), r[i].ret[0], r[j].ret[0], leaves[0].w);
          if (v.c () || v.e->kind == K_TABLE) {
            r[i].ret[0] = v; r[i].st->pc = unionPC (r[i].st->pc, r[j].st->pc); r.erase (r.begin () + j); ++g_vmerge; j = i + 1; continue;
          }
        }
        Val cc;
        if (!r[i].unw && !r[j].unw && !tainted (r[i].ret[0]) && !tainted (r[j].ret[0]) && complementary (r[i].st->pc, r[j].st->pc, cc) && r[i].st->same (*r[j].st)) {
          r[i].ret[0] = mkIte (cc, r[i].ret[0], r[j].ret[0], leaves[0].w);
          r[i].st->pc = unionPC (r[i].st->pc, r[j].st->pc); r.erase (r.begin () + j); ++g_vmerge; j = i + 1; continue;
        }
        ++j;
      }
  }
  o = std::move (r);
}

static bool icmp (unsigned p, Val a, Val b, unsigned w, Val& r) {
  switch ((CmpInst::Predicate)p) {
  case CmpInst::ICMP_EQ: r = mkEq (a, b, w); break;
  case CmpInst::ICMP_NE: r = mkNot (mkEq (a, b, w)); break;
  case CmpInst::ICMP_ULT: r = mk (K_ULT, 1, w, 0, a, b); break;
  case CmpInst::ICMP_ULE: r = mk (K_ULE, 1, w, 0, a, b); break;
  case CmpInst::ICMP_UGT: r = mk (K_ULT, 1, w, 0, b, a); break;
  case CmpInst::ICMP_UGE: r = mk (K_ULE, 1, w, 0, b, a); break;
  case CmpInst::ICMP_SLT: r = mk (K_SLT, 1, w, 0, a, b); break;
  case CmpInst::ICMP_SLE: r = mk (K_SLE, 1, w, 0, a, b); break;
  case CmpInst::ICMP_SGT: r = mk (K_SLT, 1, w, 0, b, a); break;
  case CmpInst::ICMP_SGE: r = mk (K_SLE, 1, w, 0, b, a); break;
  default: return false;
  }
  return true;
}

// load from a concrete object through an address that takes several values depending on one symbolic byte
static bool tableLoad (State& st, Val addr, unsigned w, Val& out) {
  if (addr.c () || addr.e->kind != K_TABLE || w > 64) return false;
  unsigned var = addr.e->imm;
  Dom all{}; 
  for (auto const& d : *st.pc) { Dom const& D = DP.d[d.domOf (var)]; for (int i = 0; i < 4; ++i) all.w[i] |= D.w[i]; }
  uint64_t buf[256]; uint64_t dflt = 0; bool first = true;
  std::vector<char> in (256, 0);
  for (int i = 0; i < 256; ++i) if (all.test (i)) {
    const ORef* o; uint64_t off; std::string why;
    if (!checkAcc (st, addr.e->tab[i], (w + 7) / 8, false, o, off, why)) return false;
    Val v = objLoad (*(*o).p, off, w);
    if (!v.c ()) return false;
    buf[i] = v.lo; in[i] = 1; if (first) { dflt = v.lo; first = false; }
  }
  for (int i = 0; i < 256; ++i) if (!in[i]) buf[i] = dflt;
  out = EP.table (var, w, buf);
  return true;
}

static void unwindTo (Ctx& cx, FP f, Inst const& n, Outcome& o);

static int g_depth = 0;

static Outs callFunc (Func& fn, SP st, Val const* args, size_t nargs) {
  translate (fn);
  ++fn.calls;
  if (++g_depth > 4000) die ("call depth");
  static unsigned tick = 0;
  if ((++tick & 255) == 0 && elapsed () > g_time_limit) { writeReport ("timeout", "time limit in " + loc ()); _exit (4); }
  g_stack.push_back (fn.name.c_str ());
  Ctx cx; cx.fn = &fn; cx.stackBase = st->stack.size ();
  auto f0 = std::make_unique<FState> ();
  f0->st = std::move (st); f0->regs.resize (fn.nslots);
  for (size_t i = 0; i < nargs && i < (size_t)fn.nargs; ++i) f0->regs[i] = args[i];
  f0->it.resize (fn.blocks[0].loops.size (), 0);
  if (!fn.retLeavesSet) { leavesOf (fn.F->getReturnType (), 0, fn.retLeaves); fn.retLeavesSet = true; }
  std::vector<Leaf> const& retLeaves = fn.retLeaves;
  push (cx, std::move (f0), nullptr);
  uint64_t icount = 0;
  while (cx.wln) {
    auto it0 = cx.wl.begin ();
    if (it0->second.empty ()) { cx.wl.erase (it0); continue; }
    FP f = std::move (it0->second.back ()); it0->second.pop_back (); --cx.wln;
    if (it0->second.empty ()) cx.wl.erase (it0);
    if ((++tick & 255) == 0 && elapsed () > g_time_limit) { writeReport ("timeout", "time limit in " + loc ()); _exit (4); }
    // run f
    for (;;) {
      Inst& n = fn.blocks[f->b].ins[f->ip];
      ++icount; ++g_instrs;
      auto V = [&] (int i) -> Val { int s = n.a[i]; return s >= 0 ? f->regs[s] : fn.cpool[-1 - s]; };
      auto set = [&] (Val v) { f->regs[n.dst] = v; };
      auto kill = [&] (std::string const& why) { violation (f->st->pc, Val (1), why); endPath (f->st->pc); f.reset (); };
      // transition to block; returns false when the state was queued instead of continued
      auto go = [&] (int to) {
        gotoBlock (fn, *f, to);
        if (cx.wln) { push (cx, std::move (f), &fn.blocks[to].liveIn); return false; }
        return true;
      };
      switch (n.op) {
      case O_NOP: ++f->ip; continue;
      case O_BIN: {
        Val a = V (0), b = V (1);
        if (n.sub >= K_UDIV && n.sub <= K_SREM) {
          if (b.c () ? b.lo == 0 : true) {
            Val z = b.c () ? Val (1) : mkEq (b, Val (0), n.w);
            if (!(z.c () && z.lo == 0)) {
              PC t = restrictPC (f->st->pc, z, true);
              if (t) {
                violation (t, Val (1), "division by zero");
                endPath (t);
                PC e = restrictPC (f->st->pc, z, false);
                if (!e) { f.reset (); break; }
                f->st->pc = e;
              }
            }
          }
          if ((n.sub == K_UDIV || n.sub == K_UREM) && n.w <= 64 && !tainted (a) && !tainted (b)) {
            // divisors with few values: one path per value; wide dividends which the path condition bounds: narrowed
            if (!b.c () && vmax (b, n.w) - vmin (b) <= 64) {
              uint64_t x; auto r = concretize (cx, f, n.a[1], n.w, x, "divisor");
              if (r != B_OK) { f.reset (); break; }
              b = Val (x);
            }
            if (n.w > 32 && !b.c ()) {
              auto narrow = [&] (Val& v) {
                for (unsigned nw : {10u, 16u, 24u, 40u}) {
                  if (v.c () || !(vmax (v, n.w) >> nw)) return;
                  if (solvePC (f->st->pc, mk (K_ULT, 1, n.w, 0, Val ((1ULL << nw) - 1), v), nullptr) == UNSAT) { v = mkConcat (Val (0), n.w - nw, mkExtract (v, n.w, 0, nw), nw); return; }
                }
              };
              narrow (a); narrow (b);
            } else if (!a.c () && n.w > 32 && vmax (a, n.w) >> 32) {
              for (unsigned nw : {24u, 40u}) if (solvePC (f->st->pc, mk (K_ULT, 1, n.w, 0, Val ((1ULL << nw) - 1), a), nullptr) == UNSAT) {
                a = mkConcat (Val (0), n.w - nw, mkExtract (a, n.w, 0, nw), nw); break; }
            }
          }
        }
        if (n.sub >= K_SHL && n.sub <= K_ASHR && b.c () && b.lo >= n.w) { set (mkUndef (n.w)); ++f->ip; continue; }
        if (a.c () && b.c () && n.w <= 64) set (Val (evalOp ((Kind)n.sub, n.w, n.w, 0, a.lo, b.lo, 0)));
        else set (mk ((Kind)n.sub, n.w, n.w, 0, a, b));
        ++f->ip; continue;
      }
      case O_ICMP: {
        Val r; if (!icmp (n.sub, V (0), V (1), n.aw, r)) die ("icmp"); set (r); ++f->ip; continue; }
      case O_SELECT: {
        Val c = V (0);
        if (!c.c ()) {
          // pointers and sizes: fork, data: ite
          bool data = true;
          for (int k = 0; k < n.nd; ++k) if ((n.leaves[k].w > 32 || tainted (V (1 + 2 * k)) || tainted (V (2 + 2 * k))) && V (1 + 2 * k) != V (2 + 2 * k)) data = false;
          uint64_t cv;
          if (constUnder (f->st->pc, c, 1, cv)) c = Val (cv);
          else if (!data && !tainted (c)) {
            PC t, e; splitPC (f->st->pc, c, t, e);
            if (t && e) {
              ++g_forks; ++fn.forks;
              auto k = cloneF (*f); k->st->pc = e;
              for (int q = 0; q < n.nd; ++q) k->regs[n.dst + q] = V (2 + 2 * q);
              ++k->ip; push (cx, std::move (k), nullptr);
              f->st->pc = t; c = Val (1);
            } else c = Val (t ? 1 : 0);
          }
        }
        if (n.nd == 1) { set (c.c () ? V (c.lo ? 1 : 2) : mkIte (c, V (1), V (2), n.leaves[0].w)); }
        else { std::vector<Val> t; for (int k = 0; k < n.nd; ++k) t.push_back (c.c () ? V (c.lo ? 1 + 2 * k : 2 + 2 * k) : mkIte (c, V (1 + 2 * k), V (2 + 2 * k), n.leaves[k].w));
          for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = t[k]; }
        ++f->ip; continue;
      }
      case O_TRUNC: { Val a = V (0); set (a.c () ? Val (a.lo & maskw (n.w)) : mkExtract (a, n.aw, 0, n.w)); ++f->ip; continue; }
      case O_ZEXT: { Val a = V (0); set (mkZext (a, n.aw, n.w)); ++f->ip; continue; }
      case O_SEXT: { Val a = V (0); set (a.c () && n.w <= 64 ? Val ((uint64_t)sx (a.lo, n.aw) & maskw (n.w)) : mk (K_SEXT, n.w, n.aw, 0, a)); ++f->ip; continue; }
      case O_MOV: set (V (0)); ++f->ip; continue;
      case O_FREEZE: for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = V (k); ++f->ip; continue;
      case O_EXTRACTV: {
        if (n.nd == 1) set (V (0));
        else { std::vector<Val> t; for (int k = 0; k < n.nd; ++k) t.push_back (V (k)); for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = t[k]; }
        ++f->ip; continue; }
      case O_GEP: {
        Val p = V (0);
        p = mk (K_ADD, 64, 64, 0, p, Val ((uint64_t)n.x[0]));
        for (size_t k = 1; k < n.a.size (); ++k) {
          Val ix = V (k); unsigned iw = (unsigned)n.x[2 * k];
          if (iw < 64) ix = ix.c () ? Val ((uint64_t)sx (ix.lo, iw)) : mk (K_SEXT, 64, iw, 0, ix);
          p = mk (K_ADD, 64, 64, 0, p, mk (K_MUL, 64, 64, 0, ix, Val ((uint64_t)n.x[2 * k - 1])));
        }
        set (p); ++f->ip; continue;
      }
      case O_LOAD: {
        Val p = V (0);
        if (!p.c ()) {
          uint64_t cv;
          if (!tainted (p) && constUnder (f->st->pc, p, 64, cv)) p = Val (cv);
          else {
            Val r;
            if (n.leaves.size () == 1 && tableLoad (*f->st, p, n.leaves[0].w, r)) { set (r); ++f->ip; continue; }
            static bool const nosplit = getenv ("VP_NOSPLIT"); if (!nosplit && splitTerm (cx, f, n.a[0], 64) != B_OK) { if (f) continue; break; }
            uint64_t a; BStat s = concretize (cx, f, n.a[0], 64, a, "load address");
            if (s == B_OK) p = Val (a); else { f.reset (); break; }
          }
        }
        const ORef* o; uint64_t off; std::string why;
        unsigned last = n.leaves.empty () ? 0 : n.leaves.back ().off + (n.leaves.back ().w + 7) / 8;
        if (!checkAcc (*f->st, p.lo, last, false, o, off, why)) { kill (why); break; }
        for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = objLoad (*o->p, off + n.leaves[k].off, n.leaves[k].w);
        ++f->ip; continue;
      }
      case O_STORE: {
        uint64_t a; BStat s = concretize (cx, f, n.a[0], 64, a, "store address");
        if (s != B_OK) { f.reset (); break; }
        const ORef* o; uint64_t off; std::string why;
        unsigned last = n.leaves.empty () ? 0 : n.leaves.back ().off + (n.leaves.back ().w + 7) / 8;
        if (!checkAcc (*f->st, a, last, true, o, off, why)) { kill (why); break; }
        Obj& ob = writable (*f->st, a);
        for (size_t k = 0; k < n.leaves.size (); ++k) objStore (ob, off + n.leaves[k].off, V (1 + k), n.leaves[k].w);
        ++f->ip; continue;
      }
      case O_ALLOCA: {
        uint64_t c; BStat s = concretize (cx, f, n.a[0], 64, c, "alloca size");
        if (s != B_OK) { f.reset (); break; }
        uint64_t slot = f->st->stack.size ();
        f->st->stack.push_back (newObj (n.x[0] * c, OK_STACK, true));
        set (Val (mkAddr (R_STACK, slot))); ++f->ip; continue;
      }
      case O_ATOMICRMW: {
        uint64_t a; BStat s = concretize (cx, f, n.a[0], 64, a, "atomic address");
        if (s != B_OK) { f.reset (); break; }
        const ORef* o; uint64_t off; std::string why;
        if (!checkAcc (*f->st, a, (n.w + 7) / 8, true, o, off, why)) { kill (why); break; }
        Val old = objLoad (*o->p, off, n.w), v = V (1), r;
        switch ((AtomicRMWInst::BinOp)n.sub) {
        case AtomicRMWInst::Add: r = mk (K_ADD, n.w, n.w, 0, old, v); break;
        case AtomicRMWInst::Sub: r = mk (K_SUB, n.w, n.w, 0, old, v); break;
        case AtomicRMWInst::Xchg: r = v; break;
        default: die ("atomicrmw");
        }
        objStore (writable (*f->st, a), off, r, n.w); set (old); ++f->ip; continue;
      }
      case O_CMPXCHG: {  // one thread: never fails spuriously
        uint64_t a; BStat s = concretize (cx, f, n.a[0], 64, a, "atomic address");
        if (s != B_OK) { f.reset (); break; }
        const ORef* o; uint64_t off; std::string why;
        if (!checkAcc (*f->st, a, (n.aw + 7) / 8, true, o, off, why)) { kill (why); break; }
        Val old = objLoad (*o->p, off, n.aw), same = mkEq (old, V (1), n.aw);
        objStore (writable (*f->st, a), off, mkIte (same, V (2), old, n.aw), n.aw);
        f->regs[n.dst] = old; f->regs[n.dst + 1] = same; ++f->ip; continue;
      }
      case O_BR: if (!go ((int)n.x[0])) break; continue;
      case O_CBR: {
        Val c = V (0);
        if (c.c ()) { if (!go ((int)n.x[c.lo ? 0 : 1])) break; continue; }
        if (tainted (c)) { kill ("branch on uninitialised value"); break; }
        PC t, e; splitPC (f->st->pc, c, t, e);
        if (t && e) {
          ++g_forks; ++fn.forks;
          auto k = cloneF (*f); k->st->pc = e; gotoBlock (fn, *k, (int)n.x[1]);
          push (cx, std::move (k), &fn.blocks[n.x[1]].liveIn);
          f->st->pc = t; gotoBlock (fn, *f, (int)n.x[0]);
          push (cx, std::move (f), &fn.blocks[n.x[0]].liveIn);
          break;
        }
        if (!t && !e) { f.reset (); break; }
        f->st->pc = t ? t : e;
        if (!go ((int)n.x[t ? 0 : 1])) break;
        continue;
      }
      case O_SWITCH: {
        Val c = V (0);
        if (c.c ()) { int to = (int)n.x[0]; for (size_t k = 1; k < n.x.size (); k += 2) if ((uint64_t)n.x[k] == c.lo) { to = (int)n.x[k + 1]; break; } if (!go (to)) break; continue; }
        if (tainted (c)) { kill ("switch on uninitialised value"); break; }
        std::map<int, Val> per; Val any (0);
        for (size_t k = 1; k < n.x.size (); k += 2) { Val q = mkEq (c, Val ((uint64_t)n.x[k]), n.aw); auto& z = per.emplace ((int)n.x[k + 1], Val (0)).first->second; z = mkOr1 (z, q); any = mkOr1 (any, q); }
        auto& z = per.emplace ((int)n.x[0], Val (0)).first->second; z = mkOr1 (z, mkNot (any));
        std::vector<std::pair<int, PC>> kids;
        for (auto& pr : per) { PC q = restrictPC (f->st->pc, pr.second, true); if (q) kids.push_back ({pr.first, q}); }
        if (kids.size () == 1) { f->st->pc = kids[0].second; if (!go (kids[0].first)) break; continue; }
        g_forks += kids.size (); fn.forks += kids.size ();
        for (auto& pr : kids) { auto k = cloneF (*f); k->st->pc = pr.second; gotoBlock (fn, *k, pr.first); push (cx, std::move (k), &fn.blocks[pr.first].liveIn); }
        f.reset (); break;
      }
      case O_RET: {
        Outcome o; for (size_t k = 0; k < n.a.size (); ++k) o.ret.push_back (V (k));
        o.st = std::move (f->st); o.st->stack.resize (cx.stackBase);
        cx.outs.push_back (std::move (o)); f.reset (); break;
      }
      case O_RESUME: {
        Outcome o; o.unw = true; o.exc = V (0).lo; o.st = std::move (f->st); o.st->stack.resize (cx.stackBase);
        cx.outs.push_back (std::move (o)); f.reset (); break;
      }
      case O_UNREACH: kill ("reached code the compiler assumes unreachable (undefined behaviour)"); break;
      case O_LPAD: die ("landingpad executed directly");
      case O_UNSUP: { std::string s; raw_string_ostream os (s); n.I->print (os); die ("unsupported instruction " + s); }
      case O_CALL: {
        Outs outs;
        Func* cal = n.callee;
        if (!cal) {
          uint64_t a; BStat s = concretize (cx, f, n.a[0], 64, a, "call target");
          if (s != B_OK) { f.reset (); break; }
          cal = funcAt (a);
          if (!cal) { kill ("call through invalid function pointer " + addrName (a)); break; }
        }
        Val argv[48]; size_t na = n.a.size () - 1;
        if (na > 48) die ("too many arguments");
        for (size_t k = 0; k < na; ++k) argv[k] = V (k + 1);
        int bi = builtinIndex (*cal);
        if (bi >= 0) {
          BRes br{}; 
          BStat s = runBuiltin (bi, cx, f, n, *cal, argv, na, br);
          if (s == B_DEAD || s == B_REEXEC) { f.reset (); break; }
          if (s == B_OK) {
            if (n.nd == 1) f->regs[n.dst] = br.ret; else if (n.nd > 1) for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = br.rets[k];
            if (n.sub == 1) { if (!go ((int)n.x[0])) break; continue; }
            ++f->ip; continue;
          }
          outs = std::move (br.outs);  // B_MULTI (state moved into outs)
        } else {
          if (cal->F->isDeclaration ()) die ("call of unmodelled external function " + cal->name);
          if (n.sub2) {  // byval: the callee receives its own copy
            for (unsigned i = 0, k = 0; i < cal->F->arg_size (); ++i) {
              auto* A = cal->F->getArg (i);
              if (A->hasByValAttr ()) {
                uint64_t sz = g_dl->getTypeAllocSize (A->getParamByValType ());
                const ORef* o; uint64_t off; std::string why;
                if (!argv[k].c () || !checkAcc (*f->st, argv[k].lo, sz, false, o, off, why)) die ("byval argument");
                ORef c = newObj (sz, OK_STACK, false);
                for (uint64_t b = 0; b < sz; ++b) objSetByte (*c.p, b, objByte (*o->p, off + b));
                f->st->stack.push_back (c);
                argv[k] = Val (mkAddr (R_STACK, f->st->stack.size () - 1));
              }
              k += nleaves (A->getType ());
            }
          }
          if (cal->F->isVarArg ()) {  // the further arguments lie just below the callee's frame
            auto* CB = cast<CallBase> (n.I); size_t fixed = 0, k = 0;
            for (auto& A : cal->F->args ()) fixed += nleaves (A.getType ());
            ORef c = newObj (8 * (na - fixed) + 8, OK_STACK, true);
            for (unsigned i = 0; i < CB->arg_size (); ++i) {
              Type* T = CB->getArgOperand (i)->getType (); unsigned m = nleaves (T);
              if (k >= fixed) { if (m != 1 || bitw (T) > 64) die ("variadic argument"); objStore (*c.p, 8 * (k - fixed), argv[k], bitw (T)); }
              k += m;
            }
            f->st->stack.push_back (c); na = fixed;
          }
          outs = callFunc (*cal, std::move (f->st), argv, na);
        }
        if (outs.size () == 1 && !outs[0].unw) {
          f->st = std::move (outs[0].st);
          for (int k = 0; k < n.nd; ++k) f->regs[n.dst + k] = outs[0].ret[k];
          if (n.sub == 1) { if (!go ((int)n.x[0])) break; continue; }
          ++f->ip; continue;
        }
        for (auto& o : outs) {
          auto k = std::make_unique<FState> ();
          k->st = std::move (o.st); k->regs = f->regs; k->b = f->b; k->ip = f->ip; k->it = f->it;
          if (o.unw) { Outcome tmp; tmp.exc = o.exc; unwindTo (cx, std::move (k), n, tmp); continue; }
          for (int q = 0; q < n.nd; ++q) k->regs[n.dst + q] = o.ret[q];
          if (n.sub == 1) { gotoBlock (fn, *k, (int)n.x[0]); push (cx, std::move (k), &fn.blocks[n.x[0]].liveIn); }
          else { ++k->ip; push (cx, std::move (k), &n.liveAfter); }
        }
        f.reset (); break;
      }
      default: die ("bad op");
      }
      break;
    }
  }
  fn.instrs += icount;
  mergeOuts (cx.outs, retLeaves);
  g_stack.pop_back (); --g_depth;
  return std::move (cx.outs);
}

static void unwindTo (Ctx& cx, FP f, Inst const& n, Outcome& o) {
  if (n.sub != 1) {  // plain call: propagate
    Outcome q; q.unw = true; q.exc = o.exc; q.st = std::move (f->st); q.st->stack.resize (cx.stackBase);
    cx.outs.push_back (std::move (q)); return;
  }
  int pad = (int)n.x[1];
  Block& B = cx.fn->blocks[pad];
  size_t li = 0; while (li < B.ins.size () && B.ins[li].op != O_LPAD) ++li;
  if (li == B.ins.size ()) die ("no landing pad");
  Inst const& lp = B.ins[li];
  uint64_t tinfo = 0; for (auto const& e : f->st->excs) if (e.first == o.exc) tinfo = e.second;
  int64_t sel = 0; bool enter = lp.sub;
  for (auto c : lp.x) if (c == 0 || c == -1 || excMatches (*f->st, tinfo, (uint64_t)c)) { sel = typeSel ((uint64_t)c); enter = true; break; }
  if (!enter) {
    Outcome q; q.unw = true; q.exc = o.exc; q.st = std::move (f->st); q.st->stack.resize (cx.stackBase);
    cx.outs.push_back (std::move (q)); return;
  }
  gotoBlock (*cx.fn, *f, pad);
  f->regs[lp.dst] = Val (o.exc); f->regs[lp.dst + 1] = Val ((uint64_t)sel & 0xffffffff);
  f->ip = (int)li + 1;
  push (cx, std::move (f), nullptr);
}

// ------------------------------------------------------------------ report
static std::string jstr (std::string const& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf (b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static std::string hexInputs (Assign const& m) {
  std::string s = "{"; bool first = true;
  for (auto const& pr : g_inputs) {
    if (!first) s += ","; first = false;
    s += "\"" + std::to_string (pr.first) + "\":\"";
    Input const& in = pr.second; size_t ri = 0;
    for (size_t i = 0; i < in.b.size (); ++i) {
      if (ri < in.reps.size () && i >= in.reps[ri].to) ++ri;
      if (ri < in.reps.size () && i >= in.reps[ri].from && i - in.reps[ri].from >= in.reps[ri].unit * in.reps[ri].counts[m.get (in.reps[ri].cvar)]) continue;
      unsigned x = in.b[i] >= 0 ? in.b[i] : in.var[i] < 0 ? DP.d[-1 - in.b[i]].first () : (unsigned)m.get (in.var[i]);
      char t[4]; snprintf (t, 4, "%02x", x & 255); s += t;
    }
    s += "\"";
  }
  return s + "}";
}
static void writeReport (std::string const& status, std::string const& err) {
  if (g_out.empty ()) return;
  std::ofstream o (g_out);
  o << "{\"status\":" << jstr (status) << ",\"error\":" << jstr (err) << ",\n\"violations\":[";
  for (size_t i = 0; i < g_viol.size (); ++i) o << (i ? ",\n" : "") << "{\"msg\":" << jstr (g_viol[i].msg) << ",\"where\":" << jstr (g_viol[i].where) << ",\"inputs\":" << hexInputs (g_viol[i].model) << "}";
  o << "],\n\"known\":[";
  for (size_t i = 0; i < g_knownModels.size (); ++i) o << (i ? ",\n" : "") << "{\"id\":" << jstr (g_knownModels[i].first) << ",\"inputs\":" << hexInputs (g_knownModels[i].second) << "}";
  o << "],\n\"covers\":{"; bool first = true;
  for (auto const& c : g_covers) { o << (first ? "" : ",") << jstr (c.first) << ":" << hexInputs (c.second); first = false; }
  o << "},\n\"samples\":[";
  for (size_t i = 0; i < g_samples.size (); ++i) { o << (i ? ",\n" : "") << "{\"inputs\":" << hexInputs (g_samples[i].as) << ",\"obs\":\""; for (auto b : g_samples[i].obs) { char t[4]; snprintf (t, 4, "%02x", b); o << t; } o << "\"}"; }
  o << "],\n\"functions\":["; first = true;
  for (auto const& f : g_funcs) if (f->calls && f->translated) { o << (first ? "" : ",") << jstr (f->name); first = false; }
  rusage ru; getrusage (RUSAGE_SELF, &ru);
  o << "],\n\"stats\":{\"instructions\":" << g_instrs << ",\"forks\":" << g_forks << ",\"merges\":" << g_merges << ",\"value_merges\":" << g_vmerge << ",\"paths\":" << g_paths
    << ",\"path_cubes\":" << g_nDisj << ",\"asserts\":" << g_asserts << ",\"asserts_by_solver\":" << g_assert_solver << ",\"asserts_by_propagation\":" << g_assert_prop
    << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown << ",\"quick_sat\":" << SS.quick << ",\"cached\":" << SS.cached
    << ",\"solver_s\":" << SS.seconds << ",\"wall_s\":" << elapsed () << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << ",\"exprs\":" << EP.all.size () << "},\n"
    << "\"coverage\":" << jstr (g_coverage) << "}\n";
}

// ------------------------------------------------------------------ driver
static void parseInput (std::string const& arg) {
  // IDX=tok,tok...   tok: l:<hex>  s:<n>  c:<n>:<64 hex digits: 256-bit set, byte 0 = lowest bit of first nibble pair>
  auto eq = arg.find ('='); int idx = atoi (arg.substr (0, eq).c_str ());
  // r:<counts>:<tok>[+<tok>...]  counts: numbers and ranges lo-hi joined by ';' : any of these many repetitions
  Input in; std::stringstream ss (arg.substr (eq + 1)); std::string tok;
  auto one = [&] (std::string const& tok) {
    if (tok[0] == 'l') { for (size_t i = 2; i + 1 < tok.size (); i += 2) in.b.push_back ((int)strtol (tok.substr (i, 2).c_str (), nullptr, 16)); }
    else if (tok[0] == 's') { int n = atoi (tok.c_str () + 2); for (int i = 0; i < n; ++i) in.b.push_back (-1 - DOM_FULL); }
    else if (tok[0] == 'c') {
      auto c2 = tok.find (':', 2); int n = atoi (tok.substr (2, c2 - 2).c_str ()); std::string hx = tok.substr (c2 + 1);
      Dom d{}; for (int i = 0; i < 32; ++i) { int b = (int)strtol (hx.substr (2 * i, 2).c_str (), nullptr, 16); for (int k = 0; k < 8; ++k) if (b >> k & 1) d.set (i * 8 + k); }
      for (int i = 0; i < n; ++i) in.b.push_back (-1 - DP.get (d));
    } else die ("bad input spec " + tok);
  };
  while (std::getline (ss, tok, ',')) {
    if (tok.empty ()) continue;
    if (tok[0] != 'r') { one (tok); continue; }
    auto c2 = tok.find (':', 2); std::stringstream cs (tok.substr (2, c2 - 2)); std::string c; Rep r; int top = 0;
    while (std::getline (cs, c, ';')) { int lo = atoi (c.c_str ()), hi = lo; auto d = c.find ('-'); if (d != std::string::npos) hi = atoi (c.c_str () + d + 1); for (int k = lo; k <= hi; ++k) { r.counts.push_back (k); top = std::max (top, k); } }
    if (r.counts.empty () || r.counts.size () > 256) die ("bad repetition " + tok);
    r.from = in.b.size ();
    for (int k = 0; k < top; ++k) { std::stringstream us (tok.substr (c2 + 1)); std::string u; while (std::getline (us, u, '+')) one (u); if (k == 0) r.unit = in.b.size () - r.from; }
    if (!top) continue;
    r.to = in.b.size (); in.reps.push_back (r);
  }
  g_inputs[idx] = in;
}

static int realMain (int argc, char** argv) {
  std::string file, entry; size_t maxCover = 4000;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { if (i + 1 >= argc) die ("argument"); return std::string (argv[++i]); };
    if (a == "--entry") entry = next ();
    else if (a == "--in") parseInput (next ());
    else if (a == "--param") { auto s = next (); auto eq = s.find ('='); g_params[atoi (s.c_str ())] = atoll (s.c_str () + eq + 1); }
    else if (a == "--out") g_out = next ();
    else if (a == "--time") g_time_limit = atof (next ().c_str ());
    else if (a == "--samples") g_maxSamples = atoi (next ().c_str ());
    else if (a == "--max-viol") g_max_viol = atoi (next ().c_str ());
    else if (a == "--solver-timeout") g_solver_timeout_ms = atoi (next ().c_str ());
    else if (a == "-v") g_verbose = true;
    else if (a == "--no-ite") g_ite = false;
    else file = a;
  }
  g_t0 = std::chrono::steady_clock::now ();
  SMDiagnostic err;
  g_mod = parseIRFile (file, err, g_ctx);
  if (!g_mod) die ("cannot read " + file);
  g_dl = &g_mod->getDataLayout ();
  initGlobals ();
  Function* E = g_mod->getFunction (entry);
  if (!E || E->isDeclaration ()) die ("no entry function " + entry);
  auto st = std::make_unique<State> ();
  // symbolic variables: one per symbolic input byte, in input order
  { unsigned v = 0;
    for (auto& pr : g_inputs) {
      Input& in = pr.second;
      for (auto& r : in.reps) {
        Dom d{}; for (size_t k = 0; k < r.counts.size (); ++k) d.set (k);
        r.cvar = (int)v; r.cval = EP.newVar (v, 8, "n" + std::to_string (pr.first) + "_" + std::to_string (r.from)); g_space.setDom (v, DP.get (d)); ++v;
        if (r.counts.size () == 1) r.cval = Val (0);
      }
      for (size_t i = 0; i < in.b.size (); ++i) {
        if (in.b[i] >= 0) { in.v.push_back (Val (in.b[i])); in.var.push_back (-1); continue; }
        Val x = EP.newVar (v, 8, "in" + std::to_string (pr.first) + "_" + std::to_string (i));
        int d = -1 - in.b[i]; g_space.setDom (v, d); in.var.push_back ((int)v); ++v;
        if (DP.d[d].count () == 1) x = Val ((uint64_t)DP.d[d].first ());
        in.v.push_back (x);
      }
    } }
  st->pc = std::make_shared<PCv> (PCv{g_space});
  for (size_t i = 0; i < g_ginit.size (); ++i) st->glob.push_back (g_gconst[i] ? ORef () : g_ginit[i]);
  // static constructors
  if (auto* gc = g_mod->getGlobalVariable ("llvm.global_ctors")) if (gc->hasInitializer ()) if (auto* ca = dyn_cast<ConstantArray> (gc->getInitializer ()))
    for (auto const& o : ca->operands ()) {
      auto* cs = dyn_cast<ConstantStruct> (o); if (!cs) continue;
      auto* cf = dyn_cast<Function> (cs->getOperand (1)->stripPointerCasts ()); if (!cf) continue;
      Outs r = callFunc (*g_fmap[cf], std::move (st), nullptr, 0);
      if (r.size () != 1 || r[0].unw) die ("static constructor forked or threw");
      st = std::move (r[0].st);
    }
  setupBuiltinState (*st);
  Outs r = callFunc (*g_fmap[E], std::move (st), nullptr, 0);
  std::mt19937 rng (7);
  std::vector<size_t> order (r.size ()); for (size_t i = 0; i < order.size (); ++i) order[i] = i;
  std::shuffle (order.begin (), order.end (), rng);
  for (auto& o : r) {
    if (o.unw) {
      uint64_t ti = 0; for (auto const& e : o.st->excs) if (e.first == o.exc) ti = e.second;
      violation (o.st->pc, Val (1), "exception escapes: " + addrName (ti));
    }
    endPath (o.st->pc);
  }
  size_t round = 0;
  while (g_samples.size () < g_maxSamples && round < 3 && !r.empty ()) {
    for (size_t q : order) {
      if (g_samples.size () >= g_maxSamples) break;
      auto& o = r[q]; if (o.unw) continue;
      Disj const& d = (*o.st->pc)[rng () % o.st->pc->size ()];
      Assign m; if (solveDisj (d, Val (1), &m) != SAT) continue;
      if (d.cons.empty ()) for (unsigned v = 0; v < EP.varWidth.size (); ++v) { Dom const& D = DP.d[d.domOf (v)]; unsigned c = D.count (), k = c ? rng () % c : 0; for (int b = 0; b < 256; ++b) if (D.test (b) && k-- == 0) { m.v[v] = b; break; } }
      Sample s; s.as = m; for (auto const& v : o.st->obs) s.obs.push_back ((uint8_t)evalExpr (v, m));
      g_samples.push_back (std::move (s));
    }
    ++round;
  }
  // exhaustiveness: the ended paths cover the whole input space
  for (auto const& p : g_done) g_nDisj += p->size ();
  bool anyCons = false; for (auto const& p : g_done) for (auto const& d : *p) anyCons |= !d.cons.empty ();
  if (g_nDisj <= maxCover) {
    Assign gap;
    Res cr = solveCoverage (g_done, g_space, &gap);
    g_coverage = cr == UNSAT ? "solver-proved" : cr == SAT ? "GAP " + hexInputs (gap) : "unknown";
  } else g_coverage = "too-many";
  if (g_coverage == "unknown" || g_coverage == "too-many") {
    if (!anyCons) {
      long double tot = 1, sum = 0;
      for (unsigned v = 0; v < EP.varWidth.size (); ++v) tot *= DP.d[g_space.domOf (v)].count ();
      for (auto const& p : g_done) for (auto const& d : *p) { long double x = 1; for (unsigned v = 0; v < EP.varWidth.size (); ++v) x *= DP.d[DP.And (d.domOf (v), g_space.domOf (v))].count (); sum += x; }
      g_coverage = sum >= tot * 0.9999999999L && sum <= tot * 1.0000000001L ? "counted" : "GAP by counting";
    } else g_coverage = "partition-by-construction";
  }
  if (g_coverage.rfind ("GAP", 0) != 0 && !EP.varWidth.empty ()) { Assign gap; if (randomGap (g_done, g_space, 300, gap)) g_coverage = "GAP " + hexInputs (gap); }
  if (SS.unknown) { g_inconclusive = true; if (g_inconclusiveWhy.empty ()) g_inconclusiveWhy = "solver timeouts"; }
  if (g_verbose) {
    std::vector<Func*> fs; for (auto& f : g_funcs) fs.push_back (f.get ());
    std::sort (fs.begin (), fs.end (), [] (Func* a, Func* b) { return a->instrs > b->instrs; });
    for (size_t i = 0; i < 25 && i < fs.size () && fs[i]->instrs; ++i) std::cerr << fs[i]->instrs << " instrs " << fs[i]->calls << " calls " << fs[i]->forks << " forks " << fs[i]->name << "\n";
    std::cerr << "outcomes " << r.size () << " paths " << g_paths << " cubes " << g_nDisj << " coverage " << g_coverage << "\n";
  }
  std::string status = !g_viol.empty () ? "violation" : g_inconclusive ? "inconclusive" : g_coverage.rfind ("GAP", 0) == 0 ? "error" : "pass";
  writeReport (status, status == "inconclusive" ? g_inconclusiveWhy : status == "error" ? "exploration left inputs uncovered: " + g_coverage : "");
  std::cerr << "status " << status << " violations " << g_viol.size () << " paths " << g_paths << " instrs " << g_instrs << " queries " << SS.queries << " solver_s " << SS.seconds << " wall_s " << elapsed () << "\n";
  _exit (status == "pass" ? 0 : status == "violation" ? 1 : 2);
}
struct MainArgs { int c; char** v; };
int main (int argc, char** argv) {
  MainArgs ma{argc, argv};
  pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 4ULL << 30);
  pthread_t th;
  if (pthread_create (&th, &at, [] (void* p) -> void* { auto* m = (MainArgs*)p; realMain (m->c, m->v); return nullptr; }, &ma)) { perror ("pthread"); return 3; }
  pthread_join (th, nullptr);
  return 3;
}
