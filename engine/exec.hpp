// Symbolic executor for LLVM IR.
#pragma once
#include "expr.hpp"
#include <set>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/ADT/PostOrderIterator.h>

template <class T> struct Ref {
  T* p = nullptr;
  Ref () = default;
  explicit Ref (T* x) : p (x) { if (p) ++p->rc; }
  Ref (Ref const& o) : p (o.p) { if (p) ++p->rc; }
  Ref (Ref&& o) noexcept : p (o.p) { o.p = nullptr; }
  Ref& operator= (Ref o) noexcept { std::swap (p, o.p); return *this; }
  ~Ref () { if (p && --p->rc == 0) delete p; }
  T* operator-> () const { return p; }
  explicit operator bool () const { return p != nullptr; }
};

enum ObjKind : uint8_t { OK_STACK, OK_GLOBAL, OK_NEW, OK_NEWARR, OK_MALLOC, OK_EXC };
struct Obj {
  int rc = 0;
  ObjKind kind = OK_STACK;
  bool ro = false;
  std::vector<uint8_t> d;
  std::vector<const Expr*> s;  // per byte; empty when everything is concrete
  mutable uint64_t h = 0; mutable bool hv = false;
  uint64_t hash () const {
    if (hv) return h;
    uint64_t x = d.size () * 31 + kind;
    size_t i = 0, n = d.size ();
    for (; i + 8 <= n; i += 8) { uint64_t q; memcpy (&q, &d[i], 8); x = (x ^ q) * 0x9ddfea08eb382d69ULL; x ^= x >> 31; }
    for (; i < n; ++i) x = (x ^ d[i]) * 0x100000001b3ULL;
    if (!s.empty ()) for (i = 0; i < n; ++i) if (s[i]) x = hmix (x, i * 2654435761ULL + s[i]->hash);
    h = x; hv = true; return h;
  }
  bool same (Obj const& o) const {
    if (kind != o.kind || d != o.d) return false;
    if (s.empty () && o.s.empty ()) return true;
    for (size_t i = 0; i < d.size (); ++i) if ((s.empty () ? nullptr : s[i]) != (o.s.empty () ? nullptr : o.s[i])) return false;
    return true;
  }
};
typedef Ref<Obj> ORef;

struct State {
  std::vector<ORef> stack, heap, glob;
  PC pc;
  unsigned nvars = 0;
  std::vector<Val> obs;                       // observed bytes
  std::vector<std::pair<uint64_t, uint64_t>> excs;  // live exception objects: address, typeinfo
  std::set<std::string> notes;                // tags set by vp_known
  uint64_t hash () const {
    uint64_t h = nvars;
    size_t i = 0;
    for (auto const& o : stack) { ++i; if (o) h += hmix (i * 0x1357913579ULL, o->hash ()); }
    i = 1000000;
    for (auto const& o : heap) { ++i; if (o) h += hmix (i * 0x2468024680ULL, o->hash ()); }
    i = 2000000;
    for (auto const& o : glob) { ++i; if (o) h += hmix (i * 0x369258147ULL, o->hash ()); }
    for (auto const& v : obs) h = hmix (h, hval (v));
    return h + excs.size ();
  }
  static bool sameVec (std::vector<ORef> const& a, std::vector<ORef> const& b) {
    size_t n = std::max (a.size (), b.size ());
    for (size_t i = 0; i < n; ++i) {
      Obj* x = i < a.size () ? a[i].p : nullptr; Obj* y = i < b.size () ? b[i].p : nullptr;
      if (x == y) continue;
      if (!x || !y || !x->same (*y)) return false;
    }
    return true;
  }
  bool same (State const& o) const {
    return nvars == o.nvars && excs == o.excs && obs == o.obs && notes == o.notes && sameVec (stack, o.stack) && sameVec (heap, o.heap) && sameVec (glob, o.glob);
  }
};
typedef std::unique_ptr<State> SP;

enum Op : uint8_t {
  O_BIN, O_ICMP, O_SELECT, O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_CALL, O_EXTRACTV,
  O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACH, O_RESUME, O_LPAD, O_NOP, O_INSERTV, O_ATOMICRMW, O_CMPXCHG, O_UNSUP, O_FREEZE
};
struct Func;
struct Leaf { unsigned off, w; };
struct Inst {
  Op op = O_NOP;
  uint8_t sub = 0, sub2 = 0;
  uint16_t w = 0, aw = 0;
  int dst = -1, nd = 0;        // destination slot and number of slots
  std::vector<int> a;          // operand slots (negative: constant pool)
  std::vector<int64_t> x;      // immediate data
  std::vector<Leaf> leaves;
  std::vector<int> liveAfter;
  Func* callee = nullptr;
  const llvm::Instruction* I = nullptr;
};
struct PhiCopy { int dst, src; };
struct Block {
  std::vector<Inst> ins;
  std::map<int, std::vector<PhiCopy>> phi;  // predecessor block -> copies
  std::vector<int> liveIn;
  std::vector<int> loops;   // header block indices, outermost first
  int rpo = 0;
  const llvm::BasicBlock* bb = nullptr;
};
struct Func {
  llvm::Function* F = nullptr;
  std::string name;
  bool translated = false;
  std::vector<Block> blocks;
  std::vector<Val> cpool;
  int nslots = 0, nargs = 0;
  uint64_t calls = 0, forks = 0, instrs = 0;
  bool retLeavesSet = false; std::vector<Leaf> retLeaves;
  int bi = -1;  // builtin index
};

struct FState {
  SP st;
  std::vector<Val> regs;
  int b = 0, ip = 0;
  std::vector<uint32_t> it;
  uint64_t ph = 0; bool phv = false;         // hash of state and live registers, set while waiting in a work list
};
typedef std::unique_ptr<FState> FP;

struct Outcome { SP st; std::vector<Val> ret; bool unw = false; uint64_t exc = 0; };
typedef std::vector<Outcome> Outs;
