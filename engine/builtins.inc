// Models of external functions. Included by exec.cpp.
enum BI {
  BI_NONE = -2, BI_NO = -1, BI_NOP = 0, BI_RET0, BI_NEW, BI_NEWARR, BI_MALLOC, BI_CALLOC, BI_DELETE, BI_DELETEARR, BI_FREE, BI_MEMCPY, BI_MEMSET, BI_MEMCMP,
  BI_BCMP, BI_MEMCHR, BI_STRLEN, BI_STRCMP, BI_CTYPE, BI_TOLOWER, BI_TOUPPER, BI_ASSERTFAIL, BI_TERMINATE, BI_GLIBASSERT, BI_THROWSTD, BI_CXA_ALLOC, BI_CXA_FREE,
  BI_CXA_THROW, BI_CXA_BEGIN, BI_CXA_END, BI_CXA_RETHROW, BI_GUARD_ACQ, BI_GUARD_REL, BI_VP_INPUT, BI_VP_PARAM, BI_VP_ASSUME, BI_VP_ASSERT, BI_VP_COVER,
  BI_VP_OBSERVE, BI_VP_EXPECT, BI_VP_KNOWN, BI_VP_FAIL, BI_LIFE, BI_CTLZ, BI_CTTZ, BI_CTPOP, BI_UMIN, BI_UMAX, BI_SMIN, BI_SMAX, BI_ABS, BI_USUBSAT, BI_UADDSAT, BI_OVF, BI_FSHL, BI_FSHR,
  BI_BSWAP, BI_EXPECT, BI_OBJSIZE, BI_TRAP, BI_TYPEID, BI_STACKSAVE, BI_ISCONST, BI_CTYPE_B, BI_CTYPE_TL, BI_CTYPE_TU, BI_CATEGORY, BI_IDENTITY, BI_IOSINIT, BI_IOSMINIT, BI_USEFACET, BI_MEMSETWIDE,
  BI_VP_CONCRETE, BI_CATNAME, BI_SCMP, BI_UCMP, BI_VP_REACH, BI_LOCALECLASSIC, BI_WMEMCPY, BI_VASTART, BI_VACOPY
};
struct BRes { Val ret; std::vector<Val> rets; Outs outs; };

static std::unordered_map<std::string, int>& bmap () {
  static std::unordered_map<std::string, int> m = {
    {"_Znwm", BI_NEW}, {"_Znam", BI_NEWARR}, {"_ZnwmRKSt9nothrow_t", BI_NEW}, {"malloc", BI_MALLOC}, {"calloc", BI_CALLOC},
    {"_ZdlPv", BI_DELETE}, {"_ZdlPvm", BI_DELETE}, {"_ZdaPv", BI_DELETEARR}, {"_ZdaPvm", BI_DELETEARR}, {"free", BI_FREE}, {"_ZdlPvRKSt9nothrow_t", BI_DELETE},
    {"_ZnwmSt11align_val_t", BI_NEW}, {"_ZdlPvmSt11align_val_t", BI_DELETE}, {"_ZdlPvSt11align_val_t", BI_DELETE},
    {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMCPY}, {"memset", BI_MEMSET}, {"memcmp", BI_MEMCMP}, {"bcmp", BI_BCMP}, {"memchr", BI_MEMCHR}, {"strlen", BI_STRLEN}, {"strcmp", BI_STRCMP},
    {"isalpha", BI_CTYPE}, {"isdigit", BI_CTYPE}, {"isxdigit", BI_CTYPE}, {"isalnum", BI_CTYPE}, {"isspace", BI_CTYPE}, {"isupper", BI_CTYPE}, {"islower", BI_CTYPE}, {"ispunct", BI_CTYPE},
    {"isprint", BI_CTYPE}, {"isgraph", BI_CTYPE}, {"iscntrl", BI_CTYPE}, {"isblank", BI_CTYPE}, {"tolower", BI_TOLOWER}, {"toupper", BI_TOUPPER},
    {"__ctype_b_loc", BI_CTYPE_B}, {"__ctype_tolower_loc", BI_CTYPE_TL}, {"__ctype_toupper_loc", BI_CTYPE_TU},
    {"__assert_fail", BI_ASSERTFAIL}, {"abort", BI_TERMINATE}, {"_ZSt9terminatev", BI_TERMINATE}, {"__cxa_pure_virtual", BI_TERMINATE}, {"exit", BI_TERMINATE}, {"__cxa_deleted_virtual", BI_TERMINATE},
    {"_ZSt21__glibcxx_assert_failPKciS0_S0_", BI_GLIBASSERT}, {"__cxa_allocate_exception", BI_CXA_ALLOC}, {"__cxa_free_exception", BI_CXA_FREE}, {"__cxa_throw", BI_CXA_THROW},
    {"__cxa_begin_catch", BI_CXA_BEGIN}, {"__cxa_end_catch", BI_CXA_END}, {"__cxa_rethrow", BI_CXA_RETHROW}, {"__cxa_get_exception_ptr", BI_IDENTITY}, {"__cxa_guard_acquire", BI_GUARD_ACQ}, {"__cxa_guard_release", BI_GUARD_REL}, {"__cxa_guard_abort", BI_NOP},
    {"__cxa_atexit", BI_RET0}, {"_ZNSt8ios_base4InitC1Ev", BI_NOP}, {"_ZNSt8ios_base4InitD1Ev", BI_NOP}, {"_ZSt21ios_base_library_initv", BI_NOP},
    {"vp_input", BI_VP_INPUT}, {"vp_param", BI_VP_PARAM}, {"vp_assume", BI_VP_ASSUME}, {"vp_assert", BI_VP_ASSERT}, {"vp_cover", BI_VP_COVER}, {"vp_observe", BI_VP_OBSERVE},
    {"vp_expect_cover", BI_VP_EXPECT}, {"vp_known", BI_VP_KNOWN}, {"vp_fail", BI_VP_FAIL}, {"vp_concrete", BI_VP_CONCRETE}, {"vp_reaches", BI_VP_REACH},
    {"_ZNSt3_V216generic_categoryEv", BI_CATEGORY}, {"_ZNSt3_V215system_categoryEv", BI_CATEGORY},
    {"_ZNSt3_V214error_categoryD2Ev", BI_NOP}, {"_ZNSt3_V214error_categoryD1Ev", BI_NOP}, {"_ZNSt3_V214error_categoryD0Ev", BI_NOP},
    {"_ZNSt6localeC1Ev", BI_NOP}, {"_ZNSt6localeD1Ev", BI_NOP}, {"_ZNSt6localeC1ERKS_", BI_NOP}, {"_ZNSt6localeaSERKS_", BI_IDENTITY}, {"_ZNSt6locale7classicEv", BI_CATEGORY},
    {"_ZNSt8ios_baseC2Ev", BI_IOSINIT}, {"_ZNSt8ios_baseD2Ev", BI_NOP}, {"_ZNSt8ios_base7_M_initEv", BI_IOSMINIT}, {"_ZSt18uncaught_exceptionv", BI_RET0}, {"_ZSt19uncaught_exceptionsv", BI_RET0}, {"_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale", BI_NOP},
    {"_ZNSt9exceptionD2Ev", BI_NOP}, {"_ZNSt9exceptionD1Ev", BI_NOP}, {"_ZNSt13runtime_errorD1Ev", BI_NOP}, {"_ZNSt11logic_errorD1Ev", BI_NOP},
    {"_ZNSt9bad_allocD1Ev", BI_NOP}, {"_ZNSt9bad_allocD2Ev", BI_NOP}, {"_ZNSt12out_of_rangeD1Ev", BI_NOP}, {"_ZNSt16invalid_argumentD1Ev", BI_NOP}, {"_ZNSt12length_errorD1Ev", BI_NOP},
    {"_ZNSt11logic_errorC1EPKc", BI_NOP}, {"_ZNSt13runtime_errorC1EPKc", BI_NOP}, {"_ZNSt16invalid_argumentC1EPKc", BI_NOP}, {"_ZNSt12out_of_rangeC1EPKc", BI_NOP}, {"_ZNSt12length_errorC1EPKc", BI_NOP},
    {"_ZNSt11logic_errorC2EPKc", BI_NOP}, {"_ZNSt13runtime_errorC2EPKc", BI_NOP},
  };
  return m;
}
static int builtinIndex (Func& f) {
  if (f.bi != -1) return f.bi == BI_NONE ? -1 : f.bi;
  auto& m = bmap (); std::string const& n = f.name;
  auto it = m.find (n);
  int r = BI_NONE;
  if (it != m.end () && !((it->second == BI_STRLEN || it->second == BI_STRCMP) && !f.F->isDeclaration ())) r = it->second;
  else if (n.rfind ("llvm.", 0) == 0) {
    auto has = [&] (const char* p) { return n.rfind (p, 0) == 0; };
    if (has ("llvm.memcpy") || has ("llvm.memmove")) r = BI_MEMCPY;
    else if (has ("llvm.memset")) r = BI_MEMSET;
    else if (has ("llvm.lifetime")) r = BI_LIFE;
    else if (has ("llvm.ctlz")) r = BI_CTLZ; else if (has ("llvm.cttz")) r = BI_CTTZ; else if (has ("llvm.ctpop")) r = BI_CTPOP;
    else if (has ("llvm.umin")) r = BI_UMIN; else if (has ("llvm.umax")) r = BI_UMAX; else if (has ("llvm.smin")) r = BI_SMIN; else if (has ("llvm.smax")) r = BI_SMAX;
    else if (has ("llvm.abs")) r = BI_ABS; else if (has ("llvm.usub.sat")) r = BI_USUBSAT; else if (has ("llvm.uadd.sat")) r = BI_UADDSAT;
    else if (has ("llvm.uadd.with") || has ("llvm.usub.with") || has ("llvm.umul.with") || has ("llvm.sadd.with") || has ("llvm.ssub.with") || has ("llvm.smul.with")) r = BI_OVF;
    else if (has ("llvm.fshl")) r = BI_FSHL; else if (has ("llvm.fshr")) r = BI_FSHR; else if (has ("llvm.bswap")) r = BI_BSWAP;
    else if (has ("llvm.expect")) r = BI_EXPECT; else if (has ("llvm.objectsize")) r = BI_OBJSIZE; else if (has ("llvm.trap") || has ("llvm.ubsantrap")) r = BI_TRAP;
    else if (has ("llvm.eh.typeid")) r = BI_TYPEID; else if (has ("llvm.stacksave")) r = BI_STACKSAVE; else if (has ("llvm.stackrestore")) r = BI_NOP;
    else if (has ("llvm.is.constant")) r = BI_ISCONST; else if (has ("llvm.invariant.start")) r = BI_RET0; else if (has ("llvm.invariant.end") || has ("llvm.prefetch") || has ("llvm.assume") || has ("llvm.dbg") || has ("llvm.experimental.noalias")) r = BI_NOP;
    else if (has ("llvm.va_start")) r = BI_VASTART; else if (has ("llvm.va_end")) r = BI_NOP; else if (has ("llvm.va_copy")) r = BI_VACOPY; else if (has ("llvm.threadlocal.address")) r = BI_IDENTITY;
    else if (has ("llvm.launder.invariant") || has ("llvm.strip.invariant")) r = BI_EXPECT;
  } else if (f.F->isDeclaration () && n.rfind ("_ZSt", 0) == 0 && n.find ("__throw_") != std::string::npos) r = BI_THROWSTD;
  f.bi = r;
  return r == BI_NONE ? -1 : r;
}

// ---- exceptions
static int64_t typeSel (uint64_t tinfo) { return tinfo == 0 ? 1 : (int64_t)(((tinfo >> 24) * 2654435761u) & 0x3fffffff) + 2; }
static bool excMatches (State& st, uint64_t thrown, uint64_t want) {
  if (thrown == want) return true;
  std::string t = addrName (thrown), w = addrName (want);
  if (t == w) return true;
  bool stdT = t.rfind ("_ZTISt", 0) == 0 || t.rfind ("_ZTINSt", 0) == 0;
  if (w == "_ZTISt9exception" && stdT) return true;
  if (w == "_ZTISt11logic_error") return t == "_ZTISt12out_of_range" || t == "_ZTISt12length_error" || t == "_ZTISt16invalid_argument" || t == "_ZTISt12domain_error";
  if (w == "_ZTISt13runtime_error") return t == "_ZTISt12system_error" || t == "_ZTISt11range_error" || t == "_ZTISt14overflow_error";
  // user-defined single inheritance: __si_class_type_info { vptr, name, base }
  const ORef* o; uint64_t off; std::string why;
  if ((thrown >> 44) == R_GLOB && checkAcc (st, thrown, 24, false, o, off, why)) {
    Val b = objLoad (*o->p, off + 16, 64), vp = objLoad (*o->p, off, 64);
    if (b.c () && vp.c () && addrName (vp.lo & ~0xFFFFFFULL).find ("si_class_type_info") != std::string::npos) return excMatches (st, b.lo, want);
  }
  return false;
}
static uint64_t symAddr (std::string const& n) {
  if (auto* g = g_mod->getNamedValue (n)) { auto it = g_addr.find (g); if (it != g_addr.end ()) return it->second; }
  return extAddr (n);
}
static void throwStd (FP& f, BRes& br, std::string const& tname) {
  uint64_t a = heapAlloc (*f->st, 128, OK_EXC);
  Obj& ob = writable (*f->st, a); ob.s.clear (); ob.hv = false;
  f->st->excs.push_back ({a, symAddr (tname)});
  Outcome o; o.unw = true; o.exc = a; o.st = std::move (f->st);
  br.outs.push_back (std::move (o));
}

static uint64_t g_ctypeB = 0, g_ctypeTL = 0, g_ctypeTU = 0;
static void setupBuiltinState (State& st) { (void)st; }
static uint64_t addGlobalTable (FP& f, std::vector<uint8_t> const& data, uint64_t bias) {
  // read-only table plus a cell holding a pointer to its biased start
  ORef t = newObj (data.size (), OK_GLOBAL, false); t->d = data; t->ro = true;
  uint64_t ta = mkAddr (R_GLOB, g_ginit.size ()); g_ginit.push_back (t); g_gconst.push_back (1); g_globals.push_back (g_globals[0]); f->st->glob.resize (g_ginit.size ());
  ORef c = newObj (8, OK_GLOBAL, false); objStore (*c.p, 0, Val (ta + bias), 64); c->ro = true;
  uint64_t ca = mkAddr (R_GLOB, g_ginit.size ()); g_ginit.push_back (c); g_gconst.push_back (1); g_globals.push_back (g_globals[0]); f->st->glob.resize (g_ginit.size ());
  return ca;
}
#include <ctype.h>
static int ctypeEval (std::string const& n, int c) {
  if (n == "isalpha") return isalpha (c) != 0; if (n == "isdigit") return isdigit (c) != 0; if (n == "isxdigit") return isxdigit (c) != 0; if (n == "isalnum") return isalnum (c) != 0;
  if (n == "isspace") return isspace (c) != 0; if (n == "isupper") return isupper (c) != 0; if (n == "islower") return islower (c) != 0; if (n == "ispunct") return ispunct (c) != 0;
  if (n == "isprint") return isprint (c) != 0; if (n == "isgraph") return isgraph (c) != 0; if (n == "iscntrl") return iscntrl (c) != 0; if (n == "isblank") return isblank (c) != 0;
  if (n == "tolower") return tolower (c); if (n == "toupper") return toupper (c);
  die ("ctype " + n);
}
static Val ctypeModel (FP& f, std::string const& n, Val v) {
  auto one = [&] (uint64_t x) -> uint64_t { int c = (int)(uint32_t)x; if (c < -128 || c > 255) return (n == "tolower" || n == "toupper") ? (uint32_t)c : 0; return (uint32_t)ctypeEval (n, c); };
  if (v.c ()) return Val (one (v.lo));
  if (v.e->kind == K_TABLE) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = one (v.e->tab[i]); return EP.table (v.e->imm, 32, t); }
  if (tainted (v)) return mkUndef (32);
  // general argument: nested selection over ranges is only needed for multi-byte arguments
  bool cas = n == "tolower" || n == "toupper";
  Val r = cas ? v : Val (0);
  for (int i = 0; i < 128; ++i) { uint64_t y = (uint32_t)ctypeEval (n, i); if (cas ? y != (uint64_t)i : y != 0) r = mkIte (mkEq (v, Val (i), 32), Val (y), r, 32); }
  return r;
}

static BStat copyMem (Ctx& cx, FP& f, uint64_t dst, uint64_t src, uint64_t n) {
  if (n == 0) return B_OK;
  const ORef *so, *dof; uint64_t soff, doff; std::string why;
  State& st = *f->st;
  if (!checkAcc (st, src, n, false, so, soff, why)) { violation (st.pc, Val (1), "memcpy source: " + why); endPath (st.pc); return B_DEAD; }
  ORef keep = *so;
  if (!checkAcc (st, dst, n, true, dof, doff, why)) { violation (st.pc, Val (1), "memcpy destination: " + why); endPath (st.pc); return B_DEAD; }
  Obj& d = writable (st, dst); d.hv = false;
  Obj* s = keep.p;
  memmove (&d.d[doff], &s->d[soff], n);
  if (!s->s.empty ()) {
    std::vector<const Expr*> tmp (s->s.begin () + soff, s->s.begin () + soff + n);
    bool any = !d.s.empty (); if (!any) for (auto* e : tmp) if (e) { any = true; break; }
    if (any) { if (d.s.empty ()) d.s.assign (d.d.size (), nullptr); std::copy (tmp.begin (), tmp.end (), d.s.begin () + doff); }
  } else if (!d.s.empty ()) std::fill (d.s.begin () + doff, d.s.begin () + doff + n, nullptr);
  (void)cx;
  return B_OK;
}

static std::string cstr (State& st, Val p) {
  std::string s; if (!p.c ()) return "?";
  for (uint64_t a = p.lo; s.size () < 400; ++a) { const ORef* o; uint64_t off; std::string why; if (!checkAcc (st, a, 1, false, o, off, why)) break; Val b = objByte (*o->p, off); if (!b.c () || b.lo == 0) break; s += (char)b.lo; }
  return s;
}

static void checkedAssert (FP& f, Val c, std::string const& msg, bool& dead) {
  dead = false; ++g_asserts;
  if (c.c ()) { if (c.lo) { ++g_assert_prop; return; } violation (f->st->pc, Val (1), msg); endPath (f->st->pc); dead = true; return; }
  if (tainted (c)) { violation (f->st->pc, Val (1), msg + " (depends on an uninitialised value)"); endPath (f->st->pc); dead = true; return; }
  bool bad = false, prop = true; PCv viol;
  for (auto const& d : *f->st->pc) {
    Val x = simplifyUnder (d, c, 1);
    if (x.c () && x.lo) continue;
    prop = false;
    Assign m; Res r = x.c () ? solveDisj (d, Val (1), &m) : solveDisj (d, mkNot (x), &m);
    if (r == UNSAT) continue;
    if (r == UNKNOWN) { g_inconclusive = true; g_inconclusiveWhy = "solver gave no answer on: " + msg; continue; }
    bad = true;
    if (g_verbose) { std::cerr << "ASSERT " << msg << " model"; for (auto q : m.v) fprintf (stderr, " %02x", (unsigned)q); std::cerr << "\n"; }
    addViol (msg, m);
    break;
  }
  if (prop) ++g_assert_prop; else ++g_assert_solver;
  if (bad) {
    PC t = restrictPC (f->st->pc, c, false); if (t) endPath (t);
    PC e = restrictPC (f->st->pc, c, true);
    if (!e) { dead = true; return; }
    f->st->pc = e;
  }
}

static BStat runBuiltin (int bi, Ctx& cx, FP& f, Inst const& n, Func& cal, Val* a, size_t na, BRes& br) {
  State& st = *f->st;
  auto conc = [&] (size_t i, unsigned w, uint64_t& out, const char* what) { BStat s = concretize (cx, f, n.a[i + 1], w, out, what); return s; };
  auto dead = [&] (std::string const& m) { violation (f->st->pc, Val (1), m); endPath (f->st->pc); return B_DEAD; };
  unsigned w = n.nd ? n.leaves[0].w : 0;
  switch (bi) {
  case BI_NOP: return B_OK;
  case BI_RET0: br.ret = Val (0); return B_OK;
  case BI_VASTART: case BI_VACOPY: {  // System V x86-64: no register save area left, everything in the overflow area
    uint64_t p; BStat s = conc (0, 64, p, "va_list"); if (s != B_OK) return s;
    if (bi == BI_VACOPY) { uint64_t q; s = conc (1, 64, q, "va_list"); if (s != B_OK) return s; return copyMem (cx, f, p, q, 24); }
    const ORef* o; uint64_t off; std::string why; if (!checkAcc (*f->st, p, 24, true, o, off, why)) return dead ("va_start: " + why);
    Obj& v = writable (*f->st, p); uint64_t m = mkAddr (R_STACK, cx.stackBase - 1);
    objStore (v, off, Val (48), 32); objStore (v, off + 4, Val (304), 32); objStore (v, off + 8, Val (m), 64); objStore (v, off + 16, Val (m), 64);
    return B_OK; }
  case BI_IDENTITY: br.ret = a[0]; return B_OK;
  case BI_NEW: case BI_NEWARR: case BI_MALLOC: {
    uint64_t sz; BStat s = conc (0, 64, sz, "allocation size"); if (s != B_OK) return s;
    if (sz > (1ULL << 23)) { if (bi == BI_MALLOC) { br.ret = Val (0); return B_OK; } throwStd (f, br, "_ZTISt9bad_alloc"); return B_MULTI; }
    br.ret = Val (heapAlloc (*f->st, sz, bi == BI_NEW ? OK_NEW : bi == BI_NEWARR ? OK_NEWARR : OK_MALLOC)); return B_OK; }
  case BI_CALLOC: {
    uint64_t x, y; BStat s = conc (0, 64, x, "allocation size"); if (s != B_OK) return s; s = conc (1, 64, y, "allocation size"); if (s != B_OK) return s;
    uint64_t p = heapAlloc (*f->st, x * y, OK_MALLOC); writable (*f->st, p).s.clear (); br.ret = Val (p); return B_OK; }
  case BI_DELETE: case BI_DELETEARR: case BI_FREE: {
    uint64_t p; BStat s = conc (0, 64, p, "freed pointer"); if (s != B_OK) return s;
    if (p == 0) return B_OK;
    ObjKind want = bi == BI_DELETE ? OK_NEW : bi == BI_DELETEARR ? OK_NEWARR : OK_MALLOC;
    const ORef* o; uint64_t off; std::string why;
    o = findObj (*f->st, p, off, why);
    if (!o) return dead ("invalid free: " + why);
    if (off != 0 || (p >> 44) != R_HEAP) return dead ("free of a pointer which was not allocated");
    if ((*o)->kind != want) return dead ("mismatched allocation and deallocation");
    f->st->heap[(p >> 24) & 0xFFFFF] = ORef ();
    while (!f->st->heap.empty () && !f->st->heap.back ()) f->st->heap.pop_back ();
    return B_OK; }
  case BI_MEMCPY: {
    uint64_t d, s0, len; BStat s = conc (2, 64, len, "memcpy length"); if (s != B_OK) return s;
    s = conc (0, 64, d, "memcpy destination"); if (s != B_OK) return s;
    s = conc (1, 64, s0, "memcpy source"); if (s != B_OK) return s;
    br.ret = Val (d); return copyMem (cx, f, d, s0, len); }
  case BI_MEMSET: {
    uint64_t d, len; BStat s = conc (2, 64, len, "memset length"); if (s != B_OK) return s;
    s = conc (0, 64, d, "memset destination"); if (s != B_OK) return s;
    br.ret = Val (d); if (!len) return B_OK;
    const ORef* o; uint64_t off; std::string why;
    if (!checkAcc (*f->st, d, len, true, o, off, why)) return dead ("memset: " + why);
    Obj& ob = writable (*f->st, d); Val v = a[1]; if (v.e) { v = mkExtract (v, cal.F->getArg (1)->getType ()->getIntegerBitWidth (), 0, 8); } else v.lo &= 255;
    for (uint64_t i = 0; i < len; ++i) objSetByte (ob, off + i, v);
    return B_OK; }
  case BI_MEMCMP: case BI_BCMP: case BI_STRCMP: {
    uint64_t p, q, len = 0; BStat s;
    if (bi != BI_STRCMP) { s = conc (2, 64, len, "memcmp length"); if (s != B_OK) return s; }
    s = conc (0, 64, p, "memcmp pointer"); if (s != B_OK) return s; s = conc (1, 64, q, "memcmp pointer"); if (s != B_OK) return s;
    if (bi == BI_STRCMP) len = std::max (cstr (*f->st, Val (p)).size (), cstr (*f->st, Val (q)).size ()) + 1;
    if (!len) { br.ret = Val (0); return B_OK; }
    const ORef *o1, *o2; uint64_t f1, f2; std::string why;
    if (!checkAcc (*f->st, p, bi == BI_STRCMP ? 1 : len, false, o1, f1, why) || !checkAcc (*f->st, q, bi == BI_STRCMP ? 1 : len, false, o2, f2, why)) return dead ("memcmp: " + why);
    Val r (0);
    if (bi == BI_BCMP) {
      Val eq (1); for (uint64_t i = 0; i < len; ++i) eq = mkAnd1 (eq, mkEq (objByte (*o1->p, f1 + i), objByte (*o2->p, f2 + i), 8));
      r = mkIte (eq, Val (0), Val (1), 32);
    } else {
      for (uint64_t i = len; i-- > 0;) {
        Val x = objByte (*o1->p, std::min<uint64_t> (f1 + i, (*o1)->d.size () - 1)), y = objByte (*o2->p, std::min<uint64_t> (f2 + i, (*o2)->d.size () - 1));
        r = mkIte (mkEq (x, y, 8), r, mkIte (mk (K_ULT, 1, 8, 0, x, y), Val (0xffffffff), Val (1), 32), 32);
      }
    }
    br.ret = r; return B_OK; }
  case BI_MEMCHR: {
    uint64_t p, len; BStat s = conc (2, 64, len, "memchr length"); if (s != B_OK) return s; s = conc (0, 64, p, "memchr pointer"); if (s != B_OK) return s;
    if (!len) { br.ret = Val (0); return B_OK; }
    const ORef* o; uint64_t off; std::string why;
    if (!checkAcc (*f->st, p, len, false, o, off, why)) return dead ("memchr: " + why);
    ORef keep = *o;
    Val c = mkExtract (a[1], 32, 0, 8);
    // one successor per position
    PC rest = f->st->pc;
    for (uint64_t i = 0; i <= len && rest; ++i) {
      PC hit, miss = nullptr;
      if (i == len) hit = rest; else splitPC (rest, mkEq (objByte (*keep.p, off + i), c, 8), hit, miss);
      if (hit) { Outcome oc; oc.st = cloneS (*f->st); oc.st->pc = hit; oc.ret.push_back (i == len ? Val (0) : Val (p + i)); br.outs.push_back (std::move (oc)); }
      rest = miss;
    }
    if (br.outs.size () == 1) { f->st = std::move (br.outs[0].st); br.ret = br.outs[0].ret[0]; br.outs.clear (); return B_OK; }
    g_forks += br.outs.size (); cx.fn->forks += br.outs.size ();
    return B_MULTI; }
  case BI_STRLEN: {
    uint64_t p; BStat s = conc (0, 64, p, "strlen pointer"); if (s != B_OK) return s;
    uint64_t i = 0;
    for (;; ++i) { const ORef* o; uint64_t off; std::string why; if (!checkAcc (*f->st, p + i, 1, false, o, off, why)) return dead ("strlen: " + why);
      Val b = objByte (*o->p, off); if (!b.c ()) die ("strlen of symbolic text"); if (b.lo == 0) break; }
    br.ret = Val (i); return B_OK; }
  case BI_CTYPE: case BI_TOLOWER: case BI_TOUPPER: br.ret = ctypeModel (f, cal.name, a[0]); return B_OK;
  case BI_CTYPE_B: if (!g_ctypeB) { std::vector<uint8_t> d (384 * 2); const unsigned short* t = *__ctype_b_loc (); memcpy (d.data (), t - 128, d.size ()); g_ctypeB = addGlobalTable (f, d, 256); } f->st->glob.resize (g_ginit.size ()); br.ret = Val (g_ctypeB); return B_OK;
  case BI_CTYPE_TL: if (!g_ctypeTL) { std::vector<uint8_t> d (384 * 4); const int* t = *__ctype_tolower_loc (); memcpy (d.data (), t - 128, d.size ()); g_ctypeTL = addGlobalTable (f, d, 512); } f->st->glob.resize (g_ginit.size ()); br.ret = Val (g_ctypeTL); return B_OK;
  case BI_CTYPE_TU: if (!g_ctypeTU) { std::vector<uint8_t> d (384 * 4); const int* t = *__ctype_toupper_loc (); memcpy (d.data (), t - 128, d.size ()); g_ctypeTU = addGlobalTable (f, d, 512); } f->st->glob.resize (g_ginit.size ()); br.ret = Val (g_ctypeTU); return B_OK;
  case BI_ASSERTFAIL: return dead ("assertion failed: " + cstr (st, a[0]) + " at " + cstr (st, a[1]) + ":" + (a[2].c () ? std::to_string (a[2].lo) : "?"));
  case BI_GLIBASSERT: return dead ("library assertion failed");
  case BI_TERMINATE: case BI_TRAP: return dead ("abnormal termination: " + cal.name);
  case BI_THROWSTD: {
    std::string t = "_ZTISt13runtime_error";
    if (cal.name.find ("out_of_range") != std::string::npos) t = "_ZTISt12out_of_range";
    else if (cal.name.find ("length_error") != std::string::npos) t = "_ZTISt12length_error";
    else if (cal.name.find ("logic_error") != std::string::npos) t = "_ZTISt11logic_error";
    else if (cal.name.find ("invalid_argument") != std::string::npos) t = "_ZTISt16invalid_argument";
    else if (cal.name.find ("bad_alloc") != std::string::npos || cal.name.find ("bad_array") != std::string::npos) t = "_ZTISt9bad_alloc";
    else if (cal.name.find ("bad_function_call") != std::string::npos) t = "_ZTISt17bad_function_call";
    else if (cal.name.find ("bad_cast") != std::string::npos) t = "_ZTISt8bad_cast";
    throwStd (f, br, t); return B_MULTI; }
  case BI_CXA_ALLOC: { uint64_t sz; BStat s = conc (0, 64, sz, "exception size"); if (s != B_OK) return s; uint64_t p = heapAlloc (*f->st, std::max<uint64_t> (sz, 16), OK_EXC); writable (*f->st, p).s.clear (); br.ret = Val (p); return B_OK; }
  case BI_CXA_FREE: return B_OK;
  case BI_CXA_THROW: {
    f->st->excs.push_back ({a[0].lo, a[1].lo});
    Outcome o; o.unw = true; o.exc = a[0].lo; o.st = std::move (f->st); br.outs.push_back (std::move (o)); return B_MULTI; }
  case BI_CXA_BEGIN: br.ret = a[0]; return B_OK;
  case BI_CXA_END: if (!st.excs.empty ()) { uint64_t p = st.excs.back ().first; st.excs.pop_back (); if ((p >> 44) == R_HEAP && ((p >> 24) & 0xFFFFF) < st.heap.size ()) st.heap[(p >> 24) & 0xFFFFF] = ORef (); } return B_OK;
  case BI_CXA_RETHROW: { if (st.excs.empty ()) return dead ("rethrow without exception"); Outcome o; o.unw = true; o.exc = st.excs.back ().first; o.st = std::move (f->st); br.outs.push_back (std::move (o)); return B_MULTI; }
  case BI_GUARD_ACQ: case BI_GUARD_REL: {
    const ORef* o; uint64_t off; std::string why; if (!a[0].c () || !checkAcc (st, a[0].lo, 1, true, o, off, why)) return dead ("guard: " + why);
    if (bi == BI_GUARD_ACQ) { Val g = objByte (*o->p, off); br.ret = Val (g.c () && g.lo ? 0 : 1); } else objSetByte (writable (st, a[0].lo), off, Val (1));
    return B_OK; }
  case BI_LIFE: {
    if (!a[1].c ()) return B_OK;
    const ORef* o; uint64_t off; std::string why; o = findObj (st, a[1].lo, off, why);
    if (!o || off != 0 || (a[1].lo >> 44) != R_STACK) return B_OK;
    if (a[0].c () && (int64_t)a[0].lo >= 0 && a[0].lo != (*o)->d.size ()) return B_OK;
    uint64_t slot = (a[1].lo >> 24) & 0xFFFFF; uint64_t sz = (*o)->d.size ();
    st.stack[slot] = newObj (sz, OK_STACK, true);
    return B_OK; }
  case BI_CTLZ: case BI_CTTZ: case BI_CTPOP: {
    auto ev = [&] (uint64_t x) -> uint64_t { if (bi == BI_CTPOP) return __builtin_popcountll (x); if (x == 0) return w; return bi == BI_CTLZ ? __builtin_clzll (x) - (64 - w) : __builtin_ctzll (x); };
    if (a[0].c ()) { br.ret = Val (ev (a[0].lo)); return B_OK; }
    if (a[0].e->kind == K_TABLE) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = ev (a[0].e->tab[i]); br.ret = EP.table (a[0].e->imm, w, t); return B_OK; }
    if (tainted (a[0])) { br.ret = mkUndef (w); return B_OK; }
    Val r (bi == BI_CTPOP ? 0 : w);
    if (bi == BI_CTPOP) for (unsigned i = 0; i < w; ++i) r = mk (K_ADD, w, w, 0, r, mkZext (mkExtract (a[0], w, i, 1), 1, w));
    else if (bi == BI_CTTZ) for (unsigned i = w; i-- > 0;) r = mkIte (mkExtract (a[0], w, i, 1), Val (i), r, w);
    else for (unsigned i = 0; i < w; ++i) r = mkIte (mkExtract (a[0], w, i, 1), Val (w - 1 - i), r, w);
    br.ret = r; return B_OK; }
  case BI_UMIN: br.ret = mkIte (mk (K_ULT, 1, w, 0, a[0], a[1]), a[0], a[1], w); return B_OK;
  case BI_UMAX: br.ret = mkIte (mk (K_ULT, 1, w, 0, a[0], a[1]), a[1], a[0], w); return B_OK;
  case BI_SMIN: br.ret = mkIte (mk (K_SLT, 1, w, 0, a[0], a[1]), a[0], a[1], w); return B_OK;
  case BI_SMAX: br.ret = mkIte (mk (K_SLT, 1, w, 0, a[0], a[1]), a[1], a[0], w); return B_OK;
  case BI_ABS: br.ret = mkIte (mk (K_SLT, 1, w, 0, a[0], Val (0)), mk (K_SUB, w, w, 0, Val (0), a[0]), a[0], w); return B_OK;
  case BI_USUBSAT: br.ret = mkIte (mk (K_ULT, 1, w, 0, a[0], a[1]), Val (0), mk (K_SUB, w, w, 0, a[0], a[1]), w); return B_OK;
  case BI_UADDSAT: { Val s = mk (K_ADD, w, w, 0, a[0], a[1]); br.ret = mkIte (mk (K_ULT, 1, w, 0, s, a[0]), Val (maskw (w)), s, w); return B_OK; }
  case BI_SCMP: case BI_UCMP: die ("cmp intrinsic");
  case BI_OVF: {
    unsigned aw = n.leaves[0].w; Kind k = cal.name.find ("add") != std::string::npos ? K_ADD : cal.name.find ("sub") != std::string::npos ? K_SUB : K_MUL;
    bool sgn = cal.name[5] == 's';
    Val r = mk (k, aw, aw, 0, a[0], a[1]), o;
    if (!sgn) {
      if (k == K_ADD) o = mk (K_ULT, 1, aw, 0, r, a[0]);
      else if (k == K_SUB) o = mk (K_ULT, 1, aw, 0, a[0], a[1]);
      else if (a[0].c () && a[1].c ()) o = Val (((u128)a[0].lo * a[1].lo) > maskw (aw));
      else if (a[0].c () || a[1].c ()) { if (a[0].c ()) std::swap (a[0], a[1]); o = a[1].lo == 0 ? Val (0) : mk (K_ULT, 1, aw, 0, Val (maskw (aw) / a[1].lo), a[0]); }
      else if ((u128)vmax (a[0], aw) * vmax (a[1], aw) <= maskw (aw)) o = Val (0);
      else { Val z = mkEq (a[1], Val (0), aw); o = mkAnd1 (mkNot (z), mk (K_ULT, 1, aw, 0, mk (K_UDIV, aw, aw, 0, Val (maskw (aw)), a[1]), a[0])); }
    } else {
      if (k == K_MUL) {
        if (a[0].c ()) std::swap (a[0], a[1]);
        int64_t lo = -(int64_t)(maskw (aw) >> 1) - 1, hi = (int64_t)(maskw (aw) >> 1);
        if (a[0].c () && a[1].c ()) { __int128 p = (__int128)sx (a[0].lo, aw) * sx (a[1].lo, aw); o = Val (p != (__int128)sx ((uint64_t)p & maskw (aw), aw)); }
        else if (a[1].c ()) {
          int64_t c = sx (a[1].lo, aw);
          auto below = [&] (int64_t v) { return mk (K_SLT, 1, aw, 0, a[0], Val ((uint64_t)v & maskw (aw))); };
          auto above = [&] (int64_t v) { return mk (K_SLT, 1, aw, 0, Val ((uint64_t)v & maskw (aw)), a[0]); };
          if (c == 0 || c == 1) o = Val (0);
          else if (c == -1) o = mkEq (a[0], Val ((uint64_t)lo & maskw (aw)), aw);
          else if (c > 0) o = mkNot (mkAnd1 (mkNot (below (lo / c)), mkNot (above (hi / c))));
          else o = mkNot (mkAnd1 (mkNot (below (hi / c)), mkNot (above (lo / c))));
        } else if (vmax (a[0], aw) <= (uint64_t)hi && vmax (a[1], aw) <= (uint64_t)hi && (u128)vmax (a[0], aw) * vmax (a[1], aw) <= (u128)hi) o = Val (0);
        else {
          Val z = mkEq (a[1], Val (0), aw), m1 = mkEq (a[1], Val (maskw (aw)), aw), mn = mkEq (a[0], Val ((uint64_t)lo & maskw (aw)), aw);
          Val d = mkIte (mkNot (mkAnd1 (mkNot (z), mkNot (m1))), Val (1), a[1], aw);
          o = mkIte (z, Val (0), mkIte (m1, mn, mkNot (mkEq (mk (K_SDIV, aw, aw, 0, r, d), a[0], aw)), 1), 1);
        }
      }
      else {
        Val sa = mk (K_SLT, 1, aw, 0, a[0], Val (0)), sb = mk (K_SLT, 1, aw, 0, a[1], Val (0)), sr = mk (K_SLT, 1, aw, 0, r, Val (0));
        Val same = k == K_ADD ? mkNot (mk (K_XOR, 1, 1, 0, sa, sb)) : mk (K_XOR, 1, 1, 0, sa, sb);
        o = mkAnd1 (same, mk (K_XOR, 1, 1, 0, sa, sr));
      }
    }
    br.rets = {r, o}; return B_OK; }
  case BI_FSHL: case BI_FSHR: {
    if (!a[2].c ()) die ("symbolic funnel shift"); unsigned s = a[2].lo % w; if (bi == BI_FSHR) s = (w - s) % w;
    if (s == 0) { br.ret = bi == BI_FSHL ? a[0] : a[1]; return B_OK; }
    br.ret = mk (K_OR, w, w, 0, mk (K_SHL, w, w, 0, a[0], Val (s)), mk (K_LSHR, w, w, 0, a[1], Val (w - s))); return B_OK; }
  case BI_BSWAP: { Val b[8]; for (unsigned i = 0; i < w / 8; ++i) b[w / 8 - 1 - i] = mkExtract (a[0], w, 8 * i, 8); br.ret = mkFromBytes (b, w / 8); return B_OK; }
  case BI_EXPECT: br.ret = a[0]; return B_OK;
  case BI_OBJSIZE: br.ret = Val (a[1].c () && a[1].lo ? 0 : maskw (w)); return B_OK;
  case BI_TYPEID: br.ret = Val ((uint64_t)typeSel (a[0].lo)); return B_OK;
  case BI_STACKSAVE: br.ret = Val (0); return B_OK;
  case BI_ISCONST: br.ret = Val (0); return B_OK;
  case BI_CATEGORY: br.ret = Val (extAddr (cal.name)); return B_OK;
  case BI_IOSINIT: case BI_IOSMINIT: {  // std::ios_base constructor / _M_init: field layout of libstdc++ 13 (216 bytes)
    const ORef* o; uint64_t off; std::string why; if (!a[0].c () || !checkAcc (st, a[0].lo, 216, true, o, off, why)) return dead ("ios_base: " + why);
    Obj& ob = writable (st, a[0].lo);
    if (bi == BI_IOSINIT) for (unsigned i = 8; i < 216; ++i) objSetByte (ob, off + i, Val (0));
    else { objStore (ob, off + 8, Val (6), 64); objStore (ob, off + 16, Val (0), 64); objStore (ob, off + 24, Val (0x1002), 32); }
    return B_OK; }
  // ---- harness interface
  case BI_VP_INPUT: {
    uint64_t idx, lenp; BStat s = conc (0, 32, idx, "input index"); if (s != B_OK) return s; s = conc (1, 64, lenp, "pointer"); if (s != B_OK) return s;
    auto it = g_inputs.find ((int)idx); if (it == g_inputs.end ()) die ("harness asks for undefined input " + std::to_string (idx));
    Input& in = it->second;
    std::vector<size_t> pick (in.reps.size ());
    for (size_t q = 0; q < in.reps.size (); ++q) {  // one path per number of repetitions
      Rep& r = in.reps[q]; uint64_t x = 0;
      if (r.cval.c () || constUnder (f->st->pc, r.cval, 8, x)) { pick[q] = r.counts[r.cval.c () ? 0 : x]; continue; }
      std::vector<FP> kids;
      for (size_t k = 0; k < r.counts.size (); ++k) {
        PC pc = restrictPC (f->st->pc, mkEq (r.cval, Val (k), 8), true);
        if (!pc) continue;
        auto kf = cloneF (*f); kf->st->pc = pc; kids.push_back (std::move (kf));
      }
      g_forks += kids.size (); cx.fn->forks += kids.size ();
      for (auto& kf : kids) push (cx, std::move (kf), nullptr);
      return B_REEXEC;
    }
    std::vector<Val> bytes; size_t ri = 0;
    for (size_t i = 0; i < in.b.size (); ++i) {
      if (ri < in.reps.size () && i >= in.reps[ri].to) ++ri;
      if (ri < in.reps.size () && i >= in.reps[ri].from && i - in.reps[ri].from >= in.reps[ri].unit * pick[ri]) continue;
      bytes.push_back (in.v[i]);
    }
    State& S = *f->st;
    uint64_t p = heapAlloc (S, bytes.size (), OK_MALLOC); Obj& o = writable (S, p);
    for (size_t i = 0; i < bytes.size (); ++i) objSetByte (o, i, bytes[i]);
    const ORef* lo; uint64_t off; std::string why; if (!checkAcc (S, lenp, 8, true, lo, off, why)) return dead ("vp_input");
    objStore (writable (S, lenp), off, Val (bytes.size ()), 64);
    br.ret = Val (p); return B_OK; }
  case BI_VP_PARAM: { uint64_t i; BStat s = conc (0, 32, i, "parameter index"); if (s != B_OK) return s; auto it = g_params.find ((int)i); if (it == g_params.end ()) die ("missing parameter " + std::to_string (i)); br.ret = Val ((uint64_t)it->second); return B_OK; }
  case BI_VP_ASSUME: {
    Val c = a[0]; if (!c.c () && n.a.size () > 1) { /* i1 argument */ }
    if (c.c ()) { if (c.lo & 1) return B_OK; endPath (st.pc); return B_DEAD; }
    PC t, e; splitPC (st.pc, c, t, e);
    if (e) endPath (e);
    if (!t) return B_DEAD;
    f->st->pc = t; return B_OK; }
  case BI_VP_ASSERT: { bool d; checkedAssert (f, a[0], cstr (st, a[1]), d); return d ? B_DEAD : B_OK; }
  case BI_VP_FAIL: return dead (cstr (st, a[0]));
  case BI_VP_COVER: {
    std::string nm = cstr (st, a[0]); if (g_covers.count (nm)) return B_OK;
    Assign m; if (solvePC (st.pc, Val (1), &m) == SAT) g_covers[nm] = m; return B_OK; }
  case BI_VP_EXPECT: g_expectCovers.insert (cstr (st, a[0])); return B_OK;
  case BI_VP_KNOWN: {  // the rest of this path is covered by a recorded finding
    std::string id = cstr (st, a[0]); Assign m;
    if (g_known[id]++ == 0) { if (solvePC (st.pc, Val (1), &m) == SAT) g_knownModels.push_back ({id, m}); else --g_known[id]; }
    endPath (st.pc); return B_DEAD; }
  case BI_VP_OBSERVE: {
    uint64_t p, len; BStat s = conc (1, 64, len, "length"); if (s != B_OK) return s; s = conc (0, 64, p, "pointer"); if (s != B_OK) return s;
    if (!len) return B_OK;
    const ORef* o; uint64_t off; std::string why; if (!checkAcc (*f->st, p, len, false, o, off, why)) return dead ("observed range: " + why);
    for (uint64_t i = 0; i < len; ++i) { Val b = objByte (*o->p, off + i); if (tainted (b)) return dead ("observed value is uninitialised"); f->st->obs.push_back (b); }
    return B_OK; }
  case BI_VP_CONCRETE: { uint64_t x; BStat s = conc (0, 64, x, "value"); if (s != B_OK) return s; br.ret = Val (x); return B_OK; }
  default: die ("builtin " + cal.name);
  }
}
