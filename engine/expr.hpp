// Hash-consed bit-vector expressions, byte domains and path conditions.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <type_traits>

typedef unsigned __int128 u128;
struct Expr;
struct Val {
  uint64_t lo = 0;
  const Expr* e = nullptr;
  Val () = default;
  template <class T, class = std::enable_if_t<std::is_integral_v<T>>> Val (T v) : lo ((uint64_t)v) {}
  explicit Val (const Expr* x) : e (x) {}
  bool c () const { return e == nullptr; }
  bool operator== (Val const& o) const { return e == o.e && (e != nullptr || lo == o.lo); }
  bool operator!= (Val const& o) const { return !(*this == o); }
};

enum Kind : uint8_t {
  K_WCONST, K_UNDEF, K_VAR, K_TABLE,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_SEXT, K_EXTRACT, K_CONCAT
};
static const char* const kind_name[] = {
  "wconst", "undef", "var", "table", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
  "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "sext", "extract", "concat"};

constexpr unsigned MAXVARS = 192;
struct Sup {
  uint64_t w[3] = {0, 0, 0};
  void set (unsigned v) { w[v >> 6] |= 1ULL << (v & 63); }
  bool test (unsigned v) const { return (w[v >> 6] >> (v & 63)) & 1; }
  void merge (Sup const& o) { for (int i = 0; i < 3; ++i) w[i] |= o.w[i]; }
  bool overlaps (Sup const& o) const { return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]); }
  unsigned count () const { return __builtin_popcountll (w[0]) + __builtin_popcountll (w[1]) + __builtin_popcountll (w[2]); }
  bool empty () const { return !(w[0] | w[1] | w[2]); }
  int first () const { for (int i = 0; i < 3; ++i) if (w[i]) return i * 64 + __builtin_ctzll (w[i]); return -1; }
  template <class F> void each (F f) const {
    for (int i = 0; i < 3; ++i) for (uint64_t x = w[i]; x; x &= x - 1) f (unsigned (i * 64 + __builtin_ctzll (x)));
  }
};

inline uint64_t maskw (unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sx (uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Expr {
  Kind kind;
  bool taint = false;
  uint16_t width;
  uint16_t aw = 0;    // width of argument 0 (and 1)
  uint16_t imm = 0;   // extract offset / concat low width / var index
  uint32_t id = 0;
  uint64_t hash = 0;
  uint64_t hi = 0;    // wide constant, upper half
  Val a[3];
  const uint64_t* tab = nullptr;
  Sup sup;
  uint64_t umin = 0, umax = ~0ULL;
  bool div = false;   // holds an unsigned division
  mutable int domTrue = -1;  // cached domain id for boolean tables
};

inline uint64_t hmix (uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}
inline uint64_t hval (Val const& v) { return v.e ? hmix (0x1234567, v.e->hash) : hmix (0x777, v.lo); }

[[noreturn]] void die (std::string const& msg);

struct ExprPool {
  std::unordered_multimap<uint64_t, Expr*> pool;
  std::vector<Expr*> all;
  struct MemoKey { uint8_t k; uint16_t w, aw, imm; Val a, b, c;
    bool operator== (MemoKey const& o) const { return k == o.k && w == o.w && aw == o.aw && imm == o.imm && a == o.a && b == o.b && c == o.c; } };
  struct MemoHash { size_t operator() (MemoKey const& m) const {
    uint64_t h = m.k * 131 + m.w; h = hmix (h, m.aw * 65536ULL + m.imm); h = hmix (h, hval (m.a)); h = hmix (h, hval (m.b)); return hmix (h, hval (m.c)); } };
  std::unordered_map<MemoKey, Val, MemoHash> memo;
  std::vector<uint16_t> varWidth;      // width of symbolic variable i
  std::vector<std::string> varName;

  Expr* alloc (Expr const& t) {
    auto* e = new Expr (t);
    e->id = (uint32_t)all.size ();
    all.push_back (e);
    pool.emplace (e->hash, e);
    return e;
  }
  Expr* intern (Expr& t) {
    uint64_t h = t.kind * 7919ULL + t.width;
    h = hmix (h, t.aw * 65536ULL + t.imm);
    h = hmix (h, hval (t.a[0])); h = hmix (h, hval (t.a[1])); h = hmix (h, hval (t.a[2]));
    if (t.kind == K_WCONST) h = hmix (h, t.hi);
    t.hash = h;
    auto r = pool.equal_range (h);
    for (auto it = r.first; it != r.second; ++it) {
      Expr* x = it->second;
      if (x->kind == t.kind && x->width == t.width && x->aw == t.aw && x->imm == t.imm && x->a[0] == t.a[0] &&
          x->a[1] == t.a[1] && x->a[2] == t.a[2] && x->hi == t.hi && x->kind != K_TABLE)
        return x;
    }
    return alloc (t);
  }
  Val table (unsigned var, unsigned width, const uint64_t* vals) {
    uint64_t m = maskw (width), h = 0x5555ULL * (var + 1) + width;
    bool same = true;
    uint64_t buf[256], mn = ~0ULL, mx = 0;
    for (int i = 0; i < 256; ++i) {
      buf[i] = vals[i] & m;
      h = (h ^ buf[i]) * 0x9ddfea08eb382d69ULL; h ^= h >> 29;
      same &= buf[i] == buf[0];
      mn = std::min (mn, buf[i]); mx = std::max (mx, buf[i]);
    }
    if (same) return Val (buf[0]);
    h = hmix (h, K_TABLE);
    auto r = pool.equal_range (h);
    for (auto it = r.first; it != r.second; ++it) {
      Expr* x = it->second;
      if (x->kind == K_TABLE && x->imm == var && x->width == width && memcmp (x->tab, buf, sizeof buf) == 0) return Val (x);
    }
    Expr t{}; t.kind = K_TABLE; t.width = width; t.imm = var; t.hash = h; t.umin = mn; t.umax = mx;
    t.sup.set (var);
    auto* p = new uint64_t[256]; memcpy (p, buf, sizeof buf); t.tab = p;
    return Val (alloc (t));
  }
  std::vector<Val> byteVar;
  Val newVar (unsigned idx, unsigned width, std::string const& name) {
    if (idx >= MAXVARS) die ("too many symbolic variables");
    if (idx < varWidth.size ()) {
      if (varWidth[idx] != width) die ("symbolic variable re-created with another width");
      return byteVar[idx];
    }
    if (idx != varWidth.size ()) die ("symbolic variables out of order");
    varWidth.push_back (width); varName.push_back (name);
    Val v;
    if (width == 8) {
      uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = i;
      v = table (idx, 8, t);
    } else {
      Expr t{}; t.kind = K_VAR; t.width = width; t.imm = idx; t.sup.set (idx); t.umin = 0; t.umax = maskw (width);
      v = Val (intern (t));
    }
    byteVar.push_back (v);
    return v;
  }
};
extern ExprPool EP;

Val mk (Kind k, unsigned width, unsigned aw, unsigned imm, Val a, Val b = Val (), Val c = Val ());

uint64_t vmin (Val v);
uint64_t vmax (Val v, unsigned w);
inline Val mkExtract (Val a, unsigned aw, unsigned off, unsigned w) {
  if (off == 0 && w == aw) return a;
  return mk (K_EXTRACT, w, aw, off, a);
}
inline Val mkConcat (Val hi, unsigned hw, Val lo, unsigned lw) { return mk (K_CONCAT, hw + lw, hw, lw, hi, lo); }
Val mkUndef (unsigned w);
Val mkFromBytes (Val const* b, size_t n);
Val mkWide (uint64_t lo, uint64_t hi, unsigned width);
inline Val mkZext (Val a, unsigned aw, unsigned w) {
  if (aw == w) return a;
  if (a.c () && w <= 64) return a;
  if (w <= 64) return mkConcat (Val (0), w - aw, a, aw);
  if (w - aw <= 64) return mkConcat (Val (0), w - aw, a, aw);
  return mkConcat (mkWide (0, 0, w - aw), w - aw, a, aw);
}
inline Val mkNot (Val a) { return a.c () ? Val (a.lo ^ 1) : mk (K_XOR, 1, 1, 0, a, Val (1)); }
inline Val mkAnd1 (Val a, Val b) { return mk (K_AND, 1, 1, 0, a, b); }
inline Val mkOr1 (Val a, Val b) { return mk (K_OR, 1, 1, 0, a, b); }
inline Val mkEq (Val a, Val b, unsigned w) { return mk (K_EQ, 1, w, 0, a, b); }
inline Val mkIte (Val c, Val a, Val b, unsigned w) { return mk (K_ITE, w, w, 0, c, a, b); }
inline bool tainted (Val v) { return v.e && v.e->taint; }

uint64_t evalOp (Kind k, unsigned w, unsigned aw, unsigned imm, uint64_t x, uint64_t y, uint64_t z);
// value of an expression under a complete assignment
struct Assign { std::vector<uint64_t> v; uint64_t get (unsigned i) const { return i < v.size () ? v[i] : 0; } };
u128 evalExpr (Val v, Assign const& as);

// ---------------------------------------------------------------- domains
struct Dom { uint64_t w[4];
  bool test (unsigned b) const { return (w[b >> 6] >> (b & 63)) & 1; }
  void set (unsigned b) { w[b >> 6] |= 1ULL << (b & 63); }
  bool operator== (Dom const& o) const { return !memcmp (w, o.w, sizeof w); }
  bool empty () const { return !(w[0] | w[1] | w[2] | w[3]); }
  unsigned count () const { return __builtin_popcountll (w[0]) + __builtin_popcountll (w[1]) + __builtin_popcountll (w[2]) + __builtin_popcountll (w[3]); }
  int first () const { for (int i = 0; i < 4; ++i) if (w[i]) return i * 64 + __builtin_ctzll (w[i]); return -1; }
};
struct DomHash { size_t operator() (Dom const& d) const { uint64_t h = 1; for (auto x : d.w) h = hmix (h, x); return h; } };
struct DomPool {
  std::vector<Dom> d; std::unordered_map<Dom, int, DomHash> ix;
  std::unordered_map<uint64_t, int> andc, orc;
  DomPool () { Dom f; for (auto& x : f.w) x = ~0ULL; get (f); Dom z; for (auto& x : z.w) x = 0; get (z); }
  int get (Dom const& x) { auto it = ix.find (x); if (it != ix.end ()) return it->second; int i = (int)d.size (); d.push_back (x); ix.emplace (x, i); return i; }
  int And (int a, int b) { if (a == 0) return b; if (b == 0 || a == b) return a; if (a > b) std::swap (a, b);
    auto k = (uint64_t)a << 32 | (unsigned)b; auto it = andc.find (k); if (it != andc.end ()) return it->second;
    Dom x; for (int i = 0; i < 4; ++i) x.w[i] = d[a].w[i] & d[b].w[i]; int r = get (x); andc.emplace (k, r); return r; }
  int Or (int a, int b) { if (a == b) return a; if (a > b) std::swap (a, b);
    auto k = (uint64_t)a << 32 | (unsigned)b; auto it = orc.find (k); if (it != orc.end ()) return it->second;
    Dom x; for (int i = 0; i < 4; ++i) x.w[i] = d[a].w[i] | d[b].w[i]; int r = get (x); orc.emplace (k, r); return r; }
  int Not (int a) { Dom x; for (int i = 0; i < 4; ++i) x.w[i] = ~d[a].w[i]; return get (x); }
};
extern DomPool DP;
constexpr int DOM_FULL = 0, DOM_EMPTY = 1;
int tableTrueDom (const Expr* t);

// ---------------------------------------------------------------- path condition: disjunction of (cube, constraints)
struct Disj {
  std::vector<int> dom;               // per variable; missing = full
  std::vector<const Expr*> cons;      // sorted by id, boolean, multi-variable
  int domOf (unsigned v) const { return v < dom.size () ? dom[v] : DOM_FULL; }
  void setDom (unsigned v, int d) { if (v >= dom.size ()) dom.resize (v + 1, DOM_FULL); dom[v] = d; }
  bool operator== (Disj const& o) const { return dom == o.dom && cons == o.cons; }
};
typedef std::vector<Disj> PCv;
typedef std::shared_ptr<const PCv> PC;

Val simplifyUnder (Disj const& d, Val v, unsigned w);
PC restrictPC (PC const& pc, Val cond, bool sense);
// splits pc on cond; either side may be null
void splitPC (PC const& pc, Val cond, PC& t, PC& f);
PC unionPC (PC const& a, PC const& b);
std::vector<uint64_t> feasibleValues (PC const& pc, Val v, unsigned w, size_t limit, bool& complete);
int constUnder (PC const& pc, Val v, unsigned w, uint64_t& out);  // 1 if v has one value on all of pc syntactically

// ---------------------------------------------------------------- solver (z3)
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, quick = 0, cached = 0; double seconds = 0; };
extern SolverStats SS;
enum Res { SAT, UNSAT, UNKNOWN };
Res solveDisj (Disj const& d, Val extra, Assign* model, bool useCache = true);
Res solvePC (PC const& pc, Val extra, Assign* model);
// is the union of the given path conditions the whole input space (under 'space')?
bool randomGap (std::vector<PC> const& pcs, Disj const& space, unsigned tries, Assign& gap);
Res solveCoverage (std::vector<PC> const& pcs, Disj const& space, Assign* gap);
