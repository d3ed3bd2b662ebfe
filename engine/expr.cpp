#include "expr.hpp"
#include <z3++.h>
#include <chrono>
#include <random>

ExprPool EP;
DomPool DP;
SolverStats SS;

uint64_t evalOp (Kind k, unsigned w, unsigned aw, unsigned imm, uint64_t x, uint64_t y, uint64_t z) {
  uint64_t m = maskw (w);
  switch (k) {
  case K_ADD: return (x + y) & m;
  case K_SUB: return (x - y) & m;
  case K_MUL: return (x * y) & m;
  case K_UDIV: return y ? (x / y) & m : m;
  case K_UREM: return y ? (x % y) & m : x;
  case K_SDIV: { int64_t a = sx (x, w), b = sx (y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return (0 - (uint64_t)a) & m; return (uint64_t)(a / b) & m; }
  case K_SREM: { int64_t a = sx (x, w), b = sx (y, w); if (b == 0) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
  case K_AND: return x & y;
  case K_OR: return x | y;
  case K_XOR: return (x ^ y) & m;
  case K_SHL: return y >= w ? 0 : (x << y) & m;
  case K_LSHR: return y >= w ? 0 : (x & m) >> y;
  case K_ASHR: return (uint64_t)(sx (x, w) >> (y >= w ? w - 1 : y)) & m;
  case K_EQ: return x == y;
  case K_ULT: return x < y;
  case K_ULE: return x <= y;
  case K_SLT: return sx (x, aw) < sx (y, aw);
  case K_SLE: return sx (x, aw) <= sx (y, aw);
  case K_ITE: return x ? y : z;
  case K_SEXT: return (uint64_t)sx (x, aw) & m;
  case K_EXTRACT: return (x >> imm) & m;
  case K_CONCAT: return ((imm >= 64 ? 0 : x << imm) | y) & m;
  default: die ("evalOp");
  }
}

static u128 evalRec (Val v, Assign const& as, std::unordered_map<uint32_t, u128>& memo) {
  if (v.c ()) return v.lo;
  auto const* e = v.e;
  switch (e->kind) {
  case K_WCONST: return ((u128)e->hi << 64) | e->a[0].lo;
  case K_UNDEF: return 0;
  case K_VAR: return as.get (e->imm);
  case K_TABLE: return e->tab[as.get (e->imm) & 255];
  default: break;
  }
  auto it = memo.find (e->id);
  if (it != memo.end ()) return it->second;
  u128 r;
  if (e->kind == K_CONCAT) {
    r = (evalRec (e->a[0], as, memo) << e->imm) | evalRec (e->a[1], as, memo);
  } else if (e->kind == K_EXTRACT) {
    r = (evalRec (e->a[0], as, memo) >> e->imm);
    if (e->width < 128) r &= (((u128)1) << e->width) - 1;
  } else if (e->kind == K_ITE) {
    r = evalRec (e->a[0], as, memo) ? evalRec (e->a[1], as, memo) : evalRec (e->a[2], as, memo);
  } else if (e->kind == K_EQ) {
    r = evalRec (e->a[0], as, memo) == evalRec (e->a[1], as, memo);
  } else {
    r = evalOp (e->kind, e->width, e->aw, e->imm, (uint64_t)evalRec (e->a[0], as, memo), (uint64_t)evalRec (e->a[1], as, memo),
                (uint64_t)evalRec (e->a[2], as, memo));
  }
  memo.emplace (e->id, r);
  return r;
}
u128 evalExpr (Val v, Assign const& as) { std::unordered_map<uint32_t, u128> m; return evalRec (v, as, m); }

Val mkWide (uint64_t lo, uint64_t hi, unsigned width) {
  if (width <= 64) return Val (lo & maskw (width));
  Expr t{}; t.kind = K_WCONST; t.width = width; t.a[0] = Val (lo); t.hi = hi & maskw (width - 64);
  return Val (EP.intern (t));
}

Val mkUndef (unsigned w) {
  Expr t{}; t.kind = K_UNDEF; t.width = w; t.taint = true;
  return Val (EP.intern (t));
}
struct Piece { Val v; unsigned w; };
typedef std::vector<Piece> Pieces;

static Val atomExtract (Val a, unsigned aw, unsigned off, unsigned w);
static void computeBounds (Expr& t);

static void flatten (Val v, unsigned w, Pieces& out) {
  if (v.c ()) { out.push_back ({v, w}); return; }
  auto const* e = v.e;
  if (e->kind == K_CONCAT) {
    flatten (e->a[1], e->imm, out);
    flatten (e->a[0], w - e->imm, out);
    return;
  }
  if (e->kind == K_WCONST) {
    out.push_back ({Val (e->a[0].lo), 64});
    out.push_back ({Val (e->hi), w - 64});
    return;
  }
  if (e->kind == K_TABLE) {
    uint64_t any = 0;
    for (int i = 0; i < 256; ++i) any |= e->tab[i];
    unsigned lowz = __builtin_ctzll (any), top = 64 - __builtin_clzll (any);
    if (lowz) out.push_back ({Val (0), lowz});
    if (lowz == 0 && top == w) out.push_back ({v, w});
    else out.push_back ({atomExtract (v, w, lowz, top - lowz), top - lowz});
    if (top < w) out.push_back ({Val (0), w - top});
    return;
  }
  out.push_back ({v, w});
}

static Val rawNode (Kind k, unsigned w, unsigned aw, unsigned imm, Val a, Val b, Val c) {
  Expr t{}; t.kind = k; t.width = w; t.aw = aw; t.imm = imm; t.a[0] = a; t.a[1] = b; t.a[2] = c;
  for (auto const& x : t.a) if (x.e) { t.sup.merge (x.e->sup); t.taint |= x.e->taint; t.div |= x.e->div; }
  t.div |= k == K_UDIV || k == K_UREM;
  computeBounds (t);
  if (w == 1 && t.umin == t.umax && !t.taint) return Val (t.umin);
  return Val (EP.intern (t));
}

// collapse to a 256-entry table when the expression depends on one symbolic byte only
static bool tryTable (Kind k, unsigned w, unsigned aw, unsigned imm, Val a, Val b, Val c, Val& out) {
  if (w > 64) return false;
  int var = -1;
  for (auto const* x : {&a, &b, &c}) {
    if (x->c ()) continue;
    if (x->e->kind != K_TABLE) return false;
    if (var == -1) var = x->e->imm; else if (var != x->e->imm) return false;
  }
  if (var < 0) return false;
  uint64_t buf[256];
  for (int i = 0; i < 256; ++i)
    buf[i] = evalOp (k, w, aw, imm, a.c () ? a.lo : a.e->tab[i], b.c () ? b.lo : b.e->tab[i], c.c () ? c.lo : c.e->tab[i]);
  out = EP.table (var, w, buf);
  return true;
}

static Val build (Pieces const& in);
Val mkFromBytes (Val const* b, size_t n) { Pieces p; for (size_t i = 0; i < n; ++i) p.push_back ({b[i], 8}); return build (p); }
static Val build (Pieces const& in) {
  // fine-split, then merge neighbours
  Pieces p;
  for (auto const& x : in) flatten (x.v, x.w, p);
  Pieces q;
  for (auto const& x : p) {
    if (x.w == 0) continue;
    if (!q.empty ()) {
      Piece& y = q.back ();
      unsigned tw = y.w + x.w;
      if (tw <= 64) {
        if (y.v.c () && x.v.c ()) { y.v = Val (y.v.lo | (x.v.lo << y.w)); y.w = tw; continue; }
        if (y.v.e && x.v.e && y.v.e->kind == K_TABLE && x.v.e->kind == K_TABLE && y.v.e->imm == x.v.e->imm) {
          Val r; if (tryTable (K_CONCAT, tw, x.w, y.w, x.v, y.v, Val (), r)) { y.v = r; y.w = tw; continue; }
        }
      }
      if (y.v.e && x.v.e && y.v.e->kind == K_UNDEF && x.v.e->kind == K_UNDEF) { y.v = mkUndef (tw); y.w = tw; continue; }
      // adjacent extracts of one base, or base's low part next to its high part
      if (y.v.e && x.v.e && x.v.e->kind == K_EXTRACT) {
        Val base = x.v.e->a[0]; unsigned bw = x.v.e->aw;
        if (y.v.e->kind == K_EXTRACT && y.v.e->a[0] == base && y.v.e->imm + y.w == x.v.e->imm) {
          y.v = (y.v.e->imm == 0 && tw == bw) ? base : rawNode (K_EXTRACT, tw, bw, y.v.e->imm, base, Val (), Val ());
          y.w = tw;
          continue;
        }
        // arithmetic is narrowed when its low bits are taken: recognise these below the rest of the same base
        if (y.w <= x.v.e->imm && base.e && (base.e->kind == K_ADD || base.e->kind == K_SUB || base.e->kind == K_MUL)
            && atomExtract (base, bw, x.v.e->imm - y.w, y.w) == y.v) {
          y.v = atomExtract (base, bw, x.v.e->imm - y.w, tw);
          y.w = tw;
          continue;
        }
      }
    }
    q.push_back (x);
  }
  unsigned tot = 0; for (auto const& x : q) tot += x.w;
  if (q.size () == 1) return q[0].v;
  // single-variable? then a table
  if (tot <= 64) {
    int var = -1; bool ok = true;
    for (auto const& x : q) {
      if (x.v.c ()) continue;
      if (x.v.e->kind != K_TABLE) { ok = false; break; }
      if (var == -1) var = x.v.e->imm; else if (var != x.v.e->imm) { ok = false; break; }
    }
    if (ok && var >= 0) {
      uint64_t buf[256];
      for (int i = 0; i < 256; ++i) {
        uint64_t r = 0; unsigned s = 0;
        for (auto const& x : q) { r |= (x.v.c () ? x.v.lo : x.v.e->tab[i]) << s; s += x.w; }
        buf[i] = r;
      }
      return EP.table (var, tot, buf);
    }
  } else {
    bool allc = true; for (auto const& x : q) allc &= x.v.c ();
    if (allc) { u128 r = 0; unsigned s = 0; for (auto const& x : q) { r |= (u128)x.v.lo << s; s += x.w; } return mkWide ((uint64_t)r, (uint64_t)(r >> 64), tot); }
  }
  Val r = q.back ().v; unsigned w = q.back ().w;
  for (size_t i = q.size () - 1; i-- > 0;) {
    r = rawNode (K_CONCAT, w + q[i].w, w, q[i].w, r, q[i].v, Val ());
    w += q[i].w;
  }
  return r;
}

static Val atomExtract (Val a, unsigned aw, unsigned off, unsigned w) {
  if (off == 0 && w == aw) return a;
  if (a.c ()) return Val ((a.lo >> off) & maskw (w));
  auto const* e = a.e;
  Val r;
  switch (e->kind) {
  case K_TABLE: if (tryTable (K_EXTRACT, w, aw, off, a, Val (), Val (), r)) return r; break;
  case K_UNDEF: return mkUndef (w);
  case K_EXTRACT: return mkExtract (e->a[0], e->aw, e->imm + off, w);
  case K_ITE: return mkIte (e->a[0], mkExtract (e->a[1], aw, off, w), mkExtract (e->a[2], aw, off, w), w);
  case K_AND: case K_OR: case K_XOR:
    return mk (e->kind, w, w, 0, mkExtract (e->a[0], aw, off, w), mkExtract (e->a[1], aw, off, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0) return mk (e->kind, w, w, 0, mkExtract (e->a[0], aw, 0, w), mkExtract (e->a[1], aw, 0, w));
    break;
  case K_SEXT:
    if (off + w <= e->aw) return mkExtract (e->a[0], e->aw, off, w);
    if (off < e->aw) return mk (K_SEXT, w, e->aw - off, 0, mkExtract (e->a[0], e->aw, off, e->aw - off));
    break;
  default: break;
  }
  // a value known to be small has zero upper bits
  if (aw <= 64 && off < 64 && (e->umax >> off) == 0) return Val (0);
  return rawNode (K_EXTRACT, w, aw, off, a, Val (), Val ());
}

static Val doExtract (Val a, unsigned aw, unsigned off, unsigned w) {
  Pieces p; flatten (a, aw, p);
  Pieces o; unsigned pos = 0;
  for (auto const& x : p) {
    unsigned lo = std::max (pos, off), hi = std::min (pos + x.w, off + w);
    if (lo < hi) o.push_back ({atomExtract (x.v, x.w, lo - pos, hi - lo), hi - lo});
    pos += x.w;
  }
  return build (o);
}

struct Tri;
struct Tri { Val a, b; unsigned w; };
static std::vector<Tri> align (Val a, Val b, unsigned w) {
  Pieces p, q; flatten (a, w, p); flatten (b, w, q);
  std::vector<Tri> r;
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < p.size () && j < q.size ()) {
    unsigned n = std::min (p[i].w - oi, q[j].w - oj);
    r.push_back ({atomExtract (p[i].v, p[i].w, oi, n), atomExtract (q[j].v, q[j].w, oj, n), n});
    oi += n; oj += n;
    if (oi == p[i].w) { ++i; oi = 0; }
    if (oj == q[j].w) { ++j; oj = 0; }
  }
  return r;
}

uint64_t vmin (Val v) { return v.c () ? v.lo : v.e->umin; }
uint64_t vmax (Val v, unsigned w) { return v.c () ? v.lo : (w > 64 ? ~0ULL : std::min (v.e->umax, maskw (w))); }

static void computeBounds (Expr& t) {
  unsigned w = t.width;
  t.umin = 0; t.umax = maskw (w);
  if (w > 64 || t.taint) return;
  Val a = t.a[0], b = t.a[1];
  switch (t.kind) {
  case K_CONCAT: {
    unsigned lw = t.imm, hw = w - lw;
    t.umin = (vmin (a) << lw) | vmin (b); t.umax = (vmax (a, hw) << lw) | vmax (b, lw); break; }
  case K_AND: t.umax = std::min (vmax (a, w), vmax (b, w)); break;
  case K_ADD: { u128 s = (u128)vmax (a, w) + vmax (b, w); if (s <= maskw (w)) { t.umax = (uint64_t)s; t.umin = vmin (a) + vmin (b); } break; }
  case K_MUL: { u128 s = (u128)vmax (a, w) * vmax (b, w); if (s <= maskw (w)) { t.umax = (uint64_t)s; t.umin = vmin (a) * vmin (b); } break; }
  case K_SUB: if (vmin (a) >= vmax (b, w)) { t.umin = vmin (a) - vmax (b, w); t.umax = vmax (a, w) - vmin (b); } break;
  case K_UDIV: if (b.c () && b.lo) { t.umin = vmin (a) / b.lo; t.umax = vmax (a, w) / b.lo; } else if (vmin (b) > 0) { t.umax = vmax (a, w) / vmin (b); t.umin = vmin (a) / vmax (b, w); } break;
  case K_UREM: if (vmin (b) > 0) t.umax = std::min (vmax (a, w), vmax (b, w) - 1); break;
  case K_LSHR: t.umax = vmax (a, w); break;
  case K_OR: { uint64_t m = vmax (a, w) | vmax (b, w); t.umax = m ? maskw (64 - __builtin_clzll (m)) : 0; t.umin = std::max (vmin (a), vmin (b)); break; }
  case K_XOR: { uint64_t m = vmax (a, w) | vmax (b, w); t.umax = m ? maskw (64 - __builtin_clzll (m)) : 0; break; }
  case K_ITE: t.umin = std::min (vmin (t.a[1]), vmin (t.a[2])); t.umax = std::max (vmax (t.a[1], w), vmax (t.a[2], w)); break;
  case K_EXTRACT: if (t.aw <= 64 && t.imm == 0 && vmax (a, t.aw) <= maskw (w)) { t.umin = vmin (a); t.umax = vmax (a, t.aw); }
                  else if (t.aw <= 64 && t.imm < 64) t.umax = std::min (maskw (w), vmax (a, t.aw) >> t.imm);
    break;
  case K_ULT: if (t.aw <= 64) { if (vmax (a, t.aw) < vmin (b)) t.umin = 1; else if (vmin (a) >= vmax (b, t.aw)) t.umax = 0; } break;
  case K_ULE: if (t.aw <= 64) { if (vmax (a, t.aw) <= vmin (b)) t.umin = 1; else if (vmin (a) > vmax (b, t.aw)) t.umax = 0; } break;
  case K_EQ: if (t.aw <= 64) { if (vmax (a, t.aw) < vmin (b) || vmin (a) > vmax (b, t.aw)) t.umax = 0; } break;
  default: break;
  }
}

static Val mkSlow (Kind k, unsigned w, unsigned aw, unsigned imm, Val a, Val b, Val c);

Val mk (Kind k, unsigned w, unsigned aw, unsigned imm, Val a, Val b, Val c) {
  if (a.c () && b.c () && c.c () && w <= 64 && aw <= 64) return Val (evalOp (k, w, aw, imm, a.lo, b.lo, c.lo));
  if (k == K_AND || k == K_OR || k == K_XOR || k == K_ADD || k == K_MUL || k == K_EQ) {
    // commutative: constant second, otherwise lower id first
    if (a.c () || (b.e && a.e && a.e->id > b.e->id)) std::swap (a, b);
  }
  ExprPool::MemoKey key{k, (uint16_t)w, (uint16_t)aw, (uint16_t)imm, a, b, c};
  auto it = EP.memo.find (key);
  if (it != EP.memo.end ()) return it->second;
  Val r = mkSlow (k, w, aw, imm, a, b, c);
  EP.memo.emplace (key, r);
  return r;
}

static bool isNotOf (Val a, Val b) {  // a == !b (width 1)
  if (!a.e || !b.e) return false;
  if (a.e->kind == K_XOR && a.e->a[0] == b && a.e->a[1].c ()) return true;
  if (b.e->kind == K_XOR && b.e->a[0] == a && b.e->a[1].c ()) return true;
  return false;
}

static Val mkSlow (Kind k, unsigned w, unsigned aw, unsigned imm, Val a, Val b, Val c) {
  if (w == 1 && (k == K_ADD || k == K_SUB)) return mk (K_XOR, 1, 1, 0, a, b);
  if (w == 1 && k == K_MUL) return mk (K_AND, 1, 1, 0, a, b);
  Val r;
  if (tryTable (k, w, aw, imm, a, b, c, r)) return r;
  bool a64 = aw <= 64;
  if (tainted (a) || tainted (b)) {
    switch (k) {
    case K_EXTRACT: case K_CONCAT: case K_AND: case K_OR: case K_XOR: case K_ITE: case K_SEXT: break;
    case K_SHL: case K_LSHR: case K_ASHR: if (b.c ()) break; return mkUndef (w);
    case K_EQ: {
      for (auto const& x : align (a, b, aw)) if (!tainted (x.a) && !tainted (x.b)) { Val q = mkEq (x.a, x.b, x.w); if (q.c () && q.lo == 0) return q; }
      return mkUndef (1); }
    default: return mkUndef (w);
    }
    if (k == K_XOR && a == b) return mkUndef (w);
  }
  switch (k) {
  case K_EXTRACT: return doExtract (a, aw, imm, w);
  case K_CONCAT: return build ({{b, imm}, {a, aw}});
  case K_SEXT: {
    if (w == aw) return a;
    Pieces p; flatten (a, aw, p);
    if (p.back ().v.c () && !((p.back ().v.lo >> (p.back ().w - 1)) & 1)) return mkZext (a, aw, w);
    break;
  }
  case K_SHL: case K_LSHR: case K_ASHR:
    if (b.c ()) {
      unsigned s = b.lo >= w ? w : (unsigned)b.lo;
      if (s == 0) return a;
      if (k == K_SHL) { if (s == w) return mkWide (0, 0, w); return build ({{mkWide (0, 0, s), s}, {mkExtract (a, w, 0, w - s), w - s}}); }
      if (k == K_LSHR) { if (s == w) return mkWide (0, 0, w); return mkZext (mkExtract (a, w, s, w - s), w - s, w); }
      if (s == w) s = w - 1;
      return mk (K_SEXT, w, w - s, 0, mkExtract (a, w, s, w - s));
    }
    break;
  case K_AND: case K_OR: case K_XOR: {
    if (a == b) return k == K_XOR ? mkWide (0, 0, w) : a;
    if (w == 1) {
      if (b.c ()) {
        if (k == K_AND) return b.lo ? a : Val (0);
        if (k == K_OR) return b.lo ? Val (1) : a;
        if (!b.lo) return a;
        // not
        auto const* e = a.e;
        if (e->kind == K_XOR && e->a[1].c ()) return e->a[0];
        if (e->kind == K_ULT) return mk (K_ULE, 1, e->aw, 0, e->a[1], e->a[0]);
        if (e->kind == K_ULE) return mk (K_ULT, 1, e->aw, 0, e->a[1], e->a[0]);
        if (e->kind == K_SLT) return mk (K_SLE, 1, e->aw, 0, e->a[1], e->a[0]);
        if (e->kind == K_SLE) return mk (K_SLT, 1, e->aw, 0, e->a[1], e->a[0]);
      } else {
        if (isNotOf (a, b)) return k == K_AND ? Val (0) : Val (1);
        if (k == K_AND || k == K_OR) {  // absorption with nested same op
          for (int s = 0; s < 2; ++s) {
            Val x = s ? a : b, y = s ? b : a;
            if (x.e->kind == k && (x.e->a[0] == y || x.e->a[1] == y)) return x;
            if (x.e->kind == k) { // combine tables of one variable
              for (int t = 0; t < 2; ++t) {
                Val m = x.e->a[t];
                if (m.e && y.e->kind == K_TABLE && m.e->kind == K_TABLE && m.e->imm == y.e->imm)
                  return mk (k, 1, 1, 0, mk (k, 1, 1, 0, m, y), x.e->a[1 - t]);
              }
            }
            Kind o = k == K_AND ? K_OR : K_AND;
            if (x.e->kind == o && (x.e->a[0] == y || x.e->a[1] == y)) return y;
          }
        }
      }
      break;
    }
    if (b.c () && w <= 64) {
      if (b.lo == 0) return k == K_AND ? Val (0) : a;
      if (b.lo == maskw (w) && k == K_AND) return a;
      if (b.lo == maskw (w) && k == K_OR) return b;
      if (k == K_AND) {  // split the mask into runs
        Pieces o; unsigned pos = 0;
        while (pos < w) {
          unsigned bit = (b.lo >> pos) & 1, n = 1;
          while (pos + n < w && ((b.lo >> (pos + n)) & 1) == bit) ++n;
          o.push_back ({bit ? mkExtract (a, w, pos, n) : Val (0), n});
          pos += n;
        }
        return build (o);
      }
    }
    auto t = align (a, b, w);
    if (t.size () > 1) {
      bool ok = true;
      for (auto const& x : t) if (!x.a.c () && !x.b.c ()) {
        // same-variable tables combine fine too
        if (x.a.e->kind == K_TABLE && x.b.e->kind == K_TABLE && x.a.e->imm == x.b.e->imm) continue;
        ok = false; break;
      }
      if (ok) {
        Pieces o; for (auto const& x : t) o.push_back ({mk (k, x.w, x.w, 0, x.a, x.b), x.w});
        return build (o);
      }
    }
    break;
  }
  case K_ADD: {
    if (b.c () && b.lo == 0) return a;
    if (b.c () && a.e->kind == K_ADD && a.e->a[1].c ()) return mk (K_ADD, w, w, 0, a.e->a[0], Val ((a.e->a[1].lo + b.lo) & maskw (w)));
    if (b.c () && a.e->kind == K_ITE && a.e->a[1].c () && a.e->a[2].c ()) break;
    if (!(w <= 64 && b.c () && (b.lo >> (w - 1)))) {
      auto t = align (a, b, w);
      bool ok = true;
      for (auto const& x : t) if (!(x.a.c () && x.a.lo == 0) && !(x.b.c () && x.b.lo == 0)) { ok = false; break; }
      if (ok) return mk (K_OR, w, w, 0, a, b);
    }
    // (x + c) + y  ->  (x + y) + c
    if (!b.c ()) {
      if (a.e->kind == K_ADD && a.e->a[1].c ()) return mk (K_ADD, w, w, 0, mk (K_ADD, w, w, 0, a.e->a[0], b), a.e->a[1]);
      if (b.e->kind == K_ADD && b.e->a[1].c ()) return mk (K_ADD, w, w, 0, mk (K_ADD, w, w, 0, a, b.e->a[0]), b.e->a[1]);
    }
    break;
  }
  case K_SUB:
    if (a == b) return mkWide (0, 0, w);
    if (b.c ()) return mk (K_ADD, w, w, 0, a, Val ((0 - b.lo) & maskw (w)));
    if (a.e && a.e->kind == K_ADD && a.e->a[0] == b) return a.e->a[1];
    if (a.e && a.e->kind == K_ADD && a.e->a[1] == b) return a.e->a[0];
    if (a.e && a.e->kind == K_ADD && a.e->a[1].c () && b.e->kind == K_ADD && b.e->a[1].c ())
      return mk (K_ADD, w, w, 0, mk (K_SUB, w, w, 0, a.e->a[0], b.e->a[0]), Val ((a.e->a[1].lo - b.e->a[1].lo) & maskw (w)));
    if (w <= 64) {
      // cancel the terms that both sides share
      std::vector<Val> pos, neg; uint64_t kc = 0; bool ok = true;
      std::function<void (Val, bool, unsigned)> flat = [&] (Val v, bool p, unsigned depth) {
        if (v.c ()) { kc = p ? kc + v.lo : kc - v.lo; return; }
        if (depth < 12 && v.e->kind == K_ADD) { flat (v.e->a[0], p, depth + 1); flat (v.e->a[1], p, depth + 1); return; }
        if (depth < 12 && v.e->kind == K_SUB) { flat (v.e->a[0], p, depth + 1); flat (v.e->a[1], !p, depth + 1); return; }
        (p ? pos : neg).push_back (v);
        if (pos.size () + neg.size () > 24) ok = false;
      };
      flat (a, true, 0); flat (b, false, 0);
      bool hit = false;
      if (ok) for (size_t i = 0; i < pos.size (); ) {
        auto it = std::find (neg.begin (), neg.end (), pos[i]);
        if (it == neg.end ()) { ++i; continue; }
        hit = true; neg.erase (it); pos.erase (pos.begin () + (long)i);
      }
      if (ok && hit) {
        Val r (0);
        for (auto const& v : pos) r = mk (K_ADD, w, w, 0, r, v);
        for (auto const& v : neg) r = mk (K_SUB, w, w, 0, r, v);
        return mk (K_ADD, w, w, 0, r, Val (kc & maskw (w)));
      }
    }
    break;
  case K_MUL:
    if (b.c ()) {
      if (b.lo == 0) return Val (0);
      if (b.lo == 1) return a;
      if ((b.lo & (b.lo - 1)) == 0) return mk (K_SHL, w, w, 0, a, Val (__builtin_ctzll (b.lo)));
    }
    break;
  case K_UDIV:
    if (b.c () && b.lo && (b.lo & (b.lo - 1)) == 0) return mk (K_LSHR, w, w, 0, a, Val (__builtin_ctzll (b.lo)));
    if (a64 && vmax (a, w) < vmin (b)) return Val (0);
    break;
  case K_UREM:
    if (b.c () && b.lo && (b.lo & (b.lo - 1)) == 0) return mk (K_AND, w, w, 0, a, Val (b.lo - 1));
    if (a64 && vmax (a, w) < vmin (b)) return a;
    break;
  case K_EQ: {
    if (a == b) return Val (1);
    if (aw == 1) return b.c () ? (b.lo ? a : mkNot (a)) : mkNot (mk (K_XOR, 1, 1, 0, a, b));
    auto t = align (a, b, aw);
    if (t.size () > 1) {
      Val acc (1);
      for (auto const& x : t) if (x.a.c () && x.b.c () && x.a.lo != x.b.lo) return Val (0);
      for (auto const& x : t) acc = mkAnd1 (acc, mkEq (x.a, x.b, x.w));
      return acc;
    }
    if (b.c () && a64) {
      if (a.e->kind == K_ADD && a.e->a[1].c ()) return mkEq (a.e->a[0], Val ((b.lo - a.e->a[1].lo) & maskw (aw)), aw);
      if (a.e->kind == K_XOR && a.e->a[1].c ()) return mkEq (a.e->a[0], Val (b.lo ^ a.e->a[1].lo), aw);
      if (a.e->kind == K_ITE && (a.e->a[1].c () || a.e->a[2].c ())) {
        Val x = mkEq (a.e->a[1], b, aw), y = mkEq (a.e->a[2], b, aw);
        return mkIte (a.e->a[0], x, y, 1);
      }
      if (a.e->kind == K_SEXT) {
        unsigned bw = a.e->aw; uint64_t low = b.lo & maskw (bw);
        if (((uint64_t)sx (low, bw) & maskw (aw)) != b.lo) return Val (0);
        return mkEq (a.e->a[0], Val (low), bw);
      }
    }
    break;
  }
  case K_ULT: case K_ULE: {
    if (a == b) return Val (k == K_ULE);
    if (a64) {
      // an addition that cannot overflow is not below its operands
      auto sumOver = [&] (Val s, Val x) { return s.e && s.e->kind == K_ADD && (s.e->a[0] == x || s.e->a[1] == x) && (u128)vmax (s.e->a[0], aw) + vmax (s.e->a[1], aw) <= maskw (aw); };
      if (k == K_ULT && sumOver (a, b)) return Val (0);
      if (k == K_ULE && sumOver (b, a)) return Val (1);
    }
    if (k == K_ULE && b.c () && b.lo != maskw (aw) && a64) return mk (K_ULT, 1, aw, 0, a, Val (b.lo + 1));
    if (k == K_ULE && a.c () && a.lo == 0) return Val (1);
    if (k == K_ULE && a.c () && a64) return mk (K_ULT, 1, aw, 0, Val (a.lo - 1), b);
    if (k == K_ULT && b.c () && b.lo == 0) return Val (0);
    auto t = align (a, b, aw);
    while (t.size () > 1 && t.back ().a.c () && t.back ().b.c ()) {
      if (t.back ().a.lo != t.back ().b.lo) return Val (t.back ().a.lo < t.back ().b.lo);
      t.pop_back ();
    }
    if (t.size () > 1) {
      // compare against a constant, or piecewise over single-byte pieces: lexicographic from the top
      bool simple = true;
      for (auto const& x : t) if (!(x.a.c () || x.a.e->kind == K_TABLE) || !(x.b.c () || x.b.e->kind == K_TABLE) || !(x.a.c () || x.b.c ())) { simple = false; break; }
      if (simple) {
        Val acc (k == K_ULE);
        for (auto const& x : t) acc = mkOr1 (mk (K_ULT, 1, x.w, 0, x.a, x.b), mkAnd1 (mkEq (x.a, x.b, x.w), acc));
        return acc;
      }
    }
    unsigned tw = 0; for (auto const& x : t) tw += x.w;
    if (tw < aw) {
      Pieces p, q; for (auto const& x : t) { p.push_back ({x.a, x.w}); q.push_back ({x.b, x.w}); }
      return mk (k, 1, tw, 0, build (p), build (q));
    }
    break;
  }
  case K_SLT: case K_SLE: {
    if (a == b) return Val (k == K_SLE);
    if (aw <= 64) {
      uint64_t half = 1ULL << (aw - 1);
      bool ap = vmax (a, aw) < half, bp = vmax (b, aw) < half;
      bool an = vmin (a) >= half, bn = vmin (b) >= half;
      if ((ap && bp) || (an && bn)) return mk (k == K_SLT ? K_ULT : K_ULE, 1, aw, 0, a, b);
      if (ap && bn) return Val (0);
      if (an && bp) return Val (1);
    }
    break;
  }
  case K_ITE:
    if (a.c ()) return a.lo ? b : c;
    if (b == c) return b;
    if (w == 1) {
      if (b.c ()) return b.lo ? mkOr1 (a, c) : mkAnd1 (mkNot (a), c);
      if (c.c ()) return c.lo ? mkOr1 (mkNot (a), b) : mkAnd1 (a, b);
    }
    if (a.e->kind == K_XOR && a.e->a[1].c ()) return mkIte (a.e->a[0], c, b, w);
    if (b.e && b.e->kind == K_ITE && b.e->a[0] == a) return mkIte (a, b.e->a[1], c, w);
    if (c.e && c.e->kind == K_ITE && c.e->a[0] == a) return mkIte (a, b, c.e->a[2], w);
    break;
  default: break;
  }
  return rawNode (k, w, aw, imm, a, b, c);
}

int tableTrueDom (const Expr* t) {
  if (t->domTrue >= 0) return t->domTrue;
  Dom d{}; for (int i = 0; i < 256; ++i) if (t->tab[i]) d.set (i);
  return t->domTrue = DP.get (d);
}

// ------------------------------------------------------------------ simplification under a disjunct
// The table with its values outside the domain (which do not matter) replaced by the nearest value inside.
static Val canonTable (const Expr* e, int di) {
  static std::unordered_map<uint64_t, Val> memo;
  auto key = (uint64_t)e->id << 32 | (unsigned)di;
  auto it = memo.find (key);
  if (it != memo.end ()) return it->second;
  Dom const& D = DP.d[di];
  uint64_t buf[256], last = e->tab[D.first ()];
  for (int i = 0; i < 256; ++i) { if (D.test (i)) last = e->tab[i]; buf[i] = last; }
  return memo.emplace (key, EP.table (e->imm, e->width, buf)).first->second;
}
static bool g_canon = false;
static Val simpRec (Disj const& d, Val v, unsigned w, std::unordered_map<uint32_t, Val>& memo) {
  if (v.c ()) return v;
  auto const* e = v.e;
  if (e->kind == K_TABLE) {
    int di = d.domOf (e->imm);
    if (di == DOM_FULL) return v;
    if (g_canon) return di == DOM_EMPTY ? Val (e->tab[0]) : canonTable (e, di);
    Dom const& D = DP.d[di];
    int f = D.first ();
    if (f < 0) return Val (e->tab[0]);
    uint64_t x = e->tab[f];
    for (int i = 0; i < 4; ++i) for (uint64_t b = D.w[i]; b; b &= b - 1) if (e->tab[i * 64 + __builtin_ctzll (b)] != x) return v;
    return Val (x);
  }
  if (e->kind <= K_TABLE) return v;
  auto it = memo.find (e->id);
  if (it != memo.end ()) return it->second;
  Val r;
  if (e->width == 1 && !d.cons.empty ()) {
    for (auto const* c : d.cons) {
      if (c == e) { memo.emplace (e->id, Val (1)); return Val (1); }
      if (mkNot (Val (c)) == v) { memo.emplace (e->id, Val (0)); return Val (0); }
    }
  }
  if (e->kind == K_ITE) {
    Val c = simpRec (d, e->a[0], 1, memo);
    if (c.c ()) r = simpRec (d, c.lo ? e->a[1] : e->a[2], w, memo);
    else r = mkIte (c, simpRec (d, e->a[1], w, memo), simpRec (d, e->a[2], w, memo), w);
  } else {
    unsigned w0 = e->aw, w1 = e->kind == K_CONCAT ? e->imm : e->aw;
    Val a = simpRec (d, e->a[0], w0, memo);
    if (e->kind == K_AND && a.c () && a.lo == 0 && e->width <= 64) r = Val (0);
    else {
      Val b = simpRec (d, e->a[1], w1, memo);
      r = (a == e->a[0] && b == e->a[1]) ? v : mk (e->kind, e->width, e->aw, e->imm, a, b);
    }
  }
  memo.emplace (e->id, r);
  return r;
}
Val simplifyUnder (Disj const& d, Val v, unsigned w) {
  if (v.c ()) return v;
  std::unordered_map<uint32_t, Val> memo;
  return simpRec (d, v, w, memo);
}

// ------------------------------------------------------------------ path conditions
static void assumeInto (Disj const& d, Val cond, bool sense, PCv& out) {
  Val c = simplifyUnder (d, cond, 1);
  if (c.c ()) { if ((c.lo != 0) == sense) out.push_back (d); return; }
  auto const* e = c.e;
  if (e->kind == K_XOR && e->a[1].c ()) { assumeInto (d, e->a[0], !sense, out); return; }
  if (e->kind == K_TABLE) {
    int t = tableTrueDom (e); if (!sense) t = DP.Not (t);
    int nd = DP.And (d.domOf (e->imm), t);
    if (nd == DOM_EMPTY) return;
    Disj n = d; n.setDom (e->imm, nd);
    for (auto const* x : n.cons)
      if (x->sup.test (e->imm)) { if (solveDisj (n, Val (1), nullptr) == UNSAT) return; break; }
    out.push_back (std::move (n));
    return;
  }
  if ((e->kind == K_AND && sense) || (e->kind == K_OR && !sense)) {
    PCv tmp; assumeInto (d, e->a[0], sense, tmp);
    for (auto const& x : tmp) assumeInto (x, e->a[1], sense, out);
    return;
  }
  if ((e->kind == K_AND && !sense) || (e->kind == K_OR && sense)) {
    // a false, or a true and b false
    PCv tmp; assumeInto (d, e->a[0], sense, out);
    assumeInto (d, e->a[0], !sense, tmp);
    for (auto const& x : tmp) assumeInto (x, e->a[1], sense, out);
    return;
  }
  if (e->kind == K_ITE) {
    PCv t, f; assumeInto (d, e->a[0], true, t); assumeInto (d, e->a[0], false, f);
    for (auto const& x : t) assumeInto (x, e->a[1], sense, out);
    for (auto const& x : f) assumeInto (x, e->a[2], sense, out);
    return;
  }
  Val lit = sense ? c : mkNot (c);
  if (lit.c ()) { if (lit.lo) out.push_back (d); return; }
  if (lit.e->kind == K_TABLE) { assumeInto (d, lit, true, out); return; }
  if (solveDisj (d, lit, nullptr) == UNSAT) return;
  Disj n = d;
  auto pos = std::lower_bound (n.cons.begin (), n.cons.end (), lit.e, [] (const Expr* x, const Expr* y) { return x->id < y->id; });
  if (pos == n.cons.end () || *pos != lit.e) n.cons.insert (pos, lit.e);
  out.push_back (std::move (n));
}

static void simplifyPC (PCv& v);
void simplifyPCx (PCv& v) { simplifyPC (v); }

// debugging aid: VP_TRACK=8d,bd follows one assignment through every restriction
static Assign* trackedInput () {
  static bool init = false; static Assign* t = nullptr;
  if (!init) {
    init = true;
    if (auto* p = getenv ("VP_TRACK")) { t = new Assign; while (*p) { char* q; t->v.push_back (strtoul (p, &q, 16)); p = *q ? q + 1 : q; } }
  }
  return t;
}
static bool holds (PCv const& pc, Assign const& m) {
  for (auto const& d : pc) {
    bool ok = true;
    for (unsigned i = 0; i < m.v.size () && ok; ++i) ok = DP.d[d.domOf (i)].test ((unsigned)m.v[i]);
    for (auto const* c : d.cons) if (ok) ok = evalExpr (Val (c), m) != 0;
    if (ok) return true;
  }
  return false;
}
PC restrictPC (PC const& pc, Val cond, bool sense) {
  if (cond.c ()) return (cond.lo != 0) == sense ? pc : nullptr;
  auto r = std::make_shared<PCv> ();
  for (auto const& d : *pc) assumeInto (d, cond, sense, *r);
  auto* t = trackedInput ();
  bool in = t && holds (*pc, *t) && (evalExpr (cond, *t) != 0) == sense;
  if (t && holds (*r, *t) != in) fprintf (stderr, "TRACK: restriction %s the tracked input\n", in ? "loses" : "wrongly keeps");
  if (r->empty ()) return nullptr;
  if (r->size () > 1) simplifyPC (*r);
  if (t && holds (*r, *t) != in) fprintf (stderr, "TRACK: simplification %s the tracked input\n", in ? "loses" : "adds");
  return r;
}
void splitPC (PC const& pc, Val cond, PC& t, PC& f) {
  t = restrictPC (pc, cond, true);
  f = restrictPC (pc, cond, false);
}

static uint64_t hDisj (Disj const& d, int skip) {
  uint64_t h = 99;
  for (auto const* c : d.cons) h = hmix (h, c->id);
  for (size_t i = 0; i < d.dom.size (); ++i) if (d.dom[i] != DOM_FULL && (int)i != skip) h = hmix (h, i * 1000003ULL + d.dom[i]);
  return h;
}
static bool eqButDim (Disj const& a, Disj const& b, int skip) {
  if (a.cons != b.cons) return false;
  size_t n = std::max (a.dom.size (), b.dom.size ());
  for (size_t i = 0; i < n; ++i) if ((int)i != skip && a.domOf (i) != b.domOf (i)) return false;
  return true;
}
static void simplifyPC (PCv& v) {
  bool changed = true;
  while (changed && v.size () > 1) {
    changed = false;
    size_t nv = 0; for (auto const& d : v) nv = std::max (nv, d.dom.size ());
    for (size_t dim = 0; dim <= nv && v.size () > 1; ++dim) {
      int skip = dim == nv ? -1 : (int)dim;
      std::unordered_multimap<uint64_t, size_t> ix;
      PCv out;
      for (auto& d : v) {
        uint64_t h = hDisj (d, skip);
        auto r = ix.equal_range (h); bool done = false;
        for (auto it = r.first; it != r.second; ++it) {
          Disj& o = out[it->second];
          if (eqButDim (o, d, skip)) { if (skip >= 0) o.setDom (skip, DP.Or (o.domOf (skip), d.domOf (skip))); done = true; changed = true; break; }
        }
        if (!done) { ix.emplace (h, out.size ()); out.push_back (std::move (d)); }
      }
      v.swap (out);
    }
    // complementary constraints
    bool any = false; for (auto const& d : v) any |= !d.cons.empty ();
    if (any) {
      for (size_t i = 0; i < v.size (); ++i)
        for (size_t j = i + 1; j < v.size (); ++j) {
          if (v[i].cons.size () != v[j].cons.size () || v[i].cons.empty ()) continue;
          std::vector<const Expr*> x, y;
          std::set_difference (v[i].cons.begin (), v[i].cons.end (), v[j].cons.begin (), v[j].cons.end (), std::back_inserter (x), [] (auto* a, auto* b) { return a->id < b->id; });
          if (x.size () != 1) continue;
          std::set_difference (v[j].cons.begin (), v[j].cons.end (), v[i].cons.begin (), v[i].cons.end (), std::back_inserter (y), [] (auto* a, auto* b) { return a->id < b->id; });
          if (y.size () != 1 || mkNot (Val (x[0])) != Val (y[0])) continue;
          size_t n = std::max (v[i].dom.size (), v[j].dom.size ()); bool same = true;
          for (size_t k = 0; k < n && same; ++k) same = v[i].domOf (k) == v[j].domOf (k);
          if (!same) continue;
          v[i].cons.erase (std::find (v[i].cons.begin (), v[i].cons.end (), x[0]));
          v.erase (v.begin () + j); --j; changed = true;
        }
    }
  }
}
PC unionPC (PC const& a, PC const& b) {
  if (!a) return b;
  if (!b) return a;
  if (a == b) return a;
  auto r = std::make_shared<PCv> (*a);
  r->insert (r->end (), b->begin (), b->end ());
  simplifyPC (*r);
  return r;
}

std::vector<uint64_t> feasibleValues (PC const& pc, Val v, unsigned w, size_t limit, bool& complete) {
  std::vector<uint64_t> out; std::unordered_set<uint64_t> seen;
  complete = true;
  if (v.c ()) { out.push_back (v.lo); return out; }
  for (auto const& d : *pc) {
    Val x = simplifyUnder (d, v, w);
    if (x.c ()) { if (seen.insert (x.lo).second) out.push_back (x.lo); continue; }
    if (x.e->kind == K_TABLE) {
      Dom const& D = DP.d[d.domOf (x.e->imm)];
      for (int i = 0; i < 256; ++i) if (D.test (i) && seen.insert (x.e->tab[i]).second) out.push_back (x.e->tab[i]);
      continue;
    }
    Val ne (1);
    for (auto o : out) ne = mkAnd1 (ne, mkNot (mkEq (x, Val (o), w)));
    for (;;) {
      if (out.size () > limit) { complete = false; return out; }
      Assign m;
      Res r = solveDisj (d, ne, &m, false);
      if (r == UNKNOWN) { complete = false; return out; }
      if (r == UNSAT) break;
      uint64_t val = (uint64_t)evalExpr (x, m);
      if (!seen.insert (val).second) { complete = false; return out; }
      out.push_back (val);
      ne = mkAnd1 (ne, mkNot (mkEq (x, Val (val), w)));
    }
  }
  std::sort (out.begin (), out.end ());
  return out;
}

int constUnder (PC const& pc, Val v, unsigned w, uint64_t& out) {
  if (v.c ()) { out = v.lo; return 1; }
  bool first = true;
  for (auto const& d : *pc) {
    Val x = simplifyUnder (d, v, w);
    if (!x.c ()) return 0;
    if (first) { out = x.lo; first = false; } else if (out != x.lo) return 0;
  }
  return first ? 0 : 1;
}

// ------------------------------------------------------------------ z3
static z3::context& Z () { static z3::context* c = new z3::context; return *c; }
static std::vector<z3::expr*> zcache;
static z3::expr zvar (unsigned i) {
  static std::vector<z3::expr*> vs;
  while (vs.size () <= i) vs.push_back (nullptr);
  if (!vs[i]) vs[i] = new z3::expr (Z ().bv_const (("v" + std::to_string (i)).c_str (), EP.varWidth[i]));
  return *vs[i];
}
static z3::expr zbv (uint64_t v, unsigned w) { return Z ().bv_val ((uint64_t)v, w); }
static z3::expr rangeMember (z3::expr x, std::function<bool (unsigned)> in) {
  z3::expr_vector ors (Z ());
  for (unsigned i = 0; i < 256;) {
    if (!in (i)) { ++i; continue; }
    unsigned j = i; while (j + 1 < 256 && in (j + 1)) ++j;
    if (i == j) ors.push_back (x == zbv (i, 8));
    else if (i == 0 && j == 255) return Z ().bool_val (true);
    else if (i == 0) ors.push_back (z3::ule (x, zbv (j, 8)));
    else if (j == 255) ors.push_back (z3::uge (x, zbv (i, 8)));
    else ors.push_back (z3::uge (x, zbv (i, 8)) && z3::ule (x, zbv (j, 8)));
    i = j + 1;
  }
  if (ors.empty ()) return Z ().bool_val (false);
  return z3::mk_or (ors);
}
static z3::expr toBool (z3::expr e) { return e.is_bool () ? e : e == zbv (1, 1); }
static z3::expr toBV (z3::expr e) { return e.is_bool () ? z3::ite (e, zbv (1, 1), zbv (0, 1)) : e; }
// width-1 expressions are z3 booleans, all others bit-vectors
// Quotients are fresh variables with their defining constraint (q * b <= a < (q + 1) * b), which a query that mentions
// them asserts as well: far smaller than a divider circuit.
static std::map<std::tuple<uint64_t, uint64_t, uint64_t, uint64_t, unsigned>, std::pair<z3::expr*, z3::expr*>> quot;  // (a, b) -> variable, definition
static z3::expr tz (Val v, unsigned w);
static std::pair<z3::expr*, z3::expr*>& quotient (Val a, Val b, unsigned w, unsigned nw) {
  auto key = std::make_tuple (a.c () ? 0 : a.e->id + 1ULL, a.c () ? a.lo : 0, b.c () ? 0 : b.e->id + 1ULL, b.c () ? b.lo : 0, w);
  auto it = quot.find (key);
  if (it != quot.end ()) return it->second;
  // wide enough for every candidate quotient times the divisor: no wrapping lets a wrong quotient in
  static unsigned serial = 0;
  u128 qm = (u128)(vmax (a, w) / vmin (b)) * vmax (b, w);
  unsigned k = nw; while (k < 128 && (qm >> k) != 0) ++k;
  ++k;
  z3::expr q = Z ().bv_const (("q" + std::to_string (serial++)).c_str (), nw);  // operands may hold quotients that are not translated yet
  auto X = [&] (Val v) { return v.c () ? zbv (v.lo, k) : k <= w ? tz (v, w).extract (k - 1, 0) : z3::zext (tz (v, w), k - w); };
  z3::expr A = X (a), B = X (b), Q = z3::zext (q, k - nw);
  z3::expr def = z3::ule (q, zbv (vmax (a, w) / vmin (b), nw)) && z3::ult (A - Q * B, B);
  return quot.emplace (key, std::make_pair (new z3::expr (q), new z3::expr (def))).first->second;
}
static unsigned divWidth (Val a, Val b, unsigned w) { uint64_t m = vmax (a, w) | vmax (b, w); return std::min (w, m ? 64u - __builtin_clzll (m) : 1u); }
static void addDefs (z3::solver& sol, Val v, unsigned, std::unordered_set<const Expr*>& seen) {
  if (v.c () || !v.e->div || !seen.insert (v.e).second) return;
  auto const* e = v.e;
  for (auto const& x : e->a) addDefs (sol, x, 0, seen);
  if ((e->kind == K_UDIV || e->kind == K_UREM) && e->width <= 64 && vmin (e->a[1]) > 0)
    sol.add (*quotient (e->a[0], e->a[1], e->width, divWidth (e->a[0], e->a[1], e->width)).second);
}
static z3::expr tz (Val v, unsigned w) {
  if (v.c ()) return w == 1 ? Z ().bool_val (v.lo != 0) : zbv (v.lo, w);
  auto const* e = v.e;
  if (e->id >= zcache.size ()) zcache.resize (e->id + 1024, nullptr);
  if (zcache[e->id]) return *zcache[e->id];
  z3::expr r (Z ());
  auto A = [&] (int i) { return tz (e->a[i], e->aw); };
  switch (e->kind) {
  case K_WCONST: r = z3::concat (zbv (e->hi, w - 64), zbv (e->a[0].lo, 64)); break;
  case K_UNDEF: r = Z ().bv_const (("undef" + std::to_string (e->id)).c_str (), w); break;
  case K_VAR: r = zvar (e->imm); break;
  case K_TABLE: {
    z3::expr x = zvar (e->imm);
    if (w == 1) { r = rangeMember (x, [e] (unsigned i) { return e->tab[i] != 0; }); break; }
    // maximal affine runs: value = k + st * x
    struct Run { unsigned lo, hi; uint64_t st, k; };
    std::vector<Run> runs; uint64_t m = maskw (w);
    for (unsigned i = 0; i < 256;) {
      unsigned j = i; while (j + 1 < 256 && e->tab[j + 1] == e->tab[i]) ++j;
      uint64_t st = i + 1 < 256 ? (e->tab[i + 1] - e->tab[i]) & m : 0;
      unsigned l = i; while (l + 1 < 256 && ((e->tab[l + 1] - e->tab[l]) & m) == st) ++l;
      if (l > j && l > i + 1) { runs.push_back ({i, l, st, (e->tab[i] - st * i) & m}); i = l + 1; }
      else { runs.push_back ({i, j, 0, e->tab[i]}); i = j + 1; }
    }
    z3::expr xw = w > 8 ? z3::zext (x, w - 8) : w == 8 ? x : x.extract (w - 1, 0);
    auto val = [&] (Run const& q) {
      if (q.st == 0) return zbv (q.k, w);
      z3::expr t = q.st == 1 ? xw : xw * zbv (q.st, w);
      return q.k ? t + zbv (q.k, w) : t;
    };
    r = val (runs.back ());
    for (size_t i = runs.size () - 1; i-- > 0;) r = z3::ite (z3::ule (x, zbv (runs[i].hi, 8)), val (runs[i]), r);
    break;
  }
  case K_ADD: r = A (0) + A (1); break;
  case K_SUB: r = A (0) - A (1); break;
  case K_MUL: case K_UDIV: case K_UREM: {
    if (e->kind != K_MUL && w <= 64 && vmin (e->a[1]) > 0) {
      unsigned nw = divWidth (e->a[0], e->a[1], w);
      z3::expr q = *quotient (e->a[0], e->a[1], w, nw).first;
      auto X = [&] (int i) { Val v = e->a[i]; return v.c () ? zbv (v.lo, nw) : nw < w ? A (i).extract (nw - 1, 0) : A (i); };
      r = e->kind == K_UDIV ? q : X (0) - q * X (1);
      if (nw < w) r = z3::zext (r, w - nw);
      break;
    }
    // compute in as few bits as the (unconditional) bounds of operands and result allow
    uint64_t m = vmax (e->a[0], w) | vmax (e->a[1], w);
    if (e->kind == K_MUL) m |= e->umax;
    unsigned nw = w > 64 ? w : m ? 64 - __builtin_clzll (m) : 1;
    if (e->kind != K_MUL && vmin (e->a[1]) == 0) nw = w;
    if (nw < w) {
      auto N = [&] (int i) { return A (i).extract (nw - 1, 0); };
      r = z3::zext (e->kind == K_MUL ? N (0) * N (1) : e->kind == K_UDIV ? z3::udiv (N (0), N (1)) : z3::urem (N (0), N (1)), w - nw);
    } else r = e->kind == K_MUL ? A (0) * A (1) : e->kind == K_UDIV ? z3::udiv (A (0), A (1)) : z3::urem (A (0), A (1));
    break; }
  case K_SDIV: r = A (0) / A (1); break;
  case K_SREM: r = z3::srem (A (0), A (1)); break;
  case K_AND: r = w == 1 ? (A (0) && A (1)) : (A (0) & A (1)); break;
  case K_OR: r = w == 1 ? (A (0) || A (1)) : (A (0) | A (1)); break;
  case K_XOR: r = w == 1 ? (A (0) != A (1)) : (A (0) ^ A (1)); break;
  case K_SHL: r = z3::shl (A (0), A (1)); break;
  case K_LSHR: r = z3::lshr (A (0), A (1)); break;
  case K_ASHR: r = z3::ashr (A (0), A (1)); break;
  case K_EQ: r = A (0) == A (1); break;
  case K_ULT: r = z3::ult (A (0), A (1)); break;
  case K_ULE: r = z3::ule (A (0), A (1)); break;
  case K_SLT: r = A (0) < A (1); break;
  case K_SLE: r = A (0) <= A (1); break;
  case K_ITE: r = z3::ite (tz (e->a[0], 1), tz (e->a[1], w), tz (e->a[2], w)); break;
  case K_SEXT: r = z3::sext (toBV (A (0)), w - e->aw); break;
  case K_EXTRACT: r = A (0).extract (e->imm + w - 1, e->imm); if (w == 1) r = (r == zbv (1, 1)); break;
  case K_CONCAT: r = z3::concat (toBV (tz (e->a[0], w - e->imm)), toBV (tz (e->a[1], e->imm))); break;
  default: die ("tz");
  }
  zcache[e->id] = new z3::expr (r);
  return r;
}
static z3::expr domExpr (unsigned var, int dom) {
  static std::unordered_map<uint64_t, z3::expr*> cache;
  auto key = (uint64_t)var << 32 | (unsigned)dom;
  auto it = cache.find (key);
  if (it != cache.end ()) return *it->second;
  Dom D = DP.d[dom];
  auto* r = new z3::expr (rangeMember (zvar (var), [&] (unsigned i) { return D.test (i); }));
  cache.emplace (key, r);
  return *r;
}
static std::mt19937_64 rng (12345);
static Val randVal (Disj const& d, unsigned var) {
  if (EP.varWidth[var] != 8) {
    uint64_t m = maskw (EP.varWidth[var]);
    switch (rng () % 4) { case 0: return Val (rng () & m); case 1: return Val (rng () & 0x7f & m); case 2: return Val (rng () % 0x110000 & m); default: return Val (rng () & 0xffff & m); }
  }
  Dom const& D = DP.d[d.domOf (var)];
  unsigned n = D.count (); if (!n) return Val (0);
  unsigned k = rng () % n;
  for (int i = 0; i < 256; ++i) if (D.test (i) && k-- == 0) return Val (i);
  return Val (0);
}

extern unsigned g_solver_timeout_ms;
std::string whereAmI ();
unsigned g_solver_timeout_ms = 60000;

static std::unordered_map<uint64_t, std::pair<std::vector<uint32_t>, Res>> qcache;

static Res solveDisj0 (Disj const& d, Val extra, Assign* model, bool useCache);
static bool holds (PCv const& pc, Assign const& m);
static Assign* trackedInput ();
Res solveDisj (Disj const& d, Val extra, Assign* model, bool useCache) {
  Res r = solveDisj0 (d, extra, model, useCache);
  if (auto* t = trackedInput (); t && r == UNSAT && holds ({d}, *t) && (extra.c () ? extra.lo != 0 : evalExpr (extra, *t) != 0))
    fprintf (stderr, "TRACK: the solver refutes the tracked input at %s\n", whereAmI ().c_str ());
  return r;
}
static Res solveDisj0 (Disj const& d, Val extra, Assign* model, bool useCache) {
  if (extra.c () && extra.lo == 0) return UNSAT;
  for (auto x : d.dom) if (x == DOM_EMPTY) return UNSAT;
  Sup s; if (extra.e) s = extra.e->sup;
  std::vector<const Expr*> cs;
  if (model || extra.c ()) { for (auto const* c : d.cons) { cs.push_back (c); s.merge (c->sup); } }
  else {
    std::vector<char> used (d.cons.size (), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < d.cons.size (); ++i) if (!used[i] && d.cons[i]->sup.overlaps (s)) { used[i] = 1; ch = true; s.merge (d.cons[i]->sup); } }
    for (size_t i = 0; i < d.cons.size (); ++i) if (used[i]) cs.push_back (d.cons[i]);
  }
  unsigned nv = (unsigned)EP.varWidth.size ();
  auto fillDefault = [&] (Assign& m) {
    m.v.assign (nv, 0);
    for (unsigned i = 0; i < nv; ++i) if (EP.varWidth[i] == 8) { int f = DP.d[d.domOf (i)].first (); m.v[i] = f < 0 ? 0 : f;
      Dom const& D = DP.d[d.domOf (i)]; if (D.test ('a')) m.v[i] = 'a'; }
  };
  if (cs.empty () && extra.c ()) { if (model) fillDefault (*model); return SAT; }
  // try a few random assignments first (satisfiable side only)
  Assign as; fillDefault (as);
  for (int t = 0; t < 12; ++t) {
    if (t) s.each ([&] (unsigned v) { as.v[v] = randVal (d, v).lo; });
    bool ok = extra.c () || evalExpr (extra, as);
    for (size_t i = 0; ok && i < cs.size (); ++i) ok = evalExpr (Val (cs[i]), as);
    if (ok) { ++SS.quick; if (model) *model = as; return SAT; }
  }
  std::vector<uint32_t> key;
  uint64_t kh = 17;
  if (useCache && !model) {
    for (auto const* c : cs) key.push_back (c->id);
    key.push_back (extra.e ? extra.e->id : ~0u);
    s.each ([&] (unsigned v) { key.push_back (v); key.push_back ((uint32_t)d.domOf (v)); });
    for (auto k : key) kh = hmix (kh, k);
    auto it = qcache.find (kh);
    if (it != qcache.end () && it->second.first == key) { ++SS.cached; return it->second.second; }
  }
  if (!model) {
    // the same query with every table cut down to the domains: tighter bounds, often a decision
    Disj dd; dd.dom = d.dom; std::unordered_map<uint32_t, Val> memo; bool no = false;
    g_canon = true;
    std::vector<const Expr*> ncs;
    for (auto const* c : cs) { Val x = simpRec (dd, Val (c), 1, memo); if (x.c ()) { if (!x.lo) no = true; } else ncs.push_back (x.e); }
    if (extra.e && !no) {
      dd.cons = ncs; std::sort (dd.cons.begin (), dd.cons.end (), [] (auto* a, auto* b) { return a->id < b->id; });
      std::unordered_map<uint32_t, Val> memo2;
      extra = simpRec (dd, extra, 1, memo2);
      if (extra.c () && !extra.lo) no = true;
    }
    g_canon = false;
    if (no) { ++SS.cached; if (!key.empty ()) qcache[kh] = {key, UNSAT}; return UNSAT; }
    cs = ncs;
  }
  auto t0 = std::chrono::steady_clock::now ();
  z3::solver sol (Z (), "QF_BV");
  z3::params p (Z ()); p.set ("timeout", g_solver_timeout_ms); sol.set (p);
  s.each ([&] (unsigned v) { if (EP.varWidth[v] == 8 && d.domOf (v) != DOM_FULL) sol.add (domExpr (v, d.domOf (v))); });
  std::unordered_set<const Expr*> defs;
  for (auto const* c : cs) { sol.add (toBool (tz (Val (c), 1))); addDefs (sol, Val (c), 1, defs); }
  if (extra.e) { sol.add (toBool (tz (extra, 1))); addDefs (sol, extra, 1, defs); }
  auto r = sol.check ();
  ++SS.queries;
  double dt = std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
  SS.seconds += dt;
  static double const slow = getenv ("VP_SLOW") ? atof (getenv ("VP_SLOW")) : 1e9;
  if (dt > slow && getenv ("VP_SLOWDIR")) { static int k; FILE* f = fopen ((std::string (getenv ("VP_SLOWDIR")) + "/" + std::to_string (k++) + ".smt2").c_str (), "w"); fputs (sol.to_smt2 ().c_str (), f); fclose (f); }
  if (dt > slow) { std::cerr << "slow query " << dt << " s at " << whereAmI () << " cons " << cs.size () << "\n"; if (getenv ("VP_SLOWTEXT")) std::cerr << (extra.e ? tz (extra, 1).to_string () : "-") << "\n"; }
  Res res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
  if (res == SAT) ++SS.sat; else if (res == UNSAT) ++SS.unsat; else ++SS.unknown;
  if (res == SAT && model) {
    fillDefault (*model);
    z3::model m = sol.get_model ();
    s.each ([&] (unsigned v) { uint64_t x = 0; if (m.eval (zvar (v), true).is_numeral_u64 (x)) model->v[v] = x; });
    bool ok = extra.c () || evalExpr (extra, *model);
    for (size_t i = 0; ok && i < cs.size (); ++i) ok = evalExpr (Val (cs[i]), *model);
    if (!ok) { --SS.sat; ++SS.unknown; res = UNKNOWN; }  // the model does not stand up to evaluation
  }
  if (!key.empty ()) qcache[kh] = {key, res};
  return res;
}
Res solvePC (PC const& pc, Val extra, Assign* model) {
  bool unk = false;
  for (auto const& d : *pc) {
    Val x = simplifyUnder (d, extra, 1);
    Res r = solveDisj (d, x, model);
    if (r == SAT) return SAT;
    if (r == UNKNOWN) unk = true;
  }
  return unk ? UNKNOWN : UNSAT;
}
// a random member of the space that no path covers?
bool randomGap (std::vector<PC> const& pcs, Disj const& space, unsigned tries, Assign& gap) {
  unsigned nv = (unsigned)EP.varWidth.size ();
  for (unsigned k = 0; k < tries; ++k) {
    gap.v.assign (nv, 0);
    for (unsigned v = 0; v < nv; ++v) gap.v[v] = randVal (space, v).lo;
    bool in = false;
    for (auto const& pc : pcs) if (holds (*pc, gap)) { in = true; break; }
    if (!in) return true;
  }
  return false;
}
Res solveCoverage (std::vector<PC> const& pcs, Disj const& space, Assign* gap) {
  auto t0 = std::chrono::steady_clock::now ();
  z3::solver sol (Z (), "QF_BV");
  z3::params p (Z ()); p.set ("timeout", 20000u); sol.set (p);
  unsigned nv = (unsigned)EP.varWidth.size ();
  for (unsigned v = 0; v < nv; ++v) if (EP.varWidth[v] == 8 && space.domOf (v) != DOM_FULL) sol.add (domExpr (v, space.domOf (v)));
  std::unordered_set<const Expr*> defs;
  for (auto const& pc : pcs) for (auto const& d : *pc) {
    Disj dd; dd.dom = d.dom; std::unordered_map<uint32_t, Val> memo; std::vector<Val> cons;
    g_canon = true;
    for (auto const* x : d.cons) cons.push_back (simpRec (dd, Val (x), 1, memo));
    g_canon = false;
    for (auto const& x : cons) addDefs (sol, x, 1, defs);
    z3::expr_vector c (Z ());
    for (unsigned v = 0; v < d.dom.size (); ++v) if (d.dom[v] != DOM_FULL && d.dom[v] != space.domOf (v)) c.push_back (domExpr (v, d.dom[v]));
    for (auto const& x : cons) if (!x.c () || !x.lo) c.push_back (toBool (tz (x, 1)));
    if (c.empty ()) sol.add (Z ().bool_val (false)); else sol.add (!z3::mk_and (c));
  }
  auto r = sol.check ();
  ++SS.queries;
  SS.seconds += std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
  if (r == z3::sat) { ++SS.sat;
    if (gap) { gap->v.assign (nv, 0); auto m = sol.get_model (); for (unsigned v = 0; v < nv; ++v) { uint64_t x = 0; if (m.eval (zvar (v), true).is_numeral_u64 (x)) gap->v[v] = x; }
      for (auto const& pc : pcs) if (holds (*pc, *gap)) return UNKNOWN; }
    return SAT; }
  if (r == z3::unsat) { ++SS.unsat; return UNSAT; }
  return UNKNOWN;  // not a verdict of the property: reported as the coverage argument used instead
}
