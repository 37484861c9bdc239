#include "expr.h"
#include <cmath>
#include <cfenv>
#include <algorithm>
#include <unordered_set>
#include <deque>
#include <map>

std::vector<VarInfo> gVars;
std::vector<E> gVarNodes;
static std::deque<Node> arena;
static uint32_t gEpoch = 0;

struct Key { Op op; uint16_t w; uint64_t c; E a, b, d; };
static size_t hashKey(const Key& k) {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull ^ (uint64_t)k.w << 40 ^ k.c * 0xC2B2AE3D27D4EB4Full;
  h ^= (uint64_t)(k.a ? k.a->id + 1 : 0) * 0x165667B19E3779F9ull; h = (h << 23) | (h >> 41);
  h ^= (uint64_t)(k.b ? k.b->id + 1 : 0) * 0x27D4EB2F165667C5ull; h = (h << 29) | (h >> 35);
  h ^= (uint64_t)(k.d ? k.d->id + 1 : 0) * 0x85EBCA77C2B2AE63ull; h *= 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 32);
}
static std::vector<E> table(1 << 16, nullptr);
static size_t tcount = 0;
static void rehash() {
  std::vector<E> n(table.size() * 2, nullptr);
  for (E e : table) if (e) {
    Key k{e->op, e->w, e->c, e->a, e->b, e->d};
    size_t i = hashKey(k) & (n.size() - 1);
    while (n[i]) i = (i + 1) & (n.size() - 1);
    n[i] = e;
  }
  table.swap(n);
}
static E mk(Op op, unsigned w, uint64_t c, E a, E b, E d) {
  Key k{op, (uint16_t)w, c, a, b, d};
  size_t i = hashKey(k) & (table.size() - 1);
  while (table[i]) {
    E e = table[i];
    if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
    i = (i + 1) & (table.size() - 1);
  }
  arena.push_back(Node{op, 0, (uint16_t)w, (uint32_t)arena.size(), c, a, b, d, 0, 0});
  E e = &arena.back();
  table[i] = e;
  if (++tcount * 2 > table.size()) rehash();
  return e;
}
size_t numNodes() { return arena.size(); }

E mkConst(uint64_t v, unsigned w) {
  if (w > 64) return mkZExt(mkConst(v, 64), w);
  return mk(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr);
}
E mkVar(const std::string& name, unsigned w) {
  gVars.push_back({name, w});
  E e = mk(O_VAR, w, gVars.size() - 1, nullptr, nullptr, nullptr);
  gVarNodes.push_back(e);
  return e;
}

// ---- concrete FP -------------------------------------------------------------------------
static float f32(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static double f64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static uint64_t b32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static uint64_t b64(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
uint64_t fpBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  if (w == 32) {
    volatile float x = f32(a), y = f32(b); volatile float r;
    switch (op) {
      case O_FADD: r = x + y; return b32(r); case O_FSUB: r = x - y; return b32(r);
      case O_FMUL: r = x * y; return b32(r); case O_FDIV: r = x / y; return b32(r);
      case O_FREM: return b32(fmodf(x, y));
      case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y;
      case O_FUNO: return x != x || y != y; default: break;
    }
  } else if (w == 64) {
    volatile double x = f64(a), y = f64(b); volatile double r;
    switch (op) {
      case O_FADD: r = x + y; return b64(r); case O_FSUB: r = x - y; return b64(r);
      case O_FMUL: r = x * y; return b64(r); case O_FDIV: r = x / y; return b64(r);
      case O_FREM: return b64(fmod(x, y));
      case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y;
      case O_FUNO: return x != x || y != y; default: break;
    }
  }
  fprintf(stderr, "fpBin: width %u op %d\n", w, op); abort();
}
uint64_t fpUn(Op op, uint64_t a, unsigned wa, unsigned w, uint64_t c) {
  switch (op) {
    case O_FSQRT: return w == 32 ? b32(sqrtf(f32(a))) : b64(sqrt(f64(a)));
    case O_FPEXT: return b64((double)f32(a));
    case O_FPTRUNC: return b32((float)f64(a));
    case O_FPTOSI: {
      double x = wa == 32 ? f32(a) : f64(a);
      // x86 semantics: out of range gives the "integer indefinite" value
      unsigned cw = w <= 32 ? 32 : 64; int64_t r;
      double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
      if (!(x < lim && (cw == 32 ? x > -lim - 1 : x >= -lim))) r = cw == 32 ? (int64_t)INT32_MIN : INT64_MIN; else r = (int64_t)x;
      return (uint64_t)r & maskw(w);
    }
    case O_FPTOUI: {
      double x = wa == 32 ? f32(a) : f64(a);
      double lim = w <= 32 ? 4294967296.0 : 18446744073709551616.0;
      if (x > -1 && x < lim) return (uint64_t)x & maskw(w);
      return (w == 64 ? 0x8000000000000000ull : 0x80000000ull) & maskw(w);
    }
    case O_SITOFP: { int64_t v = sextw(a, wa); return w == 32 ? b32((float)v) : b64((double)v); }
    case O_UITOFP: { uint64_t v = a & maskw(wa); return w == 32 ? b32((float)v) : b64((double)v); }
    case O_FROUND: {
      if (w == 32) { float x = f32(a);
        switch (c) { case 0: return b32(nearbyintf(x)); case 1: return b32(roundf(x)); case 2: return b32(floorf(x)); case 3: return b32(ceilf(x)); default: return b32(truncf(x)); } }
      double x = f64(a);
      switch (c) { case 0: return b64(nearbyint(x)); case 1: return b64(round(x)); case 2: return b64(floor(x)); case 3: return b64(ceil(x)); default: return b64(trunc(x)); }
    }
    default: break;
  }
  abort();
}

// ---- constructors ------------------------------------------------------------------------
static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? (w - 1) : b)) & m;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sextw(a, w) < sextw(b, w); case O_SLE: return sextw(a, w) <= sextw(b, w);
    default: return fpBin(op, a, b, w);
  }
}
static bool isCmp(Op op) { return (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FUNO); }
static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ || op == O_FUNO; }

static E simpFP(Op op, E a, E b); static E tabulate(E e);
E mkNot(E a) {
  switch (a->op) {
    case O_CONST: return mkConst(!a->c, 1);
    case O_ULT: return mkBin(O_ULE, a->b, a->a);
    case O_ULE: return mkBin(O_ULT, a->b, a->a);
    case O_SLT: return mkBin(O_SLE, a->b, a->a);
    case O_SLE: return mkBin(O_SLT, a->b, a->a);
    default: break;
  }
  if (a->op == O_XOR && isC(a->b) && a->b->c == 1) return a->a;
  return mk(O_XOR, 1, 0, a, mkConst(1, 1), nullptr);
}

// bits known to be zero
static uint64_t zeroBits(E e, int depth = 8) {
  if (e->w > 64) return 0;
  switch (e->op) {
    case O_CONST: return ~e->c & maskw(e->w);
    case O_ZEXT: return (maskw(e->w) & ~maskw(e->a->w)) | (depth ? zeroBits(e->a, depth - 1) : 0);
    case O_CONCAT: return depth ? (zeroBits(e->a, depth - 1) << e->b->w) | zeroBits(e->b, depth - 1) : 0;
    default: return 0;
  }
}
static E exactInt(E e);
// a linear combination of leaves modulo 2^w: decides equalities of sums however they are associated
struct Lin { std::map<uint32_t, std::pair<E, uint64_t>> t; uint64_t c = 0; unsigned left = 20000; };
static double maxAbs(E e, int depth = 400);
static bool linOf(E e, unsigned w, uint64_t k, Lin& L) { // adds k * (e sign-extended to w)
  if (!L.left) return false; L.left--;
  if (isC(e)) { L.c += k * (e->w == 64 ? e->c : (uint64_t)sextw(e->c, e->w)); return true; }
  bool full = e->w == w; double lim = std::ldexp(1, e->w - 1);
  switch (e->op) {
    case O_ADD: case O_SUB: if (full || maxAbs(e->a, 400) + maxAbs(e->b, 400) < lim) return linOf(e->a, w, k, L) && linOf(e->b, w, e->op == O_ADD ? k : -k, L); break;
    case O_MUL: if (isC(e->b) && (full || maxAbs(e->a, 400) * maxAbs(e->b, 400) < lim)) return linOf(e->a, w, k * (uint64_t)sextw(e->b->c, e->w), L); break;
    case O_SEXT: return linOf(e->a, w, k, L);
    case O_CONCAT: if (isC(e->b) && e->b->c == 0 && e->b->w < 32) return linOf(e->a, w, k << e->b->w, L); break; // e = 2^n * (signed reading of the rest), exactly
    default: break;
  }
  E leaf = mkSExt(e, w); if (leaf->op != O_SEXT && leaf != e) leaf = e->w == w ? e : leaf; auto& q = L.t[leaf->id]; q.first = leaf; q.second += k; return true;
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b) && w <= 64) return mkConst(foldBin(op, a->c, b->c, w), rw);
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (op >= O_FADD && op <= O_FUNO) if (E r = simpFP(op, a, b)) return r;
  bool bc = isC(b); uint64_t bv = bc ? b->c : 0;
  switch (op) {
    case O_ADD:
      if (bc && bv == 0) return a;
      if (bc && a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->c + bv, w));
      if (!bc && a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
      if (!bc && b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
      // c1*x + c2*x
      if (!bc && w <= 64) {
        E xa = a, xb = b; uint64_t ca = 1, cb = 1;
        if (a->op == O_MUL && isC(a->b)) { xa = a->a; ca = a->b->c; }
        if (b->op == O_MUL && isC(b->b)) { xb = b->a; cb = b->b->c; }
        if (xa == xb) return mkBin(O_MUL, xa, mkConst(ca + cb, w));
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (bc && w <= 64) return mkBin(O_ADD, a, mkConst(0 - bv, w));
      if (a->op == O_ADD && a->a == b) return a->b;
      if (a->op == O_ADD && a->b == b) return a->a;
      if (a->op == O_ADD && b->op == O_ADD && a->a == b->a) return mkBin(O_SUB, a->b, b->b);
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
      if (b->op == O_ADD && isC(b->b) && w <= 64) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst(0 - b->b->c, w));
      if (w <= 64) {
        E xa = a, xb = b; uint64_t ca = 1, cb = 1;
        if (a->op == O_MUL && isC(a->b)) { xa = a->a; ca = a->b->c; }
        if (b->op == O_MUL && isC(b->b)) { xb = b->a; cb = b->b->c; }
        if (xa == xb) return mkBin(O_MUL, xa, mkConst(ca - cb, w));
      }
      break;
    case O_MUL:
      if (bc && bv == 0) return b;
      if (bc && bv == 1) return a;
      if (bc && w <= 64 && a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_MUL, a->a, b), mkConst(a->b->c * bv, w));
      if (bc && w <= 64 && a->op == O_MUL && isC(a->b)) return mkBin(O_MUL, a->a, mkConst(a->b->c * bv, w));
      if (bc && w <= 64 && (bv & (bv - 1)) == 0) { unsigned s = __builtin_ctzll(bv); return mkBin(O_SHL, a, mkConst(s, w)); }
      break;
    case O_UDIV: if (bc && bv == 1) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(bv), w)); break;
    case O_SDIV: if (bc && bv == 1) return a; break;
    case O_UREM: if (bc && bv == 1) return mkConst(0, w);
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(O_AND, a, mkConst(bv - 1, w)); break;
    case O_AND:
      if (bc && a->op == O_SITOFP && (w == 32 || w == 64) && bv == maskw(w - 1)) { E i = exactInt(a); if (i) return mkFUn(O_SITOFP, mkIte(mkBin(O_SLT, i, mkConst(0, 64)), mkBin(O_SUB, mkConst(0, 64), i), i), w); } // the absolute value
      if (bc && bv == 0) return b;
      if (bc && w <= 64 && bv == maskw(w)) return a;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      if (bc && a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->c & bv, w));
      if (bc && w > 1 && w <= 64 && (bv & (bv + 1)) == 0) { unsigned n = __builtin_popcountll(bv); return mkZExt(mkExtract(a, 0, n), w); }
      break;
    case O_OR:
      if (bc && bv == 0) return a;
      if (bc && w <= 64 && bv == maskw(w)) return b;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
      // disjoint concat: (hi ++ 0) | zext(lo)
      for (int k = 0; k < 2; k++) {
        E x = k ? b : a, y = k ? a : b;
        if (x->op == O_CONCAT && isC(x->b) && x->b->c == 0 && y->op == O_ZEXT && y->a->w <= x->b->w)
          return mkConcat(x->a, mkZExt(y->a, x->b->w));
        if (x->op == O_CONCAT && isC(x->b) && x->b->c == 0 && y->op == O_CONCAT && y->b->w == x->b->w && isC(y->a) && y->a->c == 0)
          return mkConcat(x->a, y->b);
      }
      if (w > 1 && w <= 64 && (a->op == O_CONCAT || a->op == O_ZEXT) && (b->op == O_CONCAT || b->op == O_ZEXT)) { // disjoint pieces
        uint64_t za = zeroBits(a), zb = zeroBits(b);
        if ((za | zb) == maskw(w)) {
          E r = nullptr;
          for (unsigned i = 0; i < w;) {
            bool useA = zb >> i & 1; uint64_t z = useA ? zb : za; unsigned j = i; while (j < w && (z >> j & 1)) j++;
            E p = mkExtract(useA ? a : b, i, j - i); r = r ? mkConcat(p, r) : p; i = j;
          }
          return r;
        }
      }
      break;
    case O_XOR:
      if (bc && bv == 0) return a;
      if (a == b) return mkConst(0, w);
      if (w == 1 && bc && bv == 1) return mkNot(a);
      if (bc && a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->c ^ bv, w));
      break;
    case O_SHL:
      if (bc && bv == 0) return a;
      if (bc && bv >= w) return mkConst(0, w);
      if (bc) return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
      break;
    case O_LSHR:
      if (bc && bv == 0) return a;
      if (bc && bv >= w) return mkConst(0, w);
      if (bc) return mkZExt(mkExtract(a, bv, w - bv), w);
      break;
    case O_ASHR:
      if (bc && bv == 0) return a;
      if (bc && bv < w) return mkSExt(mkExtract(a, bv, w - bv), w);
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (w >= 24 && w <= 64 && !bc && ((a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) || (b->op == O_ADD || b->op == O_SUB || b->op == O_MUL))) {
        Lin L; if (linOf(a, w, 1, L) && linOf(b, w, ~0ull, L)) { bool zero = true; for (auto& x : L.t) zero = zero && !(x.second.second & maskw(w)); if (zero) return mkConst(!(L.c & maskw(w)), 1); } }
      if (a == b) return mkConst(1, 1);
      if (w == 1 && bc) return bv ? a : mkNot(a);
      if (bc && w <= 64) {
        if (a->op == O_ZEXT) { if (bv >> a->a->w) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(bv, a->a->w)); }
        if (a->op == O_SEXT) { if ((uint64_t)(sextw(bv & maskw(a->a->w), a->a->w) & maskw(w)) != bv) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(bv, a->a->w)); }
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_EQ, a->a, mkConst(bv - a->b->c, w));
        if (a->op == O_CONCAT) return mkBin(O_AND, mkBin(O_EQ, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(O_EQ, a->b, mkConst(bv, a->b->w)));
        if (a->op == O_XOR && isC(a->b)) return mkBin(O_EQ, a->a, mkConst(bv ^ a->b->c, w));
        if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(O_EQ, a->b, b), mkBin(O_EQ, a->d, b));
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
      if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b) && a->a == b->a) return mkConst(a->b->c == b->b->c, 1);
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (bc && bv == 0) return mkConst(0, 1);
      if (bc && bv == 1) return mkBin(O_EQ, a, mkConst(0, w));
      if (isC(a) && a->c == 0) return mkNot(mkBin(O_EQ, b, a));
      if (isC(a) && w <= 64 && a->c == maskw(w)) return mkConst(0, 1);
      if (bc && a->op == O_ZEXT) { if (bv > maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULT, a->a, mkConst(bv, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->c >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->c, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a);
      break;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->c == 0) return mkConst(1, 1);
      if (bc && w <= 64 && bv == maskw(w)) return mkConst(1, 1);
      if (bc && bv == 0) return mkBin(O_EQ, a, b);
      if (bc && a->op == O_ZEXT) { if (bv >= maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULE, a->a, mkConst(bv, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->c > maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULE, mkConst(a->c, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULE, a->a, b->a);
      break;
    case O_SLT: if (a == b) return mkConst(0, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b);
      if (bc && a->op == O_ZEXT && w <= 64) { if (sextw(bv, w) <= 0) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (isC(a) && b->op == O_ZEXT && w <= 64) { if (sextw(a->c, w) < 0) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      break;
    case O_SLE: if (a == b) return mkConst(1, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULE, a, b);
      if (bc && a->op == O_ZEXT && w <= 64) { if (sextw(bv, w) < 0) return mkConst(0, 1); return mkBin(O_ULE, a, b); }
      if (isC(a) && b->op == O_ZEXT && w <= 64) { if (sextw(a->c, w) <= 0) return mkConst(1, 1); return mkBin(O_ULE, a, b); }
      break;
    default: break;
  }
  E r = mk(op, rw, 0, a, b, nullptr);
  return op >= O_FADD && op <= O_FUNO ? tabulate(r) : r;
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZExt(a->a, w);
  return mk(O_ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == O_SEXT) return mkSExt(a->a, w);
  if (a->op == O_ZEXT) return mkZExt(a->a, w);
  return mk(O_SEXT, w, 0, a, nullptr, nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (w == a->w && lo == 0) return a;
  switch (a->op) {
    case O_CONST: return mkConst(a->c >> lo, w);
    case O_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case O_CONCAT: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case O_ZEXT: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case O_SEXT: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
      return mkSExt(mkExtract(a->a, iw - 1, 1), w);
    }
    case O_ITE:
      if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
      break;
    case O_AND: case O_OR: case O_XOR:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0 && w > 8 && a->w <= 64) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return mk(O_EXTRACT, w, lo, a, nullptr, nullptr);
}
// joins neighbouring extracts without distributing over arithmetic (so that bytes of a sum reassemble into the sum)
static E rawExtract(E a, unsigned lo, unsigned w) { return lo == 0 && w == a->w ? a : mk(O_EXTRACT, w, lo, a, nullptr, nullptr); }
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return mkConst(hi->c << lo->w | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w)
    return rawExtract(lo->a, lo->c, w);
  // extract whose concat continues inside a nested concat: (x ++ ext(a,hi)) ++ ext(a,lo)
  if (hi->op == O_CONCAT && hi->b->op == O_EXTRACT && lo->op == O_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w)
    return mkConcat(hi->a, rawExtract(lo->a, lo->c, hi->b->w + lo->w));
  if (hi->op == O_CONCAT && isC(hi->b) && isC(lo) && hi->b->w + lo->w <= 64)
    return mkConcat(hi->a, mkConst(hi->b->c << lo->w | lo->c, hi->b->w + lo->w));
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
    return mkConcat(rawExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  if (hi->op == O_SEXT && hi->a->op == O_EXTRACT) { // copies of the next bit of the value below
    E x = lo->op == O_CONCAT ? lo->a : lo; if (x->op == O_EXTRACT && x->a == hi->a->a && hi->a->c == x->c + x->w) return mkSExt(mkConcat(hi->a, lo), w); }
  // zext(ext(a, k..)) ++ ... handled by: hi = zext(x): 0 ++ (x ++ lo)
  if (hi->op == O_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  // copies of the sign bit above a value: a sign extension
  if (hi->op == O_SEXT && hi->a->w == 1 && hi->a == mkExtract(lo, lo->w - 1, 1)) return mkSExt(lo, w);
  return mk(O_CONCAT, w, 0, hi, lo, nullptr);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  }
  if (c->op == O_XOR && isC(c->b)) return mkIte(c->a, b, a);
  if (a->op == O_SITOFP && b->op == O_SITOFP && a->a->w == b->a->w) return mkFUn(O_SITOFP, mkIte(c, a->a, b->a), a->w);
  if (a->op == O_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == O_ITE && b->a == c) return mkIte(c, a, b->d);
  return mk(O_ITE, a->w, 0, c, a, b);
}
// ---- integers seen through floating point: exact rewrites -------------------------------
// a bound on the absolute value of the signed reading of e (1e30: unknown)
static std::unordered_map<E, double> bounds; // terms are built bottom-up, so the recursion stays shallow
static double maxAbs(E e, int depth) {
  const double U = 1e30; if (e->w > 64 || !depth) return U;
  if (e->op == O_CONST) return std::fabs((double)sextw(e->c, e->w));
  auto known = bounds.find(e); if (known != bounds.end()) return known->second;
  double lim = ldexp(1, e->w - 1), r = lim;
  switch (e->op) {
    case O_CONST: return std::fabs((double)sextw(e->c, e->w));
    case O_SEXT: r = maxAbs(e->a, depth - 1); break;
    case O_ZEXT: r = ldexp(1, e->a->w) - 1; break;
    case O_ADD: case O_SUB: r = maxAbs(e->a, depth - 1) + maxAbs(e->b, depth - 1); break;
    case O_MUL: r = maxAbs(e->a, depth - 1) * maxAbs(e->b, depth - 1); break;
    case O_CONCAT: if (isC(e->b) && e->b->c == 0) r = maxAbs(e->a, depth - 1) * ldexp(1, e->b->w); break;
    case O_ITE: r = std::max(maxAbs(e->b, depth - 1), maxAbs(e->d, depth - 1)); break;
    case O_SDIV: if (isC(e->b) && sextw(e->b->c, e->w) > 1) r = maxAbs(e->a, depth - 1); break;
    case O_SREM: if (isC(e->b) && e->b->c) r = std::min(maxAbs(e->a, depth - 1), maxAbs(e->b, depth - 1)); break;
    default: break;
  }
  r = r >= lim ? lim : r; // a wrapped value is still below the limit
  bounds[e] = r; return r;
}
static const double EXACT = 4503599627370496.0; // 2^52
// e is the double (or float) of an integer small enough to be exact: returns the 64-bit integer
static E exactInt(E e) {
  if (e->op != O_SITOFP) return nullptr;
  if (maxAbs(e->a) > (e->w == 64 ? EXACT : 8388608.0)) return nullptr;
  return mkSExt(e->a, 64);
}
static E simpFP(Op op, E a, E b) {
  unsigned w = a->w; if (w != 32 && w != 64) return nullptr;
  auto val = [&](E e) { return w == 64 ? f64(e->c) : (double)f32(e->c); };
  double lim = w == 64 ? EXACT : 8388608.0;
  auto fp = [&](E i) -> E { return maxAbs(i) <= lim ? mkFUn(O_SITOFP, i, w) : nullptr; };
  E ia = isC(a) ? nullptr : exactInt(a), ib = isC(b) ? nullptr : exactInt(b);
  if (op == O_FUNO) { if (a->op == O_SITOFP && (b->op == O_SITOFP || (isC(b) && val(b) == val(b)))) return mkConst(0, 1); return nullptr; }
  if (!ia && !ib) { if (op == O_FDIV && isC(b) && val(b) == 1 && a->op == O_SITOFP) return a; if (op == O_FMUL && isC(b) && val(b) == 1 && a->op == O_SITOFP) return a; return nullptr; }
  auto cint = [&](E c, E& o) { double v = val(c); if (!isC(c) || v != std::floor(v) || std::fabs(v) > lim || (v == 0 && std::signbit(v))) return false; o = mkConst((uint64_t)(int64_t)v, 64); return true; };
  switch (op) {
    case O_FADD: case O_FSUB: {
      E x = ia, y = ib; if (!x && (!isC(a) || !cint(a, x))) return nullptr; if (!y && (!isC(b) || !cint(b, y))) return nullptr;
      return fp(mkBin(op == O_FADD ? O_ADD : O_SUB, x, y)); }
    case O_FMUL: if (ia && ia == ib && maxAbs(ia) * maxAbs(ia) <= lim) return fp(mkBin(O_MUL, ia, ia)); // a square is never -0
      { E i = ia ? ia : ib, c = ia ? b : a, k; if (!isC(c) || !(val(c) > 0) || !cint(c, k)) return nullptr; if (maxAbs(i) * val(c) > lim) return nullptr; return fp(mkBin(O_MUL, i, k)); }
    case O_FDIV: if (isC(b) && val(b) == 1) return a; return nullptr;
    case O_FEQ: case O_FLT: case O_FLE: {
      if (ia && ib) return mkBin(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, ia, ib);
      E c = ia ? b : a; if (!isC(c)) return nullptr; double v = val(c);
      if (v != v) return mkConst(0, 1);
      if (std::fabs(v) > 2 * lim) return mkConst(op == O_FEQ ? 0 : (ia ? v > 0 : v < 0), 1);
      auto k = [&](double d) { return mkConst((uint64_t)(int64_t)d, 64); };
      if (op == O_FEQ) return v == std::floor(v) ? mkBin(O_EQ, ia ? ia : ib, k(v)) : mkConst(0, 1);
      if (ia) return op == O_FLT ? mkBin(O_SLT, ia, k(std::ceil(v))) : mkBin(O_SLE, ia, k(std::floor(v)));
      return op == O_FLT ? mkBin(O_SLT, k(std::floor(v)), ib) : mkBin(O_SLE, k(std::ceil(v)), ib); }
    default: return nullptr;
  }
}
// ---- tabulation: an FP operation over one small variable becomes a decision tree over its bits ----
unsigned gTabBits = 0;
static std::unordered_map<E, std::vector<uint64_t>> tabs; // values of a term for every value of its only variable
static const std::vector<uint64_t>& tabOf(E e, uint32_t var) {
  auto it = tabs.find(e); if (it != tabs.end()) return it->second;
  std::vector<uint64_t> t(1ull << gVars[var].w); Model m; m.v.assign(var + 1, 0);
  for (size_t i = 0; i < t.size(); i++) { m.v[var] = i; t[i] = (uint64_t)evalE(e, m); }
  return tabs[e] = std::move(t);
}
static E tree(E var, const std::vector<uint64_t>& t, size_t lo, size_t n, unsigned w) {
  bool same = true; for (size_t i = 1; i < n && same; i++) same = t[lo + i] == t[lo];
  if (same) return mkConst(t[lo], w);
  unsigned bit = __builtin_ctzll(n) - 1;
  return mkIte(mkExtract(var, bit, 1), tree(var, t, lo + n / 2, n / 2, w), tree(var, t, lo, n / 2, w));
}
static E tabulate(E e) { // e: an FP operation (or comparison)
  if (!gTabBits || e->w > 64) return e;
  const auto& vs = varsOf(e); if (vs.size() != 1 || gVars[vs[0]].w > gTabBits) return e;
  if ((e->a && e->a->w > 64) || (e->b && e->b->w > 64)) return e;
  uint32_t v = vs[0]; std::vector<uint64_t> t(1ull << gVars[v].w);
  const auto* ta = isC(e->a) ? nullptr : &tabOf(e->a, v); const auto* tb = !e->b || isC(e->b) ? nullptr : &tabOf(e->b, v); if (!isC(e->a)) ta = &tabOf(e->a, v);
  for (size_t i = 0; i < t.size(); i++) { uint64_t x = ta ? (*ta)[i] : e->a->c; t[i] = e->b ? fpBin(e->op, x, tb ? (*tb)[i] : e->b->c, e->a->w) : fpUn(e->op, x, e->a->w, e->w, e->c); }
  E r = tree(gVarNodes[v], t, 0, t.size(), e->w); if (!isC(r)) tabs[r] = std::move(t);
  return r;
}
E mkFUn(Op op, E a, unsigned w, uint64_t c) {
  if (isC(a)) return mkConst(fpUn(op, a->c, a->w, w, c), w);
  switch (op) {
    case O_UITOFP: if (a->op == O_ZEXT && a->w <= 64) return mkFUn(O_SITOFP, mkZExt(a, 64), w); if (a->w < 64) return mkFUn(O_SITOFP, mkZExt(a, 64), w); break;
    case O_SITOFP: if (a->w < 64) return mkFUn(O_SITOFP, mkSExt(a, 64), w); break;
    case O_FROUND: if (a->op == O_SITOFP) return a; if (a->op == O_FROUND) return a; break;
    case O_FSQRT: if (E i = exactInt(a)) if (i->op == O_MUL && i->a == i->b && (w == 32 || w == 64)) return mkFUn(O_SITOFP, mkIte(mkBin(O_SLT, i->a, mkConst(0, 64)), mkBin(O_SUB, mkConst(0, 64), i->a), i->a), w); break; // the root of an exact square
    case O_FPEXT: if (exactInt(a)) return mkFUn(O_SITOFP, a->a, w); break;
    case O_FPTOSI: if (E i = exactInt(a)) { if (w == 64) return i; if (w < 64 && maxAbs(i) < ldexp(1, w - 1)) return mkExtract(i, 0, w); } break;
    default: break;
  }
  return tabulate(mk(op, w, c, a, nullptr, nullptr));
}

// ---- evaluation --------------------------------------------------------------------------
static u128 evalRec(E e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  if (e->epoch == gEpoch) return e->ev;
  u128 r = 0; unsigned w = e->w;
  auto s128 = [](u128 v, unsigned w) -> __int128 { return w >= 128 ? (__int128)v : (__int128)(v << (128 - w)) >> (128 - w); };
  switch (e->op) {
    case O_VAR: r = m.get(e->c) & maskw(w); break;
    case O_ZEXT: r = evalRec(e->a, m); break;
    case O_SEXT: r = (u128)s128(evalRec(e->a, m), e->a->w) & mask128(w); break;
    case O_EXTRACT: r = (evalRec(e->a, m) >> e->c) & mask128(w); break;
    case O_CONCAT: r = evalRec(e->a, m) << e->b->w | evalRec(e->b, m); break;
    case O_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    case O_FSQRT: case O_FPEXT: case O_FPTRUNC: case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FROUND:
      r = fpUn(e->op, (uint64_t)evalRec(e->a, m), e->a->w, w, e->c); break;
    default: {
      u128 a = evalRec(e->a, m), b = evalRec(e->b, m); unsigned aw = e->a->w;
      if (aw <= 64) r = foldBin(e->op, (uint64_t)a, (uint64_t)b, aw);
      else {
        u128 mk_ = mask128(aw);
        switch (e->op) {
          case O_ADD: r = (a + b) & mk_; break; case O_SUB: r = (a - b) & mk_; break; case O_MUL: r = (a * b) & mk_; break;
          case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
          case O_SHL: r = b >= aw ? 0 : (a << (unsigned)b) & mk_; break; case O_LSHR: r = b >= aw ? 0 : a >> (unsigned)b; break;
          case O_ASHR: r = (u128)(s128(a, aw) >> (unsigned)(b >= aw ? aw - 1 : b)) & mk_; break;
          case O_UDIV: r = b ? a / b : mk_; break; case O_UREM: r = b ? a % b : a; break;
          case O_EQ: r = a == b; break; case O_ULT: r = a < b; break; case O_ULE: r = a <= b; break;
          case O_SLT: r = s128(a, aw) < s128(b, aw); break; case O_SLE: r = s128(a, aw) <= s128(b, aw); break;
          default: abort();
        }
      }
    }
  }
  e->epoch = gEpoch; e->ev = r;
  return r;
}
static void evalDeep(E e, const Model& m) {
  // iterative post-order for deep DAGs
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->op == O_CONST || x->epoch == gEpoch) { st.pop_back(); continue; }
    bool push = false;
    for (E k : {x->a, x->b, x->d}) if (k && k->op != O_CONST && k->epoch != gEpoch) { st.push_back(k); push = true; }
    if (!push) { evalRec(x, m); st.pop_back(); }
  }
}
u128 evalE(E e, const Model& m) {
  ++gEpoch;
  if (e->op == O_CONST) return e->c;
  evalDeep(e, m);
  return evalRec(e, m);
}

static std::unordered_map<E, std::vector<uint32_t>> varCache;
static uint32_t vEpoch = 0; static std::vector<uint32_t> vSeen;
void collectVars(E e, std::vector<uint32_t>& out) {
  ++vEpoch; if (vSeen.size() < arena.size()) vSeen.resize(arena.size() + 1024, 0);
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!x || x->op == O_CONST || vSeen[x->id] == vEpoch) continue;
    vSeen[x->id] = vEpoch;
    if (x->op == O_VAR) { out.push_back(x->c); continue; }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->d);
  }
  std::sort(out.begin(), out.end());
}
const std::vector<uint32_t>& varsOf(E e) {
  auto it = varCache.find(e);
  if (it != varCache.end()) return it->second;
  std::vector<uint32_t> v; collectVars(e, v);
  return varCache[e] = std::move(v);
}

std::string show(E e, int depth) {
  static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","feq","flt","fle","funo","fpext","fptrunc","fptosi","fptoui","sitofp","uitofp","fround"};
  if (e->op == O_CONST) return std::to_string(e->c);
  if (e->op == O_VAR) return gVars[e->c].name;
  if (depth == 0) return "#" + std::to_string(e->id);
  std::string s = std::string("(") + nm[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
  for (E k : {e->a, e->b, e->d}) if (k) s += " " + show(k, depth - 1);
  return s + ")";
}
