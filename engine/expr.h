// Hash-consed bit-vector / floating-point expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FEQ, O_FLT, O_FLE, O_FUNO, O_FPEXT, O_FPTRUNC,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FROUND /* c: 0 RNE 1 RNA 2 floor 3 ceil 4 trunc */
};

struct Node {
  Op op; uint8_t isfp; uint16_t w; uint32_t id; uint64_t c;
  const Node *a, *b, *d;
  mutable uint32_t epoch; mutable u128 ev;
};
typedef const Node* E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;
extern std::vector<E> gVarNodes;

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
E mkNot(E a);       // width 1
E mkFUn(Op op, E a, unsigned w, uint64_t c = 0); // FSQRT, FPEXT, FPTRUNC, FPTOSI, FPTOUI, SITOFP, UITOFP, FROUND
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isTrue(E e) { return e->op == O_CONST && e->c == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->c == 0; }

struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };
u128 evalE(E e, const Model& m);
void collectVars(E e, std::vector<uint32_t>& out); // sorted unique, memoised
const std::vector<uint32_t>& varsOf(E e);
std::string show(E e, int depth = 4);
size_t numNodes();
extern unsigned gTabBits; // FP operations over a single variable of at most this many bits become decision trees

// concrete FP helpers
uint64_t fpBin(Op op, uint64_t a, uint64_t b, unsigned w);
uint64_t fpUn(Op op, uint64_t a, unsigned wa, unsigned w, uint64_t c);
