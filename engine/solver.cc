#include <unordered_map>
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>

SolverStats gStats;
unsigned gSolverTimeoutMs = 60000;
std::string gDumpDir;
static Z3_context C;
static Z3_sort fp32s, fp64s;
static Z3_ast RNE, RNA, RTN, RTP, RTZ;
static std::vector<Z3_ast> memoBV, memoBool, memoFP;

static void onError(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);   // old-style context: asts live until the process ends
  Z3_set_error_handler(C, onError);
  fp32s = Z3_mk_fpa_sort(C, 8, 24); fp64s = Z3_mk_fpa_sort(C, 11, 53);
  RNE = Z3_mk_fpa_rne(C); RNA = Z3_mk_fpa_rna(C); RTN = Z3_mk_fpa_rtn(C); RTP = Z3_mk_fpa_rtp(C); RTZ = Z3_mk_fpa_rtz(C);
}
static Z3_ast& slot(std::vector<Z3_ast>& v, E e) { if (v.size() <= e->id) v.resize(numNodes() + 1024, nullptr); return v[e->id]; }
static Z3_ast bv(E e); static Z3_ast boolOf(E e); static Z3_ast fp(E e);
static Z3_sort fps(unsigned w) { if (w == 32) return fp32s; if (w == 64) return fp64s; fprintf(stderr, "fp width %u\n", w); abort(); }

static bool isCmpOp(Op o) { return (o >= O_EQ && o <= O_SLE) || (o >= O_FEQ && o <= O_FUNO); }

static Z3_ast fp1(E e) {
  switch (e->op) {
    case O_FADD: return Z3_mk_fpa_add(C, RNE, fp(e->a), fp(e->b));
    case O_FSUB: return Z3_mk_fpa_sub(C, RNE, fp(e->a), fp(e->b));
    case O_FMUL: return Z3_mk_fpa_mul(C, RNE, fp(e->a), fp(e->b));
    case O_FDIV: return Z3_mk_fpa_div(C, RNE, fp(e->a), fp(e->b));
    case O_FSQRT: return Z3_mk_fpa_sqrt(C, RNE, fp(e->a));
    case O_FPEXT: case O_FPTRUNC: return Z3_mk_fpa_to_fp_float(C, RNE, fp(e->a), fps(e->w));
    case O_SITOFP: return Z3_mk_fpa_to_fp_signed(C, RNE, bv(e->a), fps(e->w));
    case O_UITOFP: return Z3_mk_fpa_to_fp_unsigned(C, RNE, bv(e->a), fps(e->w));
    case O_FROUND: { Z3_ast rm[] = {RNE, RNA, RTN, RTP, RTZ}; return Z3_mk_fpa_round_to_integral(C, rm[e->c], fp(e->a)); }
    case O_ITE: return Z3_mk_ite(C, boolOf(e->a), fp(e->b), fp(e->d));
    default: return Z3_mk_fpa_to_fp_bv(C, bv(e), fps(e->w));
  }
}
static Z3_ast fp(E e) { Z3_ast r = slot(memoFP, e); if (r) return r; r = fp1(e); slot(memoFP, e) = r; return r; }

static Z3_ast bool1(E e) {
  switch (e->op) {
    case O_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
    case O_EQ: if (e->a->w == 1) return Z3_mk_iff(C, boolOf(e->a), boolOf(e->b)); return Z3_mk_eq(C, bv(e->a), bv(e->b));
    case O_ULT: return Z3_mk_bvult(C, bv(e->a), bv(e->b));
    case O_ULE: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
    case O_SLT: return Z3_mk_bvslt(C, bv(e->a), bv(e->b));
    case O_SLE: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
    case O_FEQ: return Z3_mk_fpa_eq(C, fp(e->a), fp(e->b));
    case O_FLT: return Z3_mk_fpa_lt(C, fp(e->a), fp(e->b));
    case O_FLE: return Z3_mk_fpa_leq(C, fp(e->a), fp(e->b));
    case O_FUNO: { Z3_ast x[] = {Z3_mk_fpa_is_nan(C, fp(e->a)), Z3_mk_fpa_is_nan(C, fp(e->b))}; return Z3_mk_or(C, 2, x); }
    case O_AND: { Z3_ast x[] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_and(C, 2, x); }
    case O_OR: { Z3_ast x[] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_or(C, 2, x); }
    case O_XOR: if (isC(e->b)) return e->b->c ? Z3_mk_not(C, boolOf(e->a)) : boolOf(e->a); return Z3_mk_xor(C, boolOf(e->a), boolOf(e->b));
    case O_ITE: return Z3_mk_ite(C, boolOf(e->a), boolOf(e->b), boolOf(e->d));
    default: return Z3_mk_eq(C, bv(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
}
static Z3_ast boolOf(E e) { Z3_ast r = slot(memoBool, e); if (r) return r; r = bool1(e); slot(memoBool, e) = r; return r; }

static Z3_ast bvBool(E e) { Z3_sort s = Z3_mk_bv_sort(C, 1); return Z3_mk_ite(C, boolOf(e), Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s)); }
static Z3_ast bv1(E e) {
  switch (e->op) {
    case O_CONST: return Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w));
    case O_VAR: { std::string n = "v" + std::to_string(e->c); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, e->w)); }
    case O_ADD: return Z3_mk_bvadd(C, bv(e->a), bv(e->b));
    case O_SUB: return Z3_mk_bvsub(C, bv(e->a), bv(e->b));
    case O_MUL: return Z3_mk_bvmul(C, bv(e->a), bv(e->b));
    case O_UDIV: return Z3_mk_bvudiv(C, bv(e->a), bv(e->b));
    case O_SDIV: return Z3_mk_bvsdiv(C, bv(e->a), bv(e->b));
    case O_UREM: return Z3_mk_bvurem(C, bv(e->a), bv(e->b));
    case O_SREM: return Z3_mk_bvsrem(C, bv(e->a), bv(e->b));
    case O_AND: if (e->w == 1) return bvBool(e); return Z3_mk_bvand(C, bv(e->a), bv(e->b));
    case O_OR: if (e->w == 1) return bvBool(e); return Z3_mk_bvor(C, bv(e->a), bv(e->b));
    case O_XOR: if (e->w == 1) return bvBool(e); return Z3_mk_bvxor(C, bv(e->a), bv(e->b));
    case O_SHL: return Z3_mk_bvshl(C, bv(e->a), bv(e->b));
    case O_LSHR: return Z3_mk_bvlshr(C, bv(e->a), bv(e->b));
    case O_ASHR: return Z3_mk_bvashr(C, bv(e->a), bv(e->b));
    case O_ZEXT: return Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a));
    case O_SEXT: return Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a));
    case O_EXTRACT: return Z3_mk_extract(C, e->c + e->w - 1, e->c, bv(e->a));
    case O_CONCAT: return Z3_mk_concat(C, bv(e->a), bv(e->b));
    case O_ITE: if (e->w == 1) return bvBool(e); return Z3_mk_ite(C, boolOf(e->a), bv(e->b), bv(e->d));
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FPEXT: case O_FPTRUNC: case O_SITOFP: case O_UITOFP: case O_FROUND:
      return Z3_mk_fpa_to_ieee_bv(C, fp(e));
    case O_FPTOSI: {
      unsigned cw = e->w <= 32 ? 32 : 64, wa = e->a->w;
      Z3_ast x = fp(e->a);
      double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
      Z3_sort s = fps(wa);
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, lim, s);
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, (cw == 32 && wa == 64) ? -lim - 1 : -lim, s);
      bool strict = cw == 32 && wa == 64;
      Z3_ast in[] = {Z3_mk_fpa_lt(C, x, hi), strict ? Z3_mk_fpa_gt(C, x, lo) : Z3_mk_fpa_geq(C, x, lo)};
      Z3_ast r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, RTZ, x, cw),
                           Z3_mk_unsigned_int64(C, cw == 32 ? 0x80000000ull : 0x8000000000000000ull, Z3_mk_bv_sort(C, cw)));
      return e->w < cw ? Z3_mk_extract(C, e->w - 1, 0, r) : r;
    }
    case O_FPTOUI: {
      unsigned w = e->w, wa = e->a->w, cw = w <= 32 ? 32 : 64; Z3_ast x = fp(e->a); Z3_sort s = fps(wa);
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, cw == 32 ? 4294967296.0 : 18446744073709551616.0, s);
      Z3_ast in[] = {Z3_mk_fpa_lt(C, x, hi), Z3_mk_fpa_gt(C, x, Z3_mk_fpa_numeral_double(C, -1.0, s))};
      Z3_ast r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_ubv(C, RTZ, x, cw),
                           Z3_mk_unsigned_int64(C, cw == 32 ? 0x80000000ull : 0x8000000000000000ull, Z3_mk_bv_sort(C, cw)));
      return w < cw ? Z3_mk_extract(C, w - 1, 0, r) : r;
    }
    default:
      if (isCmpOp(e->op)) return bvBool(e);
      fprintf(stderr, "solver: op %d\n", e->op); abort();
  }
}
static Z3_ast bv(E e) { Z3_ast r = slot(memoBV, e); if (r) return r; r = bv1(e); slot(memoBV, e) = r; return r; }
static void xlate(E root) { // bottom-up to keep the C stack shallow
  std::vector<std::pair<E, bool>> st{{root, false}};
  static std::vector<bool> done; if (done.size() < numNodes()) done.resize(numNodes() + 1024, false);
  while (!st.empty()) {
    auto [e, v] = st.back(); st.pop_back();
    if (done[e->id]) continue;
    if (v) { if (e->w == 1) boolOf(e); else if (!(e->op >= O_FADD && e->op <= O_FROUND)) bv(e); else if (e->op == O_FPTOSI || e->op == O_FPTOUI) bv(e); else if (!isCmpOp(e->op) && e->op != O_FREM) fp(e); done[e->id] = true; continue; }
    st.push_back({e, true});
    for (E k : {e->a, e->b, e->d}) if (k && !done[k->id]) st.push_back({k, false});
  }
}

bool gIncremental = true;
static bool hasFP(E root) { // memoised over the term graph
  static std::vector<signed char> memo; if (memo.size() < numNodes()) memo.resize(numNodes() + 1024, -1);
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (memo[e->id] >= 0) { st.pop_back(); continue; }
    bool ready = true, v = e->op >= O_FADD && e->op <= O_FROUND;
    for (E k : {e->a, e->b, e->d}) if (k) { if (memo[k->id] < 0) { st.push_back(k); ready = false; } else v = v || memo[k->id]; }
    if (ready) { memo[e->id] = v; st.pop_back(); }
  }
  return memo[root->id];
}
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> cache;

Res solverCheck(const std::vector<E>& pc, E extra, Model& m) {
  if (isFalse(extra)) return UNSAT;
  if (isTrue(extra)) return SAT;
  if (evalE(extra, m)) { gStats.modelHits++; return SAT; }
  init();
  // independence slicing
  std::vector<E> sl{extra};
  std::set<uint32_t> vs(varsOf(extra).begin(), varsOf(extra).end());
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      const auto& v = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; sl.push_back(pc[i]); for (uint32_t x : v) vs.insert(x); ch = true; }
    }
  }
  std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    gStats.cacheHits++;
    if (it->second.r == SAT) for (auto& p : it->second.m) { if (m.v.size() <= p.first) m.v.resize(p.first + 1, 0); m.v[p.first] = p.second; }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  for (E e : sl) xlate(e);
  // easy integer queries: an incremental solver that keeps the assertions shared with the previous query
  bool easy = gIncremental; for (E e : sl) easy = easy && !hasFP(e);
  if (easy) {
    static Z3_solver inc = nullptr; static std::unordered_map<E, Z3_ast> lit;
    if (inc && lit.size() > 4000) { Z3_solver_dec_ref(C, inc); inc = nullptr; lit.clear(); }
    if (!inc) {
      inc = Z3_mk_solver(C); Z3_solver_inc_ref(C, inc); Z3_params ip = Z3_mk_params(C); Z3_params_inc_ref(C, ip);
      Z3_params_set_uint(C, ip, Z3_mk_string_symbol(C, "timeout"), 200); Z3_solver_set_params(C, inc, ip); Z3_params_dec_ref(C, ip);
    }
    std::vector<Z3_ast> as;
    for (E e : sl) {
      auto l = lit.find(e);
      if (l == lit.end()) { Z3_ast p = Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)); Z3_inc_ref(C, p); Z3_solver_assert(C, inc, Z3_mk_implies(C, p, boolOf(e))); l = lit.emplace(e, p).first; }
      as.push_back(l->second);
    }
    Z3_lbool r = Z3_solver_check_assumptions(C, inc, as.size(), as.data()); Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN; CacheEnt ent{res, {}};
    if (res == SAT) {
      Z3_model mo = Z3_solver_get_model(C, inc); Z3_model_inc_ref(C, mo);
      for (uint32_t x : vs) { Z3_ast v; uint64_t val = 0; if (Z3_model_eval(C, mo, bv(gVarNodes[x]), true, &v)) Z3_get_numeral_uint64(C, v, &val); ent.m.push_back({x, val}); }
      Z3_model_dec_ref(C, mo); Model t = m; for (auto& q : ent.m) { if (t.v.size() <= q.first) t.v.resize(q.first + 1, 0); t.v[q.first] = q.second; }
      for (E e : sl) if (!evalE(e, t)) { res = UNKNOWN; break; }
      if (res == SAT) m = t;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gStats.time += dt;
    if (res != UNKNOWN) { gStats.queries++; gStats.maxTime = std::max(gStats.maxTime, dt); if (res == SAT) gStats.sat++; else gStats.unsat++; cache[key] = ent; return res; }
    t0 = std::chrono::steady_clock::now();
  }
  Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(C, s, p);
  for (E e : sl) Z3_solver_assert(C, s, boolOf(e));
  if (!gDumpDir.empty()) { static int n = 0; std::string f = gDumpDir + "/q" + std::to_string(n++) + ".smt2"; FILE* o = fopen(f.c_str(), "w"); fputs(Z3_solver_to_string(C, s), o); fputs("(check-sat)\n", o); fclose(o); }
  Z3_lbool r = Z3_solver_check(C, s);
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  CacheEnt ent{res, {}};
  if (res == SAT) {
    Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
    for (uint32_t x : vs) {
      Z3_ast v; uint64_t val = 0;
      if (Z3_model_eval(C, mo, bv(gVarNodes[x]), true, &v)) Z3_get_numeral_uint64(C, v, &val);
      ent.m.push_back({x, val});
    }
    Z3_model_dec_ref(C, mo);
    for (auto& q : ent.m) { if (m.v.size() <= q.first) m.v.resize(q.first + 1, 0); m.v[q.first] = q.second; }
    for (E e : sl) if (!evalE(e, m)) {
      // (NaN payloads or an out-of-model operator) the solver's model is not a model of our semantics
      static int warn = 0; if (warn++ < 5) fprintf(stderr, "sx: solver model disagrees with evaluator on %s\n", show(e, 6).c_str());
    }
  }
  Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++; gStats.time += dt; gStats.maxTime = std::max(gStats.maxTime, dt);
  if (res == SAT) gStats.sat++; else if (res == UNSAT) gStats.unsat++; else gStats.unknown++;
  cache[key] = ent;
  return res;
}
