// P20 minimum and maximum searches
#include "segy.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
using namespace exseis::Flow; using exseis::utils::Integer;
static int ranks; static const size_t MAXN = 24, NONE = ~(size_t)0;
static double V[2][MAXN]; static size_t N; static size_t cnt[FM_MAXR], first[FM_MAXR + 1];
static Meta M[2];
// values: kind 0 32-bit integer parameters, 1 arbitrary doubles (not NaN), 2 parameters held as size_t
static double anyValue(int kind, const char* n) {
    if (kind == 0) return (double)(int32_t)sx_any<uint32_t>(n);
    if (kind == 2) return (double)(sx_any<uint64_t>(n) >> 12);
    double d = sx_any<double>(n); sx_assume(d == d); return d;
}
static void check(const CoordElem* e, int k, bool isMax, size_t total) {
    if (total == 0) { sx_assert(e->num == NONE, "no trace number when there are no traces"); sx_cover("nothing"); return; }
    sx_assert(e->num < total, "the number is that of a trace");
    size_t i = sx_concretize(e->num); sx_assert(V[k][i] == e->val, "the trace with that number attains the value");
    for (size_t j = 0; j < total; j++) sx_assert(isMax ? V[k][j] <= e->val : V[k][j] >= e->val, isMax ? "no trace has a larger value" : "no trace has a smaller value");
}
static void checkAll(const CoordElem* e, size_t total) { check(e, 0, false, total); check(e + 1, 0, true, total); check(e + 2, 1, false, total); check(e + 3, 1, true, total); }
struct Item { double a, b; };
static void par(int rank) {
    int kind = sx_param("kind", 0), form = sx_param("form", 0); size_t lo = sx_param("lo", 0), hi = sx_param("hi", 2);
    if (rank == 0) {
        N = 0; for (int r = 0; r < ranks; r++) { first[r] = N; cnt[r] = lo + sx_choose(hi - lo + 1, "count"); N += cnt[r]; } first[ranks] = N;
        for (size_t i = 0; i < N; i++) for (int k = 0; k < 2; k++) V[k][i] = anyValue(kind, k ? "y" : "x");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD); size_t n = cnt[rank], f = first[rank]; CoordElem mm[4]; memset(mm, 0x5a, sizeof mm);
    if (form == 0) {
        auto r = std::make_shared<Rule>(true, true); r->addIndex(PIOL_META_gtn); r->addIndex(PIOL_META_ltn); Param p(r, n);
        for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) { if (kind == 0) param_utils::setPrm(i, M[k], (Integer)V[k][f + i], &p); else if (kind == 2) param_utils::setPrm(i, M[k], (size_t)V[k][f + i], &p); else param_utils::setPrm(i, M[k], V[k][f + i], &p); }
        getMinMax(piol.get(), f, n, M[0], M[1], &p, mm);
    } else {
        Item it[MAXN]; for (size_t i = 0; i < n; i++) it[i] = {V[0][f + i], V[1][f + i]};
        getMinMax<Item>(piol.get(), f, n, n ? it : nullptr, [](const Item& a) { return a.a; }, [](const Item& a) { return a.b; }, mm);
    }
    checkAll(mm, N); sx_assert(!piol->log->isErr(), "no error is logged"); sx_cover("done"); if (N && n == 0) sx_cover("idle"); if (N > 1 && n == N) sx_cover("alone");
}
// ---- a set of files: numbers are those of traces within their file
static size_t fnt[3];
static void set(int rank) {
    int kind = sx_param("kind", 0), files = sx_param("files", 2), ns = 1, forms = sx_param("form", 0); size_t hi = sx_param("hi", 3); static const char* NM[3] = {"a.segy", "b.segy", "c.segy"};
    if (rank == 0) {
        N = 0;
        for (int f = 0; f < files; f++) {
            fnt[f] = sx_choose(hi + 1, "traces"); FFile* ff = rawFile(NM[f], fnt[f], ns + (f == 2));
            for (size_t i = 0; i < fnt[f]; i++, N++) { unsigned char* m = rawMD(ff, i, ns + (f == 2));
                if (kind == 0) { uint32_t a = sx_any<uint32_t>("il"), b = sx_any<uint32_t>("off"); put32(m + 188, a); put32(m + 36, b); V[0][N] = (int32_t)a; V[1][N] = (int32_t)b; }
                else { put16(m + 70, 1); uint32_t a = sx_any<uint32_t>("x"), b = sx_any<uint32_t>("y"); put32(m + 72, a); put32(m + 76, b); V[0][N] = (int32_t)a; V[1][N] = (int32_t)b; } }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD); CoordElem mm[4]; memset(mm, 0x5a, sizeof mm);
    { auto r = std::make_shared<Rule>(true, true); Set s(piol, r);
      for (int f = 0; f < files; f++) s.add(makeFile<ReadSEGY>(piol, NM[f]));
      Meta a = M[0], b = M[1];
      if (forms == 0) s.getMinMax(a, b, mm); else s.getMinMax([a](const Param& p) { return param_utils::getPrm<double>(0, a, &p); }, [b](const Param& p) { return param_utils::getPrm<double>(0, b, &p); }, mm); }
    for (int q = 0; q < 4; q++) { int k = q / 2; bool isMax = q & 1; const CoordElem* e = mm + q;
        if (!N) { sx_assert(e->num == NONE, "no trace number when there are no traces"); sx_cover("nothing"); continue; }
        size_t num = sx_concretize(e->num), base = 0; bool found = false;
        for (int f = 0; f < files; f++) { if (num < fnt[f]) found = found | (V[k][base + num] == e->val); base += fnt[f]; }
        sx_assert(found, "a trace with that number attains the value");
        for (size_t j = 0; j < N; j++) sx_assert(isMax ? V[k][j] <= e->val : V[k][j] >= e->val, isMax ? "no trace has a larger value" : "no trace has a smaller value"); }
    sx_assert(!piol->log->isErr(), "no error is logged"); sx_cover("done"); if (N && fnt[0] == 0) sx_cover("emptyfile");
}
extern "C" void harness() {
    ranks = sx_param("ranks", 1); int mode = sx_param("mode", 0), kind = sx_param("kind", 0);
    M[0] = kind == 0 ? PIOL_META_il : kind == 2 ? PIOL_META_gtn : PIOL_META_xSrc; M[1] = kind == 0 ? PIOL_META_Offset : kind == 2 ? PIOL_META_ltn : PIOL_META_ySrc;
    fm_run(ranks, mode == 0 ? par : set);
}
