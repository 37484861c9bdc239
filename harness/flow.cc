// P23 workflows write each input trace once and in order; P24 sorting workflows
#include "segy.hh"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <string>
using namespace exseis::Flow; using namespace exseis::utils;
#ifdef EXSEISDAT_VERIF
extern size_t exseisdat_verif_set_memory; // the memory limit of a block of a workflow
#endif
static int ranks, files, ops; static const size_t MAXF = 3, MAXT = 12; static const char* NM[MAXF] = {"a.segy", "b.segy", "c.segy"};
static size_t fnt[MAXF], fns[MAXF]; static unsigned finc[MAXF]; static int fkey[MAXF]; static int32_t il[MAXF][MAXT]; static FFile* ff[MAXF]; static int said[FM_MAXR];
static std::string outs[2]; static size_t outn;
static float rampFn(float p, float w) {  return p / (w + w); }
static float gain0(const float*, size_t n, float, size_t c) { return (float)(c + n); }
static std::shared_ptr<Rule> mkRule(int k) {
    if (k == 0) return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl, PIOL_META_tn});
    if (k == 1) return std::make_shared<Rule>(true, true);
    return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY, PIOL_META_il, PIOL_META_xl});
}
static void transform(float* t, size_t ns) { // the operations of the workflow on one trace
    if (ops == 1 || ops == 3) taper(ns, t, rampFn, 1, ns > 1 && sx_param("tail", 1));
    if (ops == 2 || ops == 3) AGC(ns, t, gain0, 2, 3.f);
    if (ops == 4) { AGC(ns, t, gain0, 2, 3.f); taper(ns, t, rampFn, 1, ns > 1 && sx_param("tail", 1)); }
}
static void setOps(Set& s, size_t) {
    auto tp = [&] { s.taper(rampFn, 1, sx_param("tail", 1)); }; auto ag = [&] { s.AGC(gain0, 2, 3.f); };
    if (ops == 1 || ops == 3) tp(); if (ops == 2 || ops == 3) ag(); if (ops == 4) { ag(); tp(); }
}
struct OpenSet : public Set { using Set::Set; using Set::outfix; };
static void run(int rank) {
    size_t hi = sx_param("hi", 3), lo = sx_param("lo", 0); int rule = sx_param("rule", 0), sort = sx_param("sort", 0), bits = sx_param("bits", 32), form = sx_param("form", 0), keys = sx_param("keys", 1), mem = sx_param("mem", 0);
    if (rank == 0) for (int f = 0; f < files; f++) {
        fkey[f] = keys > 1 ? sx_choose(keys, "key") : 0; fns[f] = fkey[f] == 1 ? 3 : 2; finc[f] = fkey[f] == 2 ? 2500 : 1000; static const char* NT[MAXF] = {"nt0", "nt1", "nt2"}; fnt[f] = sx_param(NT[f], 99); if (fnt[f] == 99) fnt[f] = lo + sx_choose(hi - lo + 1, "traces"); size_t ns = fns[f]; FFile* p = ff[f] = rawFile(NM[f], fnt[f], ns, 0, 5, finc[f]);
        for (size_t i = 0; i < fnt[f]; i++) { unsigned char* m = rawMD(p, i, ns);
            il[f][i] = bits == 32 ? (int32_t)sx_any<uint32_t>("il") : (int32_t)(sx_any<uint8_t>("il") & ((1 << bits) - 1)); for (size_t b = 0; b < MD; b++) m[b] = 0; put16(m + 70, 1); put32(m + 72, 100 * f + i); put32(m + 188, (uint32_t)il[f][i]); put32(m + 192, sort ? 16 * f + i : sx_any<uint32_t>("xl")); put32(m + 0, 50 * f + i + 1); put32(m + 4, 50 * f + i + 1); put32(m + 232, 0xabc000 + 50 * f + i);
            for (size_t k = 0; k < ns; k++) { uint32_t v = sx_any<uint32_t>("sample"); if (ops) sx_assume(((v >> 23) & 255) >= 60 && ((v >> 23) & 255) < 190); put32(m + MD + 4 * k, v); } }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD); std::vector<std::string> names;
    { auto r = mkRule(rule); OpenSet s(piol, r);
      for (int f = 0; f < files; f++) s.add(makeFile<ReadSEGY>(piol, NM[f]));
      if (form == 2) s.output("p"); // an earlier output
      if (sort == 2) s.sort(PIOL_SORTTYPE_SrcRcv); if (sort) s.sort(PIOL_SORTTYPE_LineROff);
      setOps(s, 0);
      if (sx_param("text", 1)) s.text("written by the workflow");
#ifdef EXSEISDAT_VERIF
      if (mem) exseisdat_verif_set_memory = mem * (40 + fsz(1, 3) - HO + 2 * r->paramMem() + 24) + 8;
#endif
      if (form == 1) { s.outfix = "o"; names.push_back("o.segy"); } else names = s.output("o"); }
    MPI_Barrier(MPI_COMM_WORLD); said[rank] = piol->log->isErr(); if (!sort) sx_assert(!said[rank], "no error is logged");
    MPI_Barrier(MPI_COMM_WORLD); if (rank != 0) return;
    bool refused = false; for (int q = 0; q < ranks; q++) refused |= said[q] != 0;
    int groups = 0; for (int k = 0; k < 3; k++) { bool any = false; for (int f = 0; f < files; f++) any |= fkey[f] == k; groups += any; }
    sx_assert((int)names.size() == groups, "one output for each combination of trace length and interval");
    for (size_t i = 0; i < names.size(); i++) for (size_t j = 0; j < i; j++) sx_assert(names[i] != names[j], "outputs have different names");
    if (refused) { bool few = false; for (int k = 0; k < 3; k++) { bool any = false; size_t least = 0; for (int f = 0; f < files; f++) if (fkey[f] == k) { any = true; least += fnt[f] / ranks; } few |= any && least < 3; } sx_assert(ranks > 1 && few, "only sets with less than three traces on some process are refused"); sx_cover("refused"); return; }
    for (int k = 0; k < 3; k++) {
        int first = -1; size_t N = 0; for (int f = 0; f < files; f++) if (fkey[f] == k) { if (first < 0) first = f; N += fnt[f]; } if (first < 0) continue; size_t ns = fns[first];
        FFile* o = nullptr; for (auto& n : names) { FFile* c = ff_file(n.c_str()); if (c->exists && c->size >= HO && get16(c->data + 3220) == ns && get16(c->data + 3216) == finc[first]) o = c; }
        sx_assert(o != nullptr, "the combination has its output file"); if (!o) return;
        sx_assert(o->size == fsz(N, ns), "the output holds exactly the input traces"); if (o->size != fsz(N, ns)) return;
        size_t of[MAXT * MAXF], oi[MAXT * MAXF], at = 0; for (int f = 0; f < files; f++) if (fkey[f] == k) for (size_t i = 0; i < fnt[f]; i++) { of[at] = f; oi[at++] = i; }
        if (sort) { // the input trace of each output trace, from its crossline
            bool seen[MAXT * MAXF] = {}; for (size_t i = 0; i < N; i++) { size_t x = sx_concretize(get32(rawMD(o, i, ns) + 192)), f = x / 16, j = x % 16; sx_assert(f < (size_t)files && j < fnt[f] && fkey[f] == k && !seen[x], "the output is a permutation of the input"); seen[x] = true; if (of[i] != f || oi[i] != j) sx_cover("moved"); of[i] = f; oi[i] = j; }
            for (size_t i = 1; i < N; i++) { int32_t a = il[of[i - 1]][oi[i - 1]], b = il[of[i]][oi[i]]; sx_assert(a <= b, "the output is in the requested order"); } sx_cover("sorted"); }
        for (size_t i = 0; i < N; i++) { unsigned char *m = rawMD(o, i, ns), *q = rawMD(ff[of[i]], oi[i], ns);
            sx_assert(get32(m + 188) == get32(q + 188) && get32(m + 192) == get32(q + 192), "line numbers go with their trace");
            if (rule == 0) sx_assert(get32(m + 4) == get32(q + 4) || get32(m) == get32(q), "trace numbers go with their trace"); if (rule == 1) { int sc = (int16_t)get16(m + 70); long v = (int32_t)get32(m + 72); sx_assert((sc > 0 ? v * sc : sc < 0 ? v / -sc : v) == (long)(100 * of[i] + oi[i]), "coordinates go with their trace"); }
            if (rule == 2) { bool same = true; for (size_t b = 196; b < MD; b++) same = same && m[b] == q[b]; sx_assert(same, "copied headers go with their trace"); }
            float want[3]; for (size_t z = 0; z < ns; z++) want[z] = b2f(get32(q + MD + 4 * z)); transform(want, ns);
            for (size_t z = 0; z < ns; z++) { uint32_t g = get32(m + MD + 4 * z); sx_assert(g == f2b(want[z]), "samples are those of the trace, transformed by the operations"); } }
        sx_cover("done"); if (N == 0) sx_cover("empty"); if (groups > 1) sx_cover("groups"); if (N && fnt[first] == 0) sx_cover("emptyfile");
    }
}
extern "C" void harness() { ranks = sx_param("ranks", 1); files = sx_param("files", 2); ops = sx_param("ops", 0); fm_run(ranks, run); }
