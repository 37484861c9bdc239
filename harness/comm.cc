// P16 block decomposition, P30 process-group operations, P22 distributed vector, P21 gathers
#include "segy.hh"
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
using namespace exseis::utils;
static int ranks;
// ---- P16
static void decomp() {
    size_t bits = sx_param("bits", 8), fixed = sx_param("ranks", 0); uint64_t n = sx_any<uint64_t>("n"), p, r = sx_any<uint64_t>("r"), i = sx_any<uint64_t>("i"); if (bits > 63) bits = 63; sx_assume(n < (1ull << bits));
    if (fixed) p = fixed; else { p = sx_any<uint64_t>("p"); sx_assume(p >= 1 && p < (1ull << sx_param("pbits", 8))); }
    if (sx_param("win", 0)) { // windows around large values
        static const uint64_t bases[] = {65400, 0x7fffff80ull, 0xffffff80ull, 0x17fffff80ull, 1ull << 40, 0x7fffffffffffff80ull}, ps[] = {2, 3, 7, 16, 1000, 65537}; size_t b = sx_choose(6, "base"); p = ps[sx_choose(6, "procs")];
        n = bases[b] + sx_any<uint8_t>("nw"); uint64_t ks[] = {0, 1, p / 2, p - 1}; size_t k = sx_choose(4, "block"); r = ks[k]; i = bases[b] / p * ks[k] + sx_any<uint8_t>("iw"); }
    sx_assume(r < p);
    switch (sx_choose(3, "what")) {
        case 0: { auto a = block_decomposition(n, p, r); auto c = exseis_block_decomposition(n, p, r); sx_assert(a.global_offset == c.global_offset && a.local_size == c.local_size, "the C function agrees");
            if (r == 0) sx_assert(a.global_offset == 0, "the first block starts at the first item");
            if (r + 1 == p) sx_assert(a.global_offset + a.local_size == n, "the last block ends at the last item"); else { auto b = block_decomposition(n, p, r + 1); sx_assert(b.global_offset == a.global_offset + a.local_size, "each block starts where the one before ends"); sx_cover("next"); }
            break; }
        case 1: { uint64_t q = sx_any<uint64_t>("q"); if (sx_param("win", 0)) { uint64_t ks[] = {0, 1, p / 2, p - 1}; q = ks[sx_choose(4, "other")]; } sx_assume(q < p); auto a = block_decomposition(n, p, r), b = block_decomposition(n, p, q); sx_assert(a.local_size <= b.local_size + 1, "sizes differ by at most one"); sx_assert(a.local_size <= n && a.global_offset <= n, "blocks lie within the range"); sx_cover("sizes"); break; }
        case 2: { sx_assume(i < n); auto l = block_decomposition_location(n, p, i); sx_assert(l.rank < p, "the owner exists"); auto a = block_decomposition(n, p, l.rank); sx_assert(l.local_index < a.local_size, "the local index lies within the block of the owner"); sx_assert(a.global_offset + l.local_index == i, "the location is that of the item"); sx_cover("location"); break; }
    }
}
// ---- P30
template <class T> static void gatherT(CommunicatorMPI* c, int me, int n, const char* name, T* all) {
    static T v[FM_MAXR][2]; int base = fm_rank() - me; T* mine = v[fm_rank()]; mine[0] = sx_any<T>(name); mine[1] = sx_any<T>(name); c->barrier();
    auto one = c->gather(std::vector<T>{mine[0]}); sx_assert(one.size() == (size_t)n, "one value per process"); for (int r = 0; r < n; r++) sx_assert(memcmp(&one[r], &v[base + r][0], sizeof(T)) == 0, "the value of each process is at its rank");
    auto two = c->gather(std::vector<T>{mine[0], mine[1]}); sx_assert(two.size() == 2u * n, "two values per process"); for (int r = 0; r < n; r++) sx_assert(memcmp(&two[2 * r], &v[base + r][0], 2 * sizeof(T)) == 0, "the values of each process are at its rank"); (void)all;
}
static void group(int rank) {
    int first = 0, n = ranks; static MPI_Comm sub[2]; int split = sx_param("split", 0); MPI_Comm cm = MPI_COMM_WORLD;
    if (split) { if (rank == 0) { sub[0] = fm_subcomm(0, split); sub[1] = fm_subcomm(split, ranks - split); } MPI_Barrier(MPI_COMM_WORLD); int g = rank >= split; cm = sub[g]; first = g ? split : 0; n = g ? ranks - split : split; }
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, cm); auto c = piol->comm.get(); int me = rank - first;
    sx_assert(c->getRank() == (size_t)me && c->getNumRank() == (size_t)n && piol->getRank() == (size_t)me && piol->getNumRank() == (size_t)n, "rank and size within the group");
    static uint64_t v[FM_MAXR]; v[rank] = sx_any<uint64_t>("v"); c->barrier();
    uint64_t s = 0, mx = 0, mn = ~0ull, off = 0; for (int r = 0; r < n; r++) { uint64_t x = v[first + r]; if (r == me) off = s; s += x; mx = x > mx ? x : mx; mn = x < mn ? x : mn; }
    if (split && sx_param("idle", 0) && first == 0) { sx_cover("idle"); return; } // the other group does nothing more
    sx_assert(c->sum(v[rank]) == s, "the sum over the group"); sx_assert(c->max(v[rank]) == mx, "the maximum over the group"); sx_assert(c->min(v[rank]) == mn, "the minimum over the group"); sx_assert(c->offset(v[rank]) == off, "the running offset is the sum over lower ranks"); sx_assert(piol->max(v[rank]) == mx, "the maximum over the group");
    gatherT<size_t>(c, me, n, "size", nullptr); gatherT<Integer>(c, me, n, "int", nullptr); gatherT<float>(c, me, n, "float", nullptr); gatherT<double>(c, me, n, "double", nullptr);
    sx_assert(c->gather(std::vector<size_t>()).empty(), "gathering nothing gives nothing"); sx_assert(!piol->log->isErr(), "no error is logged"); piol->barrier(); sx_observe("sum", s); sx_cover("done");
}
// ---- P22
struct Trip { uint64_t a; int32_t b; unsigned char c[5]; bool operator==(const Trip& o) const { return a == o.a && b == o.b && memcmp(c, o.c, 5) == 0; } };
template <class T> static T fresh() { T t; memset(&t, 0, sizeof t); sx_sym_(&t, sizeof t, "value"); return t; }
template <> Trip fresh<Trip>() { Trip t; memset(&t, 0, sizeof t); sx_sym_(&t.a, 8, "value"); sx_sym_(&t.b, 4, "value"); sx_sym_(t.c, 5, "value"); return t; }
template <class T> static bool eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <> bool eq<Trip>(const Trip& a, const Trip& b) { return a == b; }
template <class T> static void vec(int rank) {
    static T val[8]; static size_t n; static int writer[8]; size_t maxn = sx_param("n", 4);
    if (rank == 0) { n = sx_choose(maxn + 1, "n"); for (size_t i = 0; i < n; i++) { val[i] = fresh<T>(); writer[i] = sx_choose(ranks, "writer"); } }
    MPI_Barrier(MPI_COMM_WORLD);
    { MPI_Distributed_vector<T> d(n, MPI_COMM_WORLD); sx_assert(d.size() == n, "the size asked for");
      for (size_t i = 0; i < n; i++) if (writer[i] == rank) d.set(i, val[i]); // concurrent writes of different elements
      MPI_Barrier(MPI_COMM_WORLD);
      for (size_t i = 0; i < n; i++) { sx_assert(eq(d.get(i), val[i]), "each process reads the last value written"); sx_assert(eq(d[i], val[i]), "indexing is reading"); }
      MPI_Barrier(MPI_COMM_WORLD); static size_t k; static int w; if (rank == 0 && n) { k = sx_choose(n, "again"); w = sx_choose(ranks, "by"); val[k] = fresh<T>(); } MPI_Barrier(MPI_COMM_WORLD);
      if (n) { if (rank == w) { T o = fresh<T>(); d.set(k, o); d.set(k, val[k]); } MPI_Barrier(MPI_COMM_WORLD); for (size_t i = 0; i < n; i++) sx_assert(eq(d.get(i), val[i]), "a later write replaces one element only"); sx_cover("again"); }
      if (rank == 0) d.set(n, fresh<T>()); MPI_Barrier(MPI_COMM_WORLD); (void)d.get(n); // beyond the end: no effect
      MPI_Distributed_vector<T> m(std::move(d)); for (size_t i = 0; i < n; i++) sx_assert(eq(m.get(i), val[i]), "a moved vector keeps its elements");
      MPI_Barrier(MPI_COMM_WORLD); }
    if (n == 0) sx_cover("none"); if (rank == 0) sx_observe("n", n);
}
// ---- P21
static void gathers(int rank) {
    static size_t nt; static int32_t il[8], xl[8]; size_t NS = 1, lo = sx_param("lo", 0), hi = sx_param("hi", 4); static struct { uint64_t n; int32_t il, xl; } want[8]; static size_t runs;
    if (rank == 0) {
        nt = lo + sx_choose(hi - lo + 1, "nt"); FFile* f = rawFile("in.segy", nt, NS);
        for (size_t i = 0; i < nt; i++) { unsigned char* h = rawMD(f, i, NS); put16(h + 68, 1); put16(h + 70, 1); il[i] = sx_any<int32_t>("il"); xl[i] = sx_param("xl", 1) ? sx_any<int32_t>("xl") : 7; put32(h + 188, il[i]); put32(h + 192, xl[i]); }
        runs = 0; for (size_t i = 0; i < nt; i++) { if (i && il[i] == il[i - 1] && xl[i] == xl[i - 1]) want[runs - 1].n++; else { want[runs] = {1, il[i], xl[i]}; runs++; } }
    }
    auto piol = ExSeis::New(); piol->comm->barrier();
    { auto d = std::make_shared<DataMPIIO>(piol, "in.segy", DataMPIIO::Opt(), FileMode::Read); auto b = std::make_shared<ObjectSEGY>(piol, "in.segy", ObjectSEGY::Opt(), d, FileMode::Read); ReadSEGY f(piol, "in.segy", ReadSEGY::Opt(), b);
      auto g = getIlXlGathers(piol.get(), &f); sx_assert(g.size() == runs, "one gather per maximal run");
      for (size_t i = 0; i < runs; i++) { Gather_info x = g[i]; sx_assert(x.num_traces == want[i].n, "the number of traces in the gather"); sx_assert(x.inline_ == want[i].il && x.crossline == want[i].xl, "the lines of the gather"); }
      piol->comm->barrier(); }
    if (nt == 0) sx_cover("none"); if (runs > 1) sx_cover("several"); if (runs == 1 && nt > 1) sx_cover("one"); if (rank == 0) sx_observe("runs", runs);
    sx_assert(!piol->log->isErr(), "no error is logged");
}
extern "C" void harness() {
    ranks = sx_param("ranks", 1); fm_sched_budget = sx_param("sched", 0); 
    switch (sx_param("mode", 0)) {
        case 0: decomp(); break; case 1: fm_run(ranks, group); break;
        case 2: switch (sx_param("type", 0)) { case 0: fm_run(ranks, vec<Trip>); break; case 1: fm_run(ranks, vec<double>); break; case 2: fm_run(ranks, vec<unsigned char>); break; case 3: fm_run(ranks, vec<int>); break; case 4: fm_run(ranks, vec<Gather_info>); break; } break;
        case 3: fm_run(ranks, gathers); break;
    }
}
