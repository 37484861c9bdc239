// P17 sort orders, P18 parallel sort, P19 order verification
#include "segy.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"
namespace exseis { namespace PIOL { std::vector<size_t> sort(ExSeisPIOL*, std::vector<size_t>); } }
using exseis::utils::Integer;
static const Meta CO[4] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv};
static std::shared_ptr<Rule> mkRule(int k) {
    auto r = std::make_shared<Rule>(true, true); r->addIndex(PIOL_META_gtn); r->addIndex(PIOL_META_ltn);
    if (k >= 1) { r->addShort(PIOL_META_Misc1, PIOL_TR_ScaleElev); }
    if (k >= 2) r->addCopy();
    return r;
}
struct Key { double c[4]; Integer il, xl, off; size_t ltn; };
static double osq(const Key& k) { return (k.c[0] - k.c[2]) * (k.c[0] - k.c[2]) + (k.c[1] - k.c[3]) * (k.c[1] - k.c[3]); }
static const SortType TYPES[9] = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_SrcROff, PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_RcvROff, PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_LineROff, PIOL_SORTTYPE_OffLine, PIOL_SORTTYPE_ROffLine};
// lexicographic order on the documented keys of each type, then the trace number
static bool before(int t, const Key& a, const Key& b) {
#define K(e1, e2) { auto x = e1; auto y = e2; if (x < y) return true; if (!(x == y)) return false; }
    if (t == 0) { for (int i = 0; i < 4; i++) K(a.c[i], b.c[i]); }
    else if (t == 1 || t == 2) { K(a.c[0], b.c[0]); K(a.c[1], b.c[1]); if (t == 1) K(osq(a), osq(b)) else K(a.off, b.off) }
    else if (t == 3 || t == 4) { K(a.c[2], b.c[2]); K(a.c[3], b.c[3]); if (t == 3) K(osq(a), osq(b)) else K(a.off, b.off) }
    else if (t == 5 || t == 6) { K(a.il, b.il); K(a.xl, b.xl); if (t == 5) K(osq(a), osq(b)) else K(a.off, b.off) }
    else { if (t == 7) K(osq(a), osq(b)) else K(a.off, b.off) K(a.il, b.il); K(a.xl, b.xl); }
    return a.ltn < b.ltn;
}
static void setKey(Param* p, size_t i, const Key& k) {
    for (int c = 0; c < 4; c++) param_utils::setPrm(i, CO[c], k.c[c], p);
    param_utils::setPrm(i, PIOL_META_il, k.il, p); param_utils::setPrm(i, PIOL_META_xl, k.xl, p); param_utils::setPrm(i, PIOL_META_Offset, k.off, p); param_utils::setPrm(i, PIOL_META_ltn, k.ltn, p);
}
// coordinates: mode 0 arbitrary finite doubles, 1 whole numbers of 8 bits (exact squares), equal coordinates made likely by sharing
static Key anyKey(int coord, const Key* other) {
    Key k; int b = sx_param("cbits", 4), axis = sx_param("axis", 2); // axis 0: only x varies, 1: only y, 2: both
    for (int c = 0; c < 4; c++) {
        if (coord == 0) { k.c[c] = sx_any<double>("coord"); sx_assume(k.c[c] == k.c[c]); }
        else if (axis == 2 || (c & 1) == axis) k.c[c] = (double)((int)(sx_any<uint8_t>("coord") & ((1 << b) - 1)) - (1 << (b - 1)));
        else k.c[c] = c < 2 ? 3 : -4.5; }
    k.il = (int32_t)sx_any<uint32_t>("il"); k.xl = (int32_t)sx_any<uint32_t>("xl"); k.off = (int32_t)sx_any<uint32_t>("off"); k.ltn = sx_any<uint32_t>("ltn"); (void)other; return k;
}
static void compare() {
    int t = sx_param("type", 0), exact = sx_param("exact", 0); Param p(mkRule(0), 3); Key k[2]; size_t at[2] = {sx_choose(3, "i"), 0}; at[1] = (at[0] + 1 + sx_choose(2, "j")) % 3;
    for (int i = 0; i < 2; i++) { k[i] = anyKey(exact, nullptr); setKey(&p, at[i], k[i]); }
    sx_assume(k[0].ltn != k[1].ltn);
    CompareP comp = getComp(TYPES[t]); bool ab = comp(&p, at[0], at[1]), ba = comp(&p, at[1], at[0]), w = before(t, k[0], k[1]);
    sx_assert(ab == w, "the order of the documented keys"); sx_assert(ba == before(t, k[1], k[0]), "the order of the documented keys, reversed"); sx_assert(ab != ba, "exactly one of two traces comes first"); sx_assert(!comp(&p, at[0], at[0]), "no trace comes before itself");
    sx_cover(w ? "first" : "second"); if (k[0].off < 0 && k[1].off > 0) sx_cover("signs");
}
// ---- P18
static int ranks; static const size_t MAXN = 20; static Key G[MAXN]; static size_t cnt[FM_MAXR], first[FM_MAXR + 1], N; static size_t outl[MAXN]; static size_t outg[MAXN]; static MPI_Comm sub;
static void par(int rank) {
    int t = sx_param("type", 6), rule = sx_param("rule", 2), form = sx_param("form", 0), idle = sx_param("idle", 0); size_t lo = sx_param("lo", 2), hi = sx_param("hi", 3);
    if (rank == 0) {
        N = 0; if (idle) sub = fm_subcomm(0, ranks - idle);
        for (int r = 0; r < ranks - idle; r++) { first[r] = N; cnt[r] = lo + (hi > lo ? sx_choose(hi - lo + 1, "count") : 0); N += cnt[r]; } first[ranks - idle] = N;
        int bits = sx_param("bits", 32);
        for (size_t i = 0; i < N; i++) { Key k; for (int c = 0; c < 4; c++) k.c[c] = 1000. * c + i; k.il = sx_param("il", 1) ? (Integer)(int32_t)(bits == 32 ? sx_any<uint32_t>("il") : (sx_any<uint8_t>("il") & ((1u << bits) - 1))) : 7; k.xl = sx_param("xl", 0) ? (Integer)(int32_t)sx_any<uint32_t>("xl") : 9; k.off = sx_param("off", 0) ? (Integer)(int32_t)sx_any<uint32_t>("off") : -(Integer)i; k.ltn = i; G[i] = k; }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank >= ranks - idle) { sx_cover("idle"); return; }
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, idle ? sub : MPI_COMM_WORLD); size_t n = cnt[rank], f = first[rank]; size_t least = MAXN; for (int r = 0; r < ranks - idle; r++) if (cnt[r] < least) least = cnt[r];
    bool tiny = ranks - idle > 1 && least < 2;
    if (form == 2) { // a plain list
        std::vector<size_t> l(n); for (size_t i = 0; i < n; i++) l[i] = (size_t)(uint64_t)G[f + i].il; // sorted by value: arbitrary numbers, ties by position
        auto o = exseis::PIOL::sort(piol.get(), l); sx_assert(o.size() == n, "a list of the same length"); for (size_t i = 0; i < n; i++) outl[f + i] = o[i];
        MPI_Barrier(idle ? sub : MPI_COMM_WORLD);
        if (rank == 0) { unsigned seen = 0; for (size_t i = 0; i < N; i++) { size_t v = sx_concretize(outl[i]); sx_assert(v < N && !(seen >> v & 1), "the list is a permutation"); seen |= 1u << v; outl[i] = v; }
            for (size_t i = 1; i < N; i++) { uint64_t a = G[outl[i - 1]].il, b = G[outl[i]].il; bool ok = a < b || (a == b && outl[i - 1] < outl[i]); if (tiny) sx_assert(ok, "few: a list spread with less than two entries on some process is sorted"); else sx_assert(ok, "the list is sorted over all processes"); } sx_cover("list"); }
        return; }
    Param p(mkRule(rule), n);
    for (size_t i = 0; i < n; i++) { setKey(&p, i, G[f + i]); param_utils::setPrm(i, PIOL_META_gtn, f + i, &p); if (rule >= 1) param_utils::setPrm(i, PIOL_META_Misc1, (int16_t)(500 + f + i), &p); if (rule >= 2) for (size_t b = 0; b < MD; b++) p.c[i * MD + b] = (f + i) * 3 + b; }
    auto l = form == 1 ? sort(piol.get(), &p, getComp(TYPES[t]), false) : sort(piol.get(), TYPES[t], &p);
    sx_assert(l.size() == n && p.size() == n, "each process keeps its number of traces"); sx_assert(!piol->log->isErr(), "no error is logged");
    for (size_t i = 0; i < n; i++) {
        size_t g = sx_concretize(param_utils::getPrm<size_t>(i, PIOL_META_gtn, &p)); sx_assert(g < N, "a trace number of the input"); outg[f + i] = g; outl[f + i] = l[i]; const Key& k = G[g];
        bool same = param_utils::getPrm<Integer>(i, PIOL_META_il, &p) == k.il && param_utils::getPrm<Integer>(i, PIOL_META_xl, &p) == k.xl && param_utils::getPrm<Integer>(i, PIOL_META_Offset, &p) == k.off && param_utils::getPrm<size_t>(i, PIOL_META_ltn, &p) == k.ltn;
        for (int c = 0; c < 4; c++) same = same && param_utils::getPrm<double>(i, CO[c], &p) == k.c[c];
        sx_assert(same, "parameters move with their trace");
        if (rule >= 1) sx_assert(param_utils::getPrm<int16_t>(i, PIOL_META_Misc1, &p) == (int16_t)(500 + g), "short parameters move with their trace");
        if (rule >= 2) { bool c = true; for (size_t b = 0; b < MD; b++) c = c && p.c[i * MD + b] == (unsigned char)(g * 3 + b); sx_assert(c, "the copied header moves with its trace"); }
    }
    MPI_Barrier(idle ? sub : MPI_COMM_WORLD);
    if (rank == 0) {
        unsigned seen = 0; for (size_t i = 0; i < N; i++) { sx_assert(!(seen >> outg[i] & 1), "every trace appears once"); seen |= 1u << outg[i]; }
        bool ok = true; for (size_t i = 1; i < N; i++) ok = ok && before(t, G[outg[i - 1]], G[outg[i]]);
        if (tiny) sx_assert(ok, "few: parameters spread with less than two traces on some process are sorted"); else sx_assert(ok, "the traces are sorted over all processes");
        bool lo = true; for (size_t i = 0; i < N; i++) lo = lo && (form == 1 ? outl[i] == outg[i] : outl[outg[i]] == i);
        if (tiny) sx_assert(lo, "few: the list returned for less than two traces on some process describes the new order"); else sx_assert(lo, "the list returned describes the new order");
        sx_cover("done"); if (N >= 2 && outg[0] != 0) sx_cover("moved"); if (ranks - idle > 1 && N && outg[0] == N - 1) sx_cover("far");
    }
}
// ---- P19: files with arbitrary keys, checked by range and by the verification tool
static Key FK[MAXN];
static void mkOrdFile(size_t nt, size_t ns) {
    FFile* f = rawFile("t.segy", nt, ns); int t = sx_param("type", 6), bits = sx_param("bits", 32);
    auto any = [&](const char* n, bool on, int d) -> int32_t { return !on ? d : bits == 32 ? (int32_t)sx_any<uint32_t>(n) : bits > 8 ? (int32_t)(sx_any<uint16_t>(n) & ((1u << bits) - 1)) - (1 << (bits - 1)) : (int32_t)(sx_any<uint8_t>(n) & ((1u << bits) - 1)) - (1 << (bits - 1)); };
    int v = sx_param("vary", 1); // which keys vary: 1 il, 2 xl, 4 offset, 8 source x, 16 source y, 32 receiver x, 64 receiver y
    for (size_t i = 0; i < nt; i++) {
        unsigned char* h = rawMD(f, i, ns); put16(h + 70, 1); Key& k = FK[i];
        k.il = any("il", v & 1, 7); k.xl = any("xl", v & 2, 9); k.off = any("off", v & 4, -5); int at[4] = {72, 76, 80, 84}; for (int c = 0; c < 4; c++) { int32_t x = any("coord", v & (8 << c), 10 + c); k.c[c] = x; put32(h + at[c], x); }
        k.ltn = i; put32(h + 188, (uint32_t)k.il); put32(h + 192, (uint32_t)k.xl); put32(h + 36, (uint32_t)k.off);
    }
    (void)t;
}
static bool ordered(size_t from, size_t n) { int t = sx_param("type", 6); for (size_t i = 1; i < n; i++) if (!before(t, FK[from + i - 1], FK[from + i])) return false; return true; }
static void range(int) {
    size_t nt = sx_param("nt", 4); mkOrdFile(nt, 1); auto piol = ExSeis::New(PIOL_VERBOSITY_NONE); ReadDirect r(piol, "t.segy");
    size_t from = sx_choose(nt, "from"), n = sx_choose(nt - from + 1, "n"); auto d = exseis::utils::block_decomposition(nt, 1, 0); d.global_offset = from; d.local_size = n;
    bool ok = checkOrder(r, d, TYPES[sx_param("type", 6)]), w = ordered(from, n);
    sx_assert(ok == w, "a range passes exactly when no adjacent pair is out of order"); sx_cover(w ? "ordered" : "unordered"); if (n < 2) sx_cover("short");
}
static int said[FM_MAXR][2];
struct Say { template <class T> Say& operator<<(const T& v) { note(v); return *this; } Say& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } template <class T> void note(const T&) {} void note(const char* s) { note(std::string(s)); } void note(const std::string& s) { if (s.find("Success") != std::string::npos) said[fm_rank()][0]++; if (s.find("Failure") != std::string::npos) said[fm_rank()][1]++; } };
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <numeric>
#include <unistd.h>
static Say say; static int gat[FM_MAXR]; static char* gargs[FM_MAXR];
#define cout cout_(), ::say
#define cerr cerr_(), ::say
namespace std { inline void cout_() {} inline void cerr_() {} }
static int gopt_(int argc, char* const* argv, const char*) { int& a = gat[fm_rank()]; if (a >= argc) return -1; int c = argv[a][1]; gargs[fm_rank()] = argv[a + 1]; a += 2; return c; }
#define getopt gopt_
#define optarg (gargs[fm_rank()])
#define main verify_main
#include "verifysort.cc"
#undef main
#undef getopt
#undef optarg
#undef cout
#undef cerr
static size_t VN;
static void tool(int rank) {
    static char tname[3] = {0, 0, 0}, sw[] = "-t", in[] = "-i", fn[] = "t.segy", me[] = "verifysort";
    if (rank == 0) { size_t lo = sx_param("lo", 0), hi = sx_param("nt", 4); VN = lo + sx_choose(hi - lo + 1, "nt"); mkOrdFile(VN, 1); tname[0] = '0' + (int)TYPES[sx_param("type", 6)] / 10; tname[1] = '0' + (int)TYPES[sx_param("type", 6)] % 10; } MPI_Barrier(MPI_COMM_WORLD);
    char* argv[] = {me, in, fn, sw, tname, nullptr}; gat[rank] = 1; verify_main(5, argv); MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0) { bool w = ordered(0, VN), fail = false, succ = false; for (int r = 0; r < ranks; r++) { fail |= said[r][1] > 0; succ |= said[r][0] > 0; }
        sx_assert(fail == !w, "the tool reports a failure exactly when some adjacent pair of the file is out of order"); sx_assert(fail || succ, "the tool reports success when every process finds its traces ordered"); sx_cover(w ? "ordered" : "unordered"); if (VN < (size_t)ranks) sx_cover("few");
        for (size_t i = 1; i < VN; i++) { bool split = false; size_t at = 0; for (int r = 0; r < ranks; r++) { at += VN / ranks + (r < (int)(VN % ranks)); split |= at == i; } if (split && !before(sx_param("type", 6), FK[i - 1], FK[i])) sx_cover("split"); } }
}
extern "C" void harness() {
    ranks = sx_param("ranks", 1);
    switch (sx_param("mode", 0)) { case 0: compare(); break; case 1: fm_run(ranks, par); break; case 2: fm_run(1, range); break; case 3: fm_run(ranks, tool); break; }
}
