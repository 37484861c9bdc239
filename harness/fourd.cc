// P28 4D binning
#include "segy.hh"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <assert.h>
#include <math.h>
struct Say { template <class T> Say& operator<<(const T&) { return *this; } Say& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
static Say say;
#define cout cout_(), ::say
namespace std { inline void cout_() {} }
#include "4dcore.cc"
#undef cout
namespace exseis { namespace PIOL { void cmsg(ExSeisPIOL* piol, std::string) { piol->comm->barrier(); } } }
using namespace exseis::PIOL::FOURD;
static int ranks; static const size_t MAXN = 12;
struct T { int32_t c[4]; int32_t il, xl; size_t tn; }; // xSrc ySrc xRcv yRcv
static T A[MAXN], B[MAXN]; static size_t n1, n2, of1[FM_MAXR + 1], of2[FM_MAXR + 1];
static int gcd_;
static void fill(T* t, size_t* of, size_t& n, int which) {
    size_t lo = sx_param(which ? "lo2" : "lo1", 1), hi = sx_param(which ? "hi2" : "hi1", 2); int bits = sx_param("bits", 3), axis = sx_param("axis", 0), rcv = sx_param("rcv", 1), ix = sx_param("ixline", 0);
    n = 0; for (int r = 0; r < ranks; r++) { of[r] = n; n += lo + sx_choose(hi - lo + 1, which ? "traces of the second survey" : "traces of the first survey"); } of[ranks] = n;
    auto any = [&](const char* nm, bool on, int d) -> int32_t { return on ? (int32_t)(sx_any<uint8_t>(nm) & ((1u << bits) - 1)) : d; };
    for (size_t i = 0; i < n; i++) { // axis 0: all along x, axis 1: all along y
        t[i].c[0] = any("source x", axis == 0, 3); t[i].c[1] = any("source y", axis == 1, 2); t[i].c[2] = any("receiver x", axis == 0 && rcv, 3); t[i].c[3] = any("receiver y", axis == 1 && rcv, 2);
        t[i].il = ix ? any("il", true, 0) & 1 : 4; t[i].xl = ix > 1 ? any("xl", true, 0) & 1 : 5; t[i].tn = (which ? 100 : 200) + i; }
    for (int r = 0; r < ranks; r++) for (size_t i = of[r] + 1; i < of[r + 1]; i++) sx_assume(t[i - 1].c[0] <= t[i].c[0]); // each process holds its traces by source x
}
static int32_t ab(int32_t v) { return v < 0 ? -v : v; }
static int32_t dist(const T& a, const T& b) { // coordinates differ along one axis only
    auto leg = [&](int p, int q) { return ab(a.c[p] - b.c[q]) + ab(a.c[p + 1] - b.c[q + 1]); };
    int32_t f = leg(0, 0) + leg(2, 2), r = leg(0, 2) + leg(2, 0); return f < r ? f : r;
}
static std::unique_ptr<Coords> mk(const T* t, size_t n, bool ix) {
    auto c = std::make_unique<Coords>(n, ix); for (size_t i = 0; i < n; i++) { c->xSrc[i] = t[i].c[0]; c->ySrc[i] = t[i].c[1]; c->xRcv[i] = t[i].c[2]; c->yRcv[i] = t[i].c[3]; c->tn[i] = t[i].tn; if (ix) { c->il[i] = t[i].il; c->xl[i] = t[i].xl; } } return c;
}
static void run(int rank) {
    if (rank == 0) { fill(A, of1, n1, 0); fill(B, of2, n2, 1); } MPI_Barrier(MPI_COMM_WORLD);
    int lim = sx_param("limit", 2); bool ix = sx_param("ixline", 0); auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD); size_t f = of1[rank], n = of1[rank + 1] - f, g = of2[rank], m = of2[rank + 1] - g;
    auto c1 = mk(A + f, n, ix), c2 = mk(B + g, m, ix); std::vector<size_t> min(n); std::vector<fourd_t> minrs(n); FourDOpt opt; opt.ixline = ix;
    calc4DBin(piol.get(), (fourd_t)lim, c1.get(), c2.get(), opt, min, minrs);
    sx_assert(min.size() == n && minrs.size() == n, "one result for each trace");
    for (size_t i = 0; i < n; i++) {
        bool some = false, known = false, same = false, exact = false, remote = false, last = false, rev = false; float got = minrs[i]; bool hit = got <= (fourd_t)lim; int32_t best = 1 << 20;
        for (size_t j = 0; j < n2; j++) {
            bool line = !ix || ((A[f + i].il == B[j].il) & (A[f + i].xl == B[j].xl)); int32_t d = dist(A[f + i], B[j]); bool me = min[i] == B[j].tn;
            some = some | (line & (d <= lim)); known = known | me; same = same | (me & line); exact = exact | (me & (got == (fourd_t)d)); best = line & (d < best) ? d : best;
            remote = remote | (me & !(j >= g && j < g + m)); last = last | (me & (m > 1 && j + 1 == g + m)); rev = rev | (me & (ab(A[f + i].c[0] - B[j].c[0]) > lim)); }
        sx_assert(!some | hit, "a trace with a match within the limit keeps it");
        sx_assert(!hit | known, "the match is a trace of the second survey"); sx_assert(!hit | same, "the match is on the same line"); sx_assert(!hit | exact, "the distance is that of the match"); sx_assert(!hit | (got == (fourd_t)best), "no other trace is nearer");
        sx_cover_if(!hit, "none"); sx_cover_if(hit, "match"); sx_cover_if(hit & remote, "remote"); sx_cover_if(hit & last, "last"); sx_cover_if(hit & rev, "reversed");
    }
    if (n && !m) sx_cover("nocandidates"); if (!n && m) sx_cover("idle"); sx_cover("done");
}
extern "C" void harness() { ranks = sx_param("ranks", 1); fm_run(ranks, run); }
