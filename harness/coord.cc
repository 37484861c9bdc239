// P06: coordinates stored in a trace header and read back through the file interface
#include "segy.hh"
typedef long long ll;
static const Meta M[6] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp};
static const int AT[6] = {72, 76, 80, 84, 180, 184};
static void store(double* v, int n, int first, double* back, int32_t* raw, int& scal) {
    auto piol = ExSeis::New();
    std::shared_ptr<Rule> r = n == 6 ? std::make_shared<Rule>(true, true) : n == 1 ? std::make_shared<Rule>(std::initializer_list<Meta>{M[first]}) : n == 2 ? std::make_shared<Rule>(std::initializer_list<Meta>{M[first], M[first + 1]}) : std::make_shared<Rule>(std::initializer_list<Meta>{M[first], M[first + 1], M[first + 2]});
    size_t sk = 0, form = 0; if (sx_param("forms", 0)) { sk = sx_choose(3, "skip"); form = sx_choose(4, "form"); }
    Param p(r, 2 + sk); for (int i = 0; i < n; i++) { for (size_t q = 0; q < sk; q++) param_utils::setPrm(q, M[first + i], q ? 3e9 : 2.5, &p); param_utils::setPrm(sk, M[first + i], 7. + i, &p); param_utils::setPrm(sk + 1, M[first + i], v[i], &p); }
    { WriteDirect f(piol, "c.segy"); f.writeNs(1); f.writeNt(2); f.writeInc(0.004); WriteInterface& w = f; float t[2] = {1, 2}; size_t l[2] = {0, 1};
      if (form == 0) w.writeParam(0, 2, &p, sk); if (form == 1) w.writeTrace(0, 2, t, &p, sk); if (form == 2) w.writeParamNonContiguous(2, l, &p, sk); if (form == 3) w.writeTraceNonContiguous(2, l, t, &p, sk); }
    FFile* o = ff_file("c.segy"); unsigned char* h = rawMD(o, 1, 1); scal = (int16_t)sx_concretize(get16(h + 70)); if (scal > 32767) scal -= 65536;
    for (int i = 0; i < n; i++) raw[i] = (int32_t)get32(h + AT[first + i]);
    sx_assert((int16_t)get16(rawMD(o, 0, 1) + 70) == 1 && get32(rawMD(o, 0, 1) + AT[first]) == 7, "the neighbouring trace keeps its own scale and coordinates");
    ReadDirect in(piol, "c.segy"); Param q(r, 2); if (form == 1) { float t[2]; in.readTrace(0, 2, t, &q); } else in.readParam(0, 2, &q); for (int i = 0; i < n; i++) back[i] = param_utils::getPrm<double>(1, M[first + i], &q);
    sx_assert(!piol->log->isErr(), "no error is logged");
}
// decimal digits kept by a scale factor: 4 for -10000 ... -4 for 10000
static int digitsOf(int s) { switch (s) { case -10000: return 4; case -1000: return 3; case -100: return 2; case -10: return 1; case 0: case 1: case -1: return 0; case 10: return -1; case 100: return -2; case 1000: return -3; case 10000: return -4; } sx_fail("the scale factor is a power of ten the format allows"); return 0; }
static ll p10(int k) { ll r = 1; while (k-- > 0) r *= 10; return r; }
// sets of whole numbers
static void whole(int) {
    int n = sx_param("n", 2), first = sx_param("first", 0); double v[6], b[6]; int32_t raw[6], x[6]; int s;
    for (int i = 0; i < n; i++) { x[i] = (int32_t)sx_any<uint32_t>("v"); v[i] = x[i]; }
    store(v, n, first, b, raw, s); int e = digitsOf(s);
    sx_assert(e == 0, "whole numbers that fit their fields are stored unscaled"); for (int i = 0; i < n; i++) { sx_assert(raw[i] == x[i], "whole numbers that fit their fields are stored as they are"); sx_assert(b[i] == v[i], "whole numbers that fit their fields are read back exactly"); }
    sx_observe("raw", (uint32_t)raw[0]); sx_cover("done");
}
// decimal numbers k / 10^d in windows
struct W { ll base; int d; };
static const W T[] = {
    {0, 4}, {1230, 1}, {-4567890, 3}, {123456789, 2}, {2147483640LL, 4}, {2147483640LL, 3}, {-2147483656LL, 2}, {2147483640LL, 1}, {21474836470LL, 1}, {-21474836490LL, 1},  // 0..9
    {5000000000LL, 4}, {-5000000000LL, 3}, {9999990, 6}, {-4999990, 6}, {21474836400LL, 0}, {-214748364790LL, 0}, {2147483647990LL, 0}, {21474836470000LL - 40, 0}, {500000, 0}, {2147483640LL, 0}, {-2147483680LL, 0}, {214748364790LL, 2}, {2147483647996LL, 3}, {21474836479990LL, 4}};
static const int NW = sizeof T / sizeof *T;
static void decimals(int) {
    int n = sx_param("n", 1), first = sx_param("first", 0), bits = sx_param("bits", 6); double v[6], b[6]; int32_t raw[6]; int s; ll K[6]; int D[6];
    const ll IMAX = 2147483647; int lo = 4; // the decimals all values can certainly keep (at most four, negative: digits before the point lost)
    for (int i = 0; i < n; i++) {
        int w = sx_param(i == 0 ? "w0" : i == 1 ? "w1" : "w2", 99); if (w == 99) w = sx_choose(NW, "window");
        ll k = K[i] = T[w].base + (ll)(sx_any<uint8_t>("k") & ((1 << bits) - 1)); int d = D[i] = T[w].d; v[i] = d ? (double)k / (double)p10(d) : (double)k; ll hi = k < 0 ? -k : k;
        for (;; lo--) { if (lo < -4) sx_stop(); int q = lo - d; if (q >= 0 ? hi < IMAX / p10(q) : hi <= IMAX * p10(-q) + p10(-q) / 2 - 1) break; }
        sx_observe("k", k);
    }
    store(v, n, first, b, raw, s); int e = digitsOf(s);
    for (int i = 0; i < n; i++) {
        int u = (e > D[i] ? e : D[i]); if (lo > u) u = lo; u++; // compare in units of 10^-u
        ll x = K[i] * p10(u - D[i]), y = (ll)raw[i] * p10(u - e), ax = x < 0 ? -x : x, err = x < y ? y - x : x - y, slack = ax >> 50;
        sx_assert(err <= p10(u - lo) / 2 + slack, "a stored coordinate is within half a unit of the last digit that fits");
        sx_assert(err <= p10(u - e) / 2 + slack, "a stored coordinate is the nearest multiple of the scale factor");
        sx_observe("raw", (uint32_t)raw[i]);
        if (sx_param("back", 1)) { double m = e >= 0 ? (double)raw[i] / p10(e) : (double)raw[i] * p10(-e); sx_assert(b[i] == m || b[i] == (1. / p10(e < 0 ? 0 : e)) * (double)raw[i] || (b[i] - m <= 1e-14 * std::fabs(m) && m - b[i] <= 1e-14 * std::fabs(m)), "a coordinate read back is the stored one times the scale factor"); }
    }
    if (e > 0) sx_cover("fraction"); if (e < 0) sx_cover("large"); sx_cover("done");
}
extern "C" void harness() { if (sx_param("mode", 0) == 0) fm_run(1, whole); else fm_run(1, decimals); }
