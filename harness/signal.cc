// P25 tapers, P26 automatic gain control, P27 temporal filtering
#include "segy.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include <fftw3.h>
#include <cmath>
using namespace exseis::utils;
static const size_t MAXS = 40, GUARD = 2;
// the trace lies between guard samples of neighbouring traces; the block is exactly that long
static float* buf; static uint32_t in[MAXS + 2 * GUARD];
static float* trace(size_t n) { buf = (float*)malloc(4 * (n + 2 * GUARD)); return buf + GUARD; }
static void guards(size_t n) { for (size_t i = 0; i < GUARD; i++) sx_assert(f2b(buf[i]) == in[i] && f2b(buf[GUARD + n + i]) == in[GUARD + n + i], "neighbouring traces are unchanged"); }
static float anySample(int kind, const char* name) {
    if (kind == 1) return (float)((int)(sx_any<uint8_t>(name) & 15) - 8);
    uint32_t b = sx_any<uint32_t>(name); if (kind == 2) { uint32_t e = (b >> 23) & 255; sx_assume((b & 0x7fffffff) == 0 || (e >= 60 && e < 255)); } return b2f(b);
}
static void fill(size_t n, int kind, size_t zeros = 0) { for (size_t i = 0; i < n + 2 * GUARD; i++) { buf[i] = i >= GUARD && i < GUARD + zeros ? 0.f : anySample(i < GUARD || i >= GUARD + n ? 0 : kind, "sample"); in[i] = f2b(buf[i]); } }
// ---- P25
static float weightOf(size_t p, size_t w) { return b2f((127 - (uint32_t)(p + 2 * w)) << 23); } // a power of two for each position and width
static size_t badCalls;
static float myTaper(float p, float w) { size_t wi = sx_concretize((uint64_t)w), pi = sx_concretize((uint64_t)p); sx_assert((float)wi == w && (float)pi == p && pi >= 1 && pi <= wi, "the taper function is called with positions between 1 and the width"); return weightOf(pi, wi); }
static void taperMode() {
    size_t n = 1 + sx_choose(sx_param("n", 5), "length"), l = sx_choose(n + 1, "left"), r = sx_choose(n + 1, "right"); int zeros = sx_param("zeros", 1), cform = sx_choose(2, "interface"); (void)badCalls;
    float* t = trace(n); fill(n, 2); if (!zeros) sx_assume(t[0] != 0);
    if (cform) exseis_taper(n, t, myTaper, l, r); else taper(n, t, myTaper, l, r);
    size_t live = 0; while (live < n && b2f(in[GUARD + live]) == 0) live++;
    size_t m = n - live, lc = l < m ? l : m, rc = r < m ? r : m;
    for (size_t i = 0; i < n; i++) {
        float want = b2f(in[GUARD + i]); bool tapered = false;
        if (i >= live && i - live < lc) { want *= weightOf(i - live + 1, lc); tapered = true; }
        if (i >= live && n - i <= rc) { want *= weightOf(n - i, rc); tapered = true; }
        sx_assert(f2b(t[i]) == f2b(want), tapered ? "samples of the ends are multiplied by their weights" : "samples between the ends are unchanged");
    }
    guards(n); free(buf); sx_cover(live == n ? "dead" : live ? "late" : "live"); if (lc + rc > m) sx_cover("overlap"); if (l > m || r > m) sx_cover("clipped");
}
static void weights() {
    int shape = sx_param("shape", 0); Taper_function f = shape == 0 ? linear_taper : shape == 1 ? cosine_taper : cosine_square_taper, c = shape == 0 ? exseis_linear_taper : shape == 1 ? exseis_cosine_taper : exseis_cosine_square_taper;
    unsigned p, w;
    if (shape == 0) { static const unsigned W[] = {1, 2, 3, 4, 5, 7, 10, 16, 25, 33, 50, 100, 127, 250, 999, 1000, 4096, 30001}; w = W[sx_choose(sx_param("widths", 18), "width")]; p = sx_any<uint16_t>("position"); sx_assume(p >= 1 && p <= w); }
    else { w = 1 + sx_choose(sx_param("w", 24), "width"); p = 1 + sx_choose(w, "position"); }
    float a = f(p, w); sx_assert(f2b(c(p, w)) == f2b(a), "the C function agrees"); sx_assert(a >= 0 && a <= 1, "weights lie between 0 and 1");
    double e = 1e-6; if (p == w) sx_assert(a >= 1 - e, "the weight is 1 at the full width"); else { float b = f(p + 1, w); sx_assert(b >= a, "weights rise away from the end"); sx_cover("rise"); }
    if (shape == 0) { float x = (float)p / (float)w; sx_assert(a - x <= 1e-6f && x - a <= 1e-6f, "the linear shape"); }
    else { double pi = 3.14159265358979323846, x = 0.5 + 0.5 * cos(pi * ((double)p / w - 1)); if (shape == 2) x *= x; sx_assert(a - x <= 2e-6 && x - a <= 2e-6, "the shape of the taper"); }
    sx_cover("done");
}
// ---- P26
static size_t gn, gw; static float gtarget;
static float myGain(const float* s, size_t size, float target, size_t centre) {
    sx_assert(f2b(target) == f2b(gtarget), "the target amplitude is passed on"); sx_assert(size >= 1 && centre < size, "the centre lies within the window");
    size_t tag = sx_concretize(f2b(s[centre]) & 63); sx_assert(tag >= GUARD && tag < GUARD + gn, "the centre is a sample of the trace"); size_t j = tag - GUARD, h = gw / 2, a = j < h ? 0 : j - h, b = j + h >= gn ? gn - 1 : j + h;
    sx_assert(size == b - a + 1 && centre == j - a, "the window is that around the sample, clipped to the trace");
    for (size_t k = 0; k < size; k++) sx_assert(f2b(s[k]) == in[GUARD + a + k], "the window holds the samples of the trace");
    return (float)(j + 2);
}
static void agc() {
    gn = 1 + sx_choose(sx_param("n", 6), "length"); gw = sx_choose(sx_param("w", 10), "window"); int cform = sx_choose(2, "interface"); gtarget = b2f(sx_any<uint32_t>("target")); sx_assume(gtarget == gtarget);
    float* t = trace(gn); for (size_t i = 0; i < gn + 2 * GUARD; i++) { uint32_t b = (sx_any<uint32_t>("sample") & ~63u) | (uint32_t)i; sx_assume(((b >> 23) & 255) < 255); in[i] = b; buf[i] = b2f(b); }
    if (cform) exseis_AGC(gn, t, myGain, gw, gtarget); else AGC(gn, t, myGain, gw, gtarget);
    for (size_t j = 0; j < gn; j++) sx_assert(f2b(t[j]) == f2b(b2f(in[GUARD + j]) * (float)(j + 2)), "every sample is multiplied by its gain");
    guards(gn); free(buf); sx_cover("done"); if (gw >= gn) sx_cover("wide"); if (gw < gn) sx_cover("inside");
}
static bool same(float a, float b) { return f2b(a) == f2b(b); }
static bool near(float a, double b) { double e = b < 0 ? -b * 1e-4 : b * 1e-4; return a - b <= e && b - a <= e; }
static void gains() {
    int stat = sx_param("stat", 0); size_t n = sx_param("n", 0), bits = sx_param("bits", 4); if (!n) n = 1 + sx_choose(3, "length"); size_t c = sx_choose(n, "centre");
    float* t = trace(n); for (size_t i = 0; i < n + 2 * GUARD; i++) { buf[i] = i < GUARD || i >= GUARD + n ? 3.f : sx_choose(2, "dead sample") ? 0.f : (float)((int)(int8_t)((sx_any<uint8_t>("sample") << 1 | 1) << (7 - bits)) >> (7 - bits)); in[i] = f2b(buf[i]); } // zero or any odd number of bits + 1 bits
    Gain_function f = stat == 0 ? rectangular_RMS_gain : stat == 1 ? triangular_RMS_gain : stat == 2 ? mean_abs_gain : median_gain, cf = stat == 0 ? exseis_rectangular_RMS_gain : stat == 1 ? exseis_triangular_RMS_gain : stat == 2 ? exseis_mean_abs_gain : exseis_median_gain;
    float target = 2.f; int form = sx_choose(2, "interface"); float g = (form ? cf : f)(t, n, target, c);
    int v[8], live = 0; for (size_t i = 0; i < n; i++) { v[i] = (int)t[i]; if (v[i]) live++; }
    if (stat == 0 || stat == 1) { // the definition: target over the root of the mean of the (weighted) squares of the live samples
        size_t lw = c, rw = n - 1 - c, h = lw > rw ? lw : rw; if (h == 0) h = 1; float a = 0;
        for (size_t i = 0; i < n; i++) { size_t d = i > c ? i - c : c - i; float x = stat == 0 ? t[i] : t[i] * (1 - (float)d / (float)h); a += x * x; }
        if (a == 0) { sx_assert(g == 1, "a window without signal leaves the sample unscaled"); sx_cover("zero"); }
        else { float ref = target / sqrtf(a / (float)live); sx_assert(same(g, ref) || near(g, ref), "the root mean square of the window"); sx_cover("done"); }
    } else if (stat == 2) { long a = 0; for (size_t i = 0; i < n; i++) a += v[i] < 0 ? -v[i] : v[i]; if (a == 0) { sx_assert(g == 1, "a window without signal leaves the sample unscaled"); sx_cover("zero"); } else { sx_assert(same(g, target / ((float)a / (float)live)) || near(g, target * (double)live / (double)a), "the mean absolute value of the window"); sx_cover("done"); } }
    else { // the median: at most half of the samples are smaller and at most half are larger
        int w[8]; for (size_t i = 0; i < n; i++) { w[i] = v[i]; for (size_t j = i; j > 0 && w[j] < w[j - 1]; j--) { int x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; } }
        int twice = n % 2 ? 2 * w[n / 2] : w[n / 2 - 1] + w[n / 2];
        if (n % 2 == 0 && n > 2) { int dev = w[n / 2] + w[n / 2 + 1]; sx_assert(same(g, twice ? target / ((float)twice / 2) : 1.f) || same(g, dev ? target / ((float)dev / 2) : 1.f), "the gain of a window of even size is the target over the mean of two samples at the middle"); }
        if (twice == 0) { sx_assert(g == 1, "a window without signal leaves the sample unscaled"); sx_cover("zero"); } else { sx_assert(same(g, target / ((float)twice / 2)) || near(g, 2. * target / twice), n % 2 ? "the median of the window" : "the median of a window of even size"); sx_cover("done"); } }
    for (size_t i = 0; i < n; i++) sx_assert(f2b(t[i]) == in[GUARD + i], "the window is not changed"); guards(n); free(buf);
}
// whole pipeline with the library's statistics: a dead trace stays dead
static void dead() {
    size_t n = 1 + sx_choose(5, "length"), w = sx_choose(8, "window"); static const Gain_function F[4] = {rectangular_RMS_gain, triangular_RMS_gain, mean_abs_gain, median_gain}; float* t = trace(n); fill(n, 0, n);
    AGC(n, t, F[sx_choose(4, "statistic")], w, 1.f); for (size_t i = 0; i < n; i++) sx_assert(t[i] == 0, "a trace of zeros stays so"); guards(n); free(buf); sx_cover("done");
}
// ---- P27
static size_t fftN; static float* fftR; static float* fftC; static uint32_t fftOut; // a stand-in for the transform: touches the documented ranges, yields arbitrary values
extern "C" {
fftwf_plan fftwf_plan_dft_r2c_1d(int n, float* i, fftwf_complex* o, unsigned) { fftN = n; fftR = i; fftC = (float*)o; for (int k = 0; k < n; k++) i[k] = 0; return (fftwf_plan)1; }
fftwf_plan fftwf_plan_dft_c2r_1d(int n, fftwf_complex* i, float* o, unsigned) { fftN = n; fftR = o; fftC = (float*)i; for (int k = 0; k < n; k++) o[k] = 0; return (fftwf_plan)2; }
void fftwf_execute(const fftwf_plan p) { if (p == (fftwf_plan)1) for (size_t k = 0; k < 2 * (fftN / 2 + 1); k++) fftC[k] = 1.f; else for (size_t k = 0; k < fftN; k++) fftR[k] = fftC[0] + (float)k + 1.f; }
void fftwf_destroy_plan(fftwf_plan) {}
}
static void filter() {
    size_t ns = 1 + sx_choose(sx_param("ns", 7), "samples"), nt = 2, nw = sx_choose(ns + 3, "window"), wc = sx_choose(ns, "centre"); int dom = sx_param("domain", 0), order = sx_param("order", 1), type = sx_param("type", 0), pad = sx_choose(4, "padding");
    std::vector<float> corners = {type == 0 || type == 2 ? 3.f : 5.f, type >= 2 ? 7.f : 0.f};
    float* t = trace(nt * ns); fill(nt * ns, 0);
    if (sx_param("auto", 0)) { // the order is derived from the pass and stop bands
        static const float C[4][4] = {{0.05f, 0.1f, 0.3f, 0.4f}, {0.1f, 0.11f, 0.2f, 0.25f}, {0.01f, 0.2f, 0.4f, 0.45f}, {0.2f, 0.3f, 0.31f, 0.4f}}; const float* q = C[sx_choose(4, "bands")];
        std::vector<float> c; if (type >= 2) c.assign(q, q + 4); else c = {q[1], q[2]}; if (type == 0 && c[0] > c[1]) std::swap(c[0], c[1]);
        temporalFilter(nt, ns, t, 1.f, (FltrType)type, (FltrDmn)dom, (PadType)pad, nw, wc, c);
    } else temporalFilter(nt, ns, t, 30.f, (FltrType)type, (FltrDmn)dom, (PadType)pad, nw, wc, corners, order);
    size_t w = nw == 0 || nw > ns ? ns : nw; if (w % 2 == 0) w--; size_t c = wc == 0 ? ns / 2 : wc, h = w / 2;
    for (size_t k = 0; k < nt; k++) for (size_t i = 0; i < ns; i++) if (i + h < c || i > c + h) { sx_assert(f2b(t[k * ns + i]) == in[GUARD + k * ns + i], "samples outside the window are unchanged"); sx_cover("outside"); }
    guards(nt * ns); free(buf); sx_cover("done"); if (c < h || c + h >= ns) sx_cover("edge");
}
static long extension(const long* x, size_t nw, int pad, long d, bool right) { // the d-th sample (1, 2, ..) beyond an end
    if (pad == 0) return 0; if (pad == 2) return right ? x[nw - 1] : x[0];
    if (pad == 1) { long p = 2 * ((long)nw - 1); if (p == 0) return x[0]; long k = d % p; if (k > (long)nw - 1) k = p - k; return right ? x[nw - 1 - k] : x[k]; }
    long k = (d - 1) % (long)nw; return right ? x[k] : x[nw - 1 - k];
}
// forward and backward recursion over the extended signal in whole numbers
static void recursion(const long* b, const long* a, size_t order, const long* zi, const long* x, long* y, size_t n) {
    for (size_t i = 0; i < n; i++) { long v = b[0] * x[i]; if (i < order) { v += zi[i]; for (size_t j = 1; j <= i; j++) v += b[j] * x[i - j] - a[j] * y[i - j]; } else for (size_t j = 1; j <= order; j++) v += b[j] * x[i - j] - a[j] * y[i - j]; y[i] = v; }
}
static void padding() {
    size_t order = sx_param("order", 1), nw = 1 + 2 * sx_choose(sx_param("half", 5), "half window"); int pad = sx_param("pad", 1); const size_t P = 3 * (order + 1), n = nw + 2 * P;
    long b[3] = {1, 3, 0}, a[3] = {1, 1, 0}; if (order == 2) { b[1] = 2; b[2] = 3; a[1] = 1; a[2] = 1; }
    float numer[3], denom[3]; for (int i = 0; i < 3; i++) { numer[i] = b[i]; denom[i] = a[i]; }
    static long x[MAXS], e[MAXS], y[MAXS], r[MAXS], z[MAXS]; float* t = trace(nw); for (size_t i = 0; i < nw + 2 * GUARD; i++) { buf[i] = (float)((int)(sx_any<uint8_t>("sample") & 63) - 32); in[i] = f2b(buf[i]); } for (size_t i = 0; i < nw; i++) x[i] = (long)t[i];
    filterTime(nw, t, order, numer, denom, getPad((PadType)pad));
    for (size_t i = 0; i < n; i++) e[i] = i < P ? extension(x, nw, pad, P - i, false) : i < P + nw ? x[i - P] : extension(x, nw, pad, i - P - nw + 1, true);
    // steady state of the step response: z[0] = sum(b - a b0) / sum(a)
    long zi[2] = {0, 0}, B = 0, S = 1; for (size_t i = 1; i <= order; i++) { B += b[i] - a[i] * b[0]; S += a[i]; } zi[0] = B / S; long sa = 1, sc = 0; for (size_t i = 1; i < order; i++) { sa += a[i]; sc += b[i] - a[i] * b[0]; zi[i] = sa * zi[0] - sc; }
    long q[2]; for (size_t i = 0; i < order; i++) q[i] = zi[i] * e[0]; recursion(b, a, order, q, e, y, n);
    for (size_t i = 0; i < n; i++) r[i] = y[n - 1 - i]; for (size_t i = 0; i < order; i++) q[i] = zi[i] * r[0]; recursion(b, a, order, q, r, z, n);
    for (size_t i = 0; i < nw; i++) sx_assert(t[i] == (float)z[n - 1 - P - i], "the filtered samples are those of the extended signal");
    guards(nw); free(buf); sx_cover("done"); if (nw < P) sx_cover("short");
}
extern "C" void harness() { switch (sx_param("mode", 0)) { case 0: taperMode(); break; case 1: weights(); break; case 2: agc(); break; case 3: gains(); break; case 4: dead(); break; case 5: filter(); break; case 6: padding(); break; } }
