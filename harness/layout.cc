// P04: where the regions of a file are
#include "segy.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"
using namespace exseis::PIOL::SEGY_utils;
// the arithmetic, for every sample count and trace index
static void arith() {
    size_t ns = sx_any<uint16_t>("ns"); size_t i = sx_any<uint64_t>("i"); sx_assume(i < ((uint64_t)1 << 40)); size_t k = sx_any<uint16_t>("k"); sx_assume(ns <= 32767 && k < 1000);
    sx_assert(getHOSz() == 3600 && getTextSz() == 3200 && getMDSz() == 240, "sizes of the fixed regions");
    sx_assert(getDFSz(ns) == 4 * ns && getDOSz(ns) == 240 + 4 * ns, "size of a trace");
    sx_assert(getDOLoc(0, ns) == getHOSz(), "the first trace header follows the file header");
    sx_assert(getDODFLoc(i, ns) == getDOLoc(i, ns) + 240, "the samples follow their header");
    sx_assert(getDOLoc(i + 1, ns) == getDODFLoc(i, ns) + getDFSz(ns), "the next header follows the samples");
    sx_assert(getFileSz(i, ns) == getDOLoc(i, ns), "the file ends where the next trace would start");
    sx_observe("loc", getDOLoc(i, ns)); sx_cover("arith");
}
// number of traces from a size: inverse, and blind to a partial trailing trace
static void inverse() {
    unsigned mode = sx_param("by", 0);
    size_t ns, nt;
    if (mode == 0) { static const size_t T[] = {0, 1, 2, 3, 4, 7, 10, 16, 60, 100, 255, 261, 1000, 1001, 1500, 2000, 2501, 4001, 8192, 16384, 32767}; ns = T[sx_choose(sizeof T / sizeof *T, "ns")]; nt = sx_any<uint32_t>("nt"); if (sx_param("ntbits", 20) < 32) sx_assume(nt < (1u << sx_param("ntbits", 20))); }
    else { static const size_t T[] = {0, 1, 2, 3, 4, 5, 7, 8, 100, 1000}; nt = T[sx_choose(10, "nt")]; ns = sx_any<uint16_t>("ns"); sx_assume(ns <= 32767); }
    size_t r = sx_any<uint32_t>("r"); sx_assume(r < 240 + 4 * ns);
    size_t f = getFileSz(nt, ns);
    sx_assert(getNt(f, ns) == nt, "traces of a size is the inverse of size of traces"); sx_assert(getNt(f + r, ns) == nt, "a partial trailing trace is not counted"); sx_observe("f", f); sx_cover("inverse");
}
// what the object layer asks of the data layer, for any offsets: requests are recorded as pieces (file position, buffer position, length)
struct Piece { bool w; size_t off; const unsigned char* buf; size_t len; };
static Piece R[64]; static int nR;
static void piece(bool w, size_t o, const unsigned char* b, size_t n) { if (nR >= 64) sx_fail("too many requests"); if (n) R[nR++] = {w, o, b, n}; }
struct Rec : DataInterface {
    Rec(std::shared_ptr<ExSeisPIOL> p) : DataInterface(p, "t") {}
    size_t getFileSz() const override { return 3600; } void setFileSz(size_t) const override {}
    void read(size_t o, size_t n, unsigned char* d) const override { piece(false, o, d, n); }
    void read(size_t o, size_t b, size_t s, size_t nb, unsigned char* d) const override { for (size_t i = 0; i < nb; i++) piece(false, o + i * s, d + i * b, b); }
    void read(size_t b, size_t n, const size_t* o, unsigned char* d) const override { for (size_t i = 0; i < n; i++) piece(false, o[i], d + i * b, b); }
    void write(size_t o, size_t n, const unsigned char* d) const override { piece(true, o, d, n); }
    void write(size_t o, size_t b, size_t s, size_t nb, const unsigned char* d) const override { for (size_t i = 0; i < nb; i++) piece(true, o + i * s, d + i * b, b); }
    void write(size_t b, size_t n, const size_t* o, const unsigned char* d) const override { for (size_t i = 0; i < n; i++) piece(true, o[i], d + i * b, b); }
};
static void accesses(int) {
    static const size_t NSS[] = {0, 1, 2, 5, 1000, 32767}; size_t ns = NSS[sx_choose(6, "ns")]; bool w = sx_choose(2, "write");
    auto piol = ExSeis::New(); auto d = std::make_shared<Rec>(piol); ObjectSEGY o(piol, "t.segy", ObjectSEGY::Opt(), d, w ? FileMode::Write : FileMode::Read);
    int kind = sx_choose(4, "kind"); bool list = kind && sx_choose(2, "list"); size_t n = kind ? sx_choose(4, "n") : 1; size_t l[3];
    l[0] = sx_any<uint64_t>("off"); for (size_t i = 1; i < 3; i++) l[i] = list ? sx_any<uint64_t>("off") : l[0] + i; for (size_t i = 0; i < 3; i++) sx_assume(l[i] < ((uint64_t)1 << 40)); size_t off = l[0];
    std::vector<unsigned char> b(3600 + 3 * dosz(ns)); size_t per = kind == 0 ? 3600 : kind == 1 ? 240 : kind == 2 ? 4 * ns : dosz(ns); nR = 0;
    if (!w) { if (kind == 0) o.readHO(b.data()); 
        if (kind == 1) { if (list) o.readDOMD(l, ns, n, b.data()); else o.readDOMD(off, ns, n, b.data()); }
        if (kind == 2) { if (list) o.readDODF(l, ns, n, b.data()); else o.readDODF(off, ns, n, b.data()); }
        if (kind == 3) { if (list) o.readDO(l, ns, n, b.data()); else o.readDO(off, ns, n, b.data()); } }
    else { if (kind == 0) o.writeHO(b.data());
        if (kind == 1) { if (list) o.writeDOMD(l, ns, n, b.data()); else o.writeDOMD(off, ns, n, b.data()); }
        if (kind == 2) { if (list) o.writeDODF(l, ns, n, b.data()); else o.writeDODF(off, ns, n, b.data()); }
        if (kind == 3) { if (list) o.writeDO(l, ns, n, b.data()); else o.writeDO(off, ns, n, b.data()); } }
    // every byte of the buffer is moved exactly once, to or from its place in the file
    long long total = 0; std::vector<unsigned char> seen(n * per);
    for (int i = 0; i < nR; i++) { Piece& r = R[i]; total += r.len; size_t pos = r.buf - b.data(); sx_assert(r.w == w && pos < b.size() && pos + r.len <= n * per, "access is inside the buffer"); sx_assert(!seen[pos] && !seen[pos + r.len - 1], "no byte is moved twice"); memset(&seen[pos], 1, r.len);
        size_t rem = r.len; size_t fo = r.off; // a record may span several traces when they are adjacent
        while (rem) { size_t k = pos / per, in = pos % per, m = per - in < rem ? per - in : rem; size_t want = kind == 0 ? in : (3600 + l[k] * (240 + 4 * ns) + (kind == 2 ? 240 : 0) + in); sx_assert(fo == want, "a region is accessed at its place in the file"); pos += m; rem -= m; fo += m; } }
    sx_assert(total == (long long)(n * per), "each byte is accessed once"); if (list && n == 3) sx_cover("list"); if (!list && n == 3) sx_cover("contiguous"); sx_assert(!piol->log->isErr(), "no error is logged");
    sx_observe("n", nR);
}
extern "C" void harness() { int m = sx_param("mode", 0); if (m == 0) arith(); else if (m == 1) inverse(); else fm_run(1, accesses); }
