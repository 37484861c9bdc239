// P11, P12, P02 (traces): reading, judged against the bytes of the file
#include "segy.hh"
#include "ExSeisDat/utils/encoding/number_encoding.hh"
static size_t NT, NS; static FFile* F; static int ranks;
static std::shared_ptr<ExSeisPIOL> P;
static std::shared_ptr<ReadSEGY> open(const char* name = "t.segy") {
    auto d = std::make_shared<DataMPIIO>(P, name, DataMPIIO::Opt(), FileMode::Read); auto o = std::make_shared<ObjectSEGY>(P, name, ObjectSEGY::Opt(), d, FileMode::Read);
    return std::make_shared<ReadSEGY>(P, name, ReadSEGY::Opt(), o);
}
static void mkFile(size_t extra, unsigned fmt = 5) {
    F = rawFile("t.segy", NT, NS, extra, fmt); F->size += extra;
    for (size_t i = 0; i < NT; i++) {
        unsigned char* h = rawMD(F, i, NS); for (size_t b = 0; b < MD; b++) h[b] = (unsigned char)(i * 31 + b * 7 + 1); put16(h + 68, 0xFFF6); put16(h + 70, 0xFFF6); put16(h + 200, 1);
        int at[4] = {4, 188, 192, 36}; for (int k = 0; k < 4; k++) put32(h + at[k], sx_any<uint32_t>("hdr"));
        put16(h + 28, sx_any<uint16_t>("tic")); for (size_t k = 0; k < NS; k++) put32(rawDF(F, i, NS) + 4 * k, sx_any<uint32_t>("s"));
    }
}
static std::shared_ptr<Rule> mkRule(int k) {
    if (k == 1) return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY});
    if (k == 2) return std::make_shared<Rule>(true, true, true);
    if (k == 3) return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_Tic, PIOL_META_xl, PIOL_META_xSrc}, false);
    auto r = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl, PIOL_META_tn, PIOL_META_Tic}); if (k == 4) r->rmRule(PIOL_META_ltn); return r;
}
static const size_t ROOM = 8;
struct Out { std::vector<float> t; std::unique_ptr<Param> p; };
static void prep(Out& o, int rk) {
    o.t.resize((ROOM) * NS); for (size_t i = 0; i < o.t.size(); i++) o.t[i] = 1000.5f + i;
    o.p.reset(new Param(mkRule(rk), ROOM)); for (auto& x : o.p->f) x = -3.25; for (auto& x : o.p->i) x = -77; for (auto& x : o.p->s) x = -7; for (auto& x : o.p->t) x = 99; for (auto& x : o.p->c) x = 0xEE;
}
static void traceIs(const Out& o, size_t slot, size_t tr) { for (size_t k = 0; k < NS; k++) sx_assert(f2b(o.t[slot * NS + k]) == get32(rawDF(F, tr, NS) + 4 * k), "a slot of the output holds the samples of the trace asked for"); }
static void traceUntouched(const Out& o, size_t slot) { for (size_t k = 0; k < NS; k++) sx_assert(o.t[slot * NS + k] == 1000.5f + slot * NS + k, "samples of other slots are left alone"); }
static void prmIs(const Out& o, int rk, size_t slot, size_t tr) {
    const unsigned char* h = rawMD(F, tr, NS); const Param* p = o.p.get(); Rule* r = p->r.get();
    if (rk == 1) for (size_t b = 0; b < MD; b++) sx_assert(p->c[slot * MD + b] == h[b], "a slot of the output holds the header of the trace asked for");
    struct { Meta m; int at; } L[] = {{PIOL_META_il, 188}, {PIOL_META_xl, 192}, {PIOL_META_tn, 4}, {PIOL_META_Offset, 36}};
    for (auto& l : L) if (r->translate.count(l.m)) sx_assert(param_utils::getPrm<int64_t>(slot, l.m, p) == (int32_t)get32(h + l.at), "a slot of the output holds the parameters of the trace asked for");
    if (r->translate.count(PIOL_META_Tic)) sx_assert(param_utils::getPrm<int16_t>(slot, PIOL_META_Tic, p) == (int16_t)get16(h + 28), "a slot of the output holds the parameters of the trace asked for");
    if (r->translate.count(PIOL_META_xSrc)) sx_assert(param_utils::getPrm<double>(slot, PIOL_META_xSrc, p) == (1 / 10.) * (int32_t)get32(h + 72) || param_utils::getPrm<double>(slot, PIOL_META_xSrc, p) == (int32_t)get32(h + 72) / 10., "a slot of the output holds the coordinates of the trace asked for");
    if (r->translate.count(PIOL_META_ltn)) sx_assert(param_utils::getPrm<size_t>(slot, PIOL_META_ltn, p) == tr, "the trace number is that of the trace asked for");
}
static void prmUntouched(const Out& o, size_t slot) {
    const Param* p = o.p.get(); Rule* r = p->r.get(); bool ok = true;
    for (size_t k = 0; k < r->numFloat; k++) ok &= p->f[slot * r->numFloat + k] == -3.25; for (size_t k = 0; k < r->numLong; k++) ok &= p->i[slot * r->numLong + k] == -77;
    for (size_t k = 0; k < r->numShort; k++) ok &= p->s[slot * r->numShort + k] == -7; for (size_t k = 0; k < r->numIndex; k++) ok &= p->t[slot * r->numIndex + k] == 99;
    if (r->numCopy) for (size_t b = 0; b < MD; b++) ok &= p->c[slot * MD + b] == 0xEE;
    sx_assert(ok, "parameters of other slots are left alone");
}
static void recOn() { fm_record = true; fm_maxrec = 400; fm_recs = new FRec[400]; }
static void recInside() { for (int i = 0; i < fm_nrec; i++) if (fm_recs[i].kind == 0) sx_assert(fm_recs[i].off >= 0 && (size_t)(fm_recs[i].off + fm_recs[i].len) <= F->size, "nothing outside of the file is read"); }
// P11
static void beyond(int rank) {
    int rk = sx_param("rule", 0); if (rank == 0) { mkFile(sx_param("extra", 0)); recOn(); }
    P = nullptr; auto piol = ExSeis::New(); if (!P) P = piol; piol->comm->barrier(); P = piol;
    auto d = std::make_shared<DataMPIIO>(piol, "t.segy", DataMPIIO::Opt(), FileMode::Read); auto ob = std::make_shared<ObjectSEGY>(piol, "t.segy", ObjectSEGY::Opt(), d, FileMode::Read); ReadSEGY f(piol, "t.segy", ReadSEGY::Opt(), ob);
    sx_assert(f.readNt() == NT && f.readNs() == NS, "trailing bytes do not make another trace");
    static const size_t offs[] = {0, 1, 2, 3, 4, 5, 1000, (size_t)1 << 40, ~(size_t)0 - 1, ~(size_t)0};
    size_t off, sz; int kind; static int commonKind; if (rank == 0 || !sx_param("samekind", 1)) commonKind = kind = sx_choose(3, "kind"); 
    if (ranks > 1) { piol->comm->barrier(); kind = commonKind; }
    if (rank + 1 == ranks) { off = offs[sx_choose(10, "off")]; sz = sx_choose(7, "sz"); if (sz == 6) { sz = 5; if (sx_choose(2, "huge")) { } } } else { off = 1; sz = rank == 0 ? 1 : 0; }
    size_t skip = rank + 1 == ranks ? sx_choose(2, "skip") : 0;
    if (kind == 0) skip = 0;
    Out o; prep(o, rk); float* tb = o.t.data();
    if (kind == 0) f.readTrace(off, sz, tb, PIOL_PARAM_NULL); if (kind == 1) f.readParam(off, sz, o.p.get(), skip); if (kind == 2) f.readTrace(off, sz, tb, o.p.get(), skip);
    size_t n = off >= NT ? 0 : (sz < NT - off ? sz : NT - off);
    for (size_t i = 0; i < ROOM; i++) {
        if (kind != 1) { if (i < n) traceIs(o, i, off + i); else traceUntouched(o, i); } else traceUntouched(o, i);
        if (kind) { if (i >= skip && i < n + skip) prmIs(o, rk, i, off + i - skip); else prmUntouched(o, i); } else prmUntouched(o, i);
    }
    if (off > NT && sz) sx_cover("beyond"); if (n && n < sz) sx_cover("cut"); if (n) sx_cover("some"); if (skip && n) sx_cover("skip"); sx_assert(!piol->log->isErr(), "no error is logged");
    piol->comm->barrier(); if (rank == 0) recInside();
}
// P11: a file shorter than its header holds no traces
static void tiny(int) {
    size_t n = sx_choose(4, "size"); size_t szs[] = {0, 1, 3599, 3600}; FFile* f = ff_create("t.segy", 3600, szs[n]); memset(f->data, 0x20, szs[n]); if (n == 3) rawHeader(f->data, 5, 1000, 5); F = f; recOn();
    auto piol = ExSeis::New(); ReadDirect in(piol, "t.segy"); sx_assert(in.readNt() == 0, "a file without trace data holds no traces"); float t[8]; for (auto& x : t) x = 7; Param p(2); size_t l[1] = {0};
    in.readTrace(0, 2, t, &p); in.readParam(0, 1, &p); in.readTraceNonContiguous(0, l, t, &p); in.readTraceNonMonotonic(0, l, t, &p); for (auto x : t) sx_assert(x == 7, "buffers are left alone"); recInside(); sx_observe("n", n); sx_cover("done");
}
// P12
static void lists(int) {
    int rk = sx_param("rule", 0); mkFile(0); P = ExSeis::New(); auto f = open(); size_t maxn = sx_param("n", 3);
    int kind = sx_choose(3, "kind"); int form = sx_param("form", 0); // 0 ascending list, 1 any order
    size_t n = sx_choose(maxn + 1, "n"); size_t l[8], l0[8]; for (size_t i = 0; i < n; i++) { size_t lo = form == 0 && i ? l[i - 1] : 0; l[i] = lo + sx_choose(NT - lo, "l"); } memcpy(l0, l, sizeof l);
    size_t skip = kind ? sx_choose(2, "skip") : 0; Out o; prep(o, rk); float* tb = o.t.data(); float* none = const_cast<float*>(TRACE_NULL);
    Param* p = kind ? o.p.get() : PIOL_PARAM_NULL; if (kind == 1) tb = none;
    if (form == 0) { if (kind == 1) f->readParamNonContiguous(n, l, p, skip); else f->readTraceNonContiguous(n, l, tb, p, skip); } else f->readTraceNonMonotonic(n, l, tb, p, skip);
    for (size_t i = 0; i < ROOM; i++) {
        if (i < n && kind != 1) traceIs(o, i, l[i]); else traceUntouched(o, i);
        if (kind && i >= skip && i < n + skip) prmIs(o, rk, i, l[i - skip]); else prmUntouched(o, i);
    }
    for (size_t i = 0; i < n; i++) sx_assert(l[i] == l0[i], "the caller's list is left alone");
    bool rep = false, desc = false; for (size_t i = 1; i < n; i++) { rep |= l[i] == l[i - 1]; desc |= l[i] < l[i - 1]; }
    if (rep) sx_cover("repeat"); if (desc) sx_cover("descending"); if (n == 0) sx_cover("none"); if (n == maxn) sx_cover("full"); if (!P->log->isErr()) sx_cover("clean"); else sx_fail("an error is logged");
}
// P02: traces stored in the IBM format
static void ibm(int) {
    NT = 2; NS = 1; mkFile(0, 1); P = ExSeis::New(); auto f = open(); int kind = sx_choose(3, "kind"); float t[3] = {0, 0, 5}; Param p(2); size_t l[2] = {0, 1};
    if (kind == 0) f->readTrace(0, 2, t, PIOL_PARAM_NULL, 0); if (kind == 1) f->readTrace(0, 2, t, &p, 0); if (kind == 2) f->readTraceNonContiguous(2, l, t, &p, 0);
    for (int i = 0; i < 2; i++) { unsigned char* b = rawDF(F, i, 1); std::array<unsigned char, 4> a = {{b[0], b[1], b[2], b[3]}}; sx_assert(f2b(t[i]) == f2b(exseis::utils::from_IBM_to_float(a, true)), "a sample read from an IBM-format file is the conversion of its bytes"); }
    sx_assert(t[2] == 5, "nothing else is written"); sx_cover("ibm");
}
extern "C" void harness() {
    NT = sx_param("nt", 3); NS = sx_param("ns", 2); ranks = sx_param("ranks", 1); void (*m[])(int) = {beyond, tiny, lists, ibm}; fm_run(ranks, m[sx_param("mode", 0)]); }
