// P05, P09, P10: writing traces and headers, judged on the bytes of the file and on what a reader returns
#include "segy.hh"
static const size_t NTX = 4, NSX = 4;
static size_t NT, NS;
static uint32_t S[NTX][NSX]; static unsigned char H[NTX][MD]; // expected samples (bits) and trace headers
static int64_t I0[8]; 
struct Vals { Param* p; std::vector<float> t; };
static std::shared_ptr<Rule> mkRule(int k) {
    if (k == 1) return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY});
    if (k == 2) return std::make_shared<Rule>(true, true);
    if (k == 3) return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl, PIOL_META_Tic}, false);
    return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl, PIOL_META_Tic, PIOL_META_tn});
}
static void fill(int k, Param& p, size_t n, int op) {
    for (size_t i = 0; i < n; i++) {
        if (k == 1) { for (size_t b = 0; b < MD; b++) p.c[i * MD + b] = sx_any<unsigned char>("hdr"); continue; }
        param_utils::setPrm(i, PIOL_META_il, (int64_t)(int32_t)sx_any<uint32_t>("il"), &p);
        param_utils::setPrm(i, PIOL_META_xl, (int64_t)(int32_t)sx_any<uint32_t>("xl"), &p);
        if (k != 2) param_utils::setPrm(i, PIOL_META_Tic, (int16_t)sx_any<uint16_t>("tic"), &p);
        if (k != 3) param_utils::setPrm(i, PIOL_META_tn, (int64_t)(int32_t)sx_any<uint32_t>("tn"), &p);
        if (k == 2) {
            param_utils::setPrm(i, PIOL_META_Offset, (int64_t)(int32_t)sx_any<uint32_t>("off"), &p);
            Meta m[6] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp};
            for (int q = 0; q < 6; q++) param_utils::setPrm(i, m[q], (op + 1) * 1000. + 10. * i + q + 0.5, &p);
        }
    }
}
// the trace header the values stand for
static void expectHdr(int k, const Param& p, size_t i, int op, unsigned char* h) {
    memset(h, 0, MD);
    if (k == 1) { memcpy(h, &p.c[i * MD], MD); return; }
    put32(h + 188, (uint32_t)param_utils::getPrm<int64_t>(i, PIOL_META_il, &p)); put32(h + 192, (uint32_t)param_utils::getPrm<int64_t>(i, PIOL_META_xl, &p));
    if (k != 2) put16(h + 28, (uint16_t)param_utils::getPrm<int16_t>(i, PIOL_META_Tic, &p));
    if (k != 3) put32(h + 4, (uint32_t)param_utils::getPrm<int64_t>(i, PIOL_META_tn, &p));
    if (k == 2) {
        put32(h + 36, (uint32_t)param_utils::getPrm<int64_t>(i, PIOL_META_Offset, &p)); put16(h + 70, (uint16_t)-10);
        int at[6] = {72, 76, 80, 84, 180, 184};
        for (int q = 0; q < 6; q++) put32(h + at[q], (op + 1) * 10000 + 100 * i + 10 * q + 5);
    }
}
static void doOp(WriteSEGY& f, int rk, int op) {
    const size_t sk = sx_param("skip", 0);
    int kind = sx_choose(3, "kind");           // 0 traces, 1 headers, 2 both
    size_t idx[NTX], n = 0; size_t off = 0; bool list;
    list = sx_choose(2, "form");
    if (!list) { off = sx_choose(NT, "off"); n = sx_choose(NT - off + 1, "sz"); for (size_t i = 0; i < n; i++) idx[i] = off + i; }
    else { uint64_t m = sx_choose(1u << NT, "set"); for (size_t i = 0; i < NT; i++) if (m >> i & 1) idx[n++] = i; }
    std::vector<float> t(n * NS + 1), t0; for (size_t i = 0; i < n * NS; i++) t[i] = b2f(sx_any<uint32_t>("s")); t[n * NS] = 7;
    std::vector<uint32_t> tb(n * NS); for (size_t i = 0; i < n * NS; i++) tb[i] = f2b(t[i]);
    auto r = mkRule(rk); Param p(r, n + sk); if (kind) fill(rk, p, n + sk, op);
    Param q(r, n + sk); q.f = p.f; q.i = p.i; q.s = p.s; q.t = p.t; q.c = p.c;
    size_t l[NTX]; memcpy(l, idx, sizeof l);
    if (kind == 0) { if (list) f.writeTraceNonContiguous(n, idx, t.data(), PIOL_PARAM_NULL, 0); else f.writeTrace(off, n, t.data(), PIOL_PARAM_NULL, 0); }
    if (kind == 1) { if (list) f.writeParamNonContiguous(n, idx, &p, sk); else f.writeParam(off, n, &p, sk); }
    if (kind == 2) { if (list) f.writeTraceNonContiguous(n, idx, t.data(), &p, sk); else f.writeTrace(off, n, t.data(), &p, sk); }
    // P10
    for (size_t i = 0; i < n * NS; i++) sx_assert(f2b(t[i]) == tb[i], "writing leaves the caller's samples unchanged");
    sx_assert(t[n * NS] == 7, "writing leaves memory beyond the samples unchanged");
    for (size_t i = 0; i < n; i++) sx_assert(idx[i] == l[i], "writing leaves the caller's list unchanged");
    for (size_t i = 0; i < p.f.size(); i++) sx_assert(d2b(p.f[i]) == d2b(q.f[i]), "writing leaves the caller's parameters unchanged");
    for (size_t i = 0; i < p.i.size(); i++) sx_assert(p.i[i] == q.i[i], "writing leaves the caller's parameters unchanged");
    for (size_t i = 0; i < p.s.size(); i++) sx_assert(p.s[i] == q.s[i], "writing leaves the caller's parameters unchanged");
    for (size_t i = 0; i < p.t.size(); i++) sx_assert(p.t[i] == q.t[i], "writing leaves the caller's parameters unchanged");
    for (size_t i = 0; i < p.c.size(); i++) sx_assert(p.c[i] == q.c[i], "writing leaves the caller's parameters unchanged");
    sx_assert(p.r.get() == r.get() && p.f.size() == q.f.size() && p.i.size() == q.i.size(), "writing leaves the parameter structure unchanged");
    for (size_t i = 0; i < n; i++) {
        if (kind != 1) for (size_t k = 0; k < NS; k++) S[idx[i]][k] = tb[i * NS + k];
        if (kind) expectHdr(rk, q, i + sk, op, H[idx[i]]);
    }
    if (list && n >= 2 && kind == 2) sx_cover("list"); if (!list && n >= 2) sx_cover("contiguous"); if (n == 0) sx_cover("empty");
}
static void rw(int) {
    NT = sx_param("nt", 3); NS = sx_param("ns", 2); int rk = sx_param("rule", 0); int ops = sx_param("ops", 2); bool pre = sx_param("pre", 0);
    if (pre) { FFile* f = rawFile("o.segy", NT, NS); for (size_t i = 0; i < NT; i++) { for (size_t b = 0; b < MD; b++) H[i][b] = rawMD(f, i, NS)[b] = (unsigned char)(17 * i + b + 3); for (size_t k = 0; k < NS; k++) { S[i][k] = 0x01020304u * (i + 1) + k; put32(rawDF(f, i, NS) + 4 * k, S[i][k]); } } }
    auto piol = ExSeis::New();
    { auto d = std::make_shared<DataMPIIO>(piol, "o.segy", DataMPIIO::Opt(), FileMode::Write); auto ob = std::make_shared<ObjectSEGY>(piol, "o.segy", ObjectSEGY::Opt(), d, FileMode::Write); WriteSEGY f(piol, "o.segy", WriteSEGY::Opt(), ob);
      f.writeNs(NS); f.writeNt(NT); f.writeInc(0.004); f.writeText("some text");
      for (int o = 0; o < ops; o++) doOp(f, rk, o); }
    FFile* o = ff_file("o.segy"); 
    sx_assert(o->size == fsz(NT, NS), "file size is that of its traces");
    for (size_t i = 0; i < NT; i++) {
        for (size_t b = 0; b < MD; b++) sx_assert(rawMD(o, i, NS)[b] == H[i][b], "a trace header in the file is the one written last");
        for (size_t k = 0; k < NS; k++) sx_assert(get32(rawDF(o, i, NS) + 4 * k) == S[i][k], "samples in the file are the ones written last, big endian");
    }
    sx_assert(memcmp(o->data, "some text", 9) == 0 && get16(o->data + 3220) == NS && get16(o->data + 3224) == 5 && get16(o->data + 3216) == 4000, "file header is untouched by trace writes");
    sx_assert(!piol->log->isErr(), "no error is logged"); sx_cover("done"); if (NT && NS) sx_observe("s", S[0][0]);
    if (!sx_param("read", 1)) return;
    // and what a reader sees
    ReadDirect in(piol, "o.segy");
    sx_assert(in.readNt() == NT && in.readNs() == NS, "reader finds the traces");
    auto r = mkRule(rk); Param p(r, NT); std::vector<float> t(NT * NS);
    in.readTrace(0, NT, t.data(), &p);
    for (size_t i = 0; i < NT; i++) { for (size_t k = 0; k < NS; k++) sx_assert(f2b(t[i * NS + k]) == S[i][k], "a trace read back holds the samples written last");
        if (rk != 1) { sx_assert(param_utils::getPrm<int64_t>(i, PIOL_META_il, &p) == (int32_t)get32(H[i] + 188), "inline read back"); sx_assert(param_utils::getPrm<int64_t>(i, PIOL_META_xl, &p) == (int32_t)get32(H[i] + 192), "crossline read back"); if (rk != 2) sx_assert(param_utils::getPrm<int16_t>(i, PIOL_META_Tic, &p) == (int16_t)get16(H[i] + 28), "short parameter read back"); }
        else for (size_t b = 0; b < MD; b++) sx_assert(p.c[i * MD + b] == H[i][b], "raw header read back"); }
    if (NT && NS) { sx_observe("s", f2b(t[0])); } sx_assert(!piol->log->isErr(), "no error is logged");
    sx_cover("done");
}

static void checkHO(FFile* o, size_t ns, unsigned incus) {
    sx_assert(get16(o->data + 3220) == ns, "the file header states the sample count"); sx_assert(get16(o->data + 3216) == incus, "the file header states the interval in microseconds");
    sx_assert(get16(o->data + 3224) == 5, "the file header states the IEEE format"); sx_assert(get16(o->data + 3500) == 0x100 && get16(o->data + 3502) == 1 && get16(o->data + 3504) == 0, "revision 1, fixed trace length, no text extensions");
}
// P09: any order of setting the attributes, once or twice
static void orders(int) {
    size_t ns = 3, nt = 2; bool pre = sx_choose(2, "pre"); if (pre) rawFile("o.segy", 5, 4);
    auto piol = ExSeis::New(); bool setnt = sx_choose(2, "setnt");
    { WriteDirect f(piol, "o.segy"); unsigned left = setnt ? 15 : 13; bool twice = sx_choose(2, "twice");
      if (twice) { f.writeNs(7); f.writeInc(0.5e-3); f.writeText("other"); if (setnt) f.writeNt(9); }
      while (left) { unsigned n = 0, opt[4]; for (unsigned k = 0; k < 4; k++) if (left >> k & 1) opt[n++] = k;
          unsigned k = opt[sx_choose(n, "next")]; left &= ~(1u << k);
          if (k == 0) f.writeNs(ns); if (k == 1) f.writeNt(nt); if (k == 2) f.writeInc(0.002); if (k == 3) f.writeText("C 1 CLIENT"); }
      int w = sx_choose(3, "write"); float t[6] = {1, 2, 3, 4, 5, 6}; Param p(std::make_shared<Rule>(true, true), 2);
      if (w == 1 || !setnt) f.writeTrace(0, 2, t, &p); if (w == 2) { size_t l[2] = {0, 1}; f.writeTraceNonContiguous(2, l, t, &p); } }
    FFile* o = ff_file("o.segy"); sx_assert(o->size == fsz(nt, ns), "file size matches the number of traces"); checkHO(o, ns, 2000);
    sx_assert(memcmp(o->data, "C 1 CLIENT", 10) == 0, "text header");
    ReadDirect in(piol, "o.segy"); sx_assert(in.readNt() == nt && in.readNs() == ns, "reader reports the same counts"); sx_assert(d2b(in.readInc()) == d2b(1e-6 * 2000.), "reader reports the same interval");
    sx_assert(in.readText().size() == 3200 && in.readText().compare(0, 10, "C 1 CLIENT") == 0 && in.readText()[10] == 0, "reader reports the same text"); sx_assert(!piol->log->isErr(), "no error is logged");
    sx_observe("size", o->size); if (pre) sx_cover("overwrite"); sx_cover("done");
}
// P09: histories of writes at any positions, with or without stating the trace count first
static void history(int rank) {
    static size_t want, k; static bool setnt, list; static size_t kind; const size_t ops = sx_param("ops", 2); 
    if (rank == 0) { want = 0; setnt = sx_choose(2, "setnt"); k = 0; if (setnt) { k = sx_any<uint32_t>("nt") & ((1ull << sx_param("bits", 10)) - 1); k += sx_param("base", 0); want = k; } } MPI_Barrier(MPI_COMM_WORLD); fm_record_only = true;
    auto piol = ExSeis::New();
    { WriteDirect f(piol, "o.segy"); f.writeNs(2); f.writeInc(0.002); if (setnt) f.writeNt(k);
      for (size_t o = 0; o < ops; o++) {
          if (rank == 0) { if (o == 0) kind = sx_choose(3, "kind"); list = sx_choose(2, "form"); } MPI_Barrier(MPI_COMM_WORLD); // the same call on every process, with its own positions
          size_t n = sx_choose(3, "n"), at[2] = {0, 0}; const uint32_t mask = (1ull << sx_param("bits", 10)) - 1; const size_t base = sx_param("base", 0); if (n) at[0] = base + (sx_any<uint32_t>("at") & mask); if (n == 2) { at[1] = list ? base + (sx_any<uint32_t>("at") & mask) : at[0] + 1; sx_assume(at[1] > at[0]); }
          float t[4] = {1, 2, 3, 4}; Param p(std::make_shared<Rule>(true, true), 2);
          if (kind == 0) { if (list) f.writeTraceNonContiguous(n, at, t); else f.writeTrace(at[0], n, t); }
          if (kind == 1) { if (list) f.writeParamNonContiguous(n, at, &p); else f.writeParam(at[0], n, &p); }
          if (kind == 2) { if (list) f.writeTraceNonContiguous(n, at, t, &p); else f.writeTrace(at[0], n, t, &p); }
          if (n) { size_t e = at[n - 1] + 1; want = e > want ? e : want; } MPI_Barrier(MPI_COMM_WORLD); } }
    sx_assert(!piol->log->isErr(), "no error is logged"); MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0) { FFile* o = ff_file("o.segy"); sx_assert(o->size == HO + want * 248, "the file ends after its last trace"); sx_observe("size", o->size); sx_cover(setnt ? "stated" : "grown"); }
    sx_cover("done");
}
// P09: every sample count and trace count
static void counts(int) {
    auto piol = ExSeis::New(); uint16_t n16 = sx_any<uint16_t>("ns"); sx_assume(n16 > 0 && n16 <= 32767); size_t ns = n16; size_t nt = sx_any<uint32_t>("nt"); bool some = sx_param("some", 0);
    if (!some) sx_assume(nt == 0), nt = 0; else { sx_assume(nt > 0 && nt <= 1000000); fm_record_only = true; }
    { WriteDirect f(piol, "o.segy"); f.writeNt(nt); f.writeInc(0.004); f.writeNs(ns); f.writeText("C 1 CLIENT"); }
    FFile* o = ff_file("o.segy"); sx_assert(o->size == HO + nt * (240 + 4 * ns), "file size matches the number of traces and samples"); sx_observe("ns", ns);
    sx_assert(!piol->log->isErr(), "no error is logged");
    if (!some) { checkHO(o, ns, 4000); ReadDirect in(piol, "o.segy"); sx_assert(in.readNt() == 0 && in.readNs() == ns, "reader reports the same counts"); }
    sx_cover("done");
}
// P09: interval
static void interval(int) {
    auto piol = ExSeis::New(); unsigned base = sx_param("base", 0); uint16_t k = sx_any<uint16_t>("us"); sx_assume(k < sx_param("width", 64)); unsigned us = base + k; sx_assume(us > 0 && us <= 32767);
    double inc = us * 1e-6; 
    { WriteDirect f(piol, "o.segy"); f.writeInc(inc); f.writeNs(2); f.writeNt(1); }
    FFile* o = ff_file("o.segy"); checkHO(o, 2, us); ReadDirect in(piol, "o.segy"); sx_assert(d2b(in.readInc()) == d2b(inc), "reader reports the same interval"); sx_observe("us", us); sx_cover("done");
}
static void texts(int) {
    auto piol = ExSeis::New(); std::string s(3200, ' '); size_t len = sx_choose(2, "len") ? 3200 : 9; s.resize(len); s[0] = 'C'; s[len > 9 ? 3100 : 8] = ' '; 
    size_t at[3] = {1, 2, len - 2}; { unsigned char c = sx_any<unsigned char>("c"); sx_assume(c >= 0x20 && c < 0x7F); s[at[sx_choose(3, "at")]] = c; }
    std::string s0 = s; if (sx_choose(2, "long")) s += "beyond";
    { WriteDirect f(piol, "o.segy"); f.writeText(s); f.writeNs(2); f.writeNt(0); }
    FFile* o = ff_file("o.segy"); ReadDirect in(piol, "o.segy"); const std::string& r = in.readText(); sx_assert(r.size() == 3200 && o->size == 3600, "text header length");
    for (size_t i = 0; i < len; i++) { sx_assert(o->data[i] == (unsigned char)s0[i], "the text is stored as given"); sx_assert((unsigned char)r[i] == (unsigned char)s0[i], "reader reports the same text"); }
    if (s.size() == len) for (size_t i = len; i < 3200; i++) sx_assert(o->data[i] == 0 || o->data[i] == ' ', "the rest of the text is blank");
    sx_observe("c", (unsigned char)r[1]); sx_cover("done");
}
extern "C" void harness() { void (*m[])(int) = {rw, orders, counts, interval, texts, history}; fm_run(sx_param("ranks", 1), m[sx_param("mode", 0)]); }
