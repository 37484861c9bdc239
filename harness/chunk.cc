// P13: contiguous, strided and listed transfers under any message limit; P14: collective matching while doing so
#include "segy.hh"
static int ranks, mode; static bool coll, wr; static size_t maxSz; static const size_t FS = 64; static std::shared_ptr<ExSeisPIOL> P; static FFile* F; static unsigned char old[FS];
struct Req { size_t off, bsz, osz, nb; size_t list[8]; unsigned char* buf; size_t len; unsigned char was[64]; };
static Req req[FM_MAXR];
static size_t blockAt(Req& q, size_t b) { return mode == 2 ? q.list[b] : q.off + b * q.osz; } // file position of block b
static std::unique_ptr<DataMPIIO> open(std::shared_ptr<ExSeisPIOL> piol) {
    DataMPIIO::Opt o; o.coll = coll; if (maxSz) o.maxSize = maxSz; return std::unique_ptr<DataMPIIO>(new DataMPIIO(piol, "d", o, wr ? FileMode::Write : FileMode::Read));
}
static void go(DataMPIIO& d, Req& q) {
    if (mode == 0) { if (wr) d.write(q.off, q.nb, (const unsigned char*)q.buf); else d.read(q.off, q.nb, q.buf); }
    if (mode == 1) { if (wr) d.write(q.off, q.bsz, q.osz, q.nb, (const unsigned char*)q.buf); else d.read(q.off, q.bsz, q.osz, q.nb, q.buf); }
    if (mode == 2) { if (wr) d.write(q.bsz, q.nb, q.list, (const unsigned char*)q.buf); else d.read(q.bsz, q.nb, q.list, q.buf); }
}
// every byte, small limits
static void small(int rank) {
    auto piol = ExSeis::New(); if (rank == 0) { F = ff_create("d", FS + 64, FS); for (size_t i = 0; i < FS; i++) old[i] = F->data[i] = (unsigned char)(i * 5 + 3); coll = sx_choose(2, "coll"); wr = sx_choose(2, "wr"); }
    Req& q = req[rank]; size_t maxnb = sx_param("nb", 5); bool lead = rank + 1 == ranks; q.bsz = q.osz = 1;
    if (rank == 0) maxSz = 0; piol->comm->barrier();
    // block shape is common, the amount of work differs
    if (rank == 0) {
        if (mode) { q.bsz = 1 + sx_choose(ranks > 1 ? 2 : 3, "bsz"); q.osz = q.bsz + (mode == 1 ? sx_choose(ranks > 1 ? 2 : 3, "gap") : 0); }
        size_t least = mode == 0 ? 1 : mode == 1 ? q.osz : 2 * q.bsz; maxSz = least + (ranks > 1 ? least * sx_choose(2, "max") : sx_choose(mode ? 3 * least : 6, "max"));
    }
    piol->comm->barrier(); q.bsz = req[0].bsz; q.osz = req[0].osz;
    q.nb = lead || rank == 0 ? sx_choose(maxnb + 1, "nb") : 1; bool free = ranks == 1; size_t span = q.nb ? (q.nb - 1) * q.osz + q.bsz : 0;
    size_t area = FS / ranks, base = rank * area; // disjoint parts of the file for concurrent writers
    sx_assume(span <= area);
    if (mode == 2) { size_t at = base; for (size_t b = 0; b < q.nb; b++) { at += free ? sx_choose(b && !wr ? 3 : 2, "step") : lead && b == 1 ? sx_choose(2, "step") : 0; q.list[b] = at; at += wr || !free ? q.bsz : 0; } sx_assume(!q.nb || q.list[q.nb - 1] + q.bsz <= base + area); }
    else { q.off = base + (!free ? 1 : mode == 0 ? sx_any<uint8_t>("off") : sx_choose(2, "off") * 3); sx_assume(q.off >= base && q.off + span <= base + area); if (mode == 0) q.off = sx_concretize(q.off); }
    q.len = mode == 0 ? q.nb : q.nb * q.bsz; q.buf = (unsigned char*)malloc(q.len + 2); for (size_t i = 0; i < q.len + 2; i++) q.buf[i] = q.was[i] = sx_any<uint8_t>("byte"); q.buf++;
    auto d = open(piol); sx_assert(!piol->log->isErr(), "opening logs no error"); go(*d, q); sx_assert(!piol->log->isErr(), "no error is logged");
    d.reset(); piol->comm->barrier(); q.buf--;
    sx_assert(q.buf[0] == q.was[0] && q.buf[q.len + 1] == q.was[q.len + 1], "memory around the buffer is left alone");
    size_t bs = mode == 0 ? 1 : q.bsz, os = mode == 0 ? 1 : q.osz; (void)os;
    for (size_t b = 0; b < q.nb; b++) for (size_t k = 0; k < bs; k++) {
        size_t fo = mode == 0 ? q.off + b : blockAt(q, b) + k, bo = 1 + b * bs + k;
        if (wr) { sx_assert(F->data[fo] == q.was[bo], "each requested byte is written to its position"); sx_assert(q.buf[bo] == q.was[bo], "the buffer written is left alone"); }
        else sx_assert(q.buf[bo] == old[fo], "each requested byte is read from its position");
    }
    piol->comm->barrier();
    if (rank == 0) {
        bool hit[FS] = {false}; if (wr) for (int r = 0; r < ranks; r++) for (size_t b = 0; b < req[r].nb; b++) for (size_t k = 0; k < (mode ? req[r].bsz : 1); k++) hit[mode == 0 ? req[r].off + b : blockAt(req[r], b) + k] = true;
        for (size_t i = 0; i < FS; i++) if (!hit[i]) sx_assert(F->data[i] == old[i], "no other byte of the file is changed");
        sx_assert(F->size == FS, "the size of the file is unchanged");
    }
    size_t unit = mode == 0 ? 1 : mode == 1 ? q.osz : 2 * q.bsz; if (q.nb > maxSz / unit) sx_cover("chunked"); if (q.nb == 0) sx_cover("nothing"); if (q.nb && q.nb <= maxSz / unit) sx_cover("whole"); if (wr) sx_cover("write"); else sx_cover("read"); if (!coll) sx_cover("independent");
    if (rank == 0) { sx_observe("max", maxSz); sx_observe("sum", F->data[1] + F->data[9] + q.buf[0]); }
}
// requests far larger than the limit: only positions and lengths of the accesses are recorded
static void large(int rank) {
    auto piol = ExSeis::New(); if (rank == 0) { coll = sx_choose(2, "coll"); wr = sx_choose(2, "wr"); F = ff_create("d", 16, 16); fm_record = fm_record_only = true; fm_maxrec = 64; fm_recs = new FRec[64]; fm_nrec = 0; maxSz = 0; if (sx_param("gib", 0)) maxSz = (size_t)1 << 30; }
    piol->comm->barrier(); Req& q = req[rank]; q.bsz = q.osz = 1; size_t lim = maxSz ? maxSz : DataMPIIO::Opt().maxSize; static unsigned char space[FM_MAXR][16]; q.buf = space[rank];
    if (mode == 0) { q.nb = sx_any<uint64_t>("sz"); sx_assume(q.nb <= 3 * lim + 5); q.off = sx_any<uint64_t>("off"); sx_assume(q.off < (uint64_t)1 << 60); }
    else {
        if (rank == 0) { q.bsz = sx_any<uint32_t>("bsz"); sx_assume(q.bsz >= 1 && q.bsz <= lim); if (mode == 1) { static const size_t os[] = {(size_t)1 << 28, ((size_t)1 << 28) + 12347, 536869887}; q.osz = os[sx_choose(3, "osz")]; sx_assume(q.osz >= q.bsz && q.osz <= lim); } else { static const size_t bs[] = {(size_t)1 << 26, ((size_t)1 << 27) + 1, 268434943}; q.bsz = bs[sx_choose(3, "bs")]; sx_assume(q.bsz <= lim / 2); } }
        piol->comm->barrier(); q.bsz = req[0].bsz; q.osz = req[0].osz; q.nb = sx_choose(sx_param("nb", 5) + 1, "nb"); q.off = sx_any<uint64_t>("off"); sx_assume(q.off < (uint64_t)1 << 50);
        if (mode == 2) { size_t at = q.off; for (size_t b = 0; b < q.nb; b++) { q.list[b] = at; uint64_t g = sx_any<uint64_t>("gap"); sx_assume(g && g < (uint64_t)1 << 40); at += q.bsz + g; } }
    }
    auto d = open(piol); go(*d, q); sx_assert(!piol->log->isErr(), "no error is logged"); d.reset(); piol->comm->barrier();
    // walk the accesses of this process in order of the buffer: they must be the requested bytes, once each
    size_t bs = mode == 0 ? 1 : q.bsz; size_t tot = mode == 0 ? q.nb : q.nb * bs, pos = 0; size_t blk = 0, in = 0, calls = 0;
    for (int i = 0; i < fm_nrec; i++) if (fm_recs[i].rank == rank && fm_recs[i].len) {
        FRec& r = fm_recs[i]; calls++; sx_assert(r.kind == (wr ? 1 : 0), "the direction of the transfer"); sx_assert(r.len > 0 && r.len <= 0x7fffffff, "the length of a transfer is within the limit");
        sx_assert(r.buf == q.buf + pos, "each transfer continues in the buffer where the last one ended");
        if (mode == 0) sx_assert((uint64_t)r.off == q.off + pos, "each transfer continues in the file where the last one ended");
        else { sx_assert(blk < q.nb, "no block is transferred twice"); sx_assert((uint64_t)r.off == blockAt(q, blk) + in, "each block is transferred at its position"); in += r.len; sx_assert(in <= bs, "a transfer stays within its block"); if (in == bs) { in = 0; blk++; } }
        pos += r.len;
    }
    sx_assert(pos == tot, "each requested byte is transferred exactly once"); if (calls > 1) sx_cover("chunked"); if (!calls) sx_cover("nothing"); sx_observe("calls", calls);
}
extern "C" void harness() { mode = sx_param("mode", 0); ranks = sx_param("ranks", 1); if (sx_param("large", 0)) fm_run(ranks, large); else fm_run(ranks, small); }
