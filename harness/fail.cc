// P15: a failing storage call anywhere inside an operation is logged before the operation returns
#include "segy.hh"
static const size_t NT = 3, NS = 2; static std::shared_ptr<ExSeisPIOL> P[FM_MAXR]; static int ranks; static size_t lim;
static std::shared_ptr<ReadInterface> rd(std::shared_ptr<ExSeisPIOL> p) { DataMPIIO::Opt o; if (lim) o.maxSize = lim; auto d = std::make_shared<DataMPIIO>(p, "in.segy", o, FileMode::Read); auto b = std::make_shared<ObjectSEGY>(p, "in.segy", ObjectSEGY::Opt(), d, FileMode::Read); return std::make_shared<ReadSEGY>(p, "in.segy", ReadSEGY::Opt(), b); }
static std::shared_ptr<WriteInterface> wr(std::shared_ptr<ExSeisPIOL> p) { DataMPIIO::Opt o; if (lim) o.maxSize = lim; auto d = std::make_shared<DataMPIIO>(p, "out.segy", o, FileMode::Write); auto b = std::make_shared<ObjectSEGY>(p, "out.segy", ObjectSEGY::Opt(), d, FileMode::Write); return std::make_shared<WriteSEGY>(p, "out.segy", WriteSEGY::Opt(), b); }
static int op; static bool raised[FM_MAXR];
static void arm() { fm_fault_at = fm_calls + sx_any<uint16_t>("fault"); sx_assume(fm_fault_at < fm_calls + 40); fm_fault = true; }
static void proc(int rank) {
    if (rank == 0) { FFile* f = rawFile("in.segy", NT, NS); for (size_t i = 0; i < NT; i++) { unsigned char* h = rawMD(f, i, NS); put16(h + 68, 1); put16(h + 70, 1); for (size_t k = 0; k < NS; k++) put32(rawDF(f, i, NS) + 4 * k, 0x3f800000 + k); } op = sx_choose(14, "op"); }
    auto piol = ExSeis::New(); P[rank] = piol; piol->comm->barrier();
    std::shared_ptr<ReadInterface>* r = new std::shared_ptr<ReadInterface>; std::shared_ptr<WriteInterface>* w = new std::shared_ptr<WriteInterface>; // never destroyed unless asked for
    if (op >= 1 && op <= 6) *r = rd(piol); if (op >= 8) { *w = wr(piol); (*w)->writeNs(NS); (*w)->writeNt(NT); (*w)->writeInc(0.004); (*w)->writeText("text"); }
    Param* p = new Param(3); for (size_t i = 0; i < 3; i++) for (auto& e : p->r->translate) { if (e.second->type() == RuleEntry::MdType::Float) param_utils::setPrm<double>(i, e.first, 1.0, p); else if (e.second->type() == RuleEntry::MdType::Long) param_utils::setPrm<int64_t>(i, e.first, 1, p); else if (e.second->type() == RuleEntry::MdType::Short) param_utils::setPrm<int16_t>(i, e.first, 1, p); }
    float* t = new float[16](); size_t* l = new size_t[3]{0, 1, 2}; size_t* m = new size_t[3]{2, 0, 2}; size_t n = rank == 0 ? 3 : 1; size_t n2 = sx_param("even", 0) ? 3 : n;
    if (op >= 12) { (*w)->writeTrace(0, n, t, p); }
    sx_assert(!piol->log->isErr(), "no error is logged while all calls succeed");
    piol->comm->barrier(); if (rank == 0) arm(); piol->comm->barrier();
    switch (op) {
        case 0: *r = rd(piol); break; case 1: (*r)->readTrace(0, n, t, p); break; case 2: (*r)->readParam(0, n, p); break; case 3: (*r)->readTraceNonContiguous(n2, l, t, p); break;
        case 4: (*r)->readParamNonContiguous(n2, l, p); break; case 5: (*r)->readTraceNonMonotonic(n2, m, t, p); break; case 6: r->reset(); break;
        case 7: *w = wr(piol); break; case 8: (*w)->writeTrace(0, n, t, p); break; case 9: (*w)->writeParam(0, n, p); break; case 10: (*w)->writeTraceNonContiguous(n2, l, t, p); break;
        case 11: (*w)->writeParamNonContiguous(n2, l, p); break; case 12: (*w)->writeTrace(1, n > 1 ? 2 : n, t, PIOL_PARAM_NULL); break; case 13: w->reset(); break;
    }
    bool me = fm_faults_raised && (ranks == 1 || fm_fault_rank == rank || fm_open_failed);
    if (me) { sx_assert(piol->log->isErr(), "a failed storage call is logged"); sx_cover("fault"); if (op == 0) sx_cover("open"); if (op == 6 || op == 13) sx_cover("close"); if (op == 3) sx_cover("list"); }
    else { sx_assert(!piol->log->isErr(), "no error is logged when all calls succeed"); sx_cover("fine"); }
    sx_observe("op", op * 10 + fm_faults_raised);
}
extern "C" void harness() { ranks = sx_param("ranks", 1); lim = sx_param("lim", 0); if (ranks > 1) fm_fault_keep_size = true; if (ranks > 1) fm_fault_rank = sx_choose(ranks, "fault rank"); fm_run(ranks, proc); }
