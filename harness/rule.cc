// P07: rule sets under sequences of edits; P08: getting, setting and copying parameters
#include "segy.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
typedef RuleEntry::MdType Ty;
struct Ent { bool on; Ty ty; size_t loc, scal; };
static const int NM = 35; static Ent X[NM];
static bool defEnt(Meta m, Ent& e) {
    e.on = true; e.scal = 0;
    auto L = [&](size_t l) { e.ty = Ty::Long; e.loc = l; }; auto S = [&](size_t l) { e.ty = Ty::Short; e.loc = l; }; auto F = [&](size_t l, size_t s) { e.ty = Ty::Float; e.loc = l; e.scal = s; };
    switch (m) {
        case PIOL_META_il: L(189); break; case PIOL_META_xl: L(193); break; case PIOL_META_Offset: L(37); break; case PIOL_META_tn: L(5); break;
        case PIOL_META_Tic: S(29); break; case PIOL_META_ns: S(115); break; case PIOL_META_inc: S(117); break; case PIOL_META_VStack: S(31); break; case PIOL_META_HStack: S(33); break; 
        case PIOL_META_xSrc: F(73, 71); break; case PIOL_META_ySrc: F(77, 71); break; case PIOL_META_xRcv: F(81, 71); break; case PIOL_META_yRcv: F(85, 71); break; case PIOL_META_xCmp: F(181, 71); break; case PIOL_META_yCmp: F(185, 71); break;
        case PIOL_META_RGElev: F(41, 69); break; case PIOL_META_tnl: L(1); break; case PIOL_META_COPY: e.ty = Ty::Copy; e.loc = 0; break;
        default: e.on = false; return false; }
    return true;
}
static void check(Rule& r, bool full) {
    size_t n[5] = {0, 0, 0, 0, 0}; bool used[5][40] = {}; size_t total = 0; size_t lo = 1000, hi = 0; static const Ty ty[5] = {Ty::Long, Ty::Short, Ty::Float, Ty::Index, Ty::Copy};
    for (int m = 0; m < NM; m++) {
        auto it = r.translate.find((Meta)m); sx_assert((it != r.translate.end()) == X[m].on, "exactly the rules added and not removed are present"); if (!X[m].on) { sx_assert(r.getEntry((Meta)m) == nullptr, "an absent rule is not found"); continue; }
        total++; RuleEntry* e = it->second; sx_assert(r.getEntry((Meta)m) == e, "a present rule is found"); sx_assert(e->type() == X[m].ty, "a rule has the type it was added with"); int t = 0; while (ty[t] != X[m].ty) t++; n[t]++;
        if (t == 0 || t == 1 || t == 2) { sx_assert(e->loc == X[m].loc, "a rule has the location it was added with"); }
        if (t == 2) sx_assert(static_cast<SEGYFloatRuleEntry*>(e)->scalLoc == X[m].scal, "a rule has the scale location it was added with");
        if (t != 4) { sx_assert(e->num < 40 && !used[t][e->num], "no two rules of a type share a slot"); used[t][e->num] = true; }
        auto cov = [&](size_t a, size_t b) { if (a < lo) lo = a; if (b > hi) hi = b; };
        if (t == 0) cov(X[m].loc, X[m].loc + 4); if (t == 1) cov(X[m].loc, X[m].loc + 2); if (t == 2) { cov(X[m].loc, X[m].loc + 4); cov(X[m].scal, X[m].scal + 2); } if (t == 4) cov(1, 241);
    }
    sx_assert(r.translate.size() == total, "no other rule is present");
    sx_assert(r.numLong == n[0] && r.numShort == n[1] && r.numFloat == n[2] && r.numIndex == n[3] && r.numCopy == n[4], "the counts are those of the rules present");
    for (int t = 0; t < 4; t++) for (size_t k = 0; k < n[t]; k++) sx_assert(used[t][k], "the slots of a type are dense");
    size_t ext = hi > lo ? hi - lo : 0; if (full) ext = 240; size_t got = r.extent(); sx_assert(got == ext, "the extent is the smallest span covering the bytes of every rule"); sx_assert(r.extent() == ext, "the extent stays the same when asked again");
    sx_assert(r.paramMem() == n[0] * 8 + n[1] * 2 + n[2] * 8 + n[3] * 8 + (n[4] ? 240 : 0), "the memory of one set of parameters");
    Param p(std::shared_ptr<Rule>(&r, [](Rule*) {}), 3); sx_assert(p.i.size() == 3 * n[0] && p.s.size() == 3 * n[1] && p.f.size() == 3 * n[2] && p.t.size() == 3 * n[3] && p.c.size() == 3 * 240 * (n[4] != 0), "a parameter structure has room for every rule"); sx_observe("ext", got);
}
static void edits() {
    bool full = sx_choose(2, "full"); int start = sx_param("start", 0); Rule* rp; for (auto& x : X) x.on = false; auto on = [](Meta m) { defEnt(m, X[m]); };
    X[PIOL_META_gtn] = X[PIOL_META_ltn] = {true, Ty::Index, 0, 0};
    if (start == 0) rp = new Rule(full, false); 
    else if (start == 1) { rp = new Rule(std::initializer_list<Meta>{PIOL_META_xl, PIOL_META_xSrc, PIOL_META_VStack}, full); on(PIOL_META_xl); on(PIOL_META_xSrc); on(PIOL_META_VStack); }
    else { rp = new Rule(full, true); for (Meta m : {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn}) on(m); }
    Rule& r = *rp; int ops = sx_param("ops", 2); bool sym = sx_param("sym", 0); 
    auto loc = [&](const char* n, size_t d) -> size_t { if (!sym) return d; size_t l = sx_any<uint8_t>(n); sx_assume(l >= 1 && l <= 235); return l; };
    static const Meta A[] = {PIOL_META_il, PIOL_META_Tic, PIOL_META_xSrc, PIOL_META_RGElev, PIOL_META_COPY, PIOL_META_Misc1, PIOL_META_tnl};
    static const Meta RM[] = {PIOL_META_il, PIOL_META_Tic, PIOL_META_xSrc, PIOL_META_Misc1, PIOL_META_COPY, PIOL_META_gtn, PIOL_META_ltn, PIOL_META_xl};
    for (int o = 0; o < ops; o++) {
        int k = sx_choose(24, "op"); 
        if (k < 7) { bool had = X[A[k]].on; Ent e; bool can = defEnt(A[k], e); bool ok = r.addRule(A[k]); sx_assert(ok == (!had && can), "addRule tells whether a rule was added"); if (ok) X[A[k]] = e; }
        else if (k < 15) { r.rmRule(RM[k - 7]); X[RM[k - 7]].on = false; }
        else if (k == 15) { size_t l = loc("loc", 100); r.addLong(PIOL_META_Misc1, (Tr)l); X[PIOL_META_Misc1] = {true, Ty::Long, l, 0}; }
        else if (k == 16) { size_t l = loc("loc", 220); r.addShort(PIOL_META_Misc1, (Tr)l); X[PIOL_META_Misc1] = {true, Ty::Short, l, 0}; }
        else if (k == 17) { size_t l = loc("loc", 9), c = loc("scal", 235); r.addSEGYFloat(PIOL_META_Misc1, (Tr)l, (Tr)c); X[PIOL_META_Misc1] = {true, Ty::Float, l, c}; }
        else if (k == 18) { r.addIndex(PIOL_META_Misc2); X[PIOL_META_Misc2] = {true, Ty::Index, 0, 0}; }
        else if (k == 19) { size_t l = loc("loc", 13); r.addLong(PIOL_META_il, (Tr)l); X[PIOL_META_il] = {true, Ty::Long, l, 0}; }
        else if (k == 20) { size_t l = loc("loc", 17); r.addShort(PIOL_META_xSrc, (Tr)l); X[PIOL_META_xSrc] = {true, Ty::Short, l, 0}; }
        else if (k == 21) { r.addCopy(); defEnt(PIOL_META_COPY, X[PIOL_META_COPY]); }
        else if (k == 22) { r.extent(); r.getEntry(PIOL_META_Misc3); }
        else { Rule q(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_Offset, PIOL_META_HStack, PIOL_META_RGElev}, true); q.addIndex(PIOL_META_Misc3); q.addShort(PIOL_META_Misc1, (Tr)57); sx_assert(r.addRule(q), "adding the rules of another set succeeds");
            for (Meta m : {PIOL_META_il, PIOL_META_Offset, PIOL_META_HStack, PIOL_META_RGElev}) if (!X[m].on) on(m); for (Meta m : {PIOL_META_Misc3, PIOL_META_gtn, PIOL_META_ltn}) if (!X[m].on) X[m] = {true, Ty::Index, 0, 0}; if (!X[PIOL_META_Misc1].on) X[PIOL_META_Misc1] = {true, Ty::Short, 57, 0}; }
        if (sx_param("each", 0)) check(r, full);
    }
    check(r, full); if (full) sx_cover("full"); else sx_cover("partial"); delete rp; sx_cover("done");
}
static std::shared_ptr<Rule> mk(int k) {
    auto R = [](std::initializer_list<Meta> m, bool full = true) { return std::make_shared<Rule>(m, full); };
    std::shared_ptr<Rule> r;
    if (k == 0) return std::make_shared<Rule>(true, true, true);
    if (k == 1) r = R({PIOL_META_xl, PIOL_META_il, PIOL_META_Tic, PIOL_META_xSrc});
    if (k == 2) r = R({PIOL_META_COPY});
    if (k == 3) { r = R({PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_il, PIOL_META_VStack, PIOL_META_Tic}, false); r->rmRule(PIOL_META_ltn); r->rmRule(PIOL_META_xSrc); }
    if (k == 4) { r = R({PIOL_META_Tic, PIOL_META_COPY, PIOL_META_ySrc}); r->addShort(PIOL_META_il, PIOL_TR_il); r->addIndex(PIOL_META_Misc1); }
    if (k == 5) { r = R({PIOL_META_tn, PIOL_META_il, PIOL_META_COPY}); r->addIndex(PIOL_META_Misc1); r->addLong(PIOL_META_Misc2, PIOL_TR_xl); }
    return r;
}
static const size_t N = 3;
static void fillAll(Param& p) { for (auto& x : p.f) x = b2d(sx_any<uint64_t>("f")); for (auto& x : p.i) x = sx_any<int64_t>("i"); for (auto& x : p.s) x = sx_any<int16_t>("s"); for (auto& x : p.t) x = sx_any<uint64_t>("t"); for (auto& x : p.c) x = sx_any<uint8_t>("c"); }
static uint64_t raw(const Param& p, Meta m, size_t i) { RuleEntry* e = p.r->translate.at(m); switch (e->type()) { case Ty::Float: return d2b(p.f[p.r->numFloat * i + e->num]); case Ty::Long: return p.i[p.r->numLong * i + e->num]; case Ty::Short: return (uint64_t)(int64_t)p.s[p.r->numShort * i + e->num]; case Ty::Index: return p.t[p.r->numIndex * i + e->num]; default: return 0; } }
static void copyOf(Param& q, const Param& p) { q.f = p.f; q.i = p.i; q.s = p.s; q.t = p.t; q.c = p.c; }
static void same(const Param& a, const Param& b, size_t skipTrace, Meta skip, bool all) {
    for (auto& e : a.r->translate) for (size_t i = 0; i < N; i++) if (!(i == skipTrace && (all || e.first == skip))) {
        if (e.second->type() == Ty::Copy) { for (size_t k = 0; k < 240; k++) sx_assert(a.c[i * 240 + k] == b.c[i * 240 + k], "other raw headers are left alone"); }
        else sx_assert(raw(a, e.first, i) == raw(b, e.first, i), "other parameters and other traces are left alone"); }
    sx_assert(a.f.size() == b.f.size() && a.i.size() == b.i.size() && a.s.size() == b.s.size() && a.t.size() == b.t.size() && a.c.size() == b.c.size(), "the structure keeps its size");
}
static void setget() {
    int rk = sx_param("rule", 0); auto r = mk(rk); Param p(r, N), q(r, N); fillAll(p); copyOf(q, p); size_t i = sx_choose(N, "trace"); Meta m = (Meta)sx_choose(NM, "meta"); bool has = r->translate.count(m);
    Ty ty = has ? r->translate.at(m)->type() : Ty::Copy; const Param& cp = p;
    if (ty == Ty::Float) { uint64_t v = sx_any<uint64_t>("v"); param_utils::setPrm(i, m, b2d(v), &p); sx_assert(d2b(param_utils::getPrm<double>(i, m, &cp)) == v, "the value read is the value set"); }
    if (ty == Ty::Long) { int64_t v = sx_any<int64_t>("v"); param_utils::setPrm(i, m, v, &p); sx_assert(param_utils::getPrm<int64_t>(i, m, &cp) == v, "the value read is the value set"); }
    if (ty == Ty::Short) { int16_t v = sx_any<int16_t>("v"); param_utils::setPrm(i, m, v, &p); sx_assert(param_utils::getPrm<int16_t>(i, m, &cp) == v, "the value read is the value set"); }
    if (ty == Ty::Index) { size_t v = sx_any<uint64_t>("v"); param_utils::setPrm(i, m, v, &p); sx_assert(param_utils::getPrm<size_t>(i, m, &cp) == v, "the value read is the value set"); }
    if (!has || ty == Ty::Copy) { int64_t v = sx_any<int64_t>("v"); param_utils::setPrm(i, m, v, &p); sx_assert(param_utils::getPrm<int64_t>(i, m, &cp) == 0, "a parameter without a rule reads as zero"); sx_cover("absent"); same(p, q, N, m, false); }
    else { same(p, q, i, m, false); sx_cover("present"); sx_observe("v", raw(p, m, i)); }
    for (auto& e : r->translate) if (e.second->type() != Ty::Copy && e.second->type() != Ty::Float) for (size_t k = 0; k < N; k++) sx_assert((uint64_t)param_utils::getPrm<int64_t>(k, e.first, &cp) == raw(p, e.first, k), "every parameter is read from its own slot");
}
static void copying() {
    int a = sx_param("src", 0), b = sx_param("dst", 1); auto ra = mk(a), rb = a == b && sx_choose(2, "shared") ? ra : mk(b); Param s(ra, N), d(rb, N), s0(ra, N), d0(rb, N); fillAll(s); fillAll(d); copyOf(s0, s); copyOf(d0, d);
    size_t j = sx_choose(N, "j"), k = sx_choose(N, "k"); param_utils::cpyPrm(j, &s, k, &d);
    same(s, s0, N, PIOL_META_il, false); same(d, d0, k, PIOL_META_il, true);
    for (auto& e : rb->translate) { Meta m = e.first; Ty ty = e.second->type(); auto it = ra->translate.find(m);
        if (it != ra->translate.end() && it->second->type() == ty) { if (ty == Ty::Copy) for (size_t q = 0; q < 240; q++) sx_assert(d.c[k * 240 + q] == s0.c[j * 240 + q], "the raw header is copied"); else sx_assert(raw(d, m, k) == raw(s0, m, j), "a parameter both structures hold is copied"); }
        else if (!ra->numCopy) { if (ty != Ty::Copy) sx_assert(raw(d, m, k) == raw(d0, m, k), "a parameter the source does not hold is left alone"); else for (size_t q = 0; q < 240; q++) sx_assert(d.c[k * 240 + q] == d0.c[k * 240 + q], "a raw header the source does not hold is left alone"); }
        else if (ty == Ty::Index) sx_assert(raw(d, m, k) == raw(d0, m, k), "an index the source does not hold is left alone");
        else if (ty == Ty::Long) sx_assert(raw(d, m, k) == (uint64_t)(int64_t)(int32_t)get32(&s0.c[j * 240 + e.second->loc - 1]), "a parameter in the source's raw header is copied from there");
        else if (ty == Ty::Short) sx_assert(raw(d, m, k) == (uint64_t)(int64_t)(int16_t)get16(&s0.c[j * 240 + e.second->loc - 1]), "a parameter in the source's raw header is copied from there"); }
    param_utils::cpyPrm(j, nullptr, k, &d); param_utils::cpyPrm(j, &s, k, nullptr); param_utils::cpyPrm(j, PIOL_PARAM_NULL, k, &d); param_utils::cpyPrm(j, &s, k, const_cast<Param*>(PIOL_PARAM_NULL)); same(d, d, N, PIOL_META_il, false); if (j != k) sx_cover("moved"); sx_cover("done"); sx_observe("j", j);
}
extern "C" void harness() { int m = sx_param("mode", 0); if (m == 0) edits(); else if (m == 1) setget(); else copying(); }
