#include "fakempi.h"
#include "sx.h"
#include <cstring>
#include <cstdlib>

enum TK { T_CHAR, T_SCHAR, T_UCHAR, T_BYTE, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_ULLONG, T_FLOAT, T_DOUBLE, T_LDOUBLE, T_DERIVED };
struct Blk { long off; long len; };
struct ompi_datatype_t { int kind; size_t size; long lb, extent; int nblk; Blk* blk; bool live, committed; };
struct ompi_predefined_datatype_t { ompi_datatype_t d; };
#define PT(name, k, ty) ompi_predefined_datatype_t name = {{k, sizeof(ty), 0, (long)sizeof(ty), 0, nullptr, true, true}};
extern "C" {
PT(ompi_mpi_char, T_CHAR, char) PT(ompi_mpi_signed_char, T_SCHAR, signed char) PT(ompi_mpi_unsigned_char, T_UCHAR, unsigned char) PT(ompi_mpi_byte, T_BYTE, char)
PT(ompi_mpi_short, T_SHORT, short) PT(ompi_mpi_unsigned_short, T_USHORT, unsigned short) PT(ompi_mpi_int, T_INT, int) PT(ompi_mpi_unsigned, T_UINT, unsigned)
PT(ompi_mpi_long, T_LONG, long) PT(ompi_mpi_unsigned_long, T_ULONG, unsigned long) PT(ompi_mpi_long_long_int, T_LLONG, long long) PT(ompi_mpi_unsigned_long_long, T_ULLONG, unsigned long long)
PT(ompi_mpi_float, T_FLOAT, float) PT(ompi_mpi_double, T_DOUBLE, double) PT(ompi_mpi_long_double, T_LDOUBLE, long double)
PT(ompi_mpi_datatype_null, T_DERIVED, char)
PT(ompi_mpi_int8_t, T_SCHAR, int8_t) PT(ompi_mpi_uint8_t, T_UCHAR, uint8_t) PT(ompi_mpi_int16_t, T_SHORT, int16_t) PT(ompi_mpi_uint16_t, T_USHORT, uint16_t) PT(ompi_mpi_int32_t, T_INT, int32_t) PT(ompi_mpi_uint32_t, T_UINT, uint32_t) PT(ompi_mpi_int64_t, T_LONG, int64_t) PT(ompi_mpi_uint64_t, T_ULONG, uint64_t) PT(ompi_mpi_aint, T_LONG, long) PT(ompi_mpi_offset, T_LLONG, long long) PT(ompi_mpi_cxx_bool, T_UCHAR, bool)
}
struct ompi_op_t { int k; }; struct ompi_predefined_op_t { ompi_op_t o; };
enum { OP_MAX, OP_MIN, OP_SUM, OP_PROD, OP_LAND, OP_BAND, OP_LOR, OP_BOR, OP_NULL };
extern "C" {
ompi_predefined_op_t ompi_mpi_op_max = {{OP_MAX}}, ompi_mpi_op_min = {{OP_MIN}}, ompi_mpi_op_sum = {{OP_SUM}}, ompi_mpi_op_prod = {{OP_PROD}}, ompi_mpi_op_land = {{OP_LAND}}, ompi_mpi_op_band = {{OP_BAND}}, ompi_mpi_op_lor = {{OP_LOR}}, ompi_mpi_op_bor = {{OP_BOR}}, ompi_mpi_op_null = {{OP_NULL}};
}
struct ompi_info_t { int x; }; struct ompi_predefined_info_t { ompi_info_t i; };
extern "C" { ompi_predefined_info_t ompi_mpi_info_null = {{0}}, ompi_mpi_info_env = {{0}}; }
struct ompi_errhandler_t { int x; }; struct ompi_predefined_errhandler_t { ompi_errhandler_t e; };
extern "C" { ompi_predefined_errhandler_t ompi_mpi_errors_return = {{0}}, ompi_mpi_errors_are_fatal = {{1}}, ompi_mpi_errhandler_null = {{2}}; }

enum CK { C_BARRIER, C_ALLREDUCE, C_ALLGATHER, C_EXSCAN, C_SCAN, C_BCAST, C_REDUCE, C_GATHER, C_SCATTER, C_ALLTOALL, C_WIN, C_WINFREE, C_FENCE, C_OPEN, C_CLOSE, C_READALL, C_WRITEALL, C_VIEW, C_SETSIZE, C_SYNC, C_DUP, C_SPLIT, C_ALLGATHERV };
static const char* ckname[] = {"barrier", "allreduce", "allgather", "exscan", "scan", "bcast", "reduce", "gather", "scatter", "alltoall", "window creation", "window free", "fence", "file open", "file close", "collective read", "collective write", "file view", "file set size", "file sync", "communicator dup", "communicator split", "allgatherv"};
struct Slot { int kind, arrived; long a, b, c, d; const void* sb[FM_MAXR]; void* rb[FM_MAXR]; long x[FM_MAXR]; const void* y[FM_MAXR]; void* res; bool done; Slot* next; };
struct ompi_communicator_t { bool null, self; int n; int world[FM_MAXR]; Slot* head; long seq[FM_MAXR]; bool live; };
struct ompi_predefined_communicator_t { ompi_communicator_t c; };
extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world = {{false, false, 1, {0}, nullptr, {0}, true}}, ompi_mpi_comm_self = {{false, true, 1, {0}, nullptr, {0}, true}}, ompi_mpi_comm_null = {{true, false, 0, {0}, nullptr, {0}, false}};
}
static int nranks = 1; static size_t threadOf[FM_MAXR]; static int rankOfThread[64]; static bool ready = false;
static long progress = 0; static long collCount[FM_MAXR];
int fm_sched_budget = 0; bool fm_sync_send = false; bool fm_check_view_order = true; int fm_wtime = 0; bool fm_mismatch_fail = true;
const char* fm_last_openname = nullptr;
int fm_rank() { return ready ? rankOfThread[sx_self()] : 0; }
int fm_size() { return nranks; }
long fm_collcount(int r) { return collCount[r]; }
static void (*runFn)(int);
static void tramp(void* p) { runFn((int)(long)p); progress++; }
void fm_run(int n, void (*fn)(int)) {
  nranks = n; auto& w = ompi_mpi_comm_world.c; w.n = n; for (int i = 0; i < n; i++) { w.world[i] = i; w.seq[i] = 0; collCount[i] = 0; } w.head = nullptr;
  runFn = fn; for (int i = 0; i < n; i++) { threadOf[i] = sx_spawn(tramp, (void*)(long)i); rankOfThread[threadOf[i]] = i; } ready = true;
  while (sx_nthreads_alive() > 1) sx_yield();
  ready = false; nranks = 1; w.n = 1;
}
void fm_sched_point() { if (ready && fm_sched_budget > 0 && nranks > 1) { fm_sched_budget--; uint64_t k = sx_choose(nranks, "schedule"); sx_switch(threadOf[k]); } }
#define WAIT_UNTIL(cond, what) do { long seen = progress; int idle = 0; while (!(cond)) { if (progress != seen) { seen = progress; idle = 0; } else if (++idle > 3 * nranks + 3) sx_fail("deadlock: a process waits forever in " what); sx_yield(); } progress++; } while (0)
static const char* errMismatch(int) { return "processes disagree about the next collective operation"; }

static int commRank(MPI_Comm c) { if (c->self || !ready) return 0; for (int i = 0; i < c->n; i++) if (c->world[i] == fm_rank()) return i; sx_fail("process is not a member of the communicator"); return 0; }
static int commSize(MPI_Comm c) { return c->self ? 1 : c->n; }
// enter collective; returns the slot after every member arrived. `fin` runs once, by the last to arrive.
static Slot* enter(MPI_Comm c, int kind, long a, long b, long cc, const void* sb, void* rb, long x, const void* y, void (*fin)(Slot*, MPI_Comm)) {
  if (c->null) sx_fail("collective call on a null communicator");
  int r = commRank(c), n = commSize(c);
  if (n == 1) { static Slot solo; Slot* s = (Slot*)malloc(sizeof(Slot)); (void)solo; memset(s, 0, sizeof(Slot)); s->kind = kind; s->a = a; s->b = b; s->c = cc; s->sb[0] = sb; s->rb[0] = rb; s->x[0] = x; s->y[0] = y; s->arrived = 1; if (!c->self && ready) collCount[fm_rank()]++; if (fin) fin(s, c); return s; }
  collCount[fm_rank()]++;
  long q = c->seq[r]++; Slot** p = &c->head; for (long i = 0; i < q; i++) p = &(*p)->next;
  if (!*p) { Slot* s = (Slot*)malloc(sizeof(Slot)); memset(s, 0, sizeof(Slot)); s->kind = kind; s->a = a; s->b = b; s->c = cc; *p = s; }
  Slot* s = *p;
  if (s->kind != kind || s->a != a || s->b != b || s->c != cc) sx_fail(errMismatch(kind));
  s->sb[r] = sb; s->rb[r] = rb; s->x[r] = x; s->y[r] = y; s->arrived++; progress++;
  if (s->arrived == n) { if (fin) fin(s, c); s->done = true; }
  else { WAIT_UNTIL(s->done, "a collective operation"); }
  return s;
}
template <class T> static void red(int op, const T* a, T* acc, long n) {
  for (long i = 0; i < n; i++) switch (op) {
    case OP_MAX: { T x = a[i], y = acc[i]; acc[i] = y < x ? x : y; break; } case OP_MIN: { T x = a[i], y = acc[i]; acc[i] = x < y ? x : y; break; }
    case OP_SUM: acc[i] = acc[i] + a[i]; break; case OP_PROD: acc[i] = acc[i] * a[i]; break;
    case OP_LAND: acc[i] = (acc[i] != 0) & (a[i] != 0); break; case OP_LOR: acc[i] = (acc[i] != 0) | (a[i] != 0); break; default: sx_fail("reduction operation without a model"); }
}
static void reduce(MPI_Datatype t, int op, const void* a, void* acc, long n) {
  switch (t->kind) {
    case T_CHAR: case T_SCHAR: return red(op, (const signed char*)a, (signed char*)acc, n); case T_UCHAR: return red(op, (const unsigned char*)a, (unsigned char*)acc, n);
    case T_SHORT: return red(op, (const short*)a, (short*)acc, n); case T_USHORT: return red(op, (const unsigned short*)a, (unsigned short*)acc, n);
    case T_INT: return red(op, (const int*)a, (int*)acc, n); case T_UINT: return red(op, (const unsigned*)a, (unsigned*)acc, n);
    case T_LONG: case T_LLONG: return red(op, (const long*)a, (long*)acc, n); case T_ULONG: case T_ULLONG: return red(op, (const unsigned long*)a, (unsigned long*)acc, n);
    case T_FLOAT: return red(op, (const float*)a, (float*)acc, n); case T_DOUBLE: return red(op, (const double*)a, (double*)acc, n);
    default: sx_fail("reduction over a type without arithmetic"); }
}
static bool ok(MPI_Datatype t) { return t && t->live; }
static long bytes(int n, MPI_Datatype t) { if (n < 0) sx_fail("negative count passed to MPI"); if (!ok(t)) sx_fail("use of an invalid MPI datatype"); return (long)n * (long)t->size; }

static void finReduce(Slot* s, MPI_Comm c) {
  int n = commSize(c); MPI_Datatype t = (MPI_Datatype)s->y[0]; long cnt = s->a; long sz = cnt * t->size; if (!sz) return;
  char* acc = (char*)malloc(sz);
  if (s->kind == C_EXSCAN || s->kind == C_SCAN) {
    char* in = (char*)malloc(sz);
    for (int r = 0; r < n; r++) {
      memcpy(in, s->sb[r] == MPI_IN_PLACE ? s->rb[r] : s->sb[r], sz);
      if (s->kind == C_EXSCAN) { if (r > 0) memcpy(s->rb[r], acc, sz); if (r == 0) memcpy(acc, in, sz); else reduce(t, (int)s->b, in, acc, cnt); }
      else { if (r == 0) memcpy(acc, in, sz); else reduce(t, (int)s->b, in, acc, cnt); memcpy(s->rb[r], acc, sz); }
    }
    free(in); free(acc); return;
  }
  for (int r = 0; r < n; r++) { const void* in = s->sb[r] == MPI_IN_PLACE ? s->rb[r] : s->sb[r]; if (r == 0) memcpy(acc, in, sz); else reduce(t, (int)s->b, in, acc, cnt); }
  if (s->kind == C_REDUCE) memcpy(s->rb[s->c], acc, sz); else for (int r = 0; r < n; r++) memcpy(s->rb[r], acc, sz);
  free(acc);
}
static void finGather(Slot* s, MPI_Comm c) {
  int n = commSize(c); long sz = s->a;
  if (!sz) return;
  for (int r = 0; r < n; r++) {
    if (s->kind == C_GATHER && r != s->c) continue;
    for (int q = 0; q < n; q++) { if (s->sb[q] == MPI_IN_PLACE) { if (q != r) memcpy((char*)s->rb[r] + q * sz, (char*)s->rb[q] + q * sz, sz); } else memcpy((char*)s->rb[r] + q * sz, s->sb[q], sz); }
  }
}
static void finBcast(Slot* s, MPI_Comm c) { for (int r = 0; r < commSize(c); r++) if (r != s->c && s->a) memcpy(s->rb[r], s->rb[s->c], s->a); }

struct FH_ ; 
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; } int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; } int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
double MPI_Wtime() { return fm_wtime++; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = commRank(c); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = commSize(c); return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c) { enter(c, C_BARRIER, 0, 0, 0, 0, 0, 0, 0, nullptr); return MPI_SUCCESS; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { bytes(n, t); enter(c, C_ALLREDUCE, n, op->k, (long)t->size * 32 + t->kind, s, r, 0, t, finReduce); return MPI_SUCCESS; }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { bytes(n, t); enter(c, C_EXSCAN, n, op->k, 0, s, r, 0, t, finReduce); return MPI_SUCCESS; }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { bytes(n, t); enter(c, C_SCAN, n, op->k, 0, s, r, 0, t, finReduce); return MPI_SUCCESS; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { bytes(n, t); enter(c, C_REDUCE, n, op->k, root, s, r, 0, t, finReduce); return MPI_SUCCESS; }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int n2, MPI_Datatype t2, MPI_Comm c) { if (s != MPI_IN_PLACE && bytes(n, t) != bytes(n2, t2)) sx_fail("gather with different send and receive sizes"); enter(c, C_ALLGATHER, bytes(n2, t2), 0, 0, s, r, 0, t, finGather); return MPI_SUCCESS; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, int root, MPI_Comm c) { enter(c, C_GATHER, bytes(n, t), 0, root, s, r, 0, t, finGather); return MPI_SUCCESS; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { enter(c, C_BCAST, bytes(n, t), 0, root, nullptr, b, 0, t, finBcast); return MPI_SUCCESS; }
}
static void finDup(Slot* s, MPI_Comm c) { MPI_Comm d = (MPI_Comm)malloc(sizeof(ompi_communicator_t)); *d = *c; d->head = nullptr; for (int i = 0; i < FM_MAXR; i++) d->seq[i] = 0; s->res = d; }
MPI_Comm fm_subcomm(int first, int n) { MPI_Comm d = (MPI_Comm)malloc(sizeof(ompi_communicator_t)); memset(d, 0, sizeof *d); d->n = n; d->live = true; for (int i = 0; i < n; i++) d->world[i] = first + i; return d; }
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { Slot* s = enter(c, C_DUP, 0, 0, 0, 0, 0, 0, 0, finDup); *o = (MPI_Comm)s->res; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* n) { s[0] = 'e'; s[1] = (char)('0' + (e % 10)); s[2] = 0; *n = 2; return MPI_SUCCESS; }
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }
int MPI_Get_library_version(char* v, int* n) { v[0] = 'm'; v[1] = 0; *n = 1; return MPI_SUCCESS; }
int MPI_Get_processor_name(char* v, int* n) { v[0] = 'm'; v[1] = 0; *n = 1; return MPI_SUCCESS; }
int MPI_Info_create(MPI_Info* i) { *i = (MPI_Info)malloc(sizeof(ompi_info_t)); return MPI_SUCCESS; }
int MPI_Info_dup(MPI_Info, MPI_Info* i) { return MPI_Info_create(i); }
int MPI_Info_set(MPI_Info, const char*, const char*) { return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info* i) { if (*i != MPI_INFO_NULL) free(*i); *i = MPI_INFO_NULL; return MPI_SUCCESS; }
}
// ---------------------------------------------------------------------------------------------- point to point
struct Msg { int src, dst, tag; MPI_Comm c; const char* buf; char* copy; long n; bool matched; struct ompi_request_t* rreq; struct ompi_request_t* sreq; Msg* next; };
struct ompi_request_t { int kind; /*0 null 1 send 2 recv*/ bool complete; char* buf; long cap; int src, tag, owner; MPI_Comm c; Msg* msg; ompi_request_t* next; };
struct ompi_predefined_request_t { ompi_request_t r; };
extern "C" { ompi_predefined_request_t ompi_request_null = {{0, true, nullptr, 0, 0, 0, 0, nullptr, nullptr, nullptr}}; }
static Msg* msgs; static ompi_request_t* posted;
static void snap(Msg* m) { if (!m->copy && m->n) { m->copy = (char*)malloc(m->n); memcpy(m->copy, m->buf, m->n); } }
static bool fits(Msg* m, ompi_request_t* r) { return m->c == r->c && m->dst == r->owner && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void match() { // MPI order: messages and receives are matched in the order in which they were posted
  for (ompi_request_t* r = posted; r; r = r->next) if (!r->msg) for (Msg* m = msgs; m; m = m->next) if (!m->matched && fits(m, r)) { m->matched = true; m->rreq = r; r->msg = m; progress++; break; }
}
template <class L> static void append(L*& h, L* x) { L** p = &h; while (*p) p = &(*p)->next; *p = x; }
static Msg* post(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
  if (dst < 0 || dst >= commSize(c)) sx_fail("message sent to a process that does not exist");
  Msg* m = (Msg*)malloc(sizeof(Msg)); memset(m, 0, sizeof *m); m->src = commRank(c); m->dst = dst; m->tag = tag; m->c = c; m->buf = (const char*)b; m->n = bytes(n, t); append(msgs, m); progress++; match(); return m;
}
extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) {
  ompi_request_t* r = (ompi_request_t*)malloc(sizeof *r); memset(r, 0, sizeof *r); r->kind = 1; r->msg = post(b, n, t, dst, tag, c); r->msg->sreq = r; *q = r; return MPI_SUCCESS; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) {
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= commSize(c))) sx_fail("receive from a process that does not exist");
  ompi_request_t* r = (ompi_request_t*)malloc(sizeof *r); memset(r, 0, sizeof *r); r->kind = 2; r->buf = (char*)b; r->cap = bytes(n, t); r->src = src; r->tag = tag; r->c = c; r->owner = commRank(c); append(posted, r); match(); *q = r; progress++; return MPI_SUCCESS; }
int MPI_Wait(MPI_Request* q, MPI_Status* st) {
  ompi_request_t* r = *q; if (!r || r->kind == 0) { if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = 0; } return MPI_SUCCESS; }
  if (r->kind == 1) { if (fm_sync_send) WAIT_UNTIL(r->msg->matched, "the completion of a send"); snap(r->msg); }
  else {
    WAIT_UNTIL(r->msg, "a receive");
    Msg* m = r->msg; if (m->n > r->cap) sx_fail("message longer than the receive buffer");
    if (m->n) memcpy(r->buf, m->copy ? m->copy : m->buf, m->n); snap(m);
    if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = m->n; }
  }
  r->complete = true; *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { for (int i = 0; i < n; i++) { MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); } return MPI_SUCCESS; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { Msg* m = post(b, n, t, dst, tag, c); if (fm_sync_send) WAIT_UNTIL(m->matched, "a send"); snap(m); return MPI_SUCCESS; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request q; MPI_Irecv(b, n, t, src, tag, c, &q); return MPI_Wait(&q, st); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) { MPI_Request a, b; MPI_Irecv(rb, rn, rt, src, rtag, c, &a); MPI_Isend(sb, sn, stt, dst, stag, c, &b); MPI_Wait(&a, st); return MPI_Wait(&b, MPI_STATUS_IGNORE); }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = (int)(st->_ucount / t->size); return MPI_SUCCESS; }
}
// ---------------------------------------------------------------------------------------------- one-sided
struct Rma { int target; bool put; char* origin; long disp, n; Rma* next; };
struct ompi_win_t { MPI_Comm c; void* base[FM_MAXR]; long size[FM_MAXR]; int du[FM_MAXR]; bool alloc; Rma* q[FM_MAXR]; int lock[FM_MAXR][FM_MAXR]; bool all[FM_MAXR]; bool fence; bool freed; };
struct ompi_predefined_win_t { ompi_win_t w; };
extern "C" { ompi_predefined_win_t ompi_mpi_win_null; }
static void finWin(Slot* s, MPI_Comm c) { ompi_win_t* w = (ompi_win_t*)malloc(sizeof *w); memset(w, 0, sizeof *w); w->c = c; for (int r = 0; r < commSize(c); r++) { w->base[r] = (void*)s->sb[r]; w->size[r] = s->x[r]; w->du[r] = (int)(long)s->rb[r]; } s->res = w; }
static void flush(ompi_win_t* w, int me, int target) {
  Rma** p = &w->q[me];
  while (*p) { Rma* x = *p; if (target >= 0 && x->target != target) { p = &x->next; continue; }
    char* t = (char*)w->base[x->target] + x->disp; if (x->put) memcpy(t, x->origin, x->n); else memcpy(x->origin, t, x->n); *p = x->next; free(x); }
}
static void rma(bool put, void* o, int n, MPI_Datatype t, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w) {
  if (w == MPI_WIN_NULL || w->freed) sx_fail("access to a freed or null window");
  int me = commRank(w->c); long b = bytes(n, t); if (b != bytes(tn, tt)) sx_fail("one-sided access with different origin and target sizes");
  if (target < 0 || target >= commSize(w->c)) sx_fail("one-sided access to a process that does not exist");
  if (!w->lock[me][target] && !w->all[me] && !w->fence) sx_fail("one-sided access outside of an access epoch");
  if (!b) return;
  long d = (long)disp * w->du[target]; if (d < 0 || d > w->size[target] || b > w->size[target] - d) sx_fail("one-sided access outside of the window");
  Rma* x = (Rma*)malloc(sizeof *x); x->target = target; x->put = put; x->origin = (char*)o; x->disp = d; x->n = b; x->next = nullptr; append(w->q[me], x);
}
extern "C" {
int MPI_Win_create(void* b, MPI_Aint n, int du, MPI_Info, MPI_Comm c, MPI_Win* w) { Slot* s = enter(c, C_WIN, 0, 0, 0, b, (void*)(long)du, n, 0, finWin); *w = (MPI_Win)s->res; return MPI_SUCCESS; }
int MPI_Win_allocate(MPI_Aint n, int du, MPI_Info, MPI_Comm c, void* pb, MPI_Win* w) { void* b = malloc(n); memset(b, 0, n); *(void**)pb = b; Slot* s = enter(c, C_WIN, 1, 0, 0, b, (void*)(long)du, n, 0, finWin); ((MPI_Win)s->res)->alloc = true; *w = (MPI_Win)s->res; return MPI_SUCCESS; }
int MPI_Win_free(MPI_Win* pw) { MPI_Win w = *pw; if (w == MPI_WIN_NULL) sx_fail("free of a null window"); int me = commRank(w->c); if (w->q[me]) sx_fail("window freed with pending accesses"); enter(w->c, C_WINFREE, (long)w, 0, 0, 0, 0, 0, 0, nullptr); if (w->alloc) free(w->base[me]); *pw = MPI_WIN_NULL; return MPI_SUCCESS; }
int MPI_Win_lock(int, int target, int, MPI_Win w) { fm_sched_point(); if (w == MPI_WIN_NULL || w->freed) sx_fail("lock of a null window"); int me = commRank(w->c); if (target < 0 || target >= commSize(w->c)) sx_fail("lock of a process that does not exist"); if (w->lock[me][target]) sx_fail("window locked twice"); w->lock[me][target] = 1; return MPI_SUCCESS; }
int MPI_Win_unlock(int target, MPI_Win w) { int me = commRank(w->c); if (target < 0 || target >= commSize(w->c) || !w->lock[me][target]) sx_fail("unlock of a window that is not locked"); flush(w, me, target); w->lock[me][target] = 0; fm_sched_point(); return MPI_SUCCESS; }
int MPI_Win_lock_all(int, MPI_Win w) { w->all[commRank(w->c)] = true; return MPI_SUCCESS; }
int MPI_Win_unlock_all(MPI_Win w) { int me = commRank(w->c); flush(w, me, -1); w->all[me] = false; return MPI_SUCCESS; }
int MPI_Win_flush(int t, MPI_Win w) { flush(w, commRank(w->c), t); return MPI_SUCCESS; }
int MPI_Win_flush_all(MPI_Win w) { flush(w, commRank(w->c), -1); return MPI_SUCCESS; }
int MPI_Win_flush_local(int t, MPI_Win w) { flush(w, commRank(w->c), t); return MPI_SUCCESS; }
int MPI_Win_sync(MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_fence(int, MPI_Win w) { flush(w, commRank(w->c), -1); enter(w->c, C_FENCE, (long)w, 0, 0, 0, 0, 0, 0, nullptr); w->fence = true; return MPI_SUCCESS; }
int MPI_Put(const void* o, int n, MPI_Datatype t, int target, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { rma(true, (void*)o, n, t, target, d, tn, tt, w); return MPI_SUCCESS; }
int MPI_Get(void* o, int n, MPI_Datatype t, int target, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { rma(false, o, n, t, target, d, tn, tt, w); return MPI_SUCCESS; }
}
// ---------------------------------------------------------------------------------------------- datatypes
static MPI_Datatype derive(int nblk, MPI_Datatype old) {
  if (!ok(old)) sx_fail("use of an invalid MPI datatype"); MPI_Datatype t = (MPI_Datatype)malloc(sizeof *t); memset(t, 0, sizeof *t); t->kind = T_DERIVED; t->live = true; int per = old->nblk ? old->nblk : 1; t->blk = (Blk*)malloc(sizeof(Blk) * (size_t)(nblk * per + 1)); return t; }
static void put(MPI_Datatype t, long off, long count, MPI_Datatype old) { // count consecutive olds at byte offset off
  if (count == 0) return;
  if (old->nblk == 0 || (old->nblk == 1 && old->blk[0].off == 0 && old->blk[0].len == old->extent)) { Blk b = {off, count * old->extent}; if (t->nblk && t->blk[t->nblk - 1].off + t->blk[t->nblk - 1].len == b.off) t->blk[t->nblk - 1].len += b.len; else t->blk[t->nblk++] = b; }
  else sx_fail("nested derived datatype without a model"); t->size += count * old->size;
}
static void fin(MPI_Datatype t) { long lb = 0, ub = 0; for (int i = 0; i < t->nblk; i++) { if (i == 0 || t->blk[i].off < lb) lb = t->blk[i].off; long e = t->blk[i].off + t->blk[i].len; if (i == 0 || e > ub) ub = e; } t->lb = lb; t->extent = ub - lb; }
extern "C" {
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { *t = derive(1, o); put(*t, 0, n, o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype* t) { if (n < 0 || bl < 0) return MPI_ERR_ARG; *t = derive(n, o); for (int i = 0; i < n; i++) put(*t, i * (long)st, bl, o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype* t) { return MPI_Type_create_hvector(n, bl, (long)st * o->extent, o, t); }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t) { if (n < 0 || bl < 0) return MPI_ERR_ARG; *t = derive(n, o); for (int i = 0; i < n; i++) put(*t, d[i], bl, o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t) { *t = derive(n, o); for (int i = 0; i < n; i++) put(*t, d[i], bl[i], o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype o, MPI_Datatype* t) { *t = derive(n, o); for (int i = 0; i < n; i++) put(*t, (long)d[i] * o->extent, bl[i], o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype o, MPI_Datatype* t) { *t = derive(n, o); for (int i = 0; i < n; i++) put(*t, (long)d[i] * o->extent, bl, o); fin(*t); return MPI_SUCCESS; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype* t) { *t = derive(1, o); for (int i = 0; i < o->nblk; i++) (*t)->blk[i] = o->blk[i]; (*t)->nblk = o->nblk; if (!o->nblk) { (*t)->blk[0] = {0, o->extent}; (*t)->nblk = 1; } (*t)->size = o->size; (*t)->lb = lb; (*t)->extent = ex; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype* t) { (*t)->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) { if (*t == MPI_DATATYPE_NULL) sx_fail("free of a null datatype"); (*t)->live = false; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)t->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = t->lb; *e = t->extent; return MPI_SUCCESS; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = t->lb; *e = t->extent; return MPI_SUCCESS; }
}
// ---------------------------------------------------------------------------------------------- files
bool fm_fault = false; long fm_fault_at = 0; long fm_calls = 0; int fm_faults_raised = 0; int fm_fault_rank = -1; bool fm_open_failed = false, fm_fault_keep_size = false;
bool fm_record = false; FRec* fm_recs = nullptr; int fm_nrec = 0, fm_maxrec = 0; bool fm_record_only = false;
static FFile files[8]; static int nfiles = 0;
FFile* ff_file(const char* name) {
  for (int i = 0; i < nfiles; i++) if (strcmp(files[i].name, name) == 0) return &files[i];
  if (nfiles == 8 || strlen(name) >= 64) sx_fail("file model: too many files"); FFile* f = &files[nfiles++]; strcpy(f->name, name); f->data = nullptr; f->cap = f->size = 0; f->exists = false; return f;
}
static void reserve(FFile* f, size_t n) { if (n <= f->cap) return; if (n > (1u << 22)) { sx_fail("file access far beyond the end of the file"); } size_t c = n + 256; unsigned char* d = (unsigned char*)malloc(c); memset(d, 0, c); if (f->size) memcpy(d, f->data, f->size); free(f->data); f->data = d; f->cap = c; }
FFile* ff_create(const char* name, size_t cap, size_t size) { FFile* f = ff_file(name); f->exists = true; reserve(f, cap); f->size = size; return f; }
struct ompi_file_t { FFile* f; MPI_Comm c; int amode; long disp; MPI_Datatype et, ft; int nblk; Blk* blk; long fsize, fext; bool open; };
struct ompi_predefined_file_t { ompi_file_t f; };
extern "C" { ompi_predefined_file_t ompi_mpi_file_null; }
static bool fault() { long k = fm_calls++; if (fm_fault && k == fm_fault_at && (fm_fault_rank < 0 || fm_fault_rank == fm_rank())) { fm_faults_raised++; return true; } return false; }
static bool gone(MPI_File f) { return f == MPI_FILE_NULL && fm_faults_raised > 0; } // after a failed open calls report an error
static void chk(MPI_File f) { if (f == MPI_FILE_NULL || !f || !f->open) sx_fail("use of a closed or null file handle"); }
static void rec(int kind, bool coll, long long off, const void* buf, long long len) { if (!fm_record) return; if (fm_nrec >= fm_maxrec) sx_fail("file model: record overflow"); FRec& r = fm_recs[fm_nrec++]; r.kind = kind; r.rank = fm_rank(); r.coll = coll; r.off = off; r.buf = (unsigned char*)buf; r.len = len; }
static long xfer1(MPI_File h, bool w, bool coll, long fo, char* buf, long n) {
  FFile* f = h->f; rec(w, coll, fo, buf, n); if (fm_record_only) return n; if (fo < 0) sx_fail("file access at a negative offset");
  if (w) { reserve(f, fo + n); memcpy(f->data + fo, buf, n); if ((size_t)(fo + n) > f->size) f->size = fo + n; return n; }
  if ((size_t)fo >= f->size) return 0; long m = (long)f->size - fo; if (m > n) m = n; memcpy(buf, f->data + fo, m); return m;
}
static int xfer(MPI_File h, bool w, bool coll, MPI_Offset off, void* buf, int count, MPI_Datatype t, MPI_Status* st) {
  long n = bytes(count, t); long done = 0; if (gone(h)) return MPI_ERR_FILE; chk(h);
  bool bad = fault();
  if (coll) enter(h->c, w ? C_WRITEALL : C_READALL, 0, 0, 0, 0, 0, 0, 0, nullptr);
  if (bad) return MPI_ERR_IO;
  if (w && (h->amode & MPI_MODE_RDONLY)) return MPI_ERR_READ_ONLY; if (!w && (h->amode & MPI_MODE_WRONLY)) return MPI_ERR_ACCESS;
  if (off < 0) sx_fail("file access at a negative offset");
  if (t->nblk > 1) sx_fail("strided memory datatype in a file access");
  if (h->nblk == 0) { if (n) done = xfer1(h, w, coll, h->disp + off, (char*)buf, n); }
  else {
    long pos = off * (long)h->et->size; // position in the view's data
    while (done < n) {
      if (h->fsize == 0) { sx_fail("data access through an empty file view"); }
      long tile = pos / h->fsize, in = pos % h->fsize; int b = 0; while (in >= h->blk[b].len) { in -= h->blk[b].len; b++; }
      long m = h->blk[b].len - in; if (m > n - done) m = n - done;
      long got = xfer1(h, w, coll, h->disp + tile * h->fext + h->blk[b].off + in, (char*)buf + done, m);
      done += m; pos += m; if (got < m && !w) break;
    }
  }
  if (st != MPI_STATUS_IGNORE) { st->_ucount = done; st->MPI_ERROR = MPI_SUCCESS; }
  progress++; return MPI_SUCCESS;
}
static void finOpen(Slot* s, MPI_Comm c) { for (int r = 0; r < commSize(c); r++) if (s->x[r]) s->res = (void*)1; if (s->res) fm_open_failed = true; }
extern "C" {
int MPI_File_open(MPI_Comm c, const char* name, int amode, MPI_Info, MPI_File* h) {
  bool bad = fault(); fm_last_openname = name; Slot* s = enter(c, C_OPEN, amode, 0, 0, 0, 0, bad, 0, finOpen); // opening fails for all processes or none
  if (s->res) { *h = MPI_FILE_NULL; return MPI_ERR_IO; }
  FFile* f = ff_file(name); if (!f->exists) { if (!(amode & MPI_MODE_CREATE)) { *h = MPI_FILE_NULL; return MPI_ERR_NO_SUCH_FILE; } f->exists = true; f->size = 0; }
  MPI_File x = (MPI_File)malloc(sizeof *x); memset(x, 0, sizeof *x); x->f = f; x->c = c; x->amode = amode; x->et = MPI_BYTE; x->open = true; *h = x; return MPI_SUCCESS; }
int MPI_File_close(MPI_File* h) { chk(*h); bool bad = fault(); enter((*h)->c, C_CLOSE, 0, 0, 0, 0, 0, 0, 0, nullptr); if (bad) return MPI_ERR_IO; if ((*h)->amode & MPI_MODE_DELETE_ON_CLOSE) { (*h)->f->exists = false; (*h)->f->size = 0; } (*h)->open = false; *h = MPI_FILE_NULL; return MPI_SUCCESS; }
int MPI_File_delete(const char* n, MPI_Info) { FFile* f = ff_file(n); if (!f->exists) return MPI_ERR_NO_SUCH_FILE; f->exists = false; f->size = 0; return MPI_SUCCESS; }
int MPI_File_get_size(MPI_File h, MPI_Offset* n) { if (gone(h)) return MPI_ERR_FILE; chk(h); if (!fm_fault_keep_size && fault()) return MPI_ERR_IO; *n = h->f->size; return MPI_SUCCESS; }
int MPI_File_set_size(MPI_File h, MPI_Offset n) { if (gone(h)) return MPI_ERR_FILE; chk(h); bool bad = fault(); enter(h->c, C_SETSIZE, n, 0, 0, 0, 0, 0, 0, nullptr); if (bad) return MPI_ERR_IO; if (fm_record_only) { h->f->size = n; return MPI_SUCCESS; } reserve(h->f, n); if ((size_t)n < h->f->size) memset(h->f->data + n, 0, h->f->size - n); h->f->size = n; return MPI_SUCCESS; }
int MPI_File_preallocate(MPI_File h, MPI_Offset n) { if (gone(h)) return MPI_ERR_FILE; chk(h); reserve(h->f, n); if ((size_t)n > h->f->size) h->f->size = n; return MPI_SUCCESS; }
int MPI_File_sync(MPI_File h) { if (gone(h)) return MPI_ERR_FILE; chk(h); bool bad = fault(); enter(h->c, C_SYNC, 0, 0, 0, 0, 0, 0, 0, nullptr); return bad ? MPI_ERR_IO : MPI_SUCCESS; }
int MPI_File_set_view(MPI_File h, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char*, MPI_Info) {
  if (gone(h)) return MPI_ERR_FILE; chk(h); if (!ok(et) || !ok(ft)) sx_fail("file view made of an invalid datatype"); bool bad = fault(); enter(h->c, C_VIEW, 0, 0, 0, 0, 0, 0, 0, nullptr); if (bad) return MPI_ERR_IO; if (!et->committed || !ft->committed) return MPI_ERR_TYPE; if (disp < 0) return MPI_ERR_ARG;
  h->disp = disp; h->et = et; h->ft = ft; free(h->blk); h->blk = nullptr; h->nblk = 0; h->fsize = ft->size; h->fext = ft->extent;
  if (ft->kind == T_DERIVED) { h->blk = (Blk*)malloc(sizeof(Blk) * (ft->nblk + 1)); h->nblk = ft->nblk; for (int i = 0; i < ft->nblk; i++) { h->blk[i] = ft->blk[i]; if (fm_check_view_order && i && ft->blk[i].off < ft->blk[i - 1].off) sx_fail("file view displacements must not decrease"); if (fm_check_view_order && i && !(h->amode & MPI_MODE_RDONLY) && ft->blk[i].off < ft->blk[i - 1].off + ft->blk[i - 1].len) sx_fail("file view for writing with overlapping blocks"); if (ft->blk[i].off < 0) sx_fail("file view with a negative displacement"); }
    if (!ft->nblk) { h->nblk = 1; h->blk[0] = {0, 0}; h->fsize = 0; } }
  return MPI_SUCCESS; }
int MPI_File_read_at(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer(h, false, false, o, b, n, t, s); }
int MPI_File_read_at_all(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer(h, false, true, o, b, n, t, s); }
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer(h, true, false, o, (void*)b, n, t, s); }
int MPI_File_write_at_all(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer(h, true, true, o, (void*)b, n, t, s); }
}
