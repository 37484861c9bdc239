// Model of the MPI functions ExSeisDat uses.  Ranks are coroutines of one process.  Compiled both for the
// executor and natively for replays.
#pragma once
#include <mpi.h>
#include <cstdint>
#include <cstddef>
#define FM_MAXR 6
// run fn(rank) on n ranks to completion
void fm_run(int n, void (*fn)(int));
int fm_rank();
int fm_size();
// ---- file system
struct FFile { char name[64]; unsigned char* data; size_t cap; size_t size; bool exists; };
FFile* ff_file(const char* name);            // finds or registers (not existing yet)
FFile* ff_create(const char* name, size_t cap, size_t size); // existing file with zero content
// ---- fault injection: the fm_fault_at-th MPI file call (0-based, counted over all ranks) fails when fm_fault is set
extern bool fm_fault; extern long fm_fault_at; extern long fm_calls; extern int fm_faults_raised;
extern bool fm_open_failed; // an open failed because of an injected fault (on all ranks)
extern bool fm_fault_keep_size; // querying the size of a file never fails
extern int fm_fault_rank; // -1: any
// ---- recording of file accesses
struct FRec { int kind; int rank; bool coll; long long off; unsigned char* buf; long long len; }; // kind 0 read 1 write
extern bool fm_record; extern FRec* fm_recs; extern int fm_nrec; extern int fm_maxrec;
extern bool fm_record_only;  // do not move data
// ---- scheduling
extern int fm_sched_budget; // number of points at which another rank may be chosen to continue
void fm_sched_point();
// number of collective calls made so far by a rank on the world communicator
long fm_collcount(int rank);
// strictness
extern bool fm_sync_send; // blocking sends wait for their receive
extern bool fm_check_view_order;
extern int fm_wtime;
extern bool fm_mismatch_fail;
extern const char* fm_last_openname;
MPI_Comm fm_subcomm(int first, int n); // a communicator made of world ranks first..first+n-1 (same handle for all)
