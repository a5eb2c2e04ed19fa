#ifndef MPISHIM_H
#define MPISHIM_H
#include <stdint.h>
#include <stdbool.h>
typedef struct {
    uint64_t sends, sendBytes, recvs, recvBytes, reduces, isends, irecvs, colls, rendezvous, delays, overtaken, blocked;
    uint64_t reduceElems, reduceBytes, sendElems, recvElems;
    uint64_t grSends, grSendElems, grSendBytes, grRecvs, grRecvElems, grRecvBytes; // part of the above: messages of LAIK's own group reductions (tag 2)
    uint64_t trace;     // hash of all calls of this rank in order: kind, peer, tag, communicator, type, bytes
} VshimStats;
typedef struct {
    uint64_t seed;      // schedule seed
    int eagerPct;       // probability that a standard send is buffered
    int delayPct;       // probability of a delay before an MPI call
    int delayMaxUs;
    int slowRank;       // -1: none; this rank delays more
    int watchdogSec;
} VshimOpts;
typedef void (*vshim_rank_fn)(int rank, int size, void* arg);
/* run n forked ranks; result: 0 fine, 1 violation printed (V line), 2 inconclusive (I line printed) */
int vshim_run(int n, VshimOpts o, vshim_rank_fn fn, void* arg);
/* my traffic so far (this rank) */
VshimStats vshim_stats(void);
/* harness barrier of all ranks (not MPI traffic); checks that nothing is in flight */
void vshim_quiesce(const char* what);
/* harness barrier restricted to nothing: plain barrier without the in-flight check */
void vshim_barrier(void);
/* shared scratch memory for harness (zeroed at world start) */
void* vshim_shared(void); /* 1 MB */
/* turn off delays/rendezvous randomness changes at runtime */
void vshim_setopts(int eagerPct, int delayPct);
void vshim_trace_dump(void);
void vshim_pubwhere(void);
extern int vshim_rank, vshim_size;
#endif
