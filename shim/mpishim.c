/* Monitoring MPI stand-in. Ranks are forked processes; all MPI state lives in one shared mapping
 * guarded by one process-shared mutex, so every blocking condition is evaluated exactly:
 * if every live rank is blocked and no state changed since it last evaluated its condition,
 * the program is deadlocked (no timing involved). */
#define _GNU_SOURCE
#include "mpi.h"
#include "mpishim.h"
#include "../harness/vh.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sched.h>

#define MAXR 48
#define MAXMSG 60000
#define MAXPOST 60000
#define MAXCOMM 2048
#define NSLOT 8
#define ARENA (1UL << 30)

typedef struct { int src, dst, comm, tag, dt; long bytes; size_t off; int state; /*0 free 1 queued 2 matched 3 consumed*/ int sync; int next; long seq; int nonblock; } Msg;
typedef struct { int dst, src, comm, tag, dt; long bytes; int state; /*0 free 1 posted 2 matched*/ int msg; int next; } Post;
typedef struct { int size; int ranks[MAXR]; } Comm;
typedef struct { int seq; int inuse, kind, root, count, dt, op, arrived, left, done; size_t off[MAXR]; int color[MAXR], key[MAXR]; int newcomm[MAXR]; size_t res; } Slot;
typedef struct { int kind; int peer, comm, tag; long bytes; int rank; int t; } Ev;
#define NEV 400

typedef struct {
    pthread_mutex_t mu; pthread_cond_t cv;
    int n; int live[MAXR], flag[MAXR]; char what[MAXR][160];
    int dead, finalized;
    VshimOpts o; int eager, delay;
    int qhead[MAXR], qtail[MAXR], phead[MAXR], ptail[MAXR];
    int nmsg, npost, ncomm; long seq;
    Comm comm[MAXCOMM]; Slot slot[MAXCOMM][NSLOT];
    Msg msg[MAXMSG]; Post post[MAXPOST];
    size_t arena; int inflight;
    int bar_count; unsigned bar_gen;
    VshimStats st[MAXR];
    Ev ev[NEV]; int nev;
    char where[MAXR][400];
    char scratch[1 << 20];
} World;

static World* w; static char* arena;
int vshim_rank = -1, vshim_size = 0;
static Rng prng;
static int didInit, didFin;
static int cseq[MAXCOMM];
#define MAXREQ 8192
typedef struct { int used, kind, idx; void* buf; long bytes; int comm; } Req;
static Req req[MAXREQ];

static const int dtsize[VSHIM_DT_MAX] = { 0, 1,1,1,1,1,1, 2,2,2,2, 4,4,4,4,4, 8,8,8,8,8,8, 4,8, 1,1 };
/* equivalence class for signature matching: 1 int8 2 uint8 3.. */
static const int dtclass[VSHIM_DT_MAX] = { 0, 1,1,2,99,1,2, 3,4,3,4, 5,6,5,6,5, 7,8,7,8,7,8, 9,10, 98,2 };

static void lock(void) { pthread_mutex_lock(&w->mu); }
static void unlock(void) { pthread_mutex_unlock(&w->mu); }
static void changed(void) { for (int i = 0; i < w->n; i++) w->flag[i] = 0; pthread_cond_broadcast(&w->cv); }
static void ev(int kind, int peer, int comm, int tag, long bytes) { Ev* e = &w->ev[w->nev++ % NEV]; e->kind = kind; e->peer = peer; e->comm = comm; e->tag = tag; e->bytes = bytes; e->rank = vshim_rank; }
static void dump_locked(void) {
    static const char* nm[] = { "?", "send", "ssend", "isend", "recv", "irecv", "wait", "coll" };
    int s = w->nev > 60 ? w->nev - 60 : 0;
    for (int i = s; i < w->nev; i++) { Ev* e = &w->ev[i % NEV]; vh_line("L rank %d %s peer %d comm %d tag %d bytes %ld", e->rank, nm[e->kind], e->peer, e->comm, e->tag, e->bytes); }
}
void vshim_trace_dump(void) { lock(); dump_locked(); unlock(); }
static void fail_locked(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
static void fail_locked(const char* key, const char* fmt, ...) {
    char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    dump_locked(); w->dead = 1; vh_fail(key, "%s", b);
}
static void check_deadlock(void) {
    int live = 0, fl = 0;
    for (int i = 0; i < w->n; i++) if (w->live[i]) { live++; if (w->flag[i]) fl++; }
    if (live && live == fl && !w->dead) {
        char b[1400]; int k = 0; b[0] = 0;
        for (int i = 0; i < w->n && k < 1200; i++) k += snprintf(b + k, sizeof(b) - (size_t)k, "; rank %d: %s", i, w->live[i] ? w->what[i] : "ended");
        fail_locked("deadlock", "all ranks blocked%s", b);
    }
}
#define BLOCK(cond, ...) do { snprintf(w->what[vshim_rank], sizeof w->what[0], __VA_ARGS__); \
    if (!(cond)) { w->st[vshim_rank].blocked++; while (!(cond)) { w->flag[vshim_rank] = 1; check_deadlock(); pthread_cond_wait(&w->cv, &w->mu); if (w->dead) _exit(78); } w->flag[vshim_rank] = 0; } \
    snprintf(w->what[vshim_rank], sizeof w->what[0], "running"); } while (0)

static void* shared_map(size_t len) {
    void* p = mmap(0, len, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
static void maybe_delay(void) {
    int d = w->delay; if (w->o.slowRank == vshim_rank) d = d * 2 + 20;
    if (d > 0 && rng_p(&prng, d)) { w->st[vshim_rank].delays++; int us = rng_int(&prng, 0, w->o.delayMaxUs); if (us < 2) sched_yield(); else usleep((unsigned)us); }
}
static size_t aalloc(long bytes) { size_t o = w->arena; w->arena += ((size_t)bytes + 63) & ~63UL; if (w->arena > ARENA) { fprintf(stderr, "shim arena full\n"); _exit(3); } return o; }
static int cranks(MPI_Comm c, int me) { Comm* k = &w->comm[c]; for (int i = 0; i < k->size; i++) if (k->ranks[i] == me) return i; return -1; }
static void chkcomm(MPI_Comm c, const char* f) {
    if (!didInit || didFin) fail_locked("mpi-misuse", "%s outside Init/Finalize", f);
    if (c <= 0 || c >= w->ncomm) fail_locked("mpi-misuse", "%s with invalid communicator %d", f, c);
    if (cranks(c, vshim_rank) < 0) fail_locked("mpi-misuse", "%s on communicator without this process", f);
}
static void chkargs(int count, MPI_Datatype dt, const char* f) {
    if (count < 0) fail_locked("mpi-misuse", "%s with negative count %d", f, count);
    if (dt <= 0 || dt >= VSHIM_DT_MAX) fail_locked("mpi-misuse", "%s with invalid datatype", f);
}
static int wrank(MPI_Comm c, int r, const char* f) {
    if (r < 0 || r >= w->comm[c].size) fail_locked("mpi-misuse", "%s with invalid rank %d in communicator of size %d", f, r, w->comm[c].size);
    return w->comm[c].ranks[r];
}
static int deliver_ok(Post* p, Msg* m) { return p->comm == m->comm && (p->src == -1 || p->src == m->src) && (p->tag == MPI_ANY_TAG || p->tag == m->tag); }
static void matchup(Post* p, int pi, Msg* m, int mi) {
    (void)pi;
    if (dtclass[p->dt] != dtclass[m->dt] && dtclass[p->dt] < 98 && dtclass[m->dt] < 98)
        fail_locked("type-mismatch", "message %d->%d sent as datatype %d received as %d", m->src, m->dst, m->dt, p->dt);
    if (m->bytes > p->bytes) fail_locked("truncation", "message %d->%d of %ld bytes received into buffer of %ld bytes", m->src, m->dst, m->bytes, p->bytes);
    p->state = 2; p->msg = mi; m->state = 2; changed();
}
static void trace(VshimStats* s, int kind, int peer, int tag, int what, long bytes) { s->trace = hash_mix(hash_mix(hash_mix(s->trace, (uint64_t)kind * 1000 + (uint64_t)peer), (uint64_t)tag * 4096 + (uint64_t)what), (uint64_t)bytes); }
static int post_msg(const void* buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c, int sync, int nonblock) {
    long bytes = (long)count * dtsize[dt];
    if (w->nmsg >= MAXMSG) { fprintf(stderr, "shim: too many messages\n"); _exit(3); }
    int mi = w->nmsg++; Msg* m = &w->msg[mi];
    m->src = vshim_rank; m->dst = dst; m->comm = c; m->tag = tag; m->dt = dt; m->bytes = bytes; m->sync = sync; m->next = -1; m->seq = w->seq++; m->nonblock = nonblock;
    m->off = aalloc(bytes); if (bytes) memcpy(arena + m->off, buf, (size_t)bytes);
    m->state = 1; w->inflight++;
    VshimStats* s = &w->st[vshim_rank]; trace(s, 1, dst, tag, c * 64 + dt, bytes); if (nonblock) s->isends++; else s->sends++; s->sendBytes += (uint64_t)bytes; s->sendElems += (uint64_t)count; if (tag == 2) { s->grSends++; s->grSendElems += (uint64_t)count; s->grSendBytes += (uint64_t)bytes; } if (sync) s->rendezvous++;
    /* posted receive waiting? */
    int prev = -1;
    for (int pi = w->phead[dst]; pi >= 0; prev = pi, pi = w->post[pi].next) {
        Post* p = &w->post[pi];
        if (deliver_ok(p, m)) {
            if (prev < 0) w->phead[dst] = p->next; else w->post[prev].next = p->next;
            if (w->ptail[dst] == pi) w->ptail[dst] = prev;
            matchup(p, pi, m, mi); return mi;
        }
    }
    if (w->qtail[dst] >= 0) w->msg[w->qtail[dst]].next = mi; else w->qhead[dst] = mi;
    w->qtail[dst] = mi; changed();
    return mi;
}
static int post_recv(long bytes, MPI_Datatype dt, int src, int tag, MPI_Comm c) {
    if (w->npost >= MAXPOST) { fprintf(stderr, "shim: too many receives\n"); _exit(3); }
    int pi = w->npost++; Post* p = &w->post[pi]; int me = vshim_rank;
    trace(&w->st[me], 2, src, tag, c * 64 + dt, bytes); p->dst = me; p->src = src; p->comm = c; p->tag = tag; p->dt = dt; p->bytes = bytes; p->state = 1; p->msg = -1; p->next = -1;
    int prev = -1;
    for (int mi = w->qhead[me]; mi >= 0; prev = mi, mi = w->msg[mi].next) {
        Msg* m = &w->msg[mi];
        if (deliver_ok(p, m)) {
            if (prev < 0) w->qhead[me] = m->next; else w->msg[prev].next = m->next;
            if (w->qtail[me] == mi) w->qtail[me] = prev;
            matchup(p, pi, m, mi); return pi;
        }
    }
    if (w->ptail[me] >= 0) w->post[w->ptail[me]].next = pi; else w->phead[me] = pi;
    w->ptail[me] = pi;
    return pi;
}
static void consume(int pi, void* buf, MPI_Status* st) {
    Post* p = &w->post[pi]; Msg* m = &w->msg[p->msg];
    if (m->bytes) memcpy(buf, arena + m->off, (size_t)m->bytes);
    m->state = 3; w->inflight--; VshimStats* s = &w->st[vshim_rank];
    s->recvBytes += (uint64_t)m->bytes; s->recvElems += (uint64_t)(m->bytes / dtsize[m->dt]); if (m->tag == 2) { s->grRecvs++; s->grRecvBytes += (uint64_t)m->bytes; s->grRecvElems += (uint64_t)(m->bytes / dtsize[m->dt]); }
    if (st) { st->MPI_SOURCE = cranks(m->comm, m->src); st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes_ = m->bytes; st->dt_ = m->dt; }
    changed();
}
static int newreq(void) { for (int i = 1; i < MAXREQ; i++) if (!req[i].used) { memset(&req[i], 0, sizeof req[i]); req[i].used = 1; return i; } fail_locked("request-leak", "more than %d active requests", MAXREQ); }

int MPI_Init(int* a, char*** b) { (void)a; (void)b; if (didInit) vh_fail("mpi-misuse", "MPI_Init called twice"); didInit = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int r, int* p) { if (p) *p = r; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = didInit; return 0; }
int MPI_Finalized(int* f) { *f = didFin; return 0; }
double MPI_Wtime(void) { struct timeval t; gettimeofday(&t, 0); return (double)t.tv_sec + 1e-6 * (double)t.tv_usec; }
int MPI_Abort(MPI_Comm c, int code) { (void)c; vh_fail("mpi-abort", "MPI_Abort(%d) called", code); }
static void sbarrier(const char* what) {
    unsigned g = w->bar_gen;
    int live = 0; for (int i = 0; i < w->n; i++) live += w->live[i];
    if (++w->bar_count == live) { w->bar_count = 0; w->bar_gen++; changed(); }
    else BLOCK(w->bar_gen != g, "%s", what);
}
int MPI_Finalize(void) {
    lock(); if (!didInit || didFin) fail_locked("mpi-misuse", "MPI_Finalize in wrong state");
    for (int i = 1; i < MAXREQ; i++) if (req[i].used) fail_locked("request-leak", "request still active at MPI_Finalize");
    sbarrier("MPI_Finalize");
    if (w->inflight) fail_locked("unreceived-message", "%d messages never received at MPI_Finalize", w->inflight);
    didFin = 1; unlock(); return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { (void)e; lock(); chkcomm(c, "Comm_set_errhandler"); unlock(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { lock(); chkcomm(c, "Comm_size"); *s = w->comm[c].size; unlock(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { lock(); chkcomm(c, "Comm_rank"); *r = cranks(c, vshim_rank); unlock(); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Get_processor_name(char* n, int* l) { *l = sprintf(n, "shimhost%d", vshim_rank / 2); return 0; }
int MPI_Error_string(int e, char* s, int* l) { *l = sprintf(s, "shim error %d", e); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Type_size(MPI_Datatype d, int* s) { *s = dtsize[d]; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype d, int* c) { *c = (s->bytes_ % dtsize[d]) ? MPI_UNDEFINED : (int)(s->bytes_ / dtsize[d]); return 0; }

static int do_send(const void* b, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm c, int force, const char* f) {
    maybe_delay(); lock(); chkcomm(c, f); chkargs(count, dt, f); if (dest == MPI_PROC_NULL) { unlock(); return 0; }
    int d = wrank(c, dest, f); int sync = force || !rng_p(&prng, w->eager);
    ev(1 + (sync != 0), d, c, tag, (long)count * dtsize[dt]);
    int mi = post_msg(b, count, dt, d, tag, c, sync, 0);
    if (sync) BLOCK(w->msg[mi].state >= 2, "%s to rank %d tag %d comm %d (%d elements)", f, d, tag, c, count);
    unlock(); return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return do_send(b, n, t, d, g, c, 0, "MPI_Send"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return do_send(b, n, t, d, g, c, 1, "MPI_Ssend"); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Status* st) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Recv"); chkargs(n, t, "MPI_Recv");
    int src = s == MPI_ANY_SOURCE ? -1 : wrank(c, s, "MPI_Recv");
    ev(4, src, c, g, (long)n * dtsize[t]); w->st[vshim_rank].recvs++;
    int pi = post_recv((long)n * dtsize[t], t, src, g, c);
    BLOCK(w->post[pi].state == 2, "MPI_Recv from rank %d tag %d comm %d (%d elements)", src, g, c, n);
    consume(pi, b, st); unlock(); return 0;
}
static int do_isend(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* r, int force) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Isend"); chkargs(n, t, "MPI_Isend");
    int dst = wrank(c, d, "MPI_Isend"); int sync = force || !rng_p(&prng, w->eager); ev(3, dst, c, g, (long)n * dtsize[t]);
    int mi = post_msg(b, n, t, dst, g, c, sync, 1); int q = newreq();
    req[q].kind = 1; req[q].idx = mi; req[q].buf = (void*)(uintptr_t)b; req[q].bytes = (long)n * dtsize[t]; req[q].comm = c; *r = q; unlock(); return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* r) { return do_isend(b, n, t, d, g, c, r, 0); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* r) { return do_isend(b, n, t, d, g, c, r, 1); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request* r) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Irecv"); chkargs(n, t, "MPI_Irecv");
    int src = s == MPI_ANY_SOURCE ? -1 : wrank(c, s, "MPI_Irecv"); ev(5, src, c, g, (long)n * dtsize[t]); w->st[vshim_rank].irecvs++;
    int pi = post_recv((long)n * dtsize[t], t, src, g, c); int q = newreq();
    req[q].kind = 2; req[q].idx = pi; req[q].buf = b; req[q].bytes = (long)n * dtsize[t]; req[q].comm = c; *r = q;
    memset(b, 0xA5, (size_t)req[q].bytes); unlock(); return 0;
}
static void complete(int q, MPI_Status* st) {
    Req* r = &req[q];
    if (r->kind == 1) {
        Msg* m = &w->msg[r->idx];
        if (m->bytes && memcmp(arena + m->off, r->buf, (size_t)m->bytes)) fail_locked("send-buffer-modified", "buffer of MPI_Isend to rank %d modified before completion", m->dst);
    } else {
        unsigned char* p = r->buf; for (long i = 0; i < r->bytes; i++) if (p[i] != 0xA5) fail_locked("recv-buffer-modified", "buffer of MPI_Irecv modified before completion (byte %ld of %ld)", i, r->bytes);
        consume(r->idx, r->buf, st);
    }
    r->used = 0;
}
static int reqdone(int q) { return req[q].kind == 1 ? (!w->msg[req[q].idx].sync || w->msg[req[q].idx].state >= 2) : w->post[req[q].idx].state == 2; }
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
    maybe_delay(); if (*r == MPI_REQUEST_NULL) return 0;
    lock(); int q = *r; if (q < 0 || q >= MAXREQ || !req[q].used) fail_locked("mpi-misuse", "MPI_Wait on invalid request %d", q);
    ev(6, -1, req[q].comm, req[q].kind, req[q].bytes);
    if (req[q].kind == 1) BLOCK(reqdone(q), "MPI_Wait(send to rank %d, %ld bytes)", w->msg[req[q].idx].dst, req[q].bytes);
    else BLOCK(reqdone(q), "MPI_Wait(recv from rank %d, %ld bytes)", w->post[req[q].idx].src, req[q].bytes);
    complete(q, st); *r = MPI_REQUEST_NULL; unlock(); return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : 0); return 0; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) {
    maybe_delay(); if (*r == MPI_REQUEST_NULL) { *f = 1; return 0; }
    lock(); *f = reqdone(*r); if (*f) { complete(*r, st); *r = MPI_REQUEST_NULL; } unlock(); if (!*f) usleep(50); return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) {
    lock(); int all = 1; for (int i = 0; i < n; i++) if (r[i] && !reqdone(r[i])) all = 0; unlock(); *f = all; if (all) return MPI_Waitall(n, r, st); usleep(50); return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
    lock(); int k = -1, any = 0; for (int i = 0; i < n; i++) if (r[i]) any = 1;
    if (!any) { *idx = MPI_UNDEFINED; unlock(); return 0; }
    #define ANYD ({ k = -1; for (int i_ = 0; i_ < n; i_++) if (r[i_] && reqdone(r[i_])) { k = i_; if (rng_p(&prng, 50)) break; } k >= 0; })
    BLOCK(ANYD, "MPI_Waitany"); complete(r[k], st); r[k] = MPI_REQUEST_NULL; *idx = k; unlock(); return 0;
}
int MPI_Iprobe(int s, int g, MPI_Comm c, int* f, MPI_Status* st) {
    lock(); chkcomm(c, "MPI_Iprobe"); int src = s == MPI_ANY_SOURCE ? -1 : wrank(c, s, "MPI_Iprobe"); *f = 0;
    Post p = { .src = src, .comm = c, .tag = g };
    for (int mi = w->qhead[vshim_rank]; mi >= 0; mi = w->msg[mi].next) if (deliver_ok(&p, &w->msg[mi])) { Msg* m = &w->msg[mi]; *f = 1; if (st) { st->MPI_SOURCE = cranks(c, m->src); st->MPI_TAG = m->tag; st->bytes_ = m->bytes; st->dt_ = m->dt; } break; }
    unlock(); if (!*f) usleep(50); return 0;
}
int MPI_Probe(int s, int g, MPI_Comm c, MPI_Status* st) {
    lock(); chkcomm(c, "MPI_Probe"); int src = s == MPI_ANY_SOURCE ? -1 : wrank(c, s, "MPI_Probe"); Post p = { .src = src, .comm = c, .tag = g }; int k = -1;
    #define HAVEM ({ k = -1; for (int mi_ = w->qhead[vshim_rank]; mi_ >= 0; mi_ = w->msg[mi_].next) if (deliver_ok(&p, &w->msg[mi_])) { k = mi_; break; } k >= 0; })
    BLOCK(HAVEM, "MPI_Probe from rank %d", src); Msg* m = &w->msg[k]; if (st) { st->MPI_SOURCE = cranks(c, m->src); st->MPI_TAG = m->tag; st->bytes_ = m->bytes; st->dt_ = m->dt; }
    unlock(); return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st_, int d, int sg, void* rb, int rn, MPI_Datatype rt, int s, int rg, MPI_Comm c, MPI_Status* st) {
    MPI_Request q[2]; MPI_Irecv(rb, rn, rt, s, rg, c, &q[0]); MPI_Isend(sb, sn, st_, d, sg, c, &q[1]); MPI_Wait(&q[1], 0); return MPI_Wait(&q[0], st);
}

/* ---- collectives ---- */
enum { K_RED = 1, K_ALLRED, K_BCAST, K_BAR, K_SPLIT, K_GATHER, K_ALLGATHER };
static const char* kname[] = { "?", "MPI_Reduce", "MPI_Allreduce", "MPI_Bcast", "MPI_Barrier", "MPI_Comm_split", "MPI_Gather", "MPI_Allgather" };
static Slot* enter(MPI_Comm c, int kind, int root, int count, int dt, int op, const void* in, long bytes) {
    chkcomm(c, kname[kind]); int me = cranks(c, vshim_rank); int sq = ++cseq[c]; Slot* s = &w->slot[c][sq % NSLOT];
    BLOCK(!s->inuse || s->seq == sq, "%s (slot reuse) comm %d", kname[kind], c);
    if (!s->inuse) { memset(s, 0, sizeof *s); s->inuse = 1; s->seq = sq; s->kind = kind; s->root = root; s->count = count; s->dt = dt; s->op = op; }
    else if (s->kind != kind || s->root != root || s->count != count || s->dt != dt || s->op != op)
        fail_locked("collective-mismatch", "comm %d: rank %d calls %s(root %d, count %d, type %d, op %d), others %s(root %d, count %d, type %d, op %d)", c, me, kname[kind], root, count, dt, op, kname[s->kind], s->root, s->count, s->dt, s->op);
    w->inflight++; VshimStats* st = &w->st[vshim_rank]; st->colls++; trace(st, 3, kind, root, c * 64 + dt, bytes + op);
    if (kind == K_RED || kind == K_ALLRED) { st->reduces++; st->reduceElems += (uint64_t)count; st->reduceBytes += (uint64_t)bytes; }
    ev(7, root, c, kind, bytes);
    if (in && bytes) { s->off[me] = aalloc(bytes); memcpy(arena + s->off[me], in, (size_t)bytes); }
    s->arrived++; changed(); return s;
}
static void leave(MPI_Comm c, Slot* s) { w->inflight--; if (++s->left == w->comm[c].size) s->inuse = 0; changed(); }

#define RED(T) do { T* o = (T*)(arena + s->res); for (int r = 0; r < n; r++) { T* x = (T*)(arena + s->off[r]); for (int i = 0; i < s->count; i++) { \
    if (r == 0) { o[i] = x[i]; if (s->op == MPI_LAND || s->op == MPI_LOR || s->op == MPI_LXOR) o[i] = (T)(x[i] != 0); continue; } \
    switch (s->op) { case MPI_SUM: o[i] = (T)(o[i] + x[i]); break; case MPI_PROD: o[i] = (T)(o[i] * x[i]); break; \
    case MPI_MIN: if (x[i] < o[i]) o[i] = x[i]; break; case MPI_MAX: if (x[i] > o[i]) o[i] = x[i]; break; \
    case MPI_LAND: o[i] = (T)(o[i] && x[i]); break; case MPI_LOR: o[i] = (T)(o[i] || x[i]); break; case MPI_LXOR: o[i] = (T)(!o[i] != !x[i]); break; \
    default: REDBIT(T) } } } } while (0)
#define REDBIT(T) { uint64_t a_ = 0, b_ = 0; memcpy(&a_, &o[i], sizeof(T)); memcpy(&b_, &x[i], sizeof(T)); \
    if (s->op == MPI_BAND) a_ &= b_; else if (s->op == MPI_BOR) a_ |= b_; else a_ ^= b_; memcpy(&o[i], &a_, sizeof(T)); }
/* wrapping arithmetic: use unsigned types for sum/prod of signed data (same bits), signed for min/max */
static int red_exec(MPI_Comm c, Slot* s) {
    int n = w->comm[c].size; if (s->done) return 0; long bytes = (long)s->count * dtsize[s->dt]; s->res = aalloc(bytes);
    int arith = (s->op == MPI_SUM || s->op == MPI_PROD);
    switch (dtclass[s->dt]) {
    case 1: if (arith) RED(uint8_t); else RED(int8_t); break; case 2: RED(uint8_t); break;
    case 3: if (arith) RED(uint16_t); else RED(int16_t); break; case 4: RED(uint16_t); break;
    case 5: if (arith) RED(uint32_t); else RED(int32_t); break; case 6: RED(uint32_t); break;
    case 7: if (arith) RED(uint64_t); else RED(int64_t); break; case 8: RED(uint64_t); break;
    case 9: RED(float); break; case 10: RED(double); break; default: return MPI_ERR_OTHER; }
    s->done = 1; return 0;
}
static int opok(MPI_Datatype dt, MPI_Op op) { if (op <= 0 || op >= VSHIM_OP_MAX) return 0; int cl = dtclass[dt]; if (cl >= 9 && cl <= 10 && op > MPI_MAX) return 0; return cl < 98; }
int MPI_Reduce(const void* in, void* outb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Reduce"); chkargs(n, dt, "MPI_Reduce"); wrank(c, root, "MPI_Reduce");
    if (!opok(dt, op)) { unlock(); return MPI_ERR_OTHER; }
    int me = cranks(c, vshim_rank); if (in == MPI_IN_PLACE && me != root) fail_locked("mpi-misuse", "MPI_IN_PLACE on non-root of MPI_Reduce");
    long bytes = (long)n * dtsize[dt]; if (me == root && in == outb && n) fail_locked("mpi-misuse", "MPI_Reduce with aliased buffers");
    Slot* s = enter(c, K_RED, root, n, dt, op, in == MPI_IN_PLACE ? outb : in, bytes);
    int all = w->comm[c].size;
    if (me == root) { BLOCK(s->arrived == all, "MPI_Reduce (root) comm %d", c); red_exec(c, s); if (bytes) memcpy(outb, arena + s->res, (size_t)bytes); }
    else if (!rng_p(&prng, w->eager)) BLOCK(s->arrived == all, "MPI_Reduce (non-root) comm %d", c);
    leave(c, s); unlock(); return 0;
}
int MPI_Allreduce(const void* in, void* outb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Allreduce"); chkargs(n, dt, "MPI_Allreduce"); if (!opok(dt, op)) { unlock(); return MPI_ERR_OTHER; }
    long bytes = (long)n * dtsize[dt]; if (in == outb && n) fail_locked("mpi-misuse", "MPI_Allreduce with aliased buffers");
    Slot* s = enter(c, K_ALLRED, 0, n, dt, op, in == MPI_IN_PLACE ? outb : in, bytes);
    BLOCK(s->arrived == w->comm[c].size, "MPI_Allreduce comm %d", c); red_exec(c, s); if (bytes) memcpy(outb, arena + s->res, (size_t)bytes);
    leave(c, s); unlock(); return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c) {
    maybe_delay(); lock(); chkcomm(c, "MPI_Bcast"); chkargs(n, dt, "MPI_Bcast"); wrank(c, root, "MPI_Bcast"); int me = cranks(c, vshim_rank); long bytes = (long)n * dtsize[dt];
    Slot* s = enter(c, K_BCAST, root, n, dt, 0, me == root ? b : 0, bytes); if (me == root) { s->done = 1; changed(); }
    else { BLOCK(s->done, "MPI_Bcast comm %d", c); if (bytes) memcpy(b, arena + s->off[root], (size_t)bytes); }
    leave(c, s); unlock(); return 0;
}
int MPI_Barrier(MPI_Comm c) { maybe_delay(); lock(); Slot* s = enter(c, K_BAR, 0, 0, 0, 0, 0, 0); BLOCK(s->arrived == w->comm[c].size, "MPI_Barrier comm %d", c); leave(c, s); unlock(); return 0; }
static int gather(const void* in, int n, MPI_Datatype dt, void* outb, int rn, int root, MPI_Comm c, int all) {
    maybe_delay(); lock(); chkcomm(c, "gather"); chkargs(n, dt, "gather"); (void)rn; int me = cranks(c, vshim_rank); long bytes = (long)n * dtsize[dt];
    const void* src = in == MPI_IN_PLACE ? (char*)outb + me * bytes : in;
    Slot* s = enter(c, all ? K_ALLGATHER : K_GATHER, root, n, dt, 0, src, bytes); BLOCK(s->arrived == w->comm[c].size, "gather comm %d", c);
    if (all || me == root) for (int r = 0; r < w->comm[c].size; r++) memcpy((char*)outb + r * bytes, arena + s->off[r], (size_t)bytes);
    leave(c, s); unlock(); return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* o, int rn, MPI_Datatype rt, int root, MPI_Comm c) { (void)rt; return gather(in, n, t, o, rn, root, c, 0); }
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* o, int rn, MPI_Datatype rt, MPI_Comm c) { (void)rt; return gather(in, n, t, o, rn, 0, c, 1); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
    maybe_delay(); lock(); Slot* s = enter(c, K_SPLIT, 0, 0, 0, 0, 0, 0); int me = cranks(c, vshim_rank), n = w->comm[c].size;
    s->color[me] = color; s->key[me] = key; s->count++; s->count--; 
    BLOCK(s->arrived == n, "MPI_Comm_split comm %d", c);
    if (!s->done) {
        s->done = 1;
        for (int i = 0; i < n; i++) s->newcomm[i] = 0;
        for (int i = 0; i < n; i++) if (s->color[i] != MPI_UNDEFINED && !s->newcomm[i]) {
            if (w->ncomm >= MAXCOMM) { fprintf(stderr, "shim: too many communicators\n"); _exit(3); }
            int id = w->ncomm++; Comm* k = &w->comm[id]; k->size = 0; int idx[MAXR], m = 0;
            for (int j = 0; j < n; j++) if (s->color[j] == s->color[i]) idx[m++] = j;
            for (int a = 0; a < m; a++) for (int b = a + 1; b < m; b++) if (s->key[idx[b]] < s->key[idx[a]] || (s->key[idx[b]] == s->key[idx[a]] && idx[b] < idx[a])) { int t = idx[a]; idx[a] = idx[b]; idx[b] = t; }
            for (int a = 0; a < m; a++) { k->ranks[k->size++] = w->comm[c].ranks[idx[a]]; s->newcomm[idx[a]] = id; }
        }
    }
    *out = s->newcomm[me]; leave(c, s); unlock(); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { return MPI_Comm_split(c, 0, cranks(c, vshim_rank), out); }

/* ---- harness interface ---- */
void vshim_pubwhere(void) { snprintf(w->where[vshim_rank], sizeof w->where[0], "%s", vh_where); }
VshimStats vshim_stats(void) { return w->st[vshim_rank]; }
void* vshim_shared(void) { return w->scratch; }
void vshim_setopts(int e, int d) { w->eager = e; w->delay = d; }
void vshim_barrier(void) { lock(); sbarrier("harness barrier"); unlock(); }
void vshim_quiesce(const char* what) {
    lock(); sbarrier(what);
    for (int i = 1; i < MAXREQ; i++) if (req[i].used) fail_locked("request-leak", "%s: request still active", what);
    if (w->inflight) fail_locked("unreceived-message", "%s: %d messages sent but not received", what, w->inflight);
    sbarrier(what);
    if (vshim_rank == 0) { w->nmsg = w->npost = 0; w->arena = 64; for (int i = 0; i < w->n; i++) { if (w->phead[i] >= 0) fail_locked("unmatched-receive", "%s: receive without message", what); w->qhead[i] = w->qtail[i] = w->phead[i] = w->ptail[i] = -1; } }
    sbarrier(what); unlock();
}
static void print_log(int fd, int rank) {
    off_t len = lseek(fd, 0, SEEK_END); if (len <= 0) return; off_t lim = getenv("VSHIM_ALL") ? 1 << 20 : 12000, s = len > lim ? len - lim : 0;
    char* b = malloc((size_t)(len - s) + 1); ssize_t k = pread(fd, b, (size_t)(len - s), s); if (k < 0) k = 0; b[k] = 0;
    /* prefer the head of an ASan report if it is in there */
    for (char* p = strtok(b, "\n"); p; p = strtok(0, "\n")) vh_line("L r%d %.400s", rank, p);
    free(b);
}
int vshim_run(int n, VshimOpts o, vshim_rank_fn fn, void* arg) {
    if (n > MAXR) exit(3);
    w = shared_map(sizeof(World)); arena = shared_map(ARENA);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&w->mu, &ma);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&w->cv, &ca);
    w->n = n; w->o = o; w->eager = o.eagerPct; w->delay = o.delayPct; w->arena = 64; w->ncomm = 3; w->comm[1].size = n;
    for (int i = 0; i < n; i++) { w->live[i] = 1; w->comm[1].ranks[i] = i; w->qhead[i] = w->qtail[i] = w->phead[i] = w->ptail[i] = -1; snprintf(w->what[i], sizeof w->what[0], "running"); }
    pid_t pid[MAXR]; int fd[MAXR]; fflush(stdout); fflush(stderr);
    for (int r = 0; r < n; r++) {
        fd[r] = (int)syscall(SYS_memfd_create, "ranklog", 0);
        pid[r] = fork();
        if (pid[r] < 0) { perror("fork"); exit(3); }
        if (pid[r] == 0) {
            setvbuf(stderr, 0, _IONBF, 0);
            if (!vh_args.verbose) dup2(fd[r], 2);
            vshim_rank = r; vshim_size = n; prng = rng_make(o.seed, (uint64_t)r + 77); w->comm[2].size = 1; 
            fn(r, n, arg);
            lock(); w->live[r] = 0; w->flag[r] = 0;
            if (w->bar_count) { int live = 0; for (int i = 0; i < n; i++) live += w->live[i]; (void)live; }
            check_deadlock(); unlock();
            exit(0); /* runs leak checking */
        }
    }
    int left = n, res = 0, bad = -1; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int firstcode = 0;
    bool alive[MAXR]; for (int i = 0; i < n; i++) alive[i] = true;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int r = -1; for (int i = 0; i < n; i++) if (pid[i] == p) r = i;
            if (r < 0) continue;
            alive[r] = false; left--;
            int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
            if (code != 0 && code != 78 && bad < 0) { bad = r; firstcode = code; res = 1; for (int i = 0; i < n; i++) if (alive[i]) kill(pid[i], SIGKILL); }
            continue;
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec);
        if (el > o.watchdogSec && res == 0) {
            res = 2; vh_line("I watchdog after %d s [%s]", o.watchdogSec, w->where[0]);
            for (int i = 0; i < n; i++) { vh_line("L rank %d %s: %s", i, alive[i] ? "alive" : "ended", w->what[i]); if (alive[i]) kill(pid[i], SIGKILL); }
        }
        usleep(1000);
    }
    if (bad >= 0) {
        if (firstcode == 3) { print_log(fd[bad], bad); vh_line("E harness error in rank %d", bad); exit(3); }
        if (firstcode != 77) { vh_line("K rank %d ended with %s %d [%s]", bad, firstcode >= 1000 ? "signal" : "exit code", firstcode % 1000, w->where[bad]); }
        print_log(fd[bad], bad);
        if (firstcode != 77) vh_line("KEND");
        if (getenv("VSHIM_ALL")) for (int i = 0; i < n; i++) if (i != bad) print_log(fd[i], i);
    }
    for (int i = 0; i < n; i++) close(fd[i]);
    munmap(w, sizeof(World)); munmap(arena, ARENA); w = 0;
    return res;
}
