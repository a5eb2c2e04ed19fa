/* Random message patterns over the socket based message passing transport (src/backends/tcp). Every process runs the
 * same seeded program; contents, order, sizes and results of collectives are known to every process. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include "minimpi.h"
#include "vh.h"

#define C(x) do { int e_ = (x); if (e_ != LAIK_TCP_MINIMPI_SUCCESS) { static char s_[LAIK_TCP_MINIMPI_MAX_ERROR_STRING]; int l_; laik_tcp_minimpi_error_string(e_, s_, &l_); for (char* q_ = s_; *q_; q_++) if (*q_ == '\n') *q_ = ' '; \
    vh_fail("transport-error", "%s: %.600s", #x, s_); } } while (0)

/* ------------------------------------------------------------------------------------------- perturbed system calls */
static int P_delay, P_short, P_intr, P_stall; static __thread Rng prng; static __thread int pinit;
static uint64_t pseed; static volatile uint64_t n_delay, n_short, n_intr, n_again, n_stall, n_conn, n_acc;
static Rng* pr(void) { if (!pinit) { pinit = 1; prng = rng_make(pseed, (uint64_t)(uintptr_t)&prng ^ (uint64_t)getpid()); } return &prng; }
static void perturb(void) { int e = errno; if (P_delay && rng_p(pr(), 10)) { __atomic_fetch_add(&n_delay, 1, __ATOMIC_RELAXED); usleep((unsigned)rng_int(pr(), 0, P_delay)); } int st = __atomic_load_n(&P_stall, __ATOMIC_RELAXED); if (st && rng_int(pr(), 0, 199) == 0) { __atomic_fetch_add(&n_stall, 1, __ATOMIC_RELAXED); usleep((unsigned)st); } errno = e; }
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); int __real_poll(struct pollfd*, nfds_t, int); int __real_connect(int, const struct sockaddr*, socklen_t); int __real_accept(int, struct sockaddr*, socklen_t*);
static size_t shorten(size_t n) { if (n > 1 && P_short && rng_p(pr(), 25)) { __atomic_fetch_add(&n_short, 1, __ATOMIC_RELAXED); return (size_t)rng_int(pr(), 1, n > 40 && rng_p(pr(), 50) ? 40 : (int)n - 1); } return n; }
ssize_t __wrap_recv(int f, void* b, size_t n, int fl) { perturb(); if (P_short && !(fl & MSG_PEEK) && rng_p(pr(), 5)) { __atomic_fetch_add(&n_again, 1, __ATOMIC_RELAXED); errno = EAGAIN; return -1; } ssize_t r = __real_recv(f, b, fl & MSG_PEEK ? n : shorten(n), fl); int e = errno; perturb(); errno = e; return r; }
ssize_t __wrap_send(int f, const void* b, size_t n, int fl) { perturb(); if (P_short && n > 1 && rng_p(pr(), 5)) { __atomic_fetch_add(&n_again, 1, __ATOMIC_RELAXED); errno = EAGAIN; return -1; } ssize_t r = __real_send(f, b, shorten(n), fl); int e = errno; perturb(); errno = e; return r; }
int __wrap_poll(struct pollfd* p, nfds_t n, int t) { perturb(); if (P_intr && t != 0 && rng_p(pr(), P_intr)) { __atomic_fetch_add(&n_intr, 1, __ATOMIC_RELAXED); errno = EINTR; return -1; } return __real_poll(p, n, t); }
int __wrap_connect(int f, const struct sockaddr* a, socklen_t l) { perturb(); __atomic_fetch_add(&n_conn, 1, __ATOMIC_RELAXED); return __real_connect(f, a, l); }
int __wrap_accept(int f, struct sockaddr* a, socklen_t* l) { perturb(); __atomic_fetch_add(&n_acc, 1, __ATOMIC_RELAXED); return __real_accept(f, a, l); }

/* ----------------------------------------------------------------------------------------------------------- program */
static uint64_t seed; static int nproc, me, roomy, threads, wl; static uint64_t sig;
typedef struct { Laik_Tcp_MiniMpiComm* c; int n, me; int world[16]; int id; } Comm;
static Comm comms[64]; static int ncomms;
static const size_t tsize[] = { 8, 4, 8, 4, 1, 8, 4, 1 };
typedef struct { int c, src, dst, tag, type, count, serial, thread; } Msg;

static uint64_t contents(int comm, int src, int dst, int tag, int serial, int round) { return hash_mix(hash_mix(hash_mix(seed, (uint64_t)comm << 32 | (uint64_t)round), (uint64_t)src << 32 | (uint64_t)dst), (uint64_t)(unsigned)tag << 32 | (uint64_t)serial); }
static void fill(unsigned char* b, size_t n, uint64_t h) { Rng r = rng_make(h, n); for (size_t i = 0; i < n; i += 8) { uint64_t v = rng_u64(&r); memcpy(b + i, &v, n - i < 8 ? n - i : 8); } }
static long first_diff(const unsigned char* b, size_t n, uint64_t h) { Rng r = rng_make(h, n); for (size_t i = 0; i < n; i += 8) { uint64_t v = rng_u64(&r); size_t l = n - i < 8 ? n - i : 8; if (memcmp(b + i, &v, l)) return (long)i; } return -1; }
static int rcount(Rng* r) { int x = rng_int(r, 0, 99); if (x < 12) return 0; if (x < 50) return rng_int(r, 1, 9); if (x < 90) return rng_int(r, 10, 2000); if (x < 98) return rng_int(r, 2000, 40000); return rng_int(r, 40000, wl ? 400000 : 60000); }

typedef struct { Msg* m; int n, round, t; } SArg;
static void do_send(Msg* m, int round) {
    size_t n = (size_t)m->count * tsize[m->type]; unsigned char* b = malloc(n ? n : 1); fill(b, n, contents(comms[m->c].id, m->src, m->dst, m->tag, m->serial, round));
    C(laik_tcp_minimpi_send(b, m->count, (Laik_Tcp_MiniMpiType)m->type, (size_t)m->dst, m->tag, comms[m->c].c));
    memset(b, 0xdb, n); free(b);   /* the buffer may be used again at once */
    vh_count("messages_sent", 1);
}
static void* sender(void* a) { SArg* s = a; for (int i = 0; i < s->n; i++) if (s->m[i].thread == s->t && s->m[i].src == comms[s->m[i].c].me && comms[s->m[i].c].me >= 0) do_send(&s->m[i], s->round); return 0; }
static void do_recv(Msg* m, int round, Rng* r) {
    size_t es = tsize[m->type], n = (size_t)m->count * es; int extra = rng_p(r, 30) ? rng_int(r, 1, 50) : 0;
    unsigned char* b = malloc(n + (size_t)extra * es + 16); memset(b, 0x5a, n + (size_t)extra * es + 16); Laik_Tcp_MiniMpiStatus st; int got = -1;
    C(laik_tcp_minimpi_recv(b, m->count + extra, (Laik_Tcp_MiniMpiType)m->type, (size_t)m->src, m->tag, comms[m->c].c, &st));
    C(laik_tcp_minimpi_get_count(&st, (Laik_Tcp_MiniMpiType)m->type, &got));
    if (got != m->count) vh_fail("message-size", "round %d: message %d with tag %d from %d in group %d has %d elements instead of %d", round, m->serial, m->tag, m->src, comms[m->c].id, got, m->count);
    long d = first_diff(b, n, contents(comms[m->c].id, m->src, m->dst, m->tag, m->serial, round));
    if (d >= 0) vh_fail("message-content", "round %d: message %d with tag %d from %d in group %d (%zu bytes) has a wrong byte at %ld", round, m->serial, m->tag, m->src, comms[m->c].id, n, d);
    for (size_t i = n; i < n + (size_t)extra * es + 16; i++) if (b[i] != 0x5a) vh_fail("message-overrun", "round %d: message of %zu bytes changed byte %zu", round, n, i);
    free(b); vh_count("messages_checked", 1); vh_count("bytes_checked", n);
}

static void p2p(Rng* r, int round) {
    int n = rng_int(r, 1, wl ? 60 : 25); Msg* m = calloc((size_t)n, sizeof *m); int k = 0;
    for (int i = 0; i < n; i++) {
        int c = rng_int(r, 0, ncomms - 1), a = rng_int(r, 0, 15), b = rng_int(r, 0, 15), tag = rng_p(r, 60) ? 1 : rng_p(r, 50) ? rng_int(r, 0, 3) : rng_int(r, -5, 1 << 30), type = rng_int(r, 0, 7), count = rcount(r), th = rng_int(r, 0, 3);
        Comm* cc = &comms[c]; uint64_t burst = rng_p(r, 10) ? 5 : 1;
        /* members of a group are the same everywhere, a group of others is only a placeholder here */
        int s = cc->n; if (s < 2) continue; a %= s; b %= s; if (a == b) b = (b + 1) % s;
        for (uint64_t q = 0; q < burst && k < n; q++) { m[k] = (Msg){ .c = c, .src = a, .dst = b, .tag = tag, .type = type, .count = count, .thread = th }; k++; }
    }
    /* serial numbers within a flow; one thread per flow */
    for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (m[j].c == m[i].c && m[j].src == m[i].src && m[j].dst == m[i].dst && m[j].tag == m[i].tag) { m[i].serial = m[j].serial + 1; m[i].thread = m[j].thread; }
    Rng own = rng_make(hash_mix(seed, (uint64_t)round), (uint64_t)me + 77);
    if (roomy) {
        pthread_t t[4]; SArg a[4]; int nt = threads ? 4 : 0;
        for (int i = 0; i < nt; i++) { a[i] = (SArg){ m, k, round, i }; pthread_create(&t[i], 0, sender, &a[i]); }
        if (!nt) for (int i = 0; i < 4; i++) { SArg s = { m, k, round, i }; sender(&s); }
        /* receive flows in any order, messages of a flow in order */
        int left = 0; bool* done = calloc((size_t)k + 1, 1); for (int i = 0; i < k; i++) { if (comms[m[i].c].me < 0 || m[i].dst != comms[m[i].c].me) done[i] = true; else left++; }
        while (left) {
            int i = rng_int(&own, 0, k - 1); if (done[i]) continue;
            for (int j = 0; j < i; j++) if (!done[j] && m[j].c == m[i].c && m[j].src == m[i].src && m[j].tag == m[i].tag) { i = j; break; }
            do_recv(&m[i], round, &own); done[i] = true; left--; if (P_delay && rng_p(&own, 5)) usleep(3000);
        }
        free(done); for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
    } else
        for (int i = 0; i < k; i++) {
            Comm* c = &comms[m[i].c]; if (c->me < 0) continue;
            if (m[i].src == c->me) do_send(&m[i], round);
            if (m[i].dst == c->me) do_recv(&m[i], round, &own);
            if (P_delay && rng_p(&own, 3)) usleep(3000);
        }
    sig = hash_mix(sig, (uint64_t)k); free(m);
}

static double val(int c, int rank, int round, int i, int type) { uint64_t h = hash_mix(hash_mix(seed + (uint64_t)c, (uint64_t)rank), (uint64_t)round << 32 | (uint64_t)i); return (double)(1 + h % (type == 4 || type == 7 ? 5 : 9)); }
static void put(void* b, int i, int type, double v) { switch (type) { case 0: ((double*)b)[i] = v; break; case 1: ((float*)b)[i] = (float)v; break; case 2: ((int64_t*)b)[i] = (int64_t)v; break; case 3: ((int32_t*)b)[i] = (int32_t)v; break; case 4: ((int8_t*)b)[i] = (int8_t)v; break; case 5: ((uint64_t*)b)[i] = (uint64_t)v; break; case 6: ((uint32_t*)b)[i] = (uint32_t)v; break; default: ((uint8_t*)b)[i] = (uint8_t)v; } }
static double get(const void* b, int i, int type) { switch (type) { case 0: return ((const double*)b)[i]; case 1: return ((const float*)b)[i]; case 2: return (double)((const int64_t*)b)[i]; case 3: return ((const int32_t*)b)[i]; case 4: return ((const int8_t*)b)[i]; case 5: return (double)((const uint64_t*)b)[i]; case 6: return ((const uint32_t*)b)[i]; default: return ((const uint8_t*)b)[i]; } }
static double wrapint(double v, int type) { if (type == 4) return (double)(int8_t)(int64_t)v; if (type == 7) return (double)(uint8_t)(int64_t)v; return v; }
static double comb(double a, double b, int op) { switch (op) { case 0: return a + b; case 1: return a * b; case 2: return a < b ? a : b; case 3: return a > b ? a : b; case 4: return a != 0 && b != 0; case 5: return a != 0 || b != 0; case 6: return (double)((int64_t)a & (int64_t)b); default: return (double)((int64_t)a | (int64_t)b); } }

static void collective(Rng* r, int round) {
    int c = rng_int(r, 0, ncomms - 1), kind = rng_int(r, 0, 9), type = rng_int(r, 0, 7), count = rcount(r) % 3000, root = rng_int(r, 0, 15), op = rng_int(r, 0, type < 2 ? 3 : 7), inplace = rng_p(r, 50);
    int hint = rng_int(r, 0, 3), colors = rng_int(r, 1, 3), undef = rng_int(r, 0, 5); uint64_t hs = rng_u64(r); Comm* cc = &comms[c];
    sig = hash_mix(sig, (uint64_t)kind * 8 + (uint64_t)op);
    if (kind == 0 || (kind == 1 && ncomms >= 60)) { if (cc->me >= 0) { C(laik_tcp_minimpi_barrier(cc->c)); vh_count("barriers", 1); } return; }
    root %= cc->n > 0 ? cc->n : 1;
    if (kind == 1) {
        /* all members of one group split it or copy it; all processes track the result */
        Comm* base = cc; Comm res[4]; memset(res, 0, sizeof res); int myres = -1;
        if (hint == 3) { res[0] = *base; res[0].c = 0; colors = 1; myres = 0; if (base->me >= 0) C(laik_tcp_minimpi_comm_dup(base->c, &res[0].c)); }
        else {
            int col[16], hi[16];
            for (int i = 0; i < base->n; i++) { uint64_t h = hash_mix(hs, (uint64_t)i); col[i] = undef == 0 && h % 4 == 0 ? LAIK_TCP_MINIMPI_UNDEFINED : (int)(h >> 8) % colors; if (col[i] < -1) col[i] = 0; hi[i] = hint == 0 ? i : hint == 1 ? (int)(h >> 40) % 3 : (int)(uint32_t)(h >> 20); }
            if (base->me >= 0) { res[3].c = 0; Laik_Tcp_MiniMpiComm* nc = 0; C(laik_tcp_minimpi_comm_split(base->c, col[base->me], hi[base->me], &nc)); if (col[base->me] >= 0) { myres = col[base->me]; res[myres].c = nc; } }
            for (int k = 0; k < colors; k++) {
                res[k].me = -1; int idx[16], n = 0;
                for (int i = 0; i < base->n; i++) if (col[i] == k) { int j = n++; while (j > 0 && hi[idx[j - 1]] > hi[i]) { idx[j] = idx[j - 1]; j--; } idx[j] = i; }   /* by hint, then by rank */
                res[k].n = n; for (int j = 0; j < n; j++) { res[k].world[j] = base->world[idx[j]]; if (res[k].world[j] == me) res[k].me = j; }
            }
        }
        for (int k = 0; k < colors; k++) {
            res[k].id = ncomms;
            if (res[k].me >= 0) { int s, q; C(laik_tcp_minimpi_comm_size(res[k].c, &s)); C(laik_tcp_minimpi_comm_rank(res[k].c, &q));
                if (s != res[k].n || q != res[k].me) vh_fail("split", "round %d: rank %d of %d in the new group instead of %d of %d", round, q, s, res[k].me, res[k].n); }
            comms[ncomms++] = res[k];
        }
        vh_count("groups", (uint64_t)colors); return;
    }
    if (cc->me < 0) return;
    size_t n = (size_t)count * tsize[type]; void *in = malloc(n + 1), *out = malloc(n + 8);
    if (kind < 5) {
        uint64_t h = contents(cc->id, root, 99, 0, 0, round);
        if (cc->me == root) fill(out, n, h); else memset(out, 0x5a, n);
        C(laik_tcp_minimpi_bcast(out, count, (Laik_Tcp_MiniMpiType)type, (size_t)root, cc->c));
        long d = first_diff(out, n, h); if (d >= 0) vh_fail("bcast", "round %d: wrong byte %ld of %zu after broadcast from %d in group %d", round, d, n, root, cc->id);
        vh_count("broadcasts", 1);
    } else {
        bool all = kind < 7; if (all) root = -1;
        for (int i = 0; i < count; i++) put(inplace ? out : in, i, type, val(cc->id, cc->me, round, i, type));
        if (all) C(laik_tcp_minimpi_allreduce(inplace ? LAIK_TCP_MINIMPI_IN_PLACE : in, out, count, (Laik_Tcp_MiniMpiType)type, (Laik_Tcp_MiniMpiOp)op, cc->c));
        else { C(laik_tcp_minimpi_reduce(inplace ? LAIK_TCP_MINIMPI_IN_PLACE : in, out, count, (Laik_Tcp_MiniMpiType)type, (Laik_Tcp_MiniMpiOp)op, (size_t)root, cc->c)); if (!inplace) memset(in, 0xdb, n); }
        if (all || cc->me == root) for (int i = 0; i < count; i++) {
            double v = 0; for (int q = 0; q < cc->n; q++) { double x = val(cc->id, q, round, i, type); v = q ? wrapint(comb(v, x, op), type) : x; }
            double g = get(out, i, type); bool ok = type == 1 && op == 1 ? g > v * 0.99999 && g < v * 1.00001 : g == v;
            if (!ok) vh_fail("reduce", "round %d: element %d of %d (type %d, op %d, root %d, group %d of %d) is %g instead of %g", round, i, count, type, op, root, cc->id, cc->n, g, v);
            vh_count("reductions_checked", 1);
        }
    }
    free(in); free(out);
}

static int open_fds(void) { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

int main(int argc, char** argv) {
    vh_init(); vh_parse(argc, argv); seed = vh_args.seed; nproc = vh_args.n;
    Rng r = rng_make(seed, 1); pseed = seed;
    const char* e; P_delay = (e = getenv("VH_DELAY")) ? atoi(e) : 0; P_short = (e = getenv("VH_SHORT")) ? atoi(e) : 0; P_intr = (e = getenv("VH_INTR")) ? atoi(e) : 0; P_stall = (e = getenv("VH_STALL")) ? atoi(e) : 0; roomy = (e = getenv("VH_ROOMY")) ? atoi(e) : 0; threads = (e = getenv("VH_THREADS")) ? atoi(e) : 0; wl = (e = getenv("VH_HEAVY")) ? atoi(e) : 0;
    int fds0 = open_fds();
    if (P_delay) usleep((unsigned)((unsigned)getpid() * 7919u % 30000u));
    C(laik_tcp_minimpi_init(0, 0)); Laik_Tcp_MiniMpiComm* w = LAIK_TCP_MINIMPI_COMM_WORLD; int s; C(laik_tcp_minimpi_comm_size(w, &s)); C(laik_tcp_minimpi_comm_rank(w, &me));
    if (s != nproc) vh_fail("size", "%d processes instead of %d", s, nproc);
    vh_setwhere("seed %llu process %d of %d", (unsigned long long)seed, me, nproc);
    comms[0] = (Comm){ .c = w, .n = nproc, .me = me }; for (int i = 0; i < nproc; i++) comms[0].world[i] = i; ncomms = 1;
    int rounds = vh_args.cases > 0 ? vh_args.cases : 20;
    for (int i = 0; i < rounds; i++) { if (rng_p(&r, 55)) p2p(&r, i); else collective(&r, i); vh_count("rounds", 1); }
    if (P_stall) { C(laik_tcp_minimpi_barrier(w)); __atomic_store_n(&P_stall, 0, __ATOMIC_RELAXED); usleep(300000); }   /* answers to the very last messages need to arrive in time: the receiver shuts down */
    C(laik_tcp_minimpi_finalize()); int fl; C(laik_tcp_minimpi_initialized(&fl)); if (fl) vh_fail("finalize", "still initialized");
    int fds1 = open_fds(); if (fds1 > fds0 + 2) vh_fail("fd-leak", "%d open files after shutdown, %d before start", fds1, fds0);   /* the settings may be read in again at any time */
    vh_count("perturbations", n_delay + n_short + n_intr + n_again); vh_count("stalls", n_stall); vh_count("connections", n_conn); vh_count("accepted", n_acc);
    vh_sig(hash_mix(sig, seed)); if (!me) vh_sample("seed %llu: %d processes, %d rounds, %d groups, roomy %d threads %d", (unsigned long long)seed, nproc, rounds, ncomms, roomy, threads);
    vh_finish(); return 0;
}
