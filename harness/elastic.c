/* Elastic worlds: a program of iterations with data, collective services and resize points, run by real processes which
 * join and are removed at any time (tools/elastic.py drives it and cross-checks the records of all processes).
 * All content is a pure function of (seed, iteration, size of the world), so that a joining process can check it as well. */
#include "gen.h"
#include "laik-internal.h"
#include <unistd.h>
#include <fcntl.h>
#include <inttypes.h>
#include <time.h>
#include <netdb.h>
#include <sys/mman.h>

/* ---- host names of any length that all lead to this machine ---- */
int __real_gethostname(char* n, size_t l);
int __wrap_gethostname(char* n, size_t l) { const char* h = getenv("VH_HOSTNAME"); if (!h) return __real_gethostname(n, l); snprintf(n, l, "%s", h); return 0; }
int __real_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r);
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r) { const char* my = getenv("VH_HOSTNAME"); if (my && n && !strcmp(n, my)) n = "127.0.0.1"; return __real_getaddrinfo(n, s, h, r); }

typedef struct { volatile int stop, iter, changes; volatile int n; volatile int pid[64]; } Board;
static Board* board; static Laik_Instance* inst; static Laik_Group* world; static int wn, me, mylid; static uint64_t seed;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static uint64_t H(uint64_t a, uint64_t b, uint64_t c) { Rng r = rng_make(hash_mix(seed * 31 + a, b), c); return rng_u64(&r); }
static int phase_of(int it) { static const int m[] = { 1, 3, 10, 10007 }; return it * m[H(1, 2, 3) % 4]; }
static int it_of(int ph) { static const int m[] = { 1, 3, 10, 10007 }; int f = m[H(1, 2, 3) % 4]; if (ph % f) vh_fail("phase", "phase %d never announced", ph); return ph / f; }

/* ---------------------------------------------------------------------------------------------------- containers */
#define MAXC 4
typedef struct { Box b; TypeId t; Laik_Space* sp; Laik_Data* d; Spec* cur; char nm[8]; } Cont;
static Cont C[MAXC]; static int nc;
static Spec* spec_new(int c, int it, int what, int n, Laik_Group* g) { /* what: 0 writing, 1 reading, 2 directly after a resize */
    static const int wk[] = { SK_BLOCK, SK_BOXES, SK_BOXES, SK_SINGLE }, rk[] = { SK_BLOCK, SK_BOXES, SK_ALL, SK_SINGLE, SK_MULTIBOX, SK_HALO, SK_HALO };
    Rng r = rng_make(H(100 + (uint64_t)c, (uint64_t)it * 3 + (uint64_t)what, (uint64_t)n), 7); Spec* s = calloc(1, sizeof *s);
    gen_spec(&r, &C[c].b, n, what ? rk[rng_int(&r, 0, 6)] : wk[rng_int(&r, 0, 3)], what != 0, -1, s);
    if (s->holes || (what == 0 && s->multi)) { fprintf(stderr, "unexpected partitioning %s\n", s->desc); _exit(3); }
    spec_make(s, g, C[c].sp, "elastic"); return s;
}
static bool writes(int c, int it) { return it == 0 || H(200 + (uint64_t)c, (uint64_t)it, 1) % 3 == 0; }
static bool ends_read(int c, int it) { return !writes(c, it) || H(300 + (uint64_t)c, (uint64_t)it, 1) % 2; }
static int lastwrite(int c, int it) { while (!writes(c, it)) it--; return it; }
static int64_t val(int c, int wit, int64_t li) { int64_t v = (int64_t)(H(400 + (uint64_t)c, (uint64_t)wit, (uint64_t)li) % 200) - 100; return C[c].t == T_UCHAR || C[c].t == T_U32 || C[c].t == T_U64 ? v + 100 : v; }
/* write or check all own elements */
static void elems(int c, int wit, bool wr, const char* when) {
    Cont* k = &C[c]; Spec* s = k->cur; Laik_Partitioning* p = s->p; int dims = k->b.dims, nm = laik_my_mapcount(p), nr = laik_my_rangecount(p); uint64_t n = 0;
    static uint8_t* seen; static int64_t cap; if (cap < k->b.n) { free(seen); cap = k->b.n; seen = malloc((size_t)cap); } memset(seen, 0, (size_t)k->b.n);
    for (int m = 0; m < nm; m++) {
        int64_t f[3] = { INT64_MAX, INT64_MAX, INT64_MAX }, t[3] = { INT64_MIN, INT64_MIN, INT64_MIN }; int first = 1;
        for (int pass = 0; pass < 2; pass++) {
            char* base = 0; uint64_t cnt, xs, ys = 0, ysz, zs = 0, zsz;
            if (pass) { Laik_Mapping* mm = dims == 1 ? laik_get_map_1d(k->d, m, (void**)&base, &cnt) : dims == 2 ? laik_get_map_2d(k->d, m, (void**)&base, &ysz, &ys, &xs) : laik_get_map_3d(k->d, m, (void**)&base, &zsz, &zs, &ysz, &ys, &xs); if (!mm || !base) vh_fail("nomap", "%s: %s has no memory for map %d", when, k->nm, m); }
            for (int i = 0; i < nr; i++) { Laik_TaskRange* tr = laik_my_range(p, i); if (laik_taskrange_get_mapNo(tr) != m) continue; const Laik_Range* rg = laik_taskrange_get_range(tr); first = 0;
                if (!pass) { for (int d = 0; d < dims; d++) { if (rg->from.i[d] < f[d]) f[d] = rg->from.i[d]; if (rg->to.i[d] > t[d]) t[d] = rg->to.i[d]; } continue; }
                int64_t x[3] = { 0, 0, 0 }; for (int d = 0; d < dims; d++) x[d] = rg->from.i[d];
                do { int64_t li = lin(&k->b, x); uint64_t o = (uint64_t)(x[0] - f[0]); if (dims > 1) o += (uint64_t)(x[1] - f[1]) * ys; if (dims > 2) o += (uint64_t)(x[2] - f[2]) * zs; char* a = base + o * (uint64_t)type_size(k->t); int64_t v = val(c, wit, li);
                    if (!((s->own[li] >> me) & 1)) vh_fail("ownrange", "%s: %s index %lld is not assigned to process %d", when, k->nm, (long long)li, me);
                    if (!seen[li]) { seen[li] = 1; n++; }
                    if (wr) type_put(k->t, a, v); else if (!type_eq(k->t, a, v)) { char sv[40]; type_str(k->t, a, sv); vh_fail("data", "%s: %s (%s, %dd) index %lld on process %d of %d (LID %d) is %s, written was %lld in iteration %d", when, k->nm, type_names[k->t], dims, (long long)li, me, wn, mylid, sv, (long long)v, wit); }
                } while (iter_next(dims, rg->from.i, rg->to.i, x)); }
        }
        if (first) vh_fail("mapno", "%s: map %d without ranges", when, m);
    }
    uint64_t want = 0; for (int64_t i = 0; i < k->b.n; i++) want += (s->own[i] >> me) & 1;
    if (n != want) vh_fail("ownrange", "%s: own ranges cover %" PRIu64 " indexes, %" PRIu64 " assigned", when, n, want);
    if (!wr) vh_count("elements_checked", n);
}
static void sw(int c, Spec* to, bool preserve) { laik_switchto_partitioning(C[c].d, to->p, preserve ? LAIK_DF_Preserve : LAIK_DF_None, preserve && C[c].b.dims == 1 && C[c].cur && C[c].cur->multi ? LAIK_RO_Max : LAIK_RO_None /* all copies are the same */); if (C[c].cur) spec_free(C[c].cur, true), free(C[c].cur); C[c].cur = to; vh_count("switches", 1); }

/* ------------------------------------------------------------------------------------------------------ collectives */
static int lids[64], pids[64];
static bool gather(int it) { /* everybody's process number: reduction of a small container; also the decision to stop */
    Laik_Space* sp = laik_new_space_1d(inst, wn + 1); Laik_Data* d = laik_new_data(sp, laik_Int64); Laik_Partitioning* all = laik_new_partitioning(laik_All, world, sp, 0), * ms = laik_new_partitioning(laik_Master, world, sp, 0);
    int64_t* b; uint64_t n; laik_switchto_partitioning(d, all, LAIK_DF_None, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&b, &n); for (int i = 0; i <= wn; i++) b[i] = 0;
    b[me] = getpid(); if (me == 0 && board->stop) b[wn] = 1;
    if (H(7, (uint64_t)it, 1) % 2) { laik_switchto_partitioning(d, ms, LAIK_DF_Preserve, LAIK_RO_Sum); laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_None); } else laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_Sum);
    laik_get_map_1d(d, 0, (void**)&b, &n);
    for (int i = 0; i < wn; i++) { if (b[i] <= 0) vh_fail("collective", "sum over the world misses process %d", i); pids[i] = (int)b[i]; for (int j = 0; j < i; j++) if (pids[i] == pids[j]) vh_fail("collective", "processes %d and %d are the same", j, i); }
    if (pids[me] != getpid()) vh_fail("collective", "id %d is not only used by this process", me);
    bool stop = b[wn] != 0;
    laik_free(d); laik_free_partitioning(all); laik_free_partitioning(ms); vh_count("collectives", 1);
    if (me == 0) { for (int i = 0; i < wn; i++) board->pid[i] = pids[i]; board->n = wn; board->iter = it; }
    return stop;
}
static void kvsync(int it) {
    char nm[20]; sprintf(nm, "s%d", it); Laik_KVStore* s = laik_kvs_new(nm, inst); char k[30], v[60]; sprintf(k, "lid%d", mylid); sprintf(v, "pid%d", getpid());
    if (H(8, (uint64_t)it, (uint64_t)mylid) % 4) laik_kvs_sets(s, k, v);
    laik_kvs_sync(s);
    unsigned cnt = 0; for (int i = 0; i < wn; i++) { sprintf(k, "lid%d", lids[i]); sprintf(v, "pid%d", pids[i]); char* g = laik_kvs_get(s, k, 0); bool set = H(8, (uint64_t)it, (uint64_t)lids[i]) % 4; cnt += set; if (set ? (!g || strcmp(g, v)) : g != 0) vh_fail("kvs", "entry of process %d (LID %d) is %s, expected %s", i, lids[i], g ? g : "absent", set ? v : "absent"); }
    if (laik_kvs_count(s) != cnt) vh_fail("kvs", "%u entries, expected %u", laik_kvs_count(s), cnt);
    laik_kvs_free(s); vh_count("kvs_syncs", 1);
}
static void locsync(void) {
    char hn[80]; gethostname(hn, 80); laik_sync_location(inst);
    for (int i = 0; i < wn; i++) { char w[200]; sprintf(w, "L%d:%s:%d", lids[i], hn, pids[i]); char* l = laik_group_location(world, i); if (!l || strcmp(l, w)) vh_fail("location", "location of process %d is '%s', expected '%s'", i, l ? l : "unknown", w); }
    vh_count("location_syncs", 1);
}

/* --------------------------------------------------------------------------------------------------------- worlds */
static void csv(Laik_Group* g, char* o) { *o = 0; if (!g) { strcpy(o, "-"); return; } for (int i = 0; i < laik_size(g); i++) o += sprintf(o, "%s%d", i ? "," : "", laik_group_locationid(g, i)); if (!laik_size(g)) strcpy(o, "-"); }
static void newworld(int it, Laik_Group* old, bool changed) {
    wn = laik_size(world); me = laik_myid(world); mylid = laik_mylocationid(inst); if (wn < 1 || wn > 60) vh_fail("size", "world of %d processes", wn);
    if (laik_world(inst) != world && me >= 0) vh_fail("world", "the world of the instance is not the one returned");
    char a[400], b[400]; csv(world, a); Laik_Group* par = laik_group_parent(world); csv(par, b);
    vh_line("T world %.6f %d %d %d %d %d %d %d %d %s %s", now(), getpid(), it, laik_phase(inst), laik_epoch(inst), changed, mylid, wn, me, a, b);
    for (int i = 0; i < wn; i++) { lids[i] = laik_group_locationid(world, i); if (i && lids[i] <= lids[i - 1]) vh_fail("order", "locations %d and %d of processes %d and %d", lids[i - 1], lids[i], i - 1, i); }
    if (me >= 0 ? me >= wn || lids[me] != mylid : 0) vh_fail("myid", "id %d has location %d, but this process is at location %d", me, me < wn ? lids[me] : -1, mylid);
    if (me < 0) for (int i = 0; i < wn; i++) if (lids[i] == mylid) vh_fail("myid", "not a member, but the world lists this process");
    if (old && changed && par != old) vh_fail("parent", "the parent of the new world is not the old world");
    if (par) { int pn = laik_size(par); /* mapping from/to parent */
        for (int i = 0; i < wn; i++) { int p = world->toParent[i], e = -1; for (int j = 0; j < pn; j++) if (laik_group_locationid(par, j) == lids[i]) e = j; if (p != e) vh_fail("parent", "process %d is %d in the parent group, expected %d", i, p, e); }
        for (int j = 0; j < pn; j++) { int p = world->fromParent[j], e = -1; for (int i = 0; i < wn; i++) if (lids[i] == laik_group_locationid(par, j)) e = i; if (p != e) vh_fail("parent", "process %d of the parent group is %d, expected %d", j, p, e); } }
    vh_count(changed ? "worlds_seen" : "resize_points_unchanged", 1);
}
static void nap(Rng* r, int max) { if (max > 0) { int u = rng_int(r, 0, max); if (u > 50) usleep((useconds_t)u); } }
int main(int argc, char** argv) {
    vh_parse(argc, argv); vh_init(); seed = vh_args.seed; Rng my = rng_make((uint64_t)getpid(), seed);
    int fd = open(getenv("VH_BOARD"), O_RDWR); board = mmap(0, sizeof *board, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (fd < 0 || board == MAP_FAILED) { perror("board"); return 3; }
    int delay = getenv("VH_DELAY") ? atoi(getenv("VH_DELAY")) : 0; vh_setwhere("seed=%llu pid=%d start", (unsigned long long)seed, getpid());
    int ac = 1; char* av_[2] = { "elastic", 0 }; char** av = av_; inst = laik_init(&ac, &av); world = laik_world(inst);
    int it = it_of(laik_phase(inst)); Laik_Group* parent = laik_group_parent(world); bool joined = parent != 0;
    if (!joined && it) vh_fail("phase", "start in phase %d without parent group", laik_phase(inst));
    int every = getenv("VH_NORESIZE") ? 1 << 30 : 1 + (int)(H(3, 3, 3) % 4); bool ctl = H(3, 3, 4) % 2;
    Rng q = rng_make(seed, 99); nc = 1 + rng_int(&q, 0, MAXC - 1);
    for (int c = 0; c < nc; c++) { int dims = rng_int(&q, 1, 3); C[c].b = gen_box(&q, dims, dims == 1 ? 200 : dims == 2 ? 16 : 7, rng_p(&q, 40)); C[c].t = (TypeId)rng_int(&q, 0, T_N - 1); C[c].sp = gen_space(inst, &C[c].b); C[c].d = laik_new_data(C[c].sp, type_laik(C[c].t)); sprintf(C[c].nm, "c%d", c); C[c].cur = 0; }
    vh_setwhere("seed=%llu pid=%d iteration %d", (unsigned long long)seed, getpid(), it); newworld(it, 0, true);
    if (joined) {
        if (laik_myid(parent) >= 0) vh_fail("parent", "this process joined, but is process %d of the earlier world", laik_myid(parent)); if (me < 0) vh_fail("myid", "this process joined, but has id %d", me);
        for (int c = 0; c < nc; c++) { Spec* old = spec_new(c, it - 1, ends_read(c, it - 1), laik_size(parent), parent); laik_set_initial_partitioning(C[c].d, old->p); C[c].cur = old; }
    }
    bool resized = joined;
    for (;; it++) {
        vh_setwhere("seed=%llu pid=%d LID %d world of %d, iteration %d epoch %d", (unsigned long long)seed, getpid(), mylid, wn, it, laik_epoch(inst));
        if (resized) { /* move the data into the new world */
            for (int c = 0; c < nc; c++) { sw(c, spec_new(c, it, 2, wn, world), true); if (me >= 0) elems(c, lastwrite(c, it - 1), false, "after the resize"); }
            if (rng_p(&my, 50) || me < 0) { laik_finish_world_resize(inst); if (laik_group_parent(world)) vh_fail("finish", "parent group still there after the end of the resize"); }
            resized = false; vh_count("data_moves", 1);
        }
        if (me < 0) { vh_count("left", 1); break; }
        bool stop = gather(it);
        if (H(5, (uint64_t)it, 1) % 3 == 0) kvsync(it);
        if (H(6, (uint64_t)it, 1) % 8 == 0) locsync();
        for (int c = 0; c < nc; c++) {
            if (writes(c, it)) { sw(c, spec_new(c, it, 0, wn, world), false); elems(c, it, true, "writing"); nap(&my, delay); }
            if (ends_read(c, it)) { sw(c, spec_new(c, it, 1, wn, world), true); elems(c, lastwrite(c, it), false, "after a switch"); }
        }
        if (stop) break;
        nap(&my, delay);
        if (ctl) laik_set_iteration(inst, it);
        if ((it + 1) % every) continue;
        vh_line("T allow %.6f %d %d", now(), getpid(), it + 1); int e0 = laik_epoch(inst);
        Laik_Group* g = laik_allow_world_resize(inst, phase_of(it + 1)); Laik_Group* old = world; bool changed = g != world;
        if (laik_phase(inst) != phase_of(it + 1)) vh_fail("phase", "phase is %d after a resize point for phase %d", laik_phase(inst), phase_of(it + 1));
        if (laik_epoch(inst) != e0 + changed) vh_fail("epoch", "epoch %d after a resize point in epoch %d %s change", laik_epoch(inst), e0, changed ? "with" : "without");
        if (changed && laik_myid(g) >= 0 && rng_p(&my, 50)) laik_release_group(old);
        world = g; newworld(it + 1, old, changed); resized = changed; if (changed && mylid == 0) board->changes++;
    }
    laik_finalize(inst); vh_count("processes_ended", 1); vh_finish(); return 0;
}
