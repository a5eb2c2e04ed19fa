/* Data-switch workload engine with reference model.
 * Every rank holds the model of all ranks' data (values + definedness), performs random sequences of
 * partitioning switches and checks every element it owns after every step.
 * Runs over the monitoring MPI stand-in (forked ranks) or, with -DNOSHIM, as one process of a real job. */
#include "gen.h"
#include "laik-internal.h"
#include <unistd.h>
#include <inttypes.h>
#include "growth.h"
#pragma weak growth_rep
#pragma weak growth_reset
#pragma weak growth_judge
static int repeats; /* each case is repeated: no memory may be kept per repetition */
#ifndef NOSHIM
#include "../shim/mpishim.h"
#include "logmon.h"
#include <sys/mman.h>
#include <sys/stat.h>
#define QUIESCE(w) vshim_quiesce(w)
#else
#define QUIESCE(w) ((void)0)
static void vshim_pubwhere(void) {}
#endif

#define MAXP 6
#define MAXC 2
#define MAXCACHE 24
typedef struct { Laik_Data* d; TypeId t; int cur; int64_t* val; uint8_t* def; Laik_Reservation* res; char nm[16]; int id; int defectTag; } Cont;
typedef struct { int c, p, q, flow, red; Laik_Transition* t; Laik_ActionSeq* as; bool withRes; } Cache;
static struct {
    int dims, nt, me; bool member; Box b; Laik_Space* sp; Laik_Group* g; int np; Spec P[MAXP]; int nc; Cont C[MAXC];
    Cache cache[MAXCACHE]; int ncache; int step; int world, cas; Rng r; bool cross; int gsize[3]; int gmap[3][MAXT]; Laik_Group* gg[3];
} K;
/* focus knobs per mode */
static struct { int pPreserve, pInit, pNone, pRed, pMulti, pPre, pRes, dim1, dim2, maxper1, builtin, pAlloc; bool cross, stats; } F;

static void focus(const char* m) {
    F.pPreserve = 70; F.pInit = 10; F.pNone = 10; F.pRed = 35; F.pMulti = 50; F.pPre = 40; F.pRes = 20; F.dim1 = 60; F.dim2 = 25; F.maxper1 = 60; F.builtin = 25; F.pAlloc = 0; F.cross = F.stats = false;
    if (!strcmp(m, "stats")) { F.stats = true; F.pPre = 40; F.pRes = 30; F.pRed = 50; }
    if (!strncmp(m, "cross", 5)) { F.cross = true; F.pRed = 30; F.pPre = 10; F.builtin = 15; }
    if (!strcmp(m, "preserve")) { F.pPreserve = 92; F.pInit = 3; F.pNone = 5; F.pRed = 10; F.pMulti = 25; F.dim1 = 40; F.dim2 = 35; }
    else if (!strcmp(m, "reduce")) { F.pPreserve = 90; F.pInit = 5; F.pNone = 5; F.pRed = 85; F.pMulti = 85; F.dim1 = 75; F.dim2 = 15; F.builtin = 10; }
    else if (!strcmp(m, "init")) { F.pPreserve = 30; F.pInit = 40; F.pNone = 30; F.pRed = 40; F.pMulti = 50; F.dim1 = 70; F.dim2 = 20; }
    else if (!strcmp(m, "pre")) { F.pPre = 95; F.pRes = 60; }
    else if (!strcmp(m, "res")) { F.pPre = 50; F.pRes = 90; F.pInit = 15; F.pRed = 40; }
}

/* ---- memory access by own means: map base + position in the bounding box of the map's ranges ---- */
typedef struct { int64_t f[3], t[3]; char* base; uint64_t sy, sz; } MapBox;
static int getmaps(Cont* c, MapBox* mb, int max) {
    Laik_Partitioning* p = K.P[c->cur].p; int nm = laik_my_mapcount(p);
    if (nm > max) { fprintf(stderr, "too many maps\n"); _exit(3); }
    int nr = laik_my_rangecount(p);
    for (int m = 0; m < nm; m++) { for (int d = 0; d < 3; d++) { mb[m].f[d] = INT64_MAX; mb[m].t[d] = INT64_MIN; } }
    for (int i = 0; i < nr; i++) {
        Laik_TaskRange* tr = laik_my_range(p, i); int m = laik_taskrange_get_mapNo(tr); const Laik_Range* rg = laik_taskrange_get_range(tr);
        if (m < 0 || m >= nm) vh_fail("mapno", "range %d has map number %d of %d", i, m, nm);
        for (int d = 0; d < K.dims; d++) { if (rg->from.i[d] < mb[m].f[d]) mb[m].f[d] = rg->from.i[d]; if (rg->to.i[d] > mb[m].t[d]) mb[m].t[d] = rg->to.i[d]; }
        for (int d = K.dims; d < 3; d++) { mb[m].f[d] = 0; mb[m].t[d] = 1; }
    }
    for (int m = 0; m < nm; m++) {
        void* base = 0; uint64_t cnt = 0, xs = 0, ys = 0, ysz = 0, zs = 0, zsz = 0; uint64_t ex[3]; Laik_Mapping* mm;
        for (int d = 0; d < 3; d++) ex[d] = (uint64_t)(mb[m].t[d] - mb[m].f[d]);
        if (K.dims == 1) { mm = laik_get_map_1d(c->d, m, &base, &cnt); if (mm && cnt != ex[0]) vh_fail("mapsize", "1d map %d has %" PRIu64 " elements, its ranges span %" PRIu64, m, cnt, ex[0]); mb[m].sy = mb[m].sz = 0; }
        else if (K.dims == 2) { mm = laik_get_map_2d(c->d, m, &base, &ysz, &ys, &xs); if (mm && (xs != ex[0] || ysz != ex[1] || ys < xs)) vh_fail("mapsize", "2d map %d is %" PRIu64 "x%" PRIu64 " stride %" PRIu64 ", its ranges span %" PRIu64 "x%" PRIu64, m, xs, ysz, ys, ex[0], ex[1]); mb[m].sy = ys; mb[m].sz = 0; }
        else { mm = laik_get_map_3d(c->d, m, &base, &zsz, &zs, &ysz, &ys, &xs); if (mm && (xs != ex[0] || ysz != ex[1] || zsz != ex[2] || ys < xs || zs < ys * ysz)) vh_fail("mapsize", "3d map %d is %" PRIu64 "x%" PRIu64 "x%" PRIu64 ", its ranges span %" PRIu64 "x%" PRIu64 "x%" PRIu64, m, xs, ysz, zsz, ex[0], ex[1], ex[2]); mb[m].sy = ys; mb[m].sz = zs; }
        if (!mm || !base) vh_fail("nomap", "no memory for map %d", m);
        mb[m].base = base;
    }
    return nm;
}
static char* addr(MapBox* m, TypeId t, const int64_t* x) {
    uint64_t o = (uint64_t)(x[0] - m->f[0]); if (K.dims > 1) o += (uint64_t)(x[1] - m->f[1]) * m->sy; if (K.dims > 2) o += (uint64_t)(x[2] - m->f[2]) * m->sz;
    return m->base + o * (uint64_t)type_size(t);
}
/* call fn for each owned index with its address */
typedef void (*own_fn)(Cont* c, int64_t li, const int64_t* x, char* a);
static MapBox mbuf[1024];
static uint64_t foreach_own(Cont* c, own_fn fn) {
    Laik_Partitioning* p = K.P[c->cur].p; Spec* s = &K.P[c->cur]; getmaps(c, mbuf, 1024); uint64_t n = 0;
    static uint8_t* seen; static int64_t seencap; if (seencap < K.b.n) { free(seen); seencap = K.b.n; seen = malloc((size_t)seencap); }
    memset(seen, 0, (size_t)K.b.n);
    int nr = laik_my_rangecount(p);
    for (int i = 0; i < nr; i++) {
        Laik_TaskRange* tr = laik_my_range(p, i); int m = laik_taskrange_get_mapNo(tr); const Laik_Range* rg = laik_taskrange_get_range(tr);
        int64_t x[3] = { 0, 0, 0 }; for (int d = 0; d < K.dims; d++) { x[d] = rg->from.i[d]; if (rg->from.i[d] < K.b.f[d] || rg->to.i[d] > K.b.t[d]) vh_fail("ownrange", "own range outside of space"); }
        do {
            int64_t li = lin(&K.b, x);
            if (!((s->own[li] >> K.me) & 1)) vh_fail("ownrange", "index %lld listed as own but not assigned to task %d", (long long)li, K.me);
            if (seen[li]) continue;
            seen[li] = 1; n++; fn(c, li, x, addr(&mbuf[m], c->t, x));
        } while (iter_next(K.dims, rg->from.i, rg->to.i, x));
    }
    uint64_t want = 0; for (int64_t i = 0; i < K.b.n; i++) want += (s->own[i] >> K.me) & 1;
    if (n != want) vh_fail("ownrange", "own ranges cover %" PRIu64 " indexes, %" PRIu64 " assigned", n, want);
    return n;
}
#define V(c, r, i) ((c)->val[(int64_t)(r) * K.b.n + (i)])
#define D(c, r, i) ((c)->def[(int64_t)(r) * K.b.n + (i)])
static uint64_t nchk;
static void chk1(Cont* c, int64_t li, const int64_t* x, char* a) {
    if (!D(c, K.me, li)) return;
    nchk++;
    bool ok;
    if (D(c, K.me, li) >= 2) { ok = type_is_neutral(c->t, a, (Laik_ReductionOperation)(D(c, K.me, li) - 2)); }
    else ok = type_eq(c->t, a, V(c, K.me, li));
    if (!ok) { char sv[40], ps[600]; type_str(c->t, a, sv); spec_str(&K.P[c->cur], &K.b, ps, sizeof ps);
        if (D(c, K.me, li) >= 2) vh_fail("value", "%s index (%lld,%lld,%lld): got %s, expected the neutral element of %s", c->nm, (long long)x[0], (long long)x[1], (long long)x[2], sv, red_names[D(c, K.me, li) - 2]);
        vh_fail("value", "%s (%s) index (%lld,%lld,%lld) on task %d: got %s, expected %lld; now %s", c->nm, type_names[c->t], (long long)x[0], (long long)x[1], (long long)x[2], K.me, sv, (long long)V(c, K.me, li), ps); }
}
static void verify_all(void) {
    if (!K.member) return;
    for (int i = 0; i < K.nc; i++) if (K.C[i].cur >= 0) { nchk = 0; foreach_own(&K.C[i], chk1); vh_count("elements_checked", nchk); }
}
static void wr1(Cont* c, int64_t li, const int64_t* x, char* a) { (void)x; if (D(c, K.me, li) == 1) type_put(c->t, a, V(c, K.me, li)); }
static int64_t canon(TypeId t, int64_t v) { switch (t) { case T_CHAR: return (int8_t)v; case T_UCHAR: return (uint8_t)v; case T_I32: return (int32_t)v; case T_U32: return (uint32_t)v; default: return v; } }
/* write: consistent (all owners the same value) or per task; pct of elements. Elements not written keep what they have */
static void do_write(Cont* c, bool consistent, int pct, uint64_t salt) {
    Spec* s = &K.P[c->cur]; bool uns = c->t == T_UCHAR || c->t == T_U32 || c->t == T_U64;
    for (int r = 0; r < K.nt; r++) for (int64_t i = 0; i < K.b.n; i++) {
        if (!((s->own[i] >> r) & 1)) continue;
        uint64_t h = hash_mix(hash_mix(salt, (uint64_t)i), consistent ? 99 : (uint64_t)r), hp = hash_mix(hash_mix(salt + 7, (uint64_t)i), consistent ? 99 : (uint64_t)r);
        if ((int)(hp % 100) >= pct) continue;
        int64_t v; if (consistent) v = uns ? (int64_t)(h % 100) : (int64_t)(h % 200) - 100; else v = K.nt > 10 ? (uns ? (int64_t)(h % 2) : (h % 8) == 0 ? -1 : (h % 8) < 6 ? 1 : 0) : uns ? (int64_t)(h % 4) : (int64_t)(h % 7) - 3;
        V(c, r, i) = v; D(c, r, i) = 1;
    }
    if (K.member) foreach_own(c, wr1); /* rewriting unchanged defined values is harmless */
}
static bool small(Cont* c) { if (c->cur < 0) return true; Spec* s = &K.P[c->cur]; for (int r = 0; r < K.nt; r++) for (int64_t i = 0; i < K.b.n; i++) if (((s->own[i] >> r) & 1) && D(c, r, i) == 1 && (V(c, r, i) > (K.nt > 10 ? 1 : 3) || V(c, r, i) < (K.nt > 10 ? -1 : -3))) return false; return true; }
/* undefined or neutral elements in inputs become ordinary values for the model only by overwriting; so: any neutral left? */
static bool anyNeutral(Cont* c) { if (c->cur < 0) return false; Spec* s = &K.P[c->cur]; for (int r = 0; r < K.nt; r++) for (int64_t i = 0; i < K.b.n; i++) if (((s->own[i] >> r) & 1) && D(c, r, i) != 1) return true; return false; }

static void model_switch(Cont* c, int q, Laik_DataFlow flow, Laik_ReductionOperation red) {
    Spec* to = &K.P[q]; Spec* from = c->cur >= 0 ? &K.P[c->cur] : 0; int64_t n = K.b.n;
    int64_t* nv = calloc((size_t)(n * K.nt), sizeof(int64_t)); uint8_t* nd = calloc((size_t)(n * K.nt), 1);
    for (int64_t i = 0; i < n; i++) {
        if (!to->own[i] || flow == LAIK_DF_None) continue;
        uint8_t d = 0; int64_t v = 0;
        if (flow == LAIK_DF_Init) d = (uint8_t)(2 + red);
        else if (from) {
            uint64_t o = from->own[i]; int cnt = __builtin_popcountll(o);
            if (cnt == 0) d = red == LAIK_RO_None ? 0 : (uint8_t)(2 + red);
            else if (cnt == 1 || red == LAIK_RO_None) {
                bool first = true, same = true; for (int r = 0; r < K.nt; r++) if ((o >> r) & 1) { if (first) { d = D(c, r, i); v = V(c, r, i); first = false; } else if (D(c, r, i) != d || V(c, r, i) != v) same = false; }
                if (!same) d = 0;
            } else {
                bool first = true; d = 1; for (int r = 0; r < K.nt; r++) if ((o >> r) & 1) {
                    if (D(c, r, i) != 1) { d = 0; break; }
                    if (first) { v = V(c, r, i); first = false; } else v = canon(c->t, red_apply(red, v, V(c, r, i))); }
            }
        }
        if (d) for (int r = 0; r < K.nt; r++) if ((to->own[i] >> r) & 1) { nv[(int64_t)r * n + i] = v; nd[(int64_t)r * n + i] = d; }
    }
    free(c->val); free(c->def); c->val = nv; c->def = nd; c->cur = q;
}
static bool valid(Cont* c, int q, Laik_DataFlow flow, Laik_ReductionOperation red) {
    Spec* to = &K.P[q]; Spec* from = c->cur >= 0 ? &K.P[c->cur] : 0;
    if (from && from->grp != to->grp && ((from->grp && to->grp) || (K.dims > 1 && red != LAIK_RO_None))) return false; /* groups must be derived from each other */
    if ((red == LAIK_RO_And || red == LAIK_RO_Or) && c->t >= T_FLOAT) return false;
    if (flow == LAIK_DF_None) return red == LAIK_RO_None;
    if (flow == LAIK_DF_Init) return K.dims == 1 && red != LAIK_RO_None;
    if (!from) return red == LAIK_RO_None || K.dims == 1;
    if (K.dims == 1) return red != LAIK_RO_None || !from->multi;
    if (red == LAIK_RO_None) { if (!from->multi) return true;
        for (int64_t i = 0; i < K.b.n; i++) { bool first = true; uint8_t d = 0; int64_t v = 0; for (int r = 0; r < K.nt; r++) if ((from->own[i] >> r) & 1) { if (first) { d = D(c, r, i); v = V(c, r, i); first = false; } else if (d != D(c, r, i) || v != V(c, r, i)) return false; } }
        return true; }
    return from->all && (to->all || to->singleTask >= 0);
}
static double iw(Laik_Index* i, const void* u) { return 1.0 + (double)((i->i[*(const int*)u] & 3)); }
static double tw(int r, const void* u) { (void)u; return 1.0 + (double)(r % 3); }

static Laik_Partitioner* mkbuiltin(Rng* r, Laik_Partitioning** other, char* desc, int* otherIdx) {
    static int pdims[3] = { 0, 1, 2 }; *other = 0; *otherIdx = -1;
    for (;;) switch (rng_int(r, 0, 6)) {
    case 0: sprintf(desc, "Master"); return laik_Master;
    case 1: sprintf(desc, "All"); return laik_All;
    case 2: case 3: { int pd = rng_int(r, 0, K.dims - 1); int cyc = rng_p(r, 70) ? 1 : rng_int(r, 2, 3); bool w = rng_p(r, 30), t = rng_p(r, 30);
        sprintf(desc, "Block(dim %d, cycles %d%s%s)", pd, cyc, w ? ", index weights" : "", t ? ", task weights" : ""); return laik_new_block_partitioner(pd, cyc, w ? iw : 0, t ? tw : 0, &pdims[pd]); }
    case 4: sprintf(desc, "Bisection"); return laik_new_bisection_partitioner();
    case 5: if (K.dims == 3) { int f[4] = { 1, 1, 1, 0 }; for (int k = 0; k < 4; k++) { int d = rng_int(r, 0, 2); if (f[0] * f[1] * f[2] / f[d] * (f[d] + 1) <= K.nt && f[d] + 1 <= K.b.t[d] - K.b.f[d]) f[d]++; } sprintf(desc, "Grid(%d,%d,%d)", f[0], f[1], f[2]); return laik_new_grid_partitioner(f[0], f[1], f[2]); } break;
    case 6: { /* halo of an earlier tagged partitioning */
        int cand[MAXP], n = 0; for (int i = 0; i < K.np; i++) { bool t = K.P[i].cnt > 0 && !K.P[i].grp; for (int k = 0; k < K.P[i].cnt; k++) if (K.P[i].e[k].tag < 1) t = false; if (t && !K.P[i].multi && !K.P[i].holes && K.P[i].cnt <= K.nt) cand[n++] = i; }
        /* only shapes where halos cannot overlap own ranges: one range per task */
        for (int k = 0; k < n; k++) { uint64_t seen = 0; bool ok = true; Spec* s = &K.P[cand[k]]; for (int e = 0; e < s->cnt; e++) { if ((seen >> s->e[e].task) & 1) ok = false; seen |= 1ull << s->e[e].task; } if (!ok) cand[k--] = cand[--n]; }
        if (!n) break;
        int i = cand[rng_int(r, 0, n - 1)]; *other = K.P[i].p; *otherIdx = i; int dep = rng_int(r, 1, 2);
        if (K.dims == 1 || rng_p(r, 50)) { if (rng_p(r, 50)) { sprintf(desc, "Halo(%d) of p%d", dep, i); return laik_new_halo_partitioner(dep); } }
        sprintf(desc, "CornerHalo(%d) of p%d", dep, i); return laik_new_cornerhalo_partitioner(dep); }
    }
}
static const char* flown[] = { "none", "preserve", "init" };
static uint64_t gsig, statHash = 1; static int me_world;

static Cache* getcache(int ci, int q, Laik_DataFlow flow, Laik_ReductionOperation red) {
    int p = K.C[ci].cur;
    for (int i = 0; i < K.ncache; i++) { Cache* c = &K.cache[i]; if (c->c == ci && c->p == p && c->q == q && c->flow == (int)flow && c->red == (int)red) { vh_count("precomputed_reused", 1); return c; } }
    if (K.ncache == MAXCACHE) return 0;
    Cache* c = &K.cache[K.ncache++]; memset(c, 0, sizeof *c); c->c = ci; c->p = p; c->q = q; c->flow = (int)flow; c->red = (int)red;
    if (K.member) c->t = laik_calc_transition(K.sp, p < 0 ? 0 : K.P[p].p, K.P[q].p, flow, red);
    return c;
}
#ifndef NOSHIM
/* the statistics of a container against the traffic seen at the MPI interface */
#define U(x) (unsigned long long)(x)
static void stat_check(Cont* c, Laik_SwitchStat* b, VshimStats* a, VshimStats* z, int from, int to, int flow, int how, bool big, Laik_SwitchStat* others) {
    Laik_SwitchStat* s = c->d->stat; (void)how;
    /* traffic of LAIK's own group reductions is accounted as reductions, not as messages */
    uint64_t snd = (z->sends + z->isends - z->grSends) - (a->sends + a->isends - a->grSends), rcv = (z->recvs + z->irecvs - z->grRecvs) - (a->recvs + a->irecvs - a->grRecvs);
    uint64_t sE = (z->sendElems - z->grSendElems) - (a->sendElems - a->grSendElems), rE = (z->recvElems - z->grRecvElems) - (a->recvElems - a->grRecvElems);
    uint64_t sB = (z->sendBytes - z->grSendBytes) - (a->sendBytes - a->grSendBytes), rB = (z->recvBytes - z->grRecvBytes) - (a->recvBytes - a->grRecvBytes);
    uint64_t grp = z->grSends + z->grRecvs - a->grSends - a->grRecvs, red = z->reduces - a->reduces, redE = z->reduceElems - a->reduceElems, redB = z->reduceBytes - a->reduceBytes;
    uint64_t lsB = s->byteSendCount - b->byteSendCount, lrB = s->byteRecvCount - b->byteRecvCount, lsE = s->elemSendCount - b->elemSendCount, lrE = s->elemRecvCount - b->elemRecvCount;
    uint64_t ls = s->msgSendCount + s->msgAsyncSendCount - b->msgSendCount - b->msgAsyncSendCount, lr = s->msgRecvCount + s->msgAsyncRecvCount - b->msgRecvCount - b->msgAsyncRecvCount;
    if (lsB != sB || lrB != rB) vh_fail("stat-bytes", "statistics report %llu bytes sent and %llu received, really %llu and %llu", U(lsB), U(lrB), U(sB), U(rB));
    if (lsE != sE || lrE != rE) vh_fail("stat-elems", "statistics report %llu elements sent and %llu received, really %llu and %llu", U(lsE), U(lrE), U(sE), U(rE));
    if (big ? ls > snd || lr > rcv || (sB && !ls) || (rB && !lr) : ls != snd || lr != rcv) vh_fail("stat-messages", "statistics report %llu messages sent and %llu received, really %llu and %llu", U(ls), U(lr), U(snd), U(rcv));
    if (!big && (s->msgAsyncSendCount - b->msgAsyncSendCount != z->isends - a->isends || s->msgAsyncRecvCount - b->msgAsyncRecvCount != z->irecvs - a->irecvs)) vh_fail("stat-async", "statistics report %u asynchronous sends and %u receives, really %llu and %llu", s->msgAsyncSendCount - b->msgAsyncSendCount, s->msgAsyncRecvCount - b->msgAsyncRecvCount, U(z->isends - a->isends), U(z->irecvs - a->irecvs));
    uint64_t lr_ = s->msgReduceCount - b->msgReduceCount, lrdE = s->elemReduceCount - b->elemReduceCount, lrdB = s->byteReduceCount - b->byteReduceCount;
    /* reductions without another process (alone or without any input) are counted without communication */
    uint64_t mine = 0, alone = 0; if (from >= 0) for (int64_t i = 0; i < K.b.n; i++) { uint64_t m = 1ull << (K.cross ? me_world : K.me), o = K.P[from].own[i], n = K.P[to].own[i]; if ((o | n) & m) { mine++; if ((o | n) == m || !o) alone++; } }
    if (lr_ < red || lrdE < redE || (grp && (lr_ == red || lrdE == redE)) || lrdE > mine || (!grp && (lrdE - redE > alone || (!alone && lr_ != red))) || lrdB != lrdE * (uint64_t)type_size(c->t) || (lrdE && !lr_))
        vh_fail("stat-reduce", "statistics report %llu reductions of %llu elements = %llu bytes, really %llu of %llu elements and %llu messages of own reductions (%llu indexes involve this process, %llu only this one)", U(lr_), U(lrdE), U(lrdB), U(red), U(redE), U(grp), U(mine), U(alone));
    if (s->switches != b->switches + 1) vh_fail("stat-switches", "statistics count %d switches, expected %d", s->switches, b->switches + 1);
    int act = s->switches_noactions - b->switches_noactions, tr = s->transitionCount - b->transitionCount;
    if (act < 0 || act > 1 || tr < 0 || tr > 1 || (act == 1 && (snd || rcv || red || grp)) || (flow == LAIK_DF_None && act != 1) || (!act && !tr)) vh_fail("stat-switches", "statistics count %d switches without actions and %d transitions for this one (%llu messages)", act, tr, U(snd + rcv + red + grp));
    (void)from; (void)to;
    for (int i = 0; i < K.nc; i++) if (&K.C[i] != c && memcmp(&others[i], K.C[i].d->stat, sizeof(Laik_SwitchStat))) vh_fail("stat-other", "statistics of a container changed which was not switched");
    vh_count("stat_checks", 1); vh_count("stat_messages", snd + rcv); vh_count("stat_reductions", lr_); if (grp) vh_count("stat_own_reductions", 1);
}
#endif
/* free all objects in any order in which nothing refers to a freed object: sequences before their transitions and containers, transitions before
 * their partitionings, reservations before their container, partitionings not while a container uses them, the space at the end */
static void release_all(Rng* r) {
    enum { R_AS, R_T, R_D, R_P }; struct { int kind, i; } o[200]; int n = 0; bool own = true;
    for (int i = 0; i < K.ncache; i++) { if (K.cache[i].as) { o[n].kind = R_AS; o[n++].i = i; } if (K.cache[i].t) { o[n].kind = R_T; o[n++].i = i; } }
    for (int i = 0; i < K.nc; i++) { o[n].kind = R_D; o[n++].i = i; }
    for (int i = 0; i < K.np; i++) { o[n].kind = R_P; o[n++].i = i; for (int j = 0; j < i; j++) if (K.P[j].p == K.P[i].p) own = false; }
    if (!own) vh_fail("harness", "partitioning used twice");
    for (int i = n - 1; i > 0; i--) { int j = rng_int(r, 0, i); int a = o[i].kind, b = o[i].i; o[i] = o[j]; o[j].kind = a; o[j].i = b; }
    /* partitionings of active containers stay until these have ended */
    for (int i = 0; i < K.nc; i++) { Cont* c = &K.C[i]; if (c->res || (c->cur >= 0 && rng_p(r, 50))) { if (c->cur >= 0) laik_switchto_partitioning(c->d, 0, LAIK_DF_None, LAIK_RO_None); c->cur = -1; } }
    int left = n;
    for (int pass = 0; left && pass < 50; pass++) for (int i = 0; i < n; i++) { int k = o[i].i; bool can = true; if (o[i].kind < 0) continue;
        switch (o[i].kind) {
        case R_AS: laik_aseq_free(K.cache[k].as); K.cache[k].as = 0; vh_count("freed_sequences", 1); break;
        case R_T: if (K.cache[k].as) can = false; else { laik_free_transition(K.cache[k].t); K.cache[k].t = 0; vh_count("freed_transitions", 1); } break;
        case R_D: for (int j = 0; j < K.ncache; j++) if (K.cache[j].as && K.cache[j].c == k) can = false; if (can) { if (K.C[k].res) laik_reservation_free(K.C[k].res); laik_free(K.C[k].d); K.C[k].d = 0; vh_count("freed_containers", 1); } break;
        case R_P: for (int j = 0; j < K.nc; j++) if (K.C[j].d && (K.C[j].cur == k || K.C[j].res)) can = false;
            for (int j = 0; j < K.ncache; j++) if (K.cache[j].t && (K.cache[j].p == k || K.cache[j].q == k)) can = false;
            if (can) { laik_free_partitioning(K.P[k].p); K.P[k].p = 0; vh_count("freed_partitionings", 1); } break; }
        if (can) { o[i].kind = -1; left--; } }
    if (left) vh_fail("harness", "objects left");
    laik_free_space(K.sp); vh_count("freed_spaces", 1);
}
static void case_run(Laik_Instance* inst, Laik_Group* world, int wi, int ci_) {
    memset(&K, 0, sizeof K); K.world = wi; K.cas = ci_; Rng* r = &K.r; *r = rng_make(vh_args.seed * 1000003 + (uint64_t)wi, (uint64_t)ci_ + 5);
    int wn = laik_size(world), wme = laik_myid(world); char bn[80]; me_world = wme;
    int q = rng_int(r, 0, 99); K.dims = q < F.dim1 ? 1 : (q < F.dim1 + F.dim2 ? 2 : 3);
    bool big = rng_p(r, 3); /* transfers larger than the pack buffer */
    K.b = gen_box(r, K.dims, K.dims == 1 ? (big ? (rng_p(r, 40) ? 60000 : 9000) : rng_p(r, 8) ? (rng_p(r, 40) ? 2500 : 400) : F.maxper1) : K.dims == 2 ? (big ? 110 : 12) : (big ? 23 : 6), true); vh_count("big_cases", big && wme == 0); gen_boxname(&K.b, bn, sizeof bn);
    K.sp = gen_space(inst, &K.b); K.g = world; K.nt = wn; K.me = wme; K.member = true; K.cas = ci_;
    char gs[300] = "world";
    K.cross = F.cross && wn > 1 && ci_ < 16 && !repeats; int ng = 1;
    if (K.cross) { /* partitionings of one container belong to the world or to groups derived from it */
        K.gg[0] = world; K.gsize[0] = wn; for (int i = 0; i < wn; i++) K.gmap[0][i] = i;
        int want = rng_p(r, 40) ? 2 : 1; int k = sprintf(gs, "world");
        for (int gi = 1; gi <= want; gi++) { int rem[MAXT], nr = 0; for (int i = 0; i < wn; i++) if (nr < wn - 1 && rng_p(r, 40)) rem[nr++] = i;
            if (!nr) rem[nr++] = rng_int(r, 0, wn - 1);
            K.gg[gi] = laik_new_shrinked_group(world, nr, rem); int id = 0, mine = -1; k += sprintf(gs + k, ", g%d={", gi);
            for (int i = 0; i < wn; i++) { bool x = false; for (int j = 0; j < nr; j++) x |= rem[j] == i; if (x) continue; if (i == wme) mine = id; K.gmap[gi][id++] = i; k += sprintf(gs + k, " %d", i); }
            k += sprintf(gs + k, " }"); K.gsize[gi] = id; ng++;
            if (laik_myid(K.gg[gi]) != mine || laik_size(K.gg[gi]) != id) vh_fail("group", "shrinked group: my id %d size %d, expected %d %d", laik_myid(K.gg[gi]), laik_size(K.gg[gi]), mine, id); }
        vh_count("cross_cases", wme == 0);
    }
    if (!K.cross && wn > 1 && rng_p(r, 25) && ci_ < 8 && !repeats) { /* group instances are a limited resource per instance */
        int rem[MAXT], nr = 0; for (int i = 0; i < wn; i++) if (nr < wn - 1 && rng_p(r, 40)) rem[nr++] = i;
        if (nr) { K.g = laik_new_shrinked_group(world, nr, rem); K.nt = laik_size(K.g); K.me = laik_myid(K.g); int k = sprintf(gs, "world without"); for (int i = 0; i < nr; i++) k += sprintf(gs + k, " %d", rem[i]);
            int id = 0; bool mem = true; for (int i = 0; i < wme; i++) { bool x = false; for (int j = 0; j < nr; j++) x |= rem[j] == i; id += !x; } for (int j = 0; j < nr; j++) if (rem[j] == wme) mem = false;
            if (K.me != (mem ? id : -1) || K.nt != wn - nr) vh_fail("group", "shrinked group: my id %d size %d, expected %d %d", K.me, K.nt, mem ? id : -1, wn - nr);
            K.member = mem; vh_count("subgroup_cases", wme == 0); }
    }
    vh_setwhere("seed=%llu world=%d case=%d ranks=%d space=%s group=%s", (unsigned long long)vh_args.seed, wi, ci_, wn, bn, gs); vshim_pubwhere();
    uint64_t sig = hash_mix((uint64_t)K.dims * 100 + (uint64_t)K.nt, (uint64_t)K.b.n);
    int np = rng_int(r, 3, MAXP - 1), total = 0; bool useRes = !K.cross && rng_p(r, F.pRes);
    while (K.np < np && total++ < 40) {
        Spec* s = &K.P[K.np]; bool multiOk = rng_p(r, F.pMulti);
        int gi = K.cross ? rng_int(r, 0, ng - 1) : 0;
        if (gi > 0) {
            gen_spec(r, &K.b, K.gsize[gi], -1, multiOk, -1, s); char nm[20]; sprintf(nm, "p%d", K.np); spec_make(s, K.gg[gi], K.sp, nm); spec_remap(&K.b, s, gi, K.gmap[gi]); snprintf(s->desc + strlen(s->desc), sizeof s->desc - strlen(s->desc), " in g%d", gi);
            sig = hash_mix(sig, spec_sig(s) + (uint64_t)gi);
        } else if (rng_p(r, F.builtin)) {
            Laik_Partitioning* other; int oi; char desc[80]; Laik_Partitioner* pr = mkbuiltin(r, &other, desc, &oi);
            Laik_Partitioning* p = 0;
            /* every process needs the model; non-members compute it with nothing: use an independent way */
            if (K.member) { p = laik_new_partitioning(pr, K.g, K.sp, other); spec_from_laik(s, &K.b, p); }
            if (pr != laik_Master && pr != laik_All) {} /* partitioner objects stay referenced by their partitioning */
            if (!K.member) { memset(s, 0, sizeof *s); s->ntasks = K.nt; s->own = calloc((size_t)K.b.n + 1, 8); s->kind = 99; }
            snprintf(s->desc, sizeof s->desc, "%s", desc); s->kind = 50; sig = hash_mix(sig, (uint64_t)desc[0] * 7 + (uint64_t)desc[1]);
            if (K.member && s->multi && !multiOk && strcmp(desc, "All")) {}
        } else {
            gen_spec(r, &K.b, K.nt, -1, multiOk, useRes ? 1 : -1, s);
            if (useRes && s->single) s->single = false;
            char nm[20]; sprintf(nm, "p%d", K.np); if (K.member) { spec_make(s, K.g, K.sp, nm); if (rng_p(r, 30)) laik_partitioning_store_allranges(s->p); else if (rng_p(r, 30)) laik_partitioning_store_myranges(s->p); } else { rng_p(r, 30) ? 0 : rng_p(r, 30); }
            sig = hash_mix(sig, spec_sig(s));
        }
        K.np++;
    }
    K.nc = rng_p(r, 40) ? 2 : 1;
    for (int i = 0; i < K.nc; i++) { Cont* c = &K.C[i]; c->id = i; c->t = (TypeId)rng_int(r, 0, T_N - 1); c->cur = -1; sprintf(c->nm, "c%d", i); c->val = calloc((size_t)(K.b.n * K.nt), 8); c->def = calloc((size_t)(K.b.n * K.nt), 1);
        if (K.member) c->d = laik_new_data(K.sp, type_laik(c->t)); sig = hash_mix(sig, (uint64_t)c->t); }
    if (!K.member) { /* the non-members only wait: what happens in a group does not involve others */
        QUIESCE("end of case"); goto out; }
    bool inRes[MAXP] = { 0 };
    if (useRes) { Cont* c = &K.C[0]; c->res = laik_reservation_new(c->d); int n = 0;
        for (int i = 0; i < K.np; i++) if (rng_p(r, 75)) { bool tagOk = true; /* several maps need tags */
            for (int t = 0; t < K.nt; t++) { int cnt = 0, zero = 0; for (int e = 0; e < K.P[i].cnt; e++) if (K.P[i].e[e].task == t) { cnt++; zero += K.P[i].e[e].tag == 0; } if (cnt > 1 && zero) tagOk = false; if (zero) tagOk = false; }
            if (tagOk) { laik_reservation_add(c->res, K.P[i].p); inRes[i] = true; n++; } }
        if (n) { laik_reservation_alloc(c->res); laik_data_use_reservation(c->d, c->res); vh_count("reservations", K.me == 0); }
        else { laik_reservation_free(c->res); c->res = 0; } }
    int steps = rng_int(r, 4, 9); char ops[900]; int ol = 0; ops[0] = 0;
    for (K.step = 0; K.step < steps; K.step++) {
        int ci = rng_int(r, 0, K.nc - 1); Cont* c = &K.C[ci]; int to = 0; Laik_DataFlow flow = LAIK_DF_None; Laik_ReductionOperation red = LAIK_RO_None; bool ok = false;
        bool flowOnly = false;
        for (int tr = 0; tr < 30 && !ok; tr++) {
            to = rng_int(r, 0, K.np - 1); flowOnly = false; if (c->cur >= 0 && rng_p(r, 15)) { to = c->cur; flowOnly = rng_p(r, 70); }
            int f = rng_int(r, 0, F.pPreserve + F.pInit + F.pNone - 1); flow = f < F.pPreserve ? LAIK_DF_Preserve : f < F.pPreserve + F.pInit ? LAIK_DF_Init : LAIK_DF_None;
            red = LAIK_RO_None; if (flow == LAIK_DF_Init || (flow == LAIK_DF_Preserve && rng_p(r, F.pRed))) red = (Laik_ReductionOperation)rng_int(r, LAIK_RO_Sum, LAIK_RO_Or);
            if (tr > 20 && c->cur < 0) { flow = LAIK_DF_None; red = LAIK_RO_None; }
            ok = valid(c, to, flow, red);
        }
        if (!ok) { flow = LAIK_DF_None; red = LAIK_RO_None; }
        if (c->cur >= 0) {
            bool reducing = flow == LAIK_DF_Preserve && red != LAIK_RO_None;
            bool must = reducing && (c->t >= T_FLOAT || !small(c) || anyNeutral(c));
            if (must) do_write(c, false, 100, rng_u64(r));
            else if (flow == LAIK_DF_Preserve && rng_p(r, 80)) { bool cons = !reducing; int pct = rng_p(r, 70) ? 100 : 60; uint64_t salt = rng_u64(r);
                if (cons || !reducing) do_write(c, true, pct, salt); else do_write(c, false, pct, salt); }
            /* partial writes may leave owners disagreeing: re-check */
            if (!valid(c, to, flow, red)) { do_write(c, red == LAIK_RO_None, 100, rng_u64(r)); }
        }
        int how = 0; if (rng_p(r, F.pPre)) how = rng_int(r, 1, 2);
        if (flowOnly || (c->cur >= 0 && K.P[c->cur].grp != K.P[to].grp) || (K.cross && K.P[to].grp)) how = 0;
        if (c->cur >= 0 && K.P[c->cur].grp != K.P[to].grp && K.me == 0) vh_count(K.P[to].grp ? "switch_to_subgroup" : "switch_from_subgroup", 1);
        if (ol < 700) ol += sprintf(ops + ol, " %s:p%d>p%d/%s/%s%s", c->nm, c->cur, to, flown[flow], red_names[red], how == 1 ? "/trans" : how == 2 ? "/actions" : flowOnly ? "/flow" : "");
        char s1[300] = "-", s2[300]; if (c->cur >= 0) spec_str(&K.P[c->cur], &K.b, s1, sizeof s1); spec_str(&K.P[to], &K.b, s2, sizeof s2);
        vh_setwhere("seed=%llu world=%d case=%d ranks=%d space=%s group=%s step=%d %s(%s) %s/%s how=%d from {%s} to {%s}", (unsigned long long)vh_args.seed, wi, ci_, wn, bn, gs, K.step, c->nm, type_names[c->t], flown[flow], red_names[red], how, s1, s2); vshim_pubwhere();
        if (vh_args.verbose && K.me == 0) { vh_line("X %s", vh_where); }
        uint64_t ss = hash_mix(hash_mix(spec_sig(&K.P[to]), c->cur >= 0 ? spec_sig(&K.P[c->cur]) : 1), (uint64_t)flow * 1000 + (uint64_t)red * 10 + (uint64_t)how); ss = hash_mix(ss, (uint64_t)K.nt * 16 + c->t);
#ifndef NOSHIM
        VshimStats a = vshim_stats();
#endif
        Laik_SwitchStat sb = *c->d->stat, so[MAXC]; for (int i = 0; i < K.nc; i++) so[i] = *K.C[i].d->stat;
        Cache* ca = how ? getcache(ci, to, flow, red) : 0; if (!ca) how = 0;
        int from = c->cur;
        if (how == 1) laik_exec_transition(c->d, ca->t);
        else if (how == 2) {
            bool rf = c->res && from >= 0 && inRes[from], rt = c->res && inRes[to]; bool useR = c->res && rng_p(r, 70);
            if (!ca->as) { ca->as = laik_calc_actions(c->d, ca->t, useR && rf ? c->res : 0, useR && rt ? c->res : 0); }
            laik_exec_actions(ca->as);
        } else if (flowOnly) laik_switchto_flow(c->d, flow, red);
        else laik_switchto_partitioning(c->d, K.P[to].p, flow, red);
        model_switch(c, to, flow, red);
        if (laik_data_get_partitioning(c->d) != K.P[to].p) vh_fail("active", "active partitioning not updated");
#ifndef NOSHIM
        VshimStats z = vshim_stats();
        uint64_t traf = (z.sends + z.isends + z.recvs + z.irecvs + z.colls) - (a.sends + a.isends + a.recvs + a.irecvs + a.colls);
        if ((flow != LAIK_DF_Preserve || from < 0) && traf) vh_fail("traffic", "%llu communication calls in a switch without data to preserve", (unsigned long long)traf);
        if (K.nt == 1 && traf) vh_fail("traffic", "communication within a group of one process");
        vh_count("mpi_calls", traf);
        if (F.stats) stat_check(c, &sb, &a, &z, from, to, flow, how, big, so);
#endif
        verify_all();
        if (K.me == 0) { vh_count(flow == LAIK_DF_Preserve ? (red ? "switch_reduce" : "switch_preserve") : flow == LAIK_DF_Init ? "switch_init" : "switch_none", 1); vh_count("switches", 1); if (from >= 0 && K.b.n > 1) vh_sig(ss); if (how) vh_count(how == 1 ? "exec_transition" : "exec_actions", 1); }
    }
    if (K.me == 0) vh_sample("%s in %s, %d ranks:%s", bn, gs, wn, ops);
    for (int i = 0; i < K.nc; i++) { Laik_SwitchStat* s = K.C[i].d->stat; statHash = hash_mix(statHash, hash_mix(s->byteSendCount * 7 + s->byteRecvCount, s->byteReduceCount * 5 + (uint64_t)s->transitionCount + s->maxAllocedBytes)); }
    if (repeats) { release_all(r); QUIESCE("end of case"); goto out; }
    /* release */
    for (int i = 0; i < K.nc; i++) { Cont* c = &K.C[i]; if (c->cur >= 0) laik_switchto_partitioning(c->d, 0, LAIK_DF_None, LAIK_RO_None); }
    for (int i = 0; i < K.ncache; i++) { if (K.cache[i].as) laik_aseq_free(K.cache[i].as); if (K.cache[i].t) laik_free_transition(K.cache[i].t); }
    for (int i = 0; i < K.nc; i++) if (K.C[i].res) laik_reservation_free(K.C[i].res);
    QUIESCE("end of case");
out:
    for (int i = 0; i < K.nc; i++) { free(K.C[i].val); free(K.C[i].def); }
    for (int i = 0; i < K.np; i++) spec_free(&K.P[i], K.member && !repeats);
    if (wme == 0) vh_count("cases", 1);
    (void)sig; (void)gsig;
}
typedef struct { int wi, variant; } WArg;
#ifndef NOSHIM
/* mode "logs": the same world runs with and without logging and profiling; nothing else may change */
typedef struct { VshimStats st; uint64_t stats; int done; } Digest;
static Digest* dig; static int logfd = -1, proffd = -1;
static char* getfd(int fd, size_t* n) { struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) vh_fail("logs", "no output file"); *n = (size_t)st.st_size; char* b = malloc(*n + 1); ssize_t k = pread(fd, b, *n, 0); if (k < 0) k = 0; b[k] = 0; *n = (size_t)k; return b; }
static void logs_begin(Rng* r, int variant, int size) {
    unsetenv("LAIK_LOG"); unsetenv("LAIK_LOG_FILE"); logfd = proffd = -1; if (!variant) return;
    if (rng_p(r, 85)) { char e[60]; int k = 0; if (rng_p(r, 20)) e[k++] = 'n'; else if (rng_p(r, 30)) e[k++] = 's'; k += sprintf(e + k, "%d", rng_p(r, 70) ? 1 : rng_int(r, 1, 4)); if (rng_p(r, 40)) { int f = rng_int(r, 0, size - 1); k += sprintf(e + k, ":%d", f); if (rng_p(r, 50)) k += sprintf(e + k, "-%d", f + rng_int(r, 0, size)); } e[k] = 0; setenv("LAIK_LOG", e, 1); }
    if (rng_p(r, 30)) { logfd = memfd_create("log", 0); char p[60]; sprintf(p, "/proc/self/fd/%d", logfd); setenv("LAIK_LOG_FILE", p, 1); }
    if (rng_p(r, 30)) { proffd = memfd_create("prof", 0); } else if (rng_p(r, 20)) proffd = -2;
}
static void logs_profile(Laik_Instance* inst) { if (proffd >= 0) { char p[60]; sprintf(p, "/proc/self/fd/%d", proffd); laik_enable_profiling_file(inst, p); vh_count("profiled_to_file", 1); } else if (proffd == -2) laik_enable_profiling(inst); }
static void logs_end(int rank, int variant, uint64_t stats) {
    VshimStats s = vshim_stats(); Digest* d = &dig[rank]; size_t n;
    if (!variant) { d->st = s; d->stats = stats; d->done = 1; return; }
    char* b = getfd(logfd >= 0 ? logfd : 2, &n); unsigned m = logmon_messages(); (void)m; vh_count("log_bytes", n); vh_setwhere("seed=%llu, log of the run with LAIK_LOG=%s%s", (unsigned long long)vh_args.seed, getenv("LAIK_LOG") ? getenv("LAIK_LOG") : "(unset)", logfd >= 0 ? " to a file" : ""); logmon_check(b, n); free(b);
    if (proffd >= 0) { b = getfd(proffd, &n); if (!strstr(b, "MEASUREMENT START") || !strstr(b, "MEASUREMENT END")) vh_fail("prof-file", "profile output not written: '%.100s'", b); free(b); }
    if (!d->done) return;
    const VshimStats* o = &d->st; if (s.trace != o->trace || s.sends + s.isends != o->sends + o->isends || s.recvs + s.irecvs != o->recvs + o->irecvs || s.colls != o->colls || s.sendBytes != o->sendBytes || s.recvBytes != o->recvBytes || s.reduceBytes != o->reduceBytes)
        vh_fail("log-side-effect", "communication of rank %d differs when logging with LAIK_LOG=%s: %llu sends (%llu bytes) %llu receives %llu collectives, without %llu (%llu) %llu %llu", rank, getenv("LAIK_LOG") ? getenv("LAIK_LOG") : "(unset)", (unsigned long long)(s.sends + s.isends), (unsigned long long)s.sendBytes, (unsigned long long)(s.recvs + s.irecvs), (unsigned long long)s.colls, (unsigned long long)(o->sends + o->isends), (unsigned long long)o->sendBytes, (unsigned long long)(o->recvs + o->irecvs), (unsigned long long)o->colls);
    if (stats != d->stats) vh_fail("log-side-effect", "switch statistics of rank %d differ when logging", rank);
    vh_count("runs_compared", 1); vh_count("calls_compared", s.sends + s.isends + s.recvs + s.irecvs + s.colls);
}
#endif
static void rank_main(int rank, int size, void* arg) {
    (void)rank; (void)size; int wi = ((WArg*)arg)->wi, variant = ((WArg*)arg)->variant; (void)variant; bool logs = !strcmp(vh_args.mode, "logs"); (void)logs; Rng r = rng_make(vh_args.seed * 77 + (uint64_t)wi, 3);
    if (!getenv("LAIK_BACKEND")) setenv("LAIK_BACKEND", "mpi", 1);
#ifndef NOSHIM
    setenv("LAIK_MPI_REDUCE", rng_p(&r, 50) ? "1" : "0", 1); setenv("LAIK_MPI_ASYNC", rng_p(&r, 50) ? "1" : "0", 1);
    if (rng_p(&r, 12)) setenv("LAIK_LOG", "1", 1);
    if (rng_p(&r, 15)) setenv("LAIK_LAYOUT_GENERIC", "1", 1);
    if (logs) { Rng lr = rng_make(vh_args.seed * 5 + (uint64_t)wi, (uint64_t)variant); logs_begin(&lr, variant, size); if (variant) { logmon_start(); } }
#endif
    int ac = 1; char* av_[2] = { "dswitch", 0 }; char** av = av_; Laik_Instance* inst = laik_init(&ac, &av); Laik_Group* w = laik_world(inst);
#ifndef NOSHIM
    if (logs) logs_profile(inst);
#endif
    focus(vh_args.mode);
    for (int c = vh_args.from; c < vh_args.from + vh_args.cases; c++) { if (vh_args.only >= 0 && c != vh_args.only) continue; 
        if (!repeats) { case_run(inst, w, wi, c); continue; }
        static const char* const kept[] = { "laik_new_partitioner", "laik_new_all_partitioner", "laik_new_master_partitioner", "laik_new_copy_partitioner", "laik_new_cornerhalo_partitioner", "laik_new_halo_partitioner", "laik_new_bisection_partitioner", "laik_new_grid_partitioner", "laik_new_block_partitioner", "laik_new_reassign_partitioner", "laik_create_group", 0 }; /* no way to free these */
        growth_reset(); for (int k = 0; k < repeats; k++) { growth_rep(k); case_run(inst, w, wi, c); } growth_judge(repeats, kept); }
    laik_finalize(inst);
#ifndef NOSHIM
    if (logs) logs_end(rank, variant, statHash);
#endif
}
int main(int argc, char** argv) {
    vh_parse(argc, argv); vh_init(); repeats = getenv("VH_REPEAT") ? atoi(getenv("VH_REPEAT")) : 0;
#ifdef NOSHIM
    WArg a = { vh_args.n, 0 }; rank_main(0, 0, &a); vh_finish(); return 0;
#else
    /* world index is --n (one world per process invocation when --worlds 1) */
    for (int k = 0; k < vh_args.worlds; k++) {
        int wi = vh_args.n + k; Rng r = rng_make(vh_args.seed * 31 + (uint64_t)wi, 9);
        static const int szs[] = { 1, 2, 2, 3, 3, 4, 4, 5, 6, 7 }; int n = szs[rng_int(&r, 0, 9)]; int large = rng_int(&r, 0, 999);
        if (large < (!strcmp(vh_args.mode, "reduce") ? 60 : 25)) n = rng_int(&r, 9, 13); else if (large >= 993) n = rng_int(&r, 33, 36);
        VshimOpts o = { rng_u64(&r), (const int[]){ 0, 0, 30, 70, 100 }[rng_int(&r, 0, 4)], rng_p(&r, 60) ? rng_int(&r, 1, 12) : 0, rng_int(&r, 1, 200), rng_p(&r, 30) ? rng_int(&r, 0, n - 1) : -1, 120 };
        int nv = 1; if (!strcmp(vh_args.mode, "logs")) { nv = 3; if (!dig) dig = mmap(0, 64 * sizeof(Digest), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(dig, 0, 64 * sizeof(Digest)); }
        int res = 0; for (int v = 0; v < nv && !res; v++) { WArg a = { wi, v }; res = vshim_run(n, o, rank_main, &a); } vh_count("worlds", 1);
        char nm[32]; sprintf(nm, "worlds_size_%d", n); vh_count(nm, 1);
        if (res) { vh_line("R world %d result %d", wi, res); if (res == 1) { vh_finish(); return 1; } }
    }
    vh_finish(); return 0;
#endif
}
