/* Lifecycles of all objects of the API outside of the data-flow scripts of dswitch.c: random programs which create, use and
 * free them in any permitted order, repeated with memory monitoring; very many objects one after the other; finalisation with
 * objects still alive. What is checked: sanitizers, assertions of the library, memory kept per repetition, plus light checks of
 * values (which have their own harnesses). */
#include "gen.h"
#include "growth.h"
#include "laik-internal.h"
#include <unistd.h>
#include <inttypes.h>
#include "../shim/mpishim.h"
static Laik_Instance* inst; static Laik_Group* world; static int wn, me, wi, ci; static bool keep; static uint64_t sig;
#define WHERE(...) do { vh_setwhere(__VA_ARGS__); vshim_pubwhere(); } while (0)
#define OP(n) (sig = hash_mix(sig, (uint64_t)(n)), vh_count("ops_" #n, me == 0))
enum { spaces, partitionings, clones, migrations, containers, provided, allocators, newpart, initialpart, stores, removals, publishing, profiling, phases, logtext, showobjects, transitions, sequences, reservations, lists, filters, rename_, values };

/* ---- own allocator: counts, fills memory with junk ---- */
static int64_t allocs;
static void* amalloc(Laik_Data* d, size_t n) { (void)d; allocs++; void* p = malloc(n ? n : 1); memset(p, 0x5a, n); return p; }
static void afree(Laik_Data* d, void* p) { (void)d; if (!p) return; allocs--; free(p); }
static Laik_Allocator* myalloc;
static Laik_Partitioner* prs[12]; static int npr;
static void scatter(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    Laik_Space* s = p->space; const Laik_Range* full = laik_space_asrange(s); int n = laik_size(p->group);
    if (laik_space_getdimensions(s) == 1) { for (int64_t i = full->from.i[0]; i < full->to.i[0]; i++) laik_append_index_1d(r, (int)(((uint64_t)i * 7919u) % (uint64_t)n), i); return; }
    Laik_Range g = *full; for (int64_t i = full->from.i[0]; i < full->to.i[0]; i++) { g.from.i[0] = i; g.to.i[0] = i + 1; laik_append_range(r, (int)(((uint64_t)i * 31u) % (uint64_t)n), &g, 1 + (int)(((uint64_t)i) % 3u), 0); }
}
typedef struct { Laik_Space* s; int dims; int64_t n; bool pub; } Sp;
typedef struct { Laik_Partitioning* p; int sp; bool own; bool all; } Pa;
typedef struct { Laik_Data* d; int sp; int cur; bool valid; void* mem; Laik_Reservation* res; int rp[4], nrp; } Da;
static void longname(Rng* r, char* b, int max) { int n = rng_int(r, 1, max); for (int i = 0; i < n; i++) b[i] = (char)('a' + rng_int(r, 0, 25)); b[n] = 0; }

#define MS 4
#define MP 14
#define MD 6
static Sp S[MS]; static Pa P[MP]; static Da D[MD]; static int ns, np, nd;
static Laik_Transition* T[8]; static Laik_ActionSeq* A[8]; static int nt, td[8];
static Laik_KVStore* kv;
static void check(Da* d) {
    if (d->cur < 0 || !d->valid) return; int nm = laik_my_mapcount(laik_data_get_partitioning(d->d));
    for (int m = 0; m < nm; m++) { Laik_Mapping* mp = laik_get_map(d->d, m); (void)mp; }
    Laik_Partitioning* p = laik_data_get_partitioning(d->d); for (int k = 0; k < laik_my_rangecount(p); k++) { Laik_TaskRange* tr = laik_my_range(p, k); int m = laik_taskrange_get_mapNo(tr); const Laik_Range g = *laik_taskrange_get_range(tr); Laik_Index ix = g.from;
        int dims = S[d->sp].dims; int64_t f[3], t[3], q[3]; for (int j = 0; j < 3; j++) { f[j] = j < dims ? g.from.i[j] : 0; t[j] = j < dims ? g.to.i[j] : 1; q[j] = f[j]; }
        do { for (int j = 0; j < 3; j++) ix.i[j] = q[j]; int64_t v = *(int64_t*)laik_get_map_addr(d->d, m, &ix); if (v != 4711) vh_fail("life-value", "element (%" PRId64 ",%" PRId64 ",%" PRId64 ") is %" PRId64, q[0], q[1], q[2], v); vh_count("values", 1); } while (iter_next(3, f, t, q)); }
}
static void fillall(Da* d) { if (d->cur < 0) return; int nm = laik_my_mapcount(laik_data_get_partitioning(d->d)); for (int m = 0; m < nm; m++) { Laik_Mapping* mp = laik_get_map(d->d, m); for (int64_t i = 0; i < (int64_t)mp->count; i++) ((int64_t*)mp->base)[i] = 4711; } d->valid = true; }
/* equal copies at several processes can only be switched by a reduction */
static Laik_ReductionOperation ro(Da* d) { if (d->cur < 0) return LAIK_RO_None; Laik_Partitioning* p = P[d->cur].p; return wn > 1 && S[d->sp].dims == 1 && p->partitioner == laik_All ? LAIK_RO_Max : LAIK_RO_None; }
static int pickp(Rng* r, int sp) { int c[MP], n = 0; for (int i = 0; i < np; i++) if (P[i].p && P[i].sp == sp && P[i].all) c[n++] = i; if (!n) { rng_u64(r); return -1; } return c[rng_int(r, 0, n - 1)]; }
static bool usedp(int k) { for (int i = 0; i < nd; i++) { if (!D[i].d) continue; if (D[i].cur == k) return true; for (int j = 0; j < D[i].nrp; j++) if (D[i].rp[j] == k) return true; } return false; }

static void program(Rng* r, bool last) {
    sig = 1; ns = np = nd = nt = 0; memset(P, 0, sizeof P); memset(D, 0, sizeof D); int ops = rng_int(r, 10, 50); char nm[300];
    for (int o = 0; o < ops; o++) {
        int q = rng_int(r, 0, 99); WHERE("seed=%llu world=%d case=%d ranks=%d operation %d (%d)", (unsigned long long)vh_args.seed, wi, ci, wn, o, q);
        if (ns == 0 || (q < 8 && ns < MS)) { Sp* s = &S[ns]; s->dims = rng_int(r, 1, 3); s->pub = false; int64_t a = rng_int(r, 1, s->dims == 1 ? 60 : 9), b = rng_int(r, 1, 8), c = rng_int(r, 1, 5);
            s->s = s->dims == 1 ? laik_new_space_1d(inst, a) : s->dims == 2 ? laik_new_space_2d(inst, a, b) : laik_new_space_3d(inst, a, b, c); s->n = s->dims == 1 ? a : s->dims == 2 ? a * b : a * b * c;
            if (rng_p(r, 60)) { longname(r, nm, rng_p(r, 20) ? 200 : 12); if (rng_p(r, 40)) { laik_set_space_name(s->s, nm); OP(rename_); } sprintf(nm, "pub%d-%d", ns, s->dims); if (rng_p(r, 50)) { laik_set_space_name(s->s, nm); if (me == 0) { laik_spacestore_set(s->s); s->pub = true; } laik_sync_spaces(inst); OP(publishing);
                if (me) { Laik_Space* o2 = laik_spacestore_get(inst, nm); if (!o2 || laik_space_size(o2) != (uint64_t)s->n) vh_fail("life-space", "published space '%s' arrives with %s size", nm, o2 ? "wrong" : "no"); laik_free_space(o2); } } }
            ns++; OP(spaces); }
        else if (q < 22 && np < MP) { int si = rng_int(r, 0, ns - 1); Pa* p = &P[np]; int w = rng_int(r, 0, 5); p->sp = si; p->all = true;
            if (w <= 3) { p->p = laik_new_partitioning(prs[rng_int(r, 0, npr - 1)], world, S[si].s, 0); OP(partitionings); }
            else if (w == 4) { int k = pickp(r, si); if (k < 0) continue; p->p = laik_clone_empty_partitioning(P[k].p); if (rng_p(r, 50)) { Laik_Partitioning* c2 = laik_clone_empty_partitioning(p->p); laik_free_partitioning(p->p); p->p = c2; } p->all = rng_p(r, 70); if (p->all) laik_partitioning_store_allranges(p->p); else if (rng_p(r, 70)) { laik_partitioning_store_myranges(p->p); if (S[si].dims == 1 && rng_p(r, 50)) { laik_partitioning_store_intersectranges(p->p, p->p); laik_partitioning_interranges(p->p, p->p); OP(filters); } } OP(clones); }
            else { p->p = laik_new_empty_partitioning(world, S[si].s, prs[rng_int(r, 0, npr - 1)], 0); p->all = false; if (rng_p(r, 60)) { laik_partitioning_store_myranges(p->p); laik_my_rangecount(p->p); if (rng_p(r, 60)) { laik_partitioning_store_allranges(p->p); p->all = true; } } }
            if (rng_p(r, 40)) { longname(r, nm, rng_p(r, 30) ? 250 : 20); laik_partitioning_set_name(p->p, nm); OP(rename_); }
            np++; }
        else if (q < 26) { int k = rng_int(r, 0, MP - 1); if (k >= np || !P[k].p || usedp(k) || laik_my_rangecount == 0) continue; bool t = false; for (int i = 0; i < nt; i++) if (T[i] && (T[i]->fromPartitioning == P[k].p || T[i]->toPartitioning == P[k].p)) t = true; if (t) continue;
            laik_free_partitioning(P[k].p); P[k].p = 0; }
        else if (q < 30) { /* range lists outside of partitionings */ int si = rng_int(r, 0, ns - 1); Laik_RangeList* l = laik_rangelist_new(S[si].s, (unsigned)wn); int k = rng_int(r, 0, 30); bool single = S[si].dims == 1 && rng_p(r, 40);
            for (int i = 0; i < k; i++) { const Laik_Range* f = laik_space_asrange(S[si].s); Laik_Range g = *f; for (int d = 0; d < S[si].dims; d++) { g.from.i[d] = rng_int(r, 0, (int)f->to.i[d] - 1); g.to.i[d] = rng_int(r, (int)g.from.i[d] + 1, (int)f->to.i[d]); } if (single) laik_rangelist_append_single1d(l, rng_int(r, 0, wn - 1), g.from.i[0]); else laik_rangelist_append(l, rng_int(r, 0, wn - 1), &g, 0, 0); }
            if (rng_p(r, 80)) { laik_rangelist_freeze(l, S[si].dims == 1 && rng_p(r, 50)); laik_rangelist_coversSpace(l); for (int t = 0; t < wn; t++) laik_rangelist_tidrangecount(l, t); } laik_rangelist_free(l); OP(lists); }
        else if (q < 42 && nd < MD) { int si = rng_int(r, 0, ns - 1); Da* d = &D[nd]; memset(d, 0, sizeof *d); d->sp = si; d->cur = -1;
            d->d = laik_new_data(S[si].s, laik_Int64); if (rng_p(r, 30)) { longname(r, nm, 100); laik_data_set_name(d->d, nm); OP(rename_); }
            if (rng_p(r, 20)) { laik_set_allocator(d->d, myalloc); OP(allocators); } else if (rng_p(r, 20)) { d->mem = malloc((size_t)S[si].n * 8); laik_data_provide_memory(d->d, d->mem, (uint64_t)S[si].n * 8); OP(provided); }
            if (d->mem && rng_p(r, 60)) { int k = pickp(r, si); bool fits = k >= 0; for (int t = 0; t < wn && fits; t++) fits = laik_rangelist_tidmapcount(laik_partitioning_allranges(P[k].p), t) <= 1; /* memory for one area */ if (fits) { laik_set_initial_partitioning(d->d, P[k].p); d->cur = k; fillall(d); OP(initialpart); } }
            nd++; OP(containers); }
        else if (q < 62) { int k = rng_int(r, 0, MD - 1); if (k >= nd || !D[k].d) continue; Da* d = &D[k]; int to = pickp(r, d->sp);
            if (rng_p(r, 20) && np < MP && S[d->sp].n > 0) { Pa* p = &P[np]; p->sp = d->sp; p->all = true; p->p = laik_switchto_new_partitioning(d->d, world, prs[rng_int(r, 0, npr - 1)], d->cur >= 0 ? LAIK_DF_Preserve : LAIK_DF_None, ro(d)); if (d->cur < 0) d->valid = false; d->cur = np++; OP(newpart); check(d); if (!d->valid) fillall(d); continue; }
            if (to < 0) { continue; }
            if (d->cur >= 0 && rng_p(r, 10)) { laik_switchto_flow(d->d, LAIK_DF_None, LAIK_RO_None); d->valid = false; fillall(d); continue; }
            if (rng_p(r, 8)) { laik_switchto_partitioning(d->d, 0, LAIK_DF_None, LAIK_RO_None); d->cur = -1; d->valid = false; continue; }
            if (d->res && rng_p(r, 60)) to = d->rp[rng_int(r, 0, d->nrp - 1)];
            laik_switchto_partitioning(d->d, P[to].p, d->cur >= 0 ? LAIK_DF_Preserve : LAIK_DF_None, ro(d)); if (d->cur < 0) d->valid = false; d->cur = to; check(d); if (!d->valid) fillall(d); }
        else if (q < 66) { int k = rng_int(r, 0, MD - 1); if (k >= nd || !D[k].d || D[k].res) continue; bool t = false; for (int i = 0; i < nt; i++) if (A[i] && td[i] == k) t = true; if (t) continue; laik_free(D[k].d); free(D[k].mem); D[k].mem = 0; D[k].d = 0; }
        else if (q < 70) { int k = rng_int(r, 0, MD - 1); if (k >= nd || !D[k].d || D[k].cur < 0 || nt == 8) continue; int to = pickp(r, D[k].sp); if (to < 0) continue; T[nt] = laik_calc_transition(S[D[k].sp].s, P[D[k].cur].p, P[to].p, LAIK_DF_Preserve, ro(&D[k])); A[nt] = 0; td[nt] = k; OP(transitions);
            if (rng_p(r, 60)) { A[nt] = laik_calc_actions(D[k].d, T[nt], 0, 0); laik_aseq_bufsize(A[nt]); OP(sequences); if (rng_p(r, 50)) { laik_exec_actions(A[nt]); D[k].cur = to; check(&D[k]); } } else if (rng_p(r, 50)) { laik_exec_transition(D[k].d, T[nt]); D[k].cur = to; check(&D[k]); } nt++; }
        else if (q < 73) { for (int i = 0; i < nt; i++) if (T[i] && rng_p(r, 50)) { if (A[i]) { laik_aseq_free(A[i]); A[i] = 0; } laik_free_transition(T[i]); T[i] = 0; } }
        else if (q < 76) { int k = rng_int(r, 0, MD - 1); if (k >= nd || !D[k].d || D[k].res || D[k].mem || S[D[k].sp].dims > 3) continue; int a = pickp(r, D[k].sp); if (a < 0) continue; bool tagless = laik_my_mapcount(P[a].p) > 1 && S[D[k].sp].dims == 1; for (int t = 0; t < wn; t++) if (laik_rangelist_tidmapcount(laik_partitioning_allranges(P[a].p), t) > 1) tagless = true; if (tagless) continue;
            Laik_Reservation* rs = laik_reservation_new(D[k].d); laik_reservation_add(rs, P[a].p); laik_reservation_alloc(rs); OP(reservations); if (rng_p(r, 50)) { laik_data_use_reservation(D[k].d, rs); D[k].res = rs; D[k].rp[0] = a; D[k].nrp = 1; } else laik_reservation_free(rs); }
        else if (q < 82) { if (!kv) { sprintf(nm, "store%d", rng_int(r, 0, 3)); kv = laik_kvs_new(nm, inst); } for (int i = rng_int(r, 0, 6); i > 0; i--) { char key[40]; sprintf(key, "k%d-%d", me, rng_int(r, 0, 9)); unsigned len = (unsigned)rng_int(r, 1, 200); for (unsigned j = 0; j < len; j++) nm[j] = (char)rng_u64(r);
                if (rng_p(r, 25)) { laik_kvs_remove(kv, key); OP(removals); } else if (rng_p(r, 15)) { unsigned sz = 0; char* v = laik_kvs_get(kv, key, &sz); if (v && sz > 1) laik_kvs_set(kv, key, sz - 1, v + (rng_p(r, 50) ? 1 : 0)); } else laik_kvs_set(kv, key, len, nm); }
            if (rng_p(r, 70)) laik_kvs_sync(kv); if (rng_p(r, 20)) laik_kvs_sort(kv); if (rng_p(r, 10)) { laik_kvs_sync(kv); laik_kvs_clean(kv); laik_kvs_sync(kv); } if (rng_p(r, 25)) { laik_kvs_free(kv); kv = 0; } OP(stores); }
        else if (q < 85) { int w = rng_int(r, 0, 3); if (w == 0) laik_enable_profiling(inst); else if (w == 1) laik_reset_profiling(inst); else if (w == 2) { laik_profile_user_start(inst); laik_profile_user_stop(inst); } else { laik_enable_profiling_file(inst, "/dev/null"); laik_writeout_profile(); laik_profile_printf("%d\n", o); laik_close_profiling_file(inst); } OP(profiling); }
        else if (q < 87) { laik_set_iteration(inst, o); laik_set_phase(inst, o, "phase", 0); laik_iter_reset(inst); OP(phases); }
        else if (q < 91) { int lv = rng_int(r, 1, 3); if (laik_log_begin(lv)) { for (int i = rng_int(r, 0, 40); i > 0; i--) laik_log_append("piece %d of a longer line, ", i); laik_log_flush(rng_p(r, 50) ? "end %d" : 0, o); } laik_log(lv, "text %s", "x"); OP(logtext); }
        else { if (laik_log_begin(3)) { int k = rng_int(r, 0, MP - 1); laik_log_append("objects: "); if (k < np && P[k].p && P[k].all) { laik_log_Partitioning(P[k].p); } if (nt && T[0]) laik_log_Transition(T[0], true); if (nt && A[0]) laik_log_ActionSeq(A[0], true); if (nd && D[0].d) laik_log_SwitchStat(D[0].d->stat); laik_log_Space(S[0].s); laik_log_flush(0); OP(showobjects); } }
    }
    WHERE("seed=%llu world=%d case=%d ranks=%d, %s", (unsigned long long)vh_args.seed, wi, ci, wn, last && keep ? "end with objects alive" : "release");
    int drop = last && keep ? rng_int(r, 0, 60) : 100;
    for (int i = 0; i < nt; i++) { if (A[i] && rng_p(r, drop)) laik_aseq_free(A[i]); else if (A[i]) continue; if (T[i] && rng_p(r, drop)) laik_free_transition(T[i]); }
    if (drop < 100) { vh_count("finalised_with_objects", me == 0); return; }
    for (int i = 0; i < nd; i++) { if (D[i].d && D[i].res) { laik_switchto_partitioning(D[i].d, 0, LAIK_DF_None, LAIK_RO_None); laik_reservation_free(D[i].res); } if (D[i].d) laik_free(D[i].d); free(D[i].mem); }
    for (int i = 0; i < np; i++) if (P[i].p) laik_free_partitioning(P[i].p);
    for (int i = 0; i < ns; i++) laik_free_space(S[i].s);
    if (kv) { laik_kvs_free(kv); kv = 0; }
    if (allocs) vh_fail("life-alloc", "%" PRId64 " blocks of the own allocator are not released", allocs);
}
/* very many objects one after the other: ids get long */
size_t __sanitizer_get_current_allocated_bytes(void);
static void many(uint64_t n) {
    size_t at = 0;
    Laik_Space* s = laik_new_space_1d(inst, 5); Laik_Partitioner* all = laik_new_all_partitioner(); Laik_Partitioning* p = laik_new_partitioning(all, world, s, 0); Laik_Data* d = laik_new_data(s, laik_Int64); laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
    for (uint64_t i = 0; i < n; i++) {
        if (i == n / 10) at = __sanitizer_get_current_allocated_bytes();
        WHERE("object %llu of each kind, one after the other", (unsigned long long)i);
        Laik_Space* s2 = laik_new_space_1d(inst, 3); laik_free_space(s2);
        Laik_Partitioning* q = laik_new_empty_partitioning(world, s, all, 0), * q2 = laik_clone_empty_partitioning(q); laik_free_partitioning(q); if (i % 1000 == 0) laik_partitioning_store_allranges(q2); laik_free_partitioning(q2);
        Laik_Data* d2 = laik_new_data(s, laik_Double); laik_free(d2);
        Laik_Transition* t = laik_calc_transition(s, p, p, LAIK_DF_Preserve, LAIK_RO_None); Laik_ActionSeq* a = laik_calc_actions(d, t, 0, 0); laik_aseq_free(a); laik_free_transition(t);
        Laik_Reservation* rs = laik_reservation_new(d); laik_reservation_free(rs);
        if (i % 10 == 0) laik_switchto_partitioning(d, p, LAIK_DF_Preserve, LAIK_RO_None);
    }
    size_t now = __sanitizer_get_current_allocated_bytes(); if (now > at + 4096) vh_fail("growth-many", "%zu bytes allocated after %llu objects of each kind were created and freed, %zu after a tenth of them", now, (unsigned long long)n, at);
    laik_free(d); laik_free_partitioning(p); laik_free_space(s); vh_count("objects_of_each_kind", n);
}
static void rank_main(int rank, int size, void* arg) {
    (void)rank; (void)size; wi = *(int*)arg; Rng r = rng_make(vh_args.seed * 77 + (uint64_t)wi, 3);
    bool lots = !strcmp(vh_args.mode, "many"); setenv("LAIK_BACKEND", lots ? "single" : "mpi", 1);
    setenv("LAIK_MPI_REDUCE", rng_p(&r, 50) ? "1" : "0", 1); setenv("LAIK_MPI_ASYNC", rng_p(&r, 50) ? "1" : "0", 1); if (!lots && rng_p(&r, 25)) setenv("LAIK_LOG", rng_p(&r, 50) ? "1" : "2", 1);
    int ac = 1; char* av_[2] = { "lives", 0 }; char** av = av_; inst = laik_init(&ac, &av); world = laik_world(inst); wn = laik_size(world); me = laik_myid(world);
    if (lots) { many((uint64_t)vh_args.cases); laik_finalize(inst); return; }
    myalloc = laik_new_allocator(amalloc, afree, 0); myalloc->policy = LAIK_MP_NewAllocOnRepartition;
    prs[npr++] = laik_All; prs[npr++] = laik_new_block_partitioner1(); prs[npr++] = laik_Master; prs[npr++] = laik_new_bisection_partitioner(); prs[npr++] = laik_new_partitioner("scatter", scatter, 0, 0); prs[npr++] = laik_new_block_partitioner(0, 3, 0, 0, 0); prs[npr++] = laik_new_partitioner("a user-defined one with a long name", scatter, 0, LAIK_PF_Merge * 0);
    static const char* const kept[] = { "laik_new_partitioner", "laik_create_group", 0 }; int R = 4;
    for (ci = vh_args.from; ci < vh_args.from + vh_args.cases; ci++) {
        if (vh_args.only >= 0 && ci != vh_args.only) continue; growth_reset();
        keep = ci == vh_args.from + vh_args.cases - 1;
        for (int k = 0; k < R; k++) { growth_rep(k); Rng q = rng_make(vh_args.seed * 1000003 + (uint64_t)wi, (uint64_t)ci + 500); program(&q, k == R - 1); vshim_quiesce("end of repetition"); }
        if (!keep) growth_judge(R, kept); if (me == 0) { vh_count("cases", 1); vh_sig(sig); } }
    WHERE("seed=%llu world=%d ranks=%d, finalise", (unsigned long long)vh_args.seed, wi, wn);
    laik_finalize(inst);
}
int main(int argc, char** argv) {
    vh_parse(argc, argv); vh_init();
    for (int k = 0; k < vh_args.worlds; k++) {
        int w = vh_args.n + k; Rng r = rng_make(vh_args.seed * 31 + (uint64_t)w, 9);
        static const int szs[] = { 1, 1, 2, 2, 3, 4, 5, 6 }; int n = szs[rng_int(&r, 0, 7)]; if (!strcmp(vh_args.mode, "many")) n = 1;
        VshimOpts o = { rng_u64(&r), (const int[]){ 0, 0, 30, 70, 100 }[rng_int(&r, 0, 4)], rng_p(&r, 60) ? rng_int(&r, 1, 12) : 0, rng_int(&r, 1, 200), -1, 200 };
        int res = vshim_run(n, o, rank_main, &w); vh_count("worlds", 1);
        if (res) { vh_line("R world %d result %d", w, res); if (res == 1) { vh_finish(); return 1; } }
    }
    vh_finish(); return 0;
}
