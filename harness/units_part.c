/* partitioners (C07, C08), range lists (C09, C12), filters (C11), migration (C17), range algebra (C10) */
#include "units.h"
#include <math.h>
#include <limits.h>

/* ---- random chains of built-in partitioners ------------------------------------------------------------------------ */
enum { B_ALL, B_MASTER, B_BLOCK, B_BISECT, B_GRID, B_CHALO, B_HALO, B_COPY, B_REASSIGN, B_N };
static const char* bname[B_N] = { "all", "master", "block", "bisection", "grid", "cornerhalo", "halo", "copy", "reassign" };
typedef struct { int n; double w[4096]; int64_t off; int dim; double tw[64]; } Wt;
static double iw(Laik_Index* i, const void* d) { const Wt* w = d; int64_t k = i->i[w->dim] - w->off; if (k < 0 || k >= w->n) vh_fail("weight-index", "weight asked for index %lld outside the space", (long long)i->i[w->dim]); return w->w[k]; }
static double twf(int t, const void* d) { return ((const Wt*)d)->tw[t]; }
typedef struct {
    int kind, pdim, cycles, depth, xb, yb, zb, fromDim, toDim; bool useIW, useTW; Wt wt; Laik_Partitioner* pr; Laik_Partitioning* p;
    Box b; Laik_Space* sp; Laik_Group* g; Laik_Group* newg; char desc[160];
} Bp;
static void gen_weights(Rng* r, Wt* w, int n, int64_t off, int dim, int nt) {
    w->n = n; w->off = off; w->dim = dim; int style = rng_int(r, 0, 5); double scale = (double[]){ 1, 1, 0.01, 1000, 1e-6, 37.5 }[rng_int(r, 0, 5)];
    for (int i = 0; i < n; i++) w->w[i] = scale * (style == 0 ? 1.0 : style == 1 ? i + 1.0 : style == 2 ? rng_int(r, 0, 9) : style == 3 ? (rng_p(r, 10) ? 50.0 : 1.0) : style == 4 ? rng_int(r, 1, 1000) / 1000.0 : (i < n / 2 ? 0.0 : 1.0));
    double s = 0; for (int i = 0; i < n; i++) s += w->w[i];
    if (s <= 0) w->w[n - 1] = scale;
    double ts = rng_p(r, 50) ? 1 : 0.1; for (int t = 0; t < 64; t++) w->tw[t] = ts * (rng_p(r, 15) ? 0 : rng_p(r, 50) ? 1 : rng_int(r, 1, 5));
    s = 0; for (int t = 0; t < nt; t++) s += w->tw[t];
    if (s <= 0) w->tw[rng_int(r, 0, nt - 1)] = 1;
}
static void bp_make(Rng* r, Bp* x, int kind, Laik_Space* sp, const Box* b, Laik_Group* g, Bp* other) {
    memset(x, 0, sizeof *x); x->kind = kind; x->b = *b; x->sp = sp; x->g = g; Laik_Partitioning* op = other ? other->p : 0;
    switch (kind) {
    case B_ALL: x->pr = rng_p(r, 50) ? laik_All : laik_new_all_partitioner(); break;
    case B_MASTER: x->pr = rng_p(r, 50) ? laik_Master : laik_new_master_partitioner(); break;
    case B_BLOCK: {
        x->pdim = rng_int(r, 0, b->dims - 1); x->cycles = rng_p(r, 60) ? 1 : rng_int(r, 1, 5); x->useIW = rng_p(r, 40); x->useTW = rng_p(r, 40);
        gen_weights(r, &x->wt, (int)(b->t[x->pdim] - b->f[x->pdim]), b->f[x->pdim], x->pdim, g->size);
        if (x->pdim == 0 && rng_p(r, 50)) {
            if (x->useIW && !x->useTW && x->cycles == 1) x->pr = laik_new_block_partitioner_iw1(iw, &x->wt);
            else if (!x->useIW && x->useTW && x->cycles == 1) x->pr = laik_new_block_partitioner_tw1(twf, &x->wt);
            else { x->pr = laik_new_block_partitioner1(); if (x->useIW) laik_set_index_weight(x->pr, iw, &x->wt); if (x->useTW) laik_set_task_weight(x->pr, twf, &x->wt); laik_set_cycle_count(x->pr, x->cycles); }
        } else x->pr = laik_new_block_partitioner(x->pdim, x->cycles, x->useIW ? iw : 0, x->useTW ? twf : 0, &x->wt);
        break; }
    case B_BISECT: x->pr = laik_new_bisection_partitioner(); break;
    case B_GRID: { int left = g->size; x->xb = rng_int(r, 1, left > 4 ? 4 : left); left /= x->xb; x->yb = rng_int(r, 1, left); left /= x->yb; x->zb = rng_int(r, 1, left);
        x->pr = laik_new_grid_partitioner(x->xb, x->yb, x->zb); break; }
    case B_CHALO: x->depth = rng_int(r, 0, 4); x->pr = laik_new_cornerhalo_partitioner(x->depth); break;
    case B_HALO: x->depth = rng_int(r, 0, 4); x->pr = laik_new_halo_partitioner(x->depth); break;
    case B_COPY: x->pr = laik_new_copy_partitioner(x->fromDim, x->toDim); break; /* dims set by caller through bp_copy */
    }
    x->p = laik_new_partitioning(x->pr, g, sp, op);
    snprintf(x->desc, sizeof x->desc, "%s%s depth %d cycles %d pdim %d iw %d tw %d grid %dx%dx%d", other ? bname[other->kind] : "", bname[kind], x->depth, x->cycles, x->pdim, x->useIW, x->useTW, x->xb, x->yb, x->zb);
}
static void bp_free(Bp* x) { if (x->p) laik_free_partitioning(x->p); if (x->pr && x->pr != laik_All && x->pr != laik_Master) { free(x->pr->data == &x->wt ? 0 : x->pr->data); free(x->pr); } x->p = 0; }
static int gsize(Rng* r) { return rng_p(r, 20) ? rng_int(r, 1, 2) : rng_p(r, 80) ? rng_int(r, 2, 12) : rng_int(r, 13, 40); }
typedef struct { Laik_Range rg; int task, tag, map; } RR;
/* read the complete list through the public interface */
static int read_all(Laik_Partitioning* p, RR* out, int max) {
    int n = laik_partitioning_rangecount(p); if (n > max) { fprintf(stderr, "too many ranges\n"); exit(3); }
    for (int i = 0; i < n; i++) { Laik_TaskRange* t = laik_partitioning_get_taskrange(p, i); if (!t) FAIL("taskrange-null", "range %d of %d not returned", i, n);
        out[i].rg = *laik_taskrange_get_range(t); out[i].task = laik_taskrange_get_task(t); out[i].tag = laik_taskrange_get_tag(t); out[i].map = laik_taskrange_get_mapNo(t); }
    return n;
}
static RR rr[20000], rr2[20000];
static int cmp_rr(const void* a, const void* b) { const RR* x = a; const RR* y = b; if (x->task != y->task) return x->task - y->task;
    for (int d = 0; d < 3; d++) { if (x->rg.from.i[d] != y->rg.from.i[d]) return x->rg.from.i[d] < y->rg.from.i[d] ? -1 : 1; if (x->rg.to.i[d] != y->rg.to.i[d]) return x->rg.to.i[d] < y->rg.to.i[d] ? -1 : 1; }
    return x->tag - y->tag; }
static void rr_norm(RR* r, int n, int dims) { for (int i = 0; i < n; i++) for (int d = dims; d < 3; d++) r[i].rg.from.i[d] = r[i].rg.to.i[d] = 0; qsort(r, (size_t)n, sizeof(RR), cmp_rr); }
static void check_inside(const Box* b, const RR* e, int nt, const char* desc) {
    if (e->task < 0 || e->task >= nt) FAIL("bad-process", "%s: range for process %d of %d", desc, e->task, nt);
    for (int d = 0; d < b->dims; d++) if (e->rg.from.i[d] < b->f[d] || e->rg.to.i[d] > b->t[d] || e->rg.from.i[d] > e->rg.to.i[d])
        FAIL("outside-space", "%s: process %d got [%lld;%lld[ in dimension %d of space [%lld;%lld[", desc, e->task, (long long)e->rg.from.i[d], (long long)e->rg.to.i[d], d, (long long)b->f[d], (long long)b->t[d]);
}
static uint64_t* mult; static uint64_t* owners;
static void count_cover(const Box* b, const RR* e, int n, bool distinctProc) {
    mult = calloc((size_t)b->n, 8); owners = calloc((size_t)b->n, 8);
    for (int i = 0; i < n; i++) { int64_t x[3]; memcpy(x, e[i].rg.from.i, sizeof x); bool empty = false; for (int d = 0; d < b->dims; d++) if (e[i].rg.from.i[d] >= e[i].rg.to.i[d]) empty = true;
        if (!empty) do { int64_t l = lin(b, x); mult[l]++; owners[l] |= 1ull << e[i].task; } while (iter_next(b->dims, e[i].rg.from.i, e[i].rg.to.i, x)); }
    (void)distinctProc;
}
static void setup(Rng* r, Box* b, int dims, Laik_Space** sp) { *b = gen_box(r, dims, dims == 1 ? (rng_p(r, 20) ? 600 : 60) : dims == 2 ? 20 : 9, true); *sp = gen_space(inst, b); }
static void mkreassign(Rng* r, Bp* x, Bp* base, Laik_Space* sp, const Box* b, Laik_Group* g) {
    memset(x, 0, sizeof *x); x->kind = B_REASSIGN; x->b = *b; x->sp = sp; x->g = g;
    Laik_Group* ng = use_group(1, 0, -1); ng->parent = g; int o = 0;
    for (int i = 0; i < g->size; i++) { bool leave = rng_p(r, 35) && (o > 0 || i < g->size - 1); ng->fromParent[i] = leave ? -1 : o; if (!leave) ng->toParent[o++] = i; }
    ng->size = o; ng->myid = ng->fromParent[0]; x->newg = ng; x->useIW = rng_p(r, 50);
    gen_weights(r, &x->wt, (int)(b->t[0] - b->f[0]), b->f[0], 0, g->size);
    x->pr = laik_new_reassign_partitioner(ng, x->useIW ? iw : 0, &x->wt); x->p = laik_new_partitioning(x->pr, g, sp, base->p);
    snprintf(x->desc, sizeof x->desc, "reassign of %s from %d to %d processes, weights %d", base->desc, g->size, o, x->useIW);
}
static void sigcase(const Box* b, int nt, const RR* e, int n) { if (n < 2 || b->n < 2) return; uint64_t h = (uint64_t)nt; for (int i = 0; i < n; i++) { h = hash_mix(h, (uint64_t)e[i].task); for (int d = 0; d < b->dims; d++) h = hash_mix(h, (uint64_t)(e[i].rg.from.i[d] * 1000003 + e[i].rg.to.i[d])); } vh_sig(h); }
static void sample(const Box* b, int nt, const char* desc, int n) { char s[200]; gen_boxname(b, s, sizeof s); vh_sample("%s over %s with %d processes gives %d ranges", desc, s, nt, n); }

void m_cover(Rng* r) {
    int dims = rng_int(r, 1, 3); Box b; Laik_Space* sp; setup(r, &b, dims, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, rng_int(r, 0, nt - 1));
    static const int base1[] = { B_ALL, B_MASTER, B_BLOCK, B_BLOCK, B_BISECT, B_GRID };
    int k; do k = base1[rng_int(r, 0, 5)]; while (k == B_GRID && dims != 3);
    Bp base, top; bp_make(r, &base, k, sp, &b, g, 0); Bp* x = &base; bool second = rng_p(r, 60);
    if (second) {
        int k2 = rng_int(r, 0, 2);
        if (k2 == 0 && (k == B_BISECT || k == B_GRID)) { bp_make(r, &top, B_HALO, sp, &b, g, &base); x = &top; }
        else if (k2 == 2 && dims == 1) { mkreassign(r, &top, &base, sp, &b, g); x = &top; }
        else { bp_make(r, &top, B_CHALO, sp, &b, g, &base); x = &top; }
    }
    int n = read_all(x->p, rr, 20000); for (int i = 0; i < n; i++) check_inside(&b, &rr[i], nt, x->desc);
    count_cover(&b, rr, n, false);
    bool one = x->kind == B_BLOCK || x->kind == B_BISECT || x->kind == B_GRID || (x->kind == B_REASSIGN && (k == B_BLOCK || k == B_BISECT || k == B_MASTER));
    for (int64_t i = 0; i < b.n; i++) {
        if (one && mult[i] != 1) FAIL("multiplicity", "%s with %d processes: index %lld (linear) assigned %llu times", x->desc, nt, (long long)i, (unsigned long long)mult[i]);
        if (x->kind == B_ALL && (mult[i] != (uint64_t)nt || owners[i] != (nt == 64 ? ~0ull : (1ull << nt) - 1))) FAIL("all", "all partitioner: index %lld has owners %llx", (long long)i, (unsigned long long)owners[i]);
        if (x->kind == B_MASTER && (mult[i] != 1 || owners[i] != 1)) FAIL("master", "master partitioner: index %lld has owners %llx", (long long)i, (unsigned long long)owners[i]);
        if (!owners[i]) FAIL("uncovered", "%s with %d processes: index %lld has no owner", x->desc, nt, (long long)i);
    }
    vh_count(bname[x->kind], 1); vh_count("indexes_checked", (uint64_t)b.n); vh_count("partitionings", second ? 2 : 1); if (b.n < nt) vh_count("fewer_indexes_than_processes", 1);
    sigcase(&b, nt, rr, n); sample(&b, nt, x->desc, n);
    free(mult); free(owners); if (x != &base) bp_free(x); bp_free(&base); laik_free_space(sp);
}

/* ---- shapes ---------------------------------------------------------------------------------------------------------- */
static void shape_block(Rng* r) {
    int dims = rng_int(r, 1, 3); Box b; Laik_Space* sp; setup(r, &b, dims, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, 0); Bp x; bp_make(r, &x, B_BLOCK, sp, &b, g, 0);
    int n = read_all(x.p, rr, 20000); int pd = x.pdim, sz = x.wt.n;
    /* order by position in the partitioned dimension */
    for (int i = 0; i < n; i++) for (int d = 0; d < dims; d++) if (d != pd && (rr[i].rg.from.i[d] != b.f[d] || rr[i].rg.to.i[d] != b.t[d])) FAIL("block-other-dim", "%s: range of process %d does not span dimension %d", x.desc, rr[i].task, d);
    for (int a = 1; a < n; a++) { RR t = rr[a]; int c = a; while (c > 0 && rr[c-1].rg.from.i[pd] > t.rg.from.i[pd]) { rr[c] = rr[c-1]; c--; } rr[c] = t; }
    double totW = 0, totT = 0, maxW = 0; for (int i = 0; i < sz; i++) { double w = x.useIW ? x.wt.w[i] : 1; totW += w; if (w > maxW) maxW = w; }
    for (int t = 0; t < nt; t++) totT += x.useTW ? x.wt.tw[t] : 1;
    int64_t pos = b.f[pd];
    for (int i = 0; i < n; i++) { if (rr[i].rg.from.i[pd] != pos) FAIL("block-contiguous", "%s: range starts at %lld, expected %lld", x.desc, (long long)rr[i].rg.from.i[pd], (long long)pos); pos = rr[i].rg.to.i[pd]; }
    if (pos != b.t[pd]) FAIL("block-contiguous", "%s: parts end at %lld instead of %lld", x.desc, (long long)pos, (long long)b.t[pd]);
    /* parts come in cycle-major process order and may be empty: find an assignment of ranges to parts keeping every border within one index of its ideal weight */
    double* cum = calloc((size_t)n + 1, sizeof(double)); for (int i = 0; i < n; i++) { cum[i + 1] = cum[i]; for (int64_t k = rr[i].rg.from.i[pd]; k < rr[i].rg.to.i[pd]; k++) cum[i + 1] += x.useIW ? x.wt.w[k - b.f[pd]] : 1; }
    char* reach = calloc((size_t)n + 2, 1); char* balanced = calloc((size_t)n + 2, 1); reach[0] = balanced[0] = 1; double ideal = 0;
    for (int c = 0; c < x.cycles; c++) for (int t = 0; t < nt; t++) {
        ideal += totW / x.cycles * (x.useTW ? x.wt.tw[t] : 1) / totT; bool last = c + 1 == x.cycles && t + 1 == nt, any = false;
        for (int e = n; e > 0; e--) { if (rr[e-1].task != t) continue; if (reach[e-1]) reach[e] = 1; if (balanced[e-1]) balanced[e] = 1; }
        if (!last) for (int e = 0; e <= n; e++) if (balanced[e]) { if (fabs(cum[e] - ideal) > maxW * 1.0000001 + totW * 1e-9) balanced[e] = 0; else any = true; }
        if (!last && !any) FAIL("block-balance", "%s with %d processes, %d indexes of total weight %g (largest %g): weight %g expected to be assigned after the part of process %d in cycle %d, but no border is near", x.desc, nt, sz, totW, maxW, ideal, t, c);
    }
    if (!reach[n]) FAIL("block-order", "%s with %d processes: %d ranges not in process order", x.desc, nt, n);
    if (!balanced[n]) FAIL("block-balance", "%s with %d processes: last part", x.desc, nt);
    free(cum); free(reach); free(balanced);
    vh_count("block", 1); vh_count(x.useIW ? "index_weights" : "no_index_weights", 1); vh_count(x.useTW ? "task_weights" : "no_task_weights", 1); if (x.cycles > 1) vh_count("cyclic", 1);
    sigcase(&b, nt, rr, n); sample(&b, nt, x.desc, n); bp_free(&x); laik_free_space(sp);
}
static int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; }
static int64_t mn(int64_t a, int64_t b) { return a < b ? a : b; }
static int expect_n; static RR* ex = rr2;
static void expect(Laik_Space* sp, int task, int tag, const int64_t* f, const int64_t* t, int dims) { for (int d = 0; d < dims; d++) if (f[d] >= t[d]) return;
    RR* e = &ex[expect_n++]; memset(e, 0, sizeof *e); e->rg.space = sp; e->task = task; e->tag = tag; for (int d = 0; d < dims; d++) { e->rg.from.i[d] = f[d]; e->rg.to.i[d] = t[d]; } }
static void compare_expected(const char* what, const char* desc, RR* got, int n, int dims) {
    int m = 0; for (int i = 0; i < n; i++) { bool empty = false; for (int d = 0; d < dims; d++) if (got[i].rg.from.i[d] >= got[i].rg.to.i[d]) empty = true; if (!empty) got[m++] = got[i]; }
    n = m; rr_norm(got, n, dims); rr_norm(ex, expect_n, dims);
    for (int i = 0; i < n || i < expect_n; i++) if (i >= n || i >= expect_n || cmp_rr(&got[i], &ex[i])) {
        RR* g = i < n ? &got[i] : 0; RR* e = i < expect_n ? &ex[i] : 0; char a[120] = "none", c[120] = "none";
        if (g) snprintf(a, sizeof a, "T%d/%d [%lld;%lld[x[%lld;%lld[x[%lld;%lld[", g->task, g->tag, (long long)g->rg.from.i[0], (long long)g->rg.to.i[0], (long long)g->rg.from.i[1], (long long)g->rg.to.i[1], (long long)g->rg.from.i[2], (long long)g->rg.to.i[2]);
        if (e) snprintf(c, sizeof c, "T%d/%d [%lld;%lld[x[%lld;%lld[x[%lld;%lld[", e->task, e->tag, (long long)e->rg.from.i[0], (long long)e->rg.to.i[0], (long long)e->rg.from.i[1], (long long)e->rg.to.i[1], (long long)e->rg.from.i[2], (long long)e->rg.to.i[2]);
        FAIL(what, "%s: %d ranges, %d expected; entry %d (sorted) is %s, expected %s", desc, n, expect_n, i, a, c); }
}
static void shape_halo(Rng* r) {
    int dims = rng_int(r, 1, 3); Box b; Laik_Space* sp; setup(r, &b, dims, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, 0); Bp base, x; bool corner = rng_p(r, 50);
    int k = dims == 3 && rng_p(r, 40) ? B_GRID : rng_p(r, 60) || !corner ? B_BISECT : B_BLOCK; bp_make(r, &base, k, sp, &b, g, 0);
    bp_make(r, &x, corner ? B_CHALO : B_HALO, sp, &b, g, &base); int d0 = x.depth; int nb = read_all(base.p, rr, 20000); expect_n = 0;
    for (int i = 0; i < nb; i++) { int64_t* f = rr[i].rg.from.i; int64_t* t = rr[i].rg.to.i; int64_t ff[3], tt[3];
        if (corner) { for (int d = 0; d < dims; d++) { ff[d] = mx(b.f[d], f[d] - d0); tt[d] = mn(b.t[d], t[d] + d0); } expect(sp, rr[i].task, rr[i].tag, ff, tt, dims); }
        else { expect(sp, rr[i].task, rr[i].tag, f, t, dims);
            for (int d = 0; d < dims; d++) { memcpy(ff, f, sizeof ff); memcpy(tt, t, sizeof tt); tt[d] = f[d]; ff[d] = mx(b.f[d], f[d] - d0); expect(sp, rr[i].task, rr[i].tag, ff, tt, dims);
                memcpy(ff, f, sizeof ff); memcpy(tt, t, sizeof tt); ff[d] = t[d]; tt[d] = mn(b.t[d], t[d] + d0); expect(sp, rr[i].task, rr[i].tag, ff, tt, dims); } } }
    int n = read_all(x.p, rr, 20000); sigcase(&b, nt, rr, n); sample(&b, nt, x.desc, n); compare_expected(corner ? "cornerhalo-shape" : "halo-shape", x.desc, rr, n, dims);
    vh_count(corner ? "cornerhalo" : "halo", 1); bp_free(&x); bp_free(&base); laik_free_space(sp);
}
static void shape_copy(Rng* r) {
    int dims = rng_int(r, 1, 3); Box b; Laik_Space* sp; setup(r, &b, dims, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, 0); Bp base; bp_make(r, &base, rng_p(r, 70) ? B_BLOCK : B_MASTER, sp, &b, g, 0);
    int fd = base.kind == B_BLOCK ? base.pdim : rng_int(r, 0, dims - 1); int dims2 = rng_int(r, 1, 3), td = rng_int(r, 0, dims2 - 1); Box b2 = gen_box(r, dims2, 12, true); b2.f[td] = b.f[fd]; b2.t[td] = b.t[fd]; b2.n = box_size(&b2); Laik_Space* sp2 = gen_space(inst, &b2);
    Laik_Partitioner* pr = laik_new_copy_partitioner(fd, td); Laik_Partitioning* p = laik_new_partitioning(pr, g, sp2, base.p); int nb = read_all(base.p, rr, 20000); expect_n = 0;
    for (int i = 0; i < nb; i++) { int64_t f[3], t[3]; memcpy(f, b2.f, sizeof f); memcpy(t, b2.t, sizeof t); f[td] = rr[i].rg.from.i[fd]; t[td] = rr[i].rg.to.i[fd]; expect(sp2, rr[i].task, rr[i].tag, f, t, dims2); }
    int n = read_all(p, rr, 20000); char desc[120]; snprintf(desc, sizeof desc, "copy of %.40s dimension %d (of %d) to %d (of %d)", base.desc, fd, dims, td, dims2); sigcase(&b2, nt, rr, n); sample(&b2, nt, desc, n);
    compare_expected("copy-shape", desc, rr, n, dims2); vh_count("copy", 1);
    laik_free_partitioning(p); free(pr->data); free(pr); bp_free(&base); laik_free_space(sp); laik_free_space(sp2);
}
static void shape_reassign(Rng* r) {
    Box b; Laik_Space* sp; setup(r, &b, 1, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, 0); Bp base, x; bp_make(r, &base, rng_p(r, 60) ? B_BLOCK : B_BISECT, sp, &b, g, 0); mkreassign(r, &x, &base, sp, &b, g);
    int* was = malloc(sizeof(int) * (size_t)b.n); int nb = read_all(base.p, rr, 20000); for (int i = 0; i < nb; i++) for (int64_t k = rr[i].rg.from.i[0]; k < rr[i].rg.to.i[0]; k++) was[k - b.f[0]] = rr[i].task;
    int n = read_all(x.p, rr, 20000); double got[64] = { 0 }, tot = 0, maxW = 0; Laik_Group* ng = x.newg; int last = -1; int* now = malloc(sizeof(int) * (size_t)b.n); for (int64_t k = 0; k < b.n; k++) now[k] = -1;
    for (int i = 0; i < n; i++) for (int64_t k = rr[i].rg.from.i[0]; k < rr[i].rg.to.i[0]; k++) now[k - b.f[0]] = rr[i].task;
    for (int64_t k = 0; k < b.n; k++) { int w = was[k], t = now[k]; if (t < 0) FAIL("reassign-lost", "%s: index %lld lost", x.desc, (long long)k);
        if (ng->fromParent[t] < 0) FAIL("reassign-leaver", "%s: index %lld given to leaving process %d", x.desc, (long long)k, t);
        if (ng->fromParent[w] >= 0) { if (t != w) FAIL("reassign-moved", "%s: index %lld moved from remaining process %d to %d", x.desc, (long long)k, w, t); }
        else { double q = x.useIW ? x.wt.w[k] : 1; got[ng->fromParent[t]] += q; tot += q; if (q > maxW) maxW = q; } }
    double per = tot / ng->size; (void)last;
    for (int t = 0; t < ng->size; t++) if (got[t] > per + maxW * 1.0000001 + tot * 1e-9 || got[t] < per - maxW * 1.0000001 - tot * 1e-9) FAIL("reassign-balance", "%s: process %d gets weight %g of %g, %g expected (largest index weight %g)", x.desc, t, got[t], tot, per, maxW);
    vh_count("reassign", 1); if (tot > 0) vh_count("reassign_moving", 1); sigcase(&b, nt, rr, n); sample(&b, nt, x.desc, n);
    free(was); free(now); bp_free(&x); bp_free(&base); laik_free_space(sp);
}
static void shape_bisect(Rng* r) { /* each process at most one box; sizes differ at most by the rounding of the proportional splits in 1d */
    Box b; Laik_Space* sp; setup(r, &b, 1, &sp); int nt = gsize(r); Laik_Group* g = use_group(0, nt, 0); Bp x; bp_make(r, &x, B_BISECT, sp, &b, g, 0); int n = read_all(x.p, rr, 20000); int64_t pos = b.f[0]; int lastT = -1; int lev = 1; while ((1 << lev) < nt) lev++;
    for (int i = 0; i < n; i++) { if (rr[i].task <= lastT) FAIL("bisect-order", "%d processes: two ranges for process %d", nt, rr[i].task); if (rr[i].rg.from.i[0] != pos) FAIL("bisect-order", "%d processes, %lld indexes: range of process %d starts at %lld instead of %lld", nt, (long long)b.n, rr[i].task, (long long)rr[i].rg.from.i[0], (long long)pos);
        int64_t s = rr[i].rg.to.i[0] - rr[i].rg.from.i[0]; double id = (double)b.n / nt; if (b.n >= 2 * nt && fabs((double)s - id) > lev + 1) FAIL("bisect-balance", "%d processes, %lld indexes: process %d gets %lld", nt, (long long)b.n, rr[i].task, (long long)s);
        pos = rr[i].rg.to.i[0]; lastT = rr[i].task; }
    vh_count("bisection", 1); sigcase(&b, nt, rr, n); bp_free(&x); laik_free_space(sp);
}
void m_shape(Rng* r) { int k = rng_int(r, 0, 99); if (k < 40) shape_block(r); else if (k < 70) shape_halo(r); else if (k < 80) shape_copy(r); else if (k < 95) shape_reassign(r); else shape_bisect(r); }

/* ---- range lists: queries (C09) and canonical form (C12) ------------------------------------------------------------- */
static Spec A, B2, C3;
static void spec_shuffle(Rng* r, Spec* s) { for (int i = s->cnt - 1; i > 0; i--) { int j = rng_int(r, 0, i); int x = s->order[i]; s->order[i] = s->order[j]; s->order[j] = x; } }
static uint64_t* own_of(const Box* b, const RR* e, int n) { uint64_t* o = calloc((size_t)b->n + 1, 8); for (int i = 0; i < n; i++) { int64_t x[3]; memcpy(x, e[i].rg.from.i, sizeof x); bool em = false; for (int d = 0; d < b->dims; d++) if (e[i].rg.from.i[d] >= e[i].rg.to.i[d]) em = true; if (em) continue; do o[lin(b, x)] |= 1ull << e[i].task; while (iter_next(b->dims, e[i].rg.from.i, e[i].rg.to.i, x)); } return o; }
static void same_own(const Box* b, const uint64_t* want, const RR* e, int n, const char* what, const char* desc) { uint64_t* o = own_of(b, e, n); for (int64_t i = 0; i < b->n; i++) if (o[i] != want[i]) FAIL(what, "%s: index %lld has owner set %llx, assigned were %llx", desc, (long long)i, (unsigned long long)o[i], (unsigned long long)want[i]); free(o); }

void m_list(Rng* r) {
    int dims = rng_p(r, 50) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 50 : dims == 2 ? 12 : 6, true); Laik_Space* sp = gen_space(inst, &b); int nt = rng_int(r, 1, 10), my = rng_p(r, 10) ? -1 : rng_int(r, 0, nt - 1); Laik_Group* g = use_group(0, nt, my);
    gen_spec(r, &b, nt, dims == 1 && rng_p(r, 20) ? SK_SCATTER : -1, true, -1, &A);
    if (nt > 1 && rng_p(r, 8)) { gen_spec(r, &b, nt, SK_ALL, true, -1, &A); int k = rng_int(r, 1, 2); while (k-- > 0) A.e[rng_int(r, 0, A.cnt - 1)].task = rng_int(r, 0, nt - 1); spec_finish(&b, &A); vh_count(A.all ? "everything_for_all" : "everything_for_some", 1); }
    spec_make(&A, g, sp, "spec"); char desc[600]; spec_str(&A, &b, desc, sizeof desc); vh_setwhere("list world %d case %d: %.400s", world_no, case_no, desc);
    Laik_Partitioning* p = A.p; int n = read_all(p, rr, 20000); if (laik_partitioning_get_taskrange(p, n)) FAIL("list-end", "range %d returned of %d", n, n);
    for (int i = 0; i < n; i++) check_inside(&b, &rr[i], nt, desc);
    same_own(&b, A.own, rr, n, "ownership", desc);
    Laik_RangeList* l = laik_partitioning_allranges(p); if (laik_rangelist_rangecount(l) != n) FAIL("count", "range count %d, %d ranges", laik_rangelist_rangecount(l), n);
    int off = 0;
    for (int t = 0; t < nt; t++) {
        int c = laik_rangelist_tidrangecount(l, t), k = 0; while (off + k < n && rr[off + k].task == t) k++;
        int tot = 0; for (int i = 0; i < n; i++) tot += rr[i].task == t;
        if (c != tot || c != k) FAIL("tid-count", "process %d: count %d, but %d ranges listed (%d in a row)", t, c, tot, k);
        for (int i = 0; i < c; i++) { Laik_TaskRange* tr = laik_rangelist_tidrange(l, t, i); if (!tr) FAIL("tid-range", "range %d of process %d missing", i, t); if (laik_taskrange_get_task(tr) != t || !laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(tr), &rr[off + i].rg) || laik_taskrange_get_tag(tr) != rr[off + i].tag || laik_taskrange_get_mapNo(tr) != rr[off + i].map) FAIL("tid-range", "range %d of process %d differs from the list", i, t); }
        if (laik_rangelist_tidrange(l, t, c) || laik_rangelist_tidrange(l, t, -1)) FAIL("tid-range", "range beyond the end of process %d returned", t);
        int mc = laik_rangelist_tidmapcount(l, t), mm = 0; uint64_t seen[20] = { 0 }; for (int i = 0; i < c; i++) { int m = rr[off + i].map; if (m < 0 || m >= 1280) FAIL("map-number", "map number %d", m); if (!((seen[m / 64] >> (m % 64)) & 1)) { seen[m / 64] |= 1ull << (m % 64); mm++; } if (m >= mc) FAIL("map-count", "process %d: map number %d but %d maps", t, m, mc); }
        if (mm != mc) FAIL("map-count", "process %d: %d maps reported, %d used", t, mc, mm);
        if (t == my || rng_p(r, 30)) { int s = 0; for (int m = 0; m < mc; m++) { int q = (int)laik_rangelist_tidmaprangecount(l, t, m), e = 0; for (int i = 0; i < c; i++) if (rr[off + i].map == m) { Laik_TaskRange* tr = laik_rangelist_tidmaprange(l, t, m, e++); if (!tr || !laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(tr), &rr[off + i].rg) || laik_taskrange_get_task(tr) != t) FAIL("map-range", "range %d of map %d of process %d differs", e - 1, m, t); }
                if (e != q) FAIL("map-range-count", "map %d of process %d: %d ranges reported, %d listed", m, t, q, e); if (laik_rangelist_tidmaprange(l, t, m, q)) FAIL("map-range", "range beyond the end of a map returned"); s += q; }
            if (s != c) FAIL("map-range-count", "maps of process %d hold %d of %d ranges", t, s, c); if (mc > 0 && laik_rangelist_tidmaprange(l, t, mc, 0)) FAIL("map-range", "map beyond the end returned"); vh_count("map_queries", 1); }
        if (t == my) { if (laik_my_rangecount(p) != c || laik_my_mapcount(p) != mc) FAIL("my-count", "own range count %d / maps %d, expected %d / %d", laik_my_rangecount(p), laik_my_mapcount(p), c, mc);
            for (int i = 0; i <= c; i++) { int64_t a[6] = { 7, 7, 7, 7, 7, 7 }; Laik_TaskRange* tr = dims == 1 ? laik_my_range_1d(p, i, a, a + 1) : dims == 2 ? laik_my_range_2d(p, i, a, a + 1, a + 2, a + 3) : laik_my_range_3d(p, i, a, a + 1, a + 2, a + 3, a + 4, a + 5);
                if (i == c) { if (tr) FAIL("my-range", "own range %d of %d returned", i, c); break; } if (!tr) FAIL("my-range", "own range %d of %d missing", i, c);
                for (int d = 0; d < dims; d++) if (a[2 * d] != rr[off + i].rg.from.i[d] || a[2 * d + 1] != rr[off + i].rg.to.i[d]) FAIL("my-range", "own range %d: bounds [%lld;%lld[ in dimension %d, expected [%lld;%lld[", i, (long long)a[2*d], (long long)a[2*d+1], d, (long long)rr[off+i].rg.from.i[d], (long long)rr[off+i].rg.to.i[d]); }
            for (int m = 0; m < mc; m++) { int q = laik_my_maprangecount(p, m); for (int i = 0; i < q; i++) { Laik_TaskRange* tr = laik_my_maprange(p, m, i); if (!tr || laik_taskrange_get_mapNo(tr) != m || laik_taskrange_get_task(tr) != my) FAIL("my-maprange", "range %d of own map %d wrong", i, m); } }
        }
        off += c;
    }
    if (off != n) FAIL("tid-count", "%d of %d ranges belong to a process", off, n);
    if (my < 0 && (laik_my_rangecount(p) || laik_my_mapcount(p) || laik_my_range(p, 0))) FAIL("my-count", "ranges reported for a process outside the group");
    bool cov = laik_partitioning_coversSpace(p); if (cov != !A.holes) FAIL("covers", "coverage reported %d, real %d", cov, !A.holes);
    bool rall = true; uint64_t full = (1ull << nt) - 1; int single = -1; for (int64_t i = 0; i < b.n; i++) if (A.own[i] != full) rall = false;
    for (int t = 0; t < nt; t++) { bool s = true; for (int64_t i = 0; i < b.n; i++) if (A.own[i] != 1ull << t) s = false; if (s) single = t; }
    bool isall = laik_partitioning_isAll(p); if ((isall && !rall) || (A.all && !isall)) FAIL("is-all", "isAll reported %d, everything belongs to all: %d", isall, rall);
    int iss = laik_partitioning_isSingle(p); if ((iss >= 0 && iss != single) || (A.singleTask >= 0 && iss != A.singleTask)) FAIL("is-single", "isSingle reported %d, single owner is %d", iss, single);
    /* equality with another partitioning: the same appended once more / changed in one place */
    memcpy(&B2, &A, sizeof A); B2.own = 0; if (dims == 1 && !A.multi) spec_shuffle(r, &B2); spec_finish(&b, &B2); spec_make(&B2, g, sp, "spec2");
    if (!laik_partitioning_isEqual(p, B2.p) || !laik_partitioning_isEqual(B2.p, p)) FAIL("is-equal", "two partitionings with the same ranges are reported different");
    memcpy(&C3, &A, sizeof A); C3.own = 0; int w = rng_int(r, 0, C3.cnt - 1), how = rng_int(r, 0, 3); Ent* e = &C3.e[w]; int d = rng_int(r, 0, dims - 1);
    if (C3.cnt > 0) { if (how == 0) e->task = (e->task + 1) % nt; else if (how == 1) { if (e->f[d] > b.f[d]) e->f[d]--; else if (e->t[d] - e->f[d] > 1) e->t[d]--; } else if (how == 2) { if (e->t[d] < b.t[d]) e->t[d]++; else if (e->t[d] - e->f[d] > 1) e->f[d]++; } else if (C3.cnt > 1) { for (int i = w; i + 1 < C3.cnt; i++) C3.e[i] = C3.e[i + 1]; C3.cnt--; for (int i = 0; i < C3.cnt; i++) C3.order[i] = i; } }
    C3.flags |= LAIK_PF_NoFullCoverage; spec_finish(&b, &C3); spec_make(&C3, g, sp, "spec3"); bool same = true; for (int64_t i = 0; i < b.n; i++) if (C3.own[i] != A.own[i]) same = false;
    if (!same) { vh_count("unequal_pairs", 1); if (laik_partitioning_isEqual(p, C3.p) || laik_partitioning_isEqual(C3.p, p)) FAIL("is-equal", "two partitionings with different owners are reported equal"); }
    vh_count("ranges", (uint64_t)n); vh_count(A.holes ? "not_covering" : "covering", 1); if (isall) vh_count("all", 1); if (iss >= 0) vh_count("single", 1); if (A.single) vh_count("single_index_lists", 1);
    if (n > 1) vh_sig(spec_sig(&A)); vh_sample("%s", desc);
    spec_free(&A, true); spec_free(&B2, true); spec_free(&C3, true); laik_free_space(sp);
}

void m_canon(Rng* r) {
    int dims = rng_p(r, 75) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 70 : dims == 2 ? 12 : 6, true); Laik_Space* sp = gen_space(inst, &b); int nt = rng_int(r, 1, 8); Laik_Group* g = use_group(0, nt, rng_int(r, 0, nt - 1));
    Spec* s = &A; memset(s, 0, sizeof *s); s->ntasks = nt; s->cnt = rng_int(r, 0, 40); bool tags = rng_p(r, 60), untag = rng_p(r, 50); s->flags = LAIK_PF_NoFullCoverage; bool merge = dims == 1 && rng_p(r, 60); if (merge) s->flags |= LAIK_PF_Merge; s->single = dims == 1 && rng_p(r, 25) && s->cnt > 0;
    for (int i = 0; i < s->cnt; i++) { Ent* e = &s->e[i]; e->task = rng_int(r, 0, nt - 1); e->tag = s->single ? 0 : tags ? rng_int(r, untag ? 0 : 1, 4) : 0; if (tags && rng_p(r, 5) && !s->single) e->tag = 1000000 + rng_int(r, 0, 3); for (int d = 0; d < dims; d++) { int sz = (int)(b.t[d] - b.f[d]); int a = rng_int(r, 0, sz - 1), len = rng_p(r, 70) ? rng_int(r, 1, 6) : rng_int(r, 1, sz); e->f[d] = b.f[d] + a; e->t[d] = mn(b.t[d], e->f[d] + len); } }
    for (int i = 0; i < s->cnt; i++) s->order[i] = i;
    spec_shuffle(r, s); snprintf(s->desc, sizeof s->desc, "%s%s", merge ? "merge" : "keep", s->single ? "+si" : ""); spec_finish(&b, s); spec_make(s, g, sp, "canon"); char desc[600]; spec_str(s, &b, desc, sizeof desc); vh_setwhere("canon world %d case %d: %.400s", world_no, case_no, desc);
    int n = read_all(s->p, rr, 20000); same_own(&b, s->own, rr, n, "ownership", desc);
    for (int i = 1; i < n; i++) if (rr[i].task < rr[i-1].task) FAIL("order", "ranges not ordered by process");
    /* expected set of ranges */
    expect_n = 0;
    if (s->single || merge) { /* maximal runs per (task, tag) */
        for (int t = 0; t < nt; t++) for (int k = 0; k < s->cnt; k++) { int tag = s->e[k].tag; bool first = true; for (int q = 0; q < k; q++) if (s->e[q].tag == tag) first = false; if (!first) continue;
            char* m = calloc((size_t)b.n + 2, 1); /* bit 1: covered, bit 2: joined with predecessor */
            for (int q = 0; q < s->cnt; q++) if (s->e[q].task == t && s->e[q].tag == tag) for (int64_t x = s->e[q].f[0]; x < s->e[q].t[0]; x++) m[x - b.f[0]] |= 1;
            for (int64_t x = 0; x < b.n;) { if (!m[x]) { x++; continue; } int64_t y = x; while (y < b.n && m[y]) y++; int64_t f[3] = { x + b.f[0] }, to[3] = { y + b.f[0] }; expect(sp, t, tag, f, to, 1); x = y; }
            free(m); } }
    else for (int i = 0; i < s->cnt; i++) expect(sp, s->e[i].task, s->e[i].tag, s->e[i].f, s->e[i].t, dims);
    /* memory areas */
    for (int i = 0; i < n; i++) {
        bool firstOfTask = i == 0 || rr[i-1].task != rr[i].task; int prev = firstOfTask ? -1 : rr[i-1].map;
        if (rr[i].map < prev || rr[i].map > prev + 1 || (firstOfTask && rr[i].map != 0)) FAIL("map-number", "range %d of process %d has map %d after %d", i, rr[i].task, rr[i].map, prev);
        for (int k = 0; k < i; k++) if (rr[k].task == rr[i].task) { bool sameMap = rr[k].map == rr[i].map, want = s->single || (rr[k].tag == rr[i].tag && rr[i].tag != 0); if (sameMap != want) FAIL("map-tag", "ranges %d and %d of process %d with tags %d and %d are in maps %d and %d", k, i, rr[i].task, rr[k].tag, rr[i].tag, rr[k].map, rr[i].map); } }
    sigcase(&b, nt, rr, n); vh_sample("%s", desc); vh_count("ranges_in", (uint64_t)s->cnt); vh_count("ranges_out", (uint64_t)n); if (n < s->cnt) vh_count("merged_lists", 1); if (s->single) vh_count("single_index_lists", 1); if (tags) vh_count("tagged_lists", 1);
    compare_expected(s->single ? "single-index" : merge ? "merge" : "kept", desc, rr, n, dims);
    spec_free(s, true); laik_free_space(sp);
}

/* ---- filters (C11) ------------------------------------------------------------------------------------------------------ */
static Laik_Partitioning* filt_new(Spec* s, Laik_Group* g, Laik_Space* sp) { return laik_new_empty_partitioning(g, sp, s->pr, 0); }
void m_filter(Rng* r) {
    int dims = rng_p(r, 75) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 60 : dims == 2 ? 12 : 6, true); Laik_Space* sp = gen_space(inst, &b); int nt = rng_int(r, 1, 8); Laik_Group* g = use_group(0, nt, 0);
    bool builtin = rng_p(r, 40); Laik_Partitioner* pr1 = 0; Bp bp, bb; Laik_Partitioning* other = 0;
    if (builtin) { int k = rng_int(r, 0, 3); int kind = k == 0 ? B_ALL : k == 1 ? B_BLOCK : k == 2 ? B_BISECT : B_CHALO; if (kind == B_CHALO || (kind == B_BISECT && rng_p(r, 50))) { bp_make(r, &bb, B_BISECT, sp, &b, g, 0); bp_make(r, &bp, kind == B_BISECT ? B_HALO : B_CHALO, sp, &b, g, &bb); other = bb.p; } else bp_make(r, &bp, kind, sp, &b, g, 0); pr1 = bp.pr; }
    else { gen_spec(r, &b, nt, -1, true, -1, &A); spec_make(&A, g, sp, "f1"); pr1 = A.pr; }
    int nq = dims == 1 && rng_p(r, 45) ? rng_int(r, 2, 3) : 1; static Spec more[2]; Spec* qs[3] = { &B2, &more[0], &more[1] }; for (int k = 0; k < nq; k++) { gen_spec(r, &b, nt, -1, true, -1, qs[k]); spec_make(qs[k], g, sp, k ? k == 1 ? "f3" : "f4" : "f2"); }
    char desc[600]; if (builtin) snprintf(desc, sizeof desc, "%.200s", bp.desc); else spec_str(&A, &b, desc, sizeof desc); char d2[300]; spec_str(&B2, &b, d2, sizeof d2);
    Laik_Partitioning* full = builtin ? bp.p : A.p; int n = read_all(full, rr, 20000);
    Laik_Partitioning* again = laik_new_partitioning(pr1, g, sp, other); if (!laik_partitioning_isEqual(full, again)) FAIL("second-run", "%s: a second run of the partitioner differs", desc); laik_free_partitioning(again);
    bool merged = !builtin && (A.flags & LAIK_PF_Merge || A.single);
    for (int me = 0; me < nt; me++) {
        g->myid = me; vh_setwhere("filter world %d case %d process %d: %.240s | %.200s", world_no, case_no, me, desc, d2);
        Laik_Partitioning* p = laik_new_empty_partitioning(g, sp, pr1, other); laik_partitioning_store_myranges(p);
        int c = 0, o = 0; for (int i = 0; i < n; i++) { if (rr[i].task == me) { if (!c) o = i; c++; } }
        if (laik_my_rangecount(p) != c) FAIL("own-count", "%d own ranges with own filter, %d in the complete partitioning", laik_my_rangecount(p), c);
        for (int i = 0; i < c; i++) { Laik_TaskRange* t = laik_my_range(p, i); if (!t || !laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(t), &rr[o + i].rg) || laik_taskrange_get_mapNo(t) != rr[o + i].map || laik_taskrange_get_tag(t) != rr[o + i].tag) FAIL("own-range", "own range %d differs from the complete partitioning", i); }
        int mc = laik_my_mapcount(p), fm = laik_my_mapcount(full); if (mc != fm) FAIL("own-maps", "%d maps with own filter, %d in the complete partitioning", mc, fm);
        vh_count("own_filters", 1); if (!c) vh_count("own_filters_empty", 1);
        if (dims == 1) {
            /* intersections with several partitionings are stored (in any order), each has to be the right one afterwards */
            Laik_Partitioning* qa[3]; for (int k = 0; k < nq; k++) { qa[k] = filt_new(qs[k], g, sp); laik_partitioning_store_myranges(qa[k]); }
            int first = rng_int(r, 0, nq - 1); for (int k = 0; k < nq; k++) laik_partitioning_store_intersectranges(p, qa[(first + k) % nq]); if (nq > 1) vh_count("several_intersection_filters", 1);
            for (int qi = 0; qi < nq; qi++) { Laik_Partitioning* q = qa[qi]; Spec* Q = qs[qi];
            Laik_RangeList* il = laik_partitioning_interranges(p, q); if (!il) FAIL("inter-none", "no range list after storing intersections");
            int m = laik_rangelist_rangecount(il); for (int i = 0; i < m; i++) { Laik_TaskRange* t = laik_rangelist_taskrange(il, i); rr2[i].rg = *laik_taskrange_get_range(t); rr2[i].task = laik_taskrange_get_task(t); rr2[i].tag = laik_taskrange_get_tag(t); rr2[i].map = laik_taskrange_get_mapNo(t); }
            /* relevant indexes: own in p or in q */
            char* rel = calloc((size_t)b.n, 1); for (int i = 0; i < c; i++) for (int64_t x = rr[o+i].rg.from.i[0]; x < rr[o+i].rg.to.i[0]; x++) rel[x - b.f[0]] = 1;
            for (int64_t x = 0; x < b.n; x++) if ((Q->own[x] >> me) & 1) rel[x] = 1;
            uint64_t* want = own_of(&b, rr, n); uint64_t* got = own_of(&b, rr2, m);
            for (int64_t x = 0; x < b.n; x++) { if (got[x] & ~want[x]) FAIL("inter-invented", "index %lld (relative): filtered owners %llx, real %llx", (long long)x, (unsigned long long)got[x], (unsigned long long)want[x]); if (rel[x] && got[x] != want[x]) FAIL("inter-lost", "index %lld (relative) is needed: filtered owners %llx, real %llx", (long long)x, (unsigned long long)got[x], (unsigned long long)want[x]); }
            free(want); free(got); free(rel);
            if (!merged) for (int i = 0; i < m; i++) { bool f = false; for (int k = 0; k < n && !f; k++) f = rr[k].task == rr2[i].task && laik_range_isEqual(&rr[k].rg, &rr2[i].rg) && rr[k].tag == rr2[i].tag; if (!f) FAIL("inter-range", "filtered list has a range the complete partitioning does not contain"); }
            int oc = 0; for (int i = 0; i < m; i++) if (rr2[i].task == me) { if (oc >= c || !laik_range_isEqual(&rr2[i].rg, &rr[o + oc].rg) || rr2[i].map != rr[o + oc].map) FAIL("inter-own", "own range %d differs in the filtered list", oc); oc++; }
            if (oc != c) FAIL("inter-own", "%d of %d own ranges in the filtered list", oc, c);
            vh_count("intersection_filters", 1); if (m < n) vh_count("intersection_filters_dropping", 1);
            /* both transitions computed from filtered and complete lists must be the same */
            laik_partitioning_store_intersectranges(q, p); g->myid = me;
            Laik_Transition* t1 = laik_calc_transition(sp, p, q, LAIK_DF_Preserve, LAIK_RO_Sum); Laik_Transition* t2 = laik_calc_transition(sp, full, Q->p, LAIK_DF_Preserve, LAIK_RO_Sum);
            if (t1->localCount != t2->localCount || t1->sendCount != t2->sendCount || t1->recvCount != t2->recvCount || t1->redCount != t2->redCount || t1->initCount != t2->initCount) { if (!merged && !(Q->flags & LAIK_PF_Merge)) FAIL("transition", "transition from filtered lists has %d/%d/%d/%d/%d operations, from complete lists %d/%d/%d/%d/%d", t1->localCount, t1->sendCount, t1->recvCount, t1->redCount, t1->initCount, t2->localCount, t2->sendCount, t2->recvCount, t2->redCount, t2->initCount); }
            vh_count("transitions_compared", 1); laik_free_transition(t1); laik_free_transition(t2); }
            for (int k = 0; k < nq; k++) laik_free_partitioning(qa[k]);
        }
        laik_free_partitioning(p);
    }
    if (n > 1) { uint64_t h = spec_sig(&B2); for (int i = 0; i < n; i++) h = hash_mix(h, (uint64_t)(rr[i].rg.from.i[0] * 7 + rr[i].task)); vh_sig(h); }
    vh_sample("%.300s | %.200s", desc, d2);
    if (builtin) { bp_free(&bp); if (other) bp_free(&bb); } else spec_free(&A, true); for (int k = 0; k < nq; k++) spec_free(qs[k], true); laik_free_space(sp);
}

/* ---- range algebra (C10) ------------------------------------------------------------------------------------------------ */
static int64_t rnd64(Rng* r) { switch (rng_int(r, 0, 5)) { case 0: return rng_int(r, -6, 6); case 1: return rng_int(r, -100000, 100000); case 2: return (int64_t)rng_u64(r) / 2; case 3: return INT64_MAX - rng_int(r, 0, 5); case 4: return INT64_MIN + rng_int(r, 0, 5); default: return (int64_t)(rng_u64(r) % 2000000000000ull) - 1000000000000ll; } }
typedef __int128 I128;
static void rnd_range(Rng* r, Laik_Space* sp, int dims, Laik_Range* g, bool small) {
    memset(g, 0, sizeof *g); int64_t f[3], t[3]; for (int d = 0; d < dims; d++) for (;;) { f[d] = small ? rng_int(r, -4, 6) : rnd64(r); t[d] = small ? f[d] + rng_int(r, 0, 5) : rng_p(r, 50) ? rnd64(r) : (f[d] > INT64_MAX - 20 ? f[d] : f[d] + rng_int(r, 0, 20)); if (t[d] < f[d]) continue; if ((I128)t[d] - f[d] > INT64_MAX) continue; break; }
    if (dims == 1) laik_range_init_1d(g, sp, f[0], t[0]); else if (dims == 2) laik_range_init_2d(g, sp, f[0], t[0], f[1], t[1]); else laik_range_init_3d(g, sp, f[0], t[0], f[1], t[1], f[2], t[2]);
    for (int d = 0; d < dims; d++) if (g->from.i[d] != f[d] || g->to.i[d] != t[d]) FAIL("init", "range bounds not stored");
    if (rng_p(r, 30)) { Laik_Range q; Laik_Index a = g->from, c = g->to; laik_range_init(&q, sp, &a, &c); Laik_Range z; laik_range_init_copy(&z, &q); if (!laik_range_isEqual(&z, g)) FAIL("copy", "copied range differs"); }
}
void m_alg(Rng* r) {
    static Laik_Space* sps[4]; static Laik_Space* other[4];
    int dims = rng_int(r, 1, 3); if (!sps[dims]) { Box b = { .dims = dims, .t = { 1, 1, 1 } }; sps[dims] = gen_space(inst, &b); other[dims] = gen_space(inst, &b); } Laik_Space* sp = sps[dims];
    for (int k = 0; k < 40; k++) {
        Laik_Range a, c; bool small = rng_p(r, 50); rnd_range(r, sp, dims, &a, small); rnd_range(r, sp, dims, &c, small); if (rng_p(r, 15)) c = a; if (rng_p(r, 10)) { int d = rng_int(r, 0, dims - 1); c = a; if (c.to.i[d] < INT64_MAX && (I128)c.to.i[d] + 1 - c.from.i[d] <= INT64_MAX) c.to.i[d]++; }
        if (rng_p(r, 15)) { int d = rng_int(r, 0, dims - 1); if (c.to.i[d] < INT64_MAX - 10) { a.from.i[d] = c.to.i[d]; a.to.i[d] = c.to.i[d] + rng_int(r, 0, 5); } } /* touching */
        /* meaningless coordinates in unused dimensions must not matter */
        for (int d = dims; d < 3; d++) { a.from.i[d] = rnd64(r); a.to.i[d] = rnd64(r); c.from.i[d] = rnd64(r); c.to.i[d] = rnd64(r); }
        char txt[300]; snprintf(txt, sizeof txt, "dims %d a=[%lld;%lld[x[%lld;%lld[x[%lld;%lld[ b=[%lld;%lld[x[%lld;%lld[x[%lld;%lld[", dims, (long long)a.from.i[0], (long long)a.to.i[0], (long long)a.from.i[1], (long long)a.to.i[1], (long long)a.from.i[2], (long long)a.to.i[2], (long long)c.from.i[0], (long long)c.to.i[0], (long long)c.from.i[1], (long long)c.to.i[1], (long long)c.from.i[2], (long long)c.to.i[2]);
        vh_setwhere("alg %s", txt);
        bool ea = false, ec = false, ei = false, in = true, eq = true; int64_t f[3], t[3]; I128 sa = 1;
        for (int d = 0; d < dims; d++) { ea |= a.from.i[d] >= a.to.i[d]; ec |= c.from.i[d] >= c.to.i[d]; f[d] = mx(a.from.i[d], c.from.i[d]); t[d] = mn(a.to.i[d], c.to.i[d]); ei |= f[d] >= t[d]; in &= a.from.i[d] >= c.from.i[d] && a.to.i[d] <= c.to.i[d]; eq &= a.from.i[d] == c.from.i[d] && a.to.i[d] == c.to.i[d]; }
        for (int d = 0; d < dims; d++) { I128 w = (I128)a.to.i[d] - a.from.i[d]; if (sa != 0 && w > 0 && sa > (((I128)1) << 100) / w) sa = -1; else if (sa >= 0) sa *= w; if (sa < 0) break; }
        bool szok = sa >= 0 && sa <= (I128)UINT64_MAX; if (ea) { szok = true; sa = 0; }
        if (laik_range_isEmpty(&a) != ea) FAIL("empty", "isEmpty is %d", !ea);
        if (szok && laik_range_size(&a) != (uint64_t)sa) FAIL("size", "size is %llu, expected %llu", (unsigned long long)laik_range_size(&a), (unsigned long long)sa);
        if (laik_range_isEqual(&a, &c) != eq) FAIL("equal", "isEqual is %d", !eq);
        Laik_Range* ir = laik_range_intersect(&a, &c); if ((ir == 0) != ei) FAIL("intersect", "intersection reported %s", ir ? "non-empty" : "empty");
        if (ir) for (int d = 0; d < dims; d++) if (ir->from.i[d] != f[d] || ir->to.i[d] != t[d]) FAIL("intersect", "intersection in dimension %d is [%lld;%lld[, expected [%lld;%lld[", d, (long long)ir->from.i[d], (long long)ir->to.i[d], (long long)f[d], (long long)t[d]);
        if (ir && ir->space != sp) FAIL("intersect", "intersection belongs to another space");
        bool win = ea || in; if (laik_range_within_range(&a, &c) != win) FAIL("within", "within is %d, expected %d", !win, win);
        if (!ea && !ec) { Laik_Range x = a; laik_range_expand(&x, &c); for (int d = 0; d < dims; d++) if (x.from.i[d] != mn(a.from.i[d], c.from.i[d]) || x.to.i[d] != mx(a.to.i[d], c.to.i[d])) FAIL("expand", "expanded in dimension %d to [%lld;%lld[", d, (long long)x.from.i[d], (long long)x.to.i[d]); }
        Laik_Range o = a; o.space = other[dims]; if (laik_range_isEqual(&o, &a)) FAIL("equal", "ranges of different spaces reported equal");
        /* a space with the bounds of b */
        if (dims == 1) laik_change_space_1d(sp, c.from.i[0], c.to.i[0]); else if (dims == 2) laik_change_space_2d(sp, c.from.i[0], c.to.i[0], c.from.i[1], c.to.i[1]); else laik_change_space_3d(sp, c.from.i[0], c.to.i[0], c.from.i[1], c.to.i[1], c.from.i[2], c.to.i[2]);
        const Laik_Range* sr = laik_space_asrange(sp); if (laik_space_getdimensions(sp) != dims || sr->space != sp) FAIL("space", "space lost dimensions"); for (int d = 0; d < dims; d++) if (sr->from.i[d] != c.from.i[d] || sr->to.i[d] != c.to.i[d]) FAIL("space", "bounds of changed space wrong in dimension %d", d);
        if (laik_range_within_space(&a, sp) != win) FAIL("within-space", "within space is %d", !win);
        I128 sc = 1; for (int d = 0; d < dims; d++) { I128 w = (I128)c.to.i[d] - c.from.i[d]; if (sc > (((I128)1) << 62)) sc = (((I128)1) << 100); if (sc < (((I128)1) << 90)) sc *= w; } if (sc <= (((I128)1) << 62) && laik_space_size(sp) != (uint64_t)sc) FAIL("space-size", "space size %llu", (unsigned long long)laik_space_size(sp));
        Laik_Index i1, i2, i3; int64_t p1 = rng_int(r, -1000000, 1000000), p2 = rng_int(r, -50, 50), p3 = (int64_t)(rng_u64(r) >> 3); laik_index_init(&i1, p1, p2, p3); laik_index_init(&i2, p2, p1, 5); laik_add_index(&i3, &i1, &i2); if (i3.i[0] != p1 + p2 || i3.i[1] != p1 + p2 || i3.i[2] != p3 + 5) FAIL("index-add", "wrong sum"); laik_sub_index(&i3, &i1, &i2); if (i3.i[0] != p1 - p2 || i3.i[1] != p2 - p1 || i3.i[2] != p3 - 5) FAIL("index-sub", "wrong difference");
        i3 = i1; int dd = rng_int(r, 0, 2); i3.i[dd]++; if (laik_index_isEqual(dims, &i1, &i3) != (dd >= dims) || !laik_index_isEqual(dims, &i1, &i1)) FAIL("index-equal", "index comparison wrong in dimension %d of %d", dd, dims);
        vh_count("range_pairs", 1); if (ei) vh_count("disjoint", 1); else vh_count("overlapping", 1); if (ea) vh_count("empty_ranges", 1); if (win && !ea) vh_count("contained", 1); if (k == 0) { vh_sample("%s", txt); } if (!ea && !ec) vh_sig(hash_mix(hash_mix((uint64_t)dims, (uint64_t)a.from.i[0] * 31 + (uint64_t)a.to.i[0]), (uint64_t)c.from.i[0] * 31 + (uint64_t)c.to.i[0]));
    }
}

/* ---- migration (C17) ------------------------------------------------------------------------------------------------------ */
void m_migrate(Rng* r) {
    int dims = rng_p(r, 60) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 50 : dims == 2 ? 12 : 6, true); Laik_Space* sp = gen_space(inst, &b);
    int nt = rng_int(r, 1, 10); int nnew = 0; int map[64], inv[64]; bool gone[64]; /* derive child group by removing some processes */
    for (int i = 0; i < nt; i++) { gone[i] = rng_p(r, 30) && (nnew > 0 || i < nt - 1); map[i] = gone[i] ? -1 : nnew; if (!gone[i]) inv[nnew++] = i; }
    int me = rng_int(r, 0, nt - 1); Laik_Group* old = use_group(0, nt, me); Laik_Group* ng = use_group(1, nnew, map[me]); bool up = rng_p(r, 30), via2 = rng_p(r, 40);
    if (via2) { ng->parent2 = old; for (int i = 0; i < nt; i++) ng->fromParent2[i] = map[i]; for (int i = 0; i < nnew; i++) ng->toParent2[i] = inv[i]; ng->parent = use_group(2, 1, -1); }
    else { ng->parent = old; for (int i = 0; i < nt; i++) ng->fromParent[i] = map[i]; for (int i = 0; i < nnew; i++) ng->toParent[i] = inv[i]; }
    Laik_Group* from = up ? ng : old; Laik_Group* to = up ? old : ng; int fs = from->size; int tr[64]; for (int i = 0; i < fs; i++) tr[i] = up ? inv[i] : map[i];
    gen_spec(r, &b, fs, -1, true, -1, &A); for (int i = 0; i < A.cnt; i++) if (tr[A.e[i].task] < 0) A.e[i].task = inv[A.e[i].task % nnew]; spec_finish(&b, &A);
    /* own ranges of a process must be distinct memory, so ranges moved above may coincide: harmless for the list */
    char desc[500]; spec_str(&A, &b, desc, sizeof desc); vh_setwhere("migrate world %d case %d %s%s %d->%d: %.380s", world_no, case_no, up ? "up" : "down", via2 ? " second parent" : "", fs, to->size, desc);
    A.pr = laik_new_partitioner("mig", spec_run, &A, (Laik_PartitionerFlag)A.flags);
    bool own = from->myid >= 0 && rng_p(r, 30); Laik_Partitioning* p = laik_new_empty_partitioning(from, sp, A.pr, 0); if (own) laik_partitioning_store_myranges(p); if (!own || rng_p(r, 50)) { laik_partitioning_store_allranges(p); own = false; }
    Laik_RangeList* l = own ? laik_partitioning_myranges(p) : laik_partitioning_allranges(p); int n = laik_rangelist_rangecount(l);
    for (int i = 0; i < n; i++) { Laik_TaskRange* t = laik_rangelist_taskrange(l, i); rr[i].rg = *laik_taskrange_get_range(t); rr[i].task = laik_taskrange_get_task(t); rr[i].tag = laik_taskrange_get_tag(t); rr[i].map = laik_taskrange_get_mapNo(t); }
    if (from->myid >= 0 && rng_p(r, 50)) { for (int m = 0; m < laik_my_mapcount(p); m++) (void)laik_my_maprangecount(p, m); vh_count("migrations_after_map_queries", 1); }
    int mc[64]; for (int t = 0; t < fs; t++) mc[t] = own && t != from->myid ? 0 : laik_rangelist_tidmapcount(l, t);
    Laik_Partitioning* q = 0; bool viaNew = !own && rng_p(r, 0); (void)viaNew; laik_partitioning_migrate(p, to); q = p;
    if (laik_partitioning_get_group(q) != to) FAIL("group", "migrated partitioning is not attached to the new group");
    Laik_RangeList* l2 = own ? (to->myid >= 0 ? laik_partitioning_myranges(q) : 0) : laik_partitioning_allranges(q);
    if (l2) {
        if (laik_rangelist_rangecount(l2) != n) FAIL("count", "%d ranges before, %d after migration", n, laik_rangelist_rangecount(l2));
        /* each process keeps its ranges in order with the same memory areas */
        for (int t = 0; t < fs; t++) { int nt2 = tr[t]; int c = 0; for (int i = 0; i < n; i++) c += rr[i].task == t; if (nt2 < 0) { if (c) FAIL("harness", "bad"); continue; }
            if (laik_rangelist_tidrangecount(l2, nt2) != c) FAIL("tid-count", "process %d (new %d): %d ranges before, %d after", t, nt2, c, laik_rangelist_tidrangecount(l2, nt2)); int k = 0;
            for (int i = 0; i < n; i++) if (rr[i].task == t) { Laik_TaskRange* x = laik_rangelist_tidrange(l2, nt2, k); if (!x || !laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(x), &rr[i].rg) || laik_taskrange_get_task(x) != nt2 || laik_taskrange_get_tag(x) != rr[i].tag) FAIL("range", "range %d of process %d (new %d) changed by migration", k, t, nt2); if (laik_taskrange_get_mapNo(x) != rr[i].map) FAIL("map-number", "range %d of process %d (new %d): memory area %d before, %d after migration", k, t, nt2, rr[i].map, laik_taskrange_get_mapNo(x)); k++; }
            if (laik_rangelist_tidmapcount(l2, nt2) != mc[t]) FAIL("map-count", "process %d (new %d): %d memory areas before, %d after", t, nt2, mc[t], laik_rangelist_tidmapcount(l2, nt2)); }
        for (int t = 0; t < to->size; t++) { bool has = false; for (int k = 0; k < fs; k++) if (tr[k] == t) has = true; if (!has && laik_rangelist_tidrangecount(l2, t)) FAIL("added", "added process %d owns something", t); }
    }
    if (to->myid >= 0) { int c = 0; for (int i = 0; i < n; i++) if (tr[rr[i].task] == to->myid) c++; if (laik_my_rangecount(q) != c) FAIL("my-count", "own ranges %d, expected %d", laik_my_rangecount(q), c); int s = 0; for (int m = 0; m < laik_my_mapcount(q); m++) { int k = laik_my_maprangecount(q, m); for (int i = 0; i < k; i++) { Laik_TaskRange* x = laik_my_maprange(q, m, i); if (!x || laik_taskrange_get_task(x) != to->myid) FAIL("my-maprange", "wrong own map range after migration"); } s += k; } if (s != c) FAIL("my-maprange", "own maps hold %d of %d ranges after migration", s, c); }
    else if (laik_my_rangecount(q)) FAIL("my-count", "own ranges without membership");
    vh_count("migrations", 1); vh_count(up ? "to_parent" : "to_child", 1); if (own) vh_count("own_ranges_only", 1); if (A.single) vh_count("single_index_lists", 1); if (n > 1 && fs != to->size) vh_sig(hash_mix(spec_sig(&A), (uint64_t)(fs * 100 + to->size))); vh_sample("%s %d->%d: %s", up ? "to parent" : "to child", fs, to->size, desc);
    laik_free_partitioning(q); free(A.pr); A.pr = 0; A.p = 0; spec_free(&A, false); laik_free_space(sp);
}
