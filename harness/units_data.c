/* memory layouts (C13), access to memory areas (C14), allocation (C15), element types (C27) */
#include "units.h"
#include <math.h>
#include <float.h>
#include <limits.h>

static void rnd_range(Rng* r, const Box* b, Laik_Space* sp, Laik_Range* rg) {
    rg->space = sp; for (int d = 0; d < 3; d++) { rg->from.i[d] = 0; rg->to.i[d] = 0; }
    for (int d = 0; d < b->dims; d++) { int64_t n = b->t[d] - b->f[d], x = b->f[d] + (int64_t)(rng_u64(r) % (uint64_t)n); int64_t y = rng_p(r, 30) ? b->t[d] : x + 1 + (int64_t)(rng_u64(r) % (uint64_t)(b->t[d] - x)); if (rng_p(r, 25)) x = b->f[d]; rg->from.i[d] = x; rg->to.i[d] = y; }
}
static void sub_range(Rng* r, const Laik_Range* in, int dims, Laik_Range* out) {
    *out = *in; for (int d = 0; d < dims; d++) { int64_t n = in->to.i[d] - in->from.i[d]; int64_t a = rng_p(r, 30) ? 0 : (int64_t)(rng_u64(r) % (uint64_t)n), e = rng_p(r, 30) ? n : a + 1 + (int64_t)(rng_u64(r) % (uint64_t)(n - a)); out->from.i[d] = in->from.i[d] + a; out->to.i[d] = in->from.i[d] + e; }
}
static bool in_range(const Laik_Range* g, int dims, const int64_t* x) { for (int d = 0; d < dims; d++) if (x[d] < g->from.i[d] || x[d] >= g->to.i[d]) return false; return true; }
static bool within(const Laik_Range* a, const Laik_Range* b, int dims) { for (int d = 0; d < dims; d++) if (a->from.i[d] < b->from.i[d] || a->to.i[d] > b->to.i[d]) return false; return true; }
static int64_t vol(const Laik_Range* g, int dims) { int64_t n = 1; for (int d = 0; d < dims; d++) n *= g->to.i[d] - g->from.i[d]; return n; }
static int64_t lexoff(const Laik_Range* g, int dims, const int64_t* x) { int64_t o = 0; for (int d = dims - 1; d >= 0; d--) o = o * (g->to.i[d] - g->from.i[d]) + (x[d] - g->from.i[d]); return o; }
static const char* rstr(const Laik_Range* g, int dims) { static char s[4][160]; static int k; char* o = s[k = (k + 1) & 3]; int n = 0; for (int d = 0; d < dims; d++) n += snprintf(o + n, 160 - (size_t)n, "[%lld;%lld[", (long long)g->from.i[d], (long long)g->to.i[d]); return o; }
static void idx_of(Laik_Index* i, const int64_t* x, int dims) { for (int d = 0; d < 3; d++) i->i[d] = d < dims ? x[d] : 0; }

/* ---- user types of every size ---------------------------------------------------------------------------------------- */
static Laik_Type* utype(int size) { static Laik_Type* t[40]; static char nm[40][12]; if (!t[size]) { snprintf(nm[size], 12, "user%d", size); t[size] = laik_type_register(nm[size], size); } return t[size]; }
static const int esizes[] = { 1, 2, 3, 4, 5, 8, 8, 8, 12, 16, 24, 33 };

/* ---- a user-defined layout: reversed order with gaps, only the mandatory functions ------------------------------------- */
typedef struct { Laik_Layout h; int n; Laik_Range rg[8]; } RevLayout;
static int64_t rev_offset(Laik_Layout* l, int n, Laik_Index* i) { RevLayout* v = (RevLayout*)l; int64_t x[3] = { i->i[0], i->i[1], i->i[2] }; return 2 * (vol(&v->rg[n], l->dims) - 1 - lexoff(&v->rg[n], l->dims, x)); }
static int rev_mapno(Laik_Layout* l, int n) { (void)l; return n; }
static int rev_section(Laik_Layout* l, Laik_Index* i) { RevLayout* v = (RevLayout*)l; for (int k = 0; k < v->n; k++) if (in_range(&v->rg[k], l->dims, i->i)) return k; return -1; }
static Laik_Layout* rev_new(int n, Laik_Range* rg) {
    RevLayout* v = calloc(1, sizeof *v); v->n = n; uint64_t c = 0; int dims = rg[0].space->dims; for (int i = 0; i < n; i++) { v->rg[i] = rg[i]; c += 2 * (uint64_t)vol(&rg[i], dims); }
    laik_init_layout(&v->h, dims, n, c, rev_section, rev_mapno, rev_offset, 0, 0, 0, 0, 0); return &v->h;
}

/* a mapping with its own memory, guarded by the address sanitizer */
typedef struct { Laik_Mapping m; Laik_Layout* l; int64_t cap; bool lex; int sec; Laik_Range lr; } TM;
static unsigned char pat(int64_t off, int k, int b) { return (unsigned char)(off * 31 + k * 17 + b * 7 + 1); }
static void tm_make(Rng* r, TM* t, Laik_Data* d, Laik_Space* sp, const Box* b, int dims, int es, const Laik_Range* must) {
    memset(t, 0, sizeof *t); int n = rng_int(r, 1, 3); Laik_Range rg[4]; t->sec = rng_int(r, 0, n - 1); t->lex = !rng_p(r, 15); bool generic = rng_p(r, 35);
    for (int i = 0; i < n; i++) rnd_range(r, b, sp, &rg[i]);
    Laik_Range req = rg[t->sec];
    if (must) { for (int k = 0; k < dims; k++) { int64_t lo = must->from.i[k] - b->f[k], hi = b->t[k] - must->to.i[k]; req.from.i[k] = must->from.i[k] - (lo && rng_p(r, 60) ? (int64_t)(rng_u64(r) % (uint64_t)(lo + 1)) : 0); req.to.i[k] = must->to.i[k] + (hi && rng_p(r, 60) ? (int64_t)(rng_u64(r) % (uint64_t)(hi + 1)) : 0); } rg[t->sec] = req; }
    Laik_Range lr = rg[t->sec]; bool embedded = false;
    if (t->lex && rng_p(r, 30)) { /* reuse: required range is only part of the section */ embedded = true; for (int k = 0; k < dims; k++) { lr.from.i[k] = b->f[k] + (lr.from.i[k] - b->f[k]) / 2; lr.to.i[k] += (b->t[k] - lr.to.i[k]) / 2; } }
    if (generic) setenv("LAIK_LAYOUT_GENERIC", "1", 1); else unsetenv("LAIK_LAYOUT_GENERIC");
    t->l = t->lex ? laik_new_layout_lex(n, rg) : rev_new(n, rg); unsetenv("LAIK_LAYOUT_GENERIC");
    if (embedded) { Laik_Layout* old = laik_new_layout_lex(1, &lr); if (!t->l->reuse(t->l, t->sec, old, 0)) FAIL("reuse-refused", "range %s inside %s cannot reuse its memory", rstr(&rg[t->sec], dims), rstr(&lr, dims)); free(old); vh_count("embedded", 1); }
    t->lr = lr; Laik_Mapping* m = &t->m; m->data = d; m->mapNo = t->sec; m->layout = t->l; m->layoutSection = t->sec; m->requiredRange = rg[t->sec]; m->allocatedRange = lr; m->count = (uint64_t)vol(&rg[t->sec], dims); m->reusedFor = -1;
    t->cap = vol(&lr, dims) * (t->lex ? 1 : 2); m->allocCount = (uint64_t)vol(&lr, dims); m->capacity = (uint64_t)(t->cap * es); m->start = malloc((size_t)(t->cap * es)); 
    int64_t x[3] = { rg[t->sec].from.i[0], rg[t->sec].from.i[1], rg[t->sec].from.i[2] }; m->base = m->start + (t->lex ? lexoff(&lr, dims, x) : 0) * es;
    if (generic) vh_count("generic_layouts", 1);
    if (!t->lex) vh_count("custom_layouts", 1);
}
static int64_t tm_off(const TM* t, int dims, const int64_t* x) { int64_t o = lexoff(&t->lr, dims, x); return t->lex ? o : 2 * (vol(&t->lr, dims) - 1 - o); }
static void tm_fill(TM* t, int k, int es) { for (int64_t o = 0; o < t->cap; o++) for (int b = 0; b < es; b++) ((unsigned char*)t->m.start)[o * es + b] = pat(o, k, b); }
static void tm_free(TM* t) { free(t->m.start); free(t->l); }
/* all of <t> unchanged except <rg>, which holds what <src> has */
static void tm_check(const TM* t, int k, const TM* src, int ks, const Laik_Range* rg, int dims, int es, const char* what) {
    int64_t x[3] = { rg->from.i[0], rg->from.i[1], rg->from.i[2] }; unsigned char* p = (unsigned char*)t->m.start; unsigned char* seen = calloc((size_t)t->cap, 1);
    do { int64_t o = tm_off(t, dims, x), so = tm_off(src, dims, x); seen[o] = 1; for (int b = 0; b < es; b++) if (p[o * es + b] != pat(so, ks, b)) FAIL(what, "%s: index (%lld,%lld,%lld) of range %s has a wrong value", what, (long long)x[0], (long long)x[1], (long long)x[2], rstr(rg, dims)); } while (iter_next(dims, rg->from.i, rg->to.i, x));
    for (int64_t o = 0; o < t->cap; o++) if (!seen[o]) for (int b = 0; b < es; b++) if (p[o * es + b] != pat(o, k, b)) FAIL(what, "%s: element at offset %lld outside of range %s was modified", what, (long long)o, rstr(rg, dims));
    free(seen);
}

void m_layout(Rng* r) {
    int dims = rng_int(r, 1, 3); Box b = gen_box(r, dims, dims == 1 ? 60 : dims == 2 ? 14 : 7, true); Laik_Space* sp = gen_space(inst, &b); int es = esizes[rng_int(r, 0, 11)];
    Laik_Data* d = laik_new_data(sp, utype(es)); vh_setwhere("layout world %d case %d: %d-d, element size %d", world_no, case_no, dims, es);
    /* (1) bijectivity and reported properties */
    int n = rng_int(r, 1, 4); Laik_Range rg[4]; int64_t total = 0; for (int i = 0; i < n; i++) { rnd_range(r, &b, sp, &rg[i]); total += vol(&rg[i], dims); }
    bool gen = rng_p(r, 30); if (gen) setenv("LAIK_LAYOUT_GENERIC", "1", 1);
    Laik_Layout* l = laik_new_layout_lex(n, rg); unsetenv("LAIK_LAYOUT_GENERIC");
    if (l->dims != dims || l->map_count != n || (int64_t)l->count != total) FAIL("layout-head", "layout has %d dimensions, %d maps, %llu elements; expected %d, %d, %lld", l->dims, l->map_count, (unsigned long long)l->count, dims, n, (long long)total);
    if (!l->describe(l) || strlen(l->describe(l)) < 3) FAIL("describe", "no description");
    for (int i = 0; i < n; i++) {
        int64_t x[3] = { rg[i].from.i[0], rg[i].from.i[1], rg[i].from.i[2] }, k = 0; Laik_Index ix;
        do { idx_of(&ix, x, dims); int64_t o = laik_offset(l, i, &ix); if (o != k) FAIL("offset", "offset of the %lldth index of area %d (%s) is %lld", (long long)k, i, rstr(&rg[i], dims), (long long)o); k++; } while (iter_next(dims, rg[i].from.i, rg[i].to.i, x));
        uint64_t st = 1; for (int q = 0; q < dims; q++) { if (laik_layout_lex_stride(l, i, q) != st) FAIL("stride", "stride of dimension %d in area %d is %llu, expected %llu", q, i, (unsigned long long)laik_layout_lex_stride(l, i, q), (unsigned long long)st); st *= (uint64_t)(rg[i].to.i[q] - rg[i].from.i[q]); }
        if (l->mapno(l, i) != i) FAIL("mapno", "section %d in allocation %d", i, l->mapno(l, i));
        vh_count("offsets_checked", (uint64_t)k);
    }
    { int64_t x[3]; memcpy(x, b.f, sizeof x); Laik_Index ix; do { idx_of(&ix, x, dims); int s = l->section(l, &ix), want = -1; for (int i = n - 1; i >= 0; i--) if (in_range(&rg[i], dims, x)) want = i; if (want < 0 ? s != -1 : (s < 0 || s >= n || !in_range(&rg[s], dims, x))) FAIL("section", "index (%lld,%lld,%lld) reported in section %d", (long long)x[0], (long long)x[1], (long long)x[2], s); } while (iter_next(dims, b.f, b.t, x)); }
    /* (2) reuse */
    if (!gen || rng_p(r, 50)) {
        int m = rng_int(r, 1, 3); Laik_Range rn[3]; for (int i = 0; i < m; i++) { if (rng_p(r, 60)) sub_range(r, &rg[rng_int(r, 0, n - 1)], dims, &rn[i]); else rnd_range(r, &b, sp, &rn[i]); }
        Laik_Layout* nl = laik_new_layout_lex(m, rn); int i = rng_int(r, 0, m - 1), j = rng_int(r, 0, n - 1); bool w = within(&rn[i], &rg[j], dims); bool g = nl->reuse(nl, i, l, j);
        if (w != g) FAIL("reuse", "area %s %s memory of %s", rstr(&rn[i], dims), g ? "reuses" : "does not reuse", rstr(&rg[j], dims));
        for (int q = 0; q < m; q++) { const Laik_Range* base = g && q == i ? &rg[j] : &rn[q]; int64_t x[3] = { rn[q].from.i[0], rn[q].from.i[1], rn[q].from.i[2] }; Laik_Index ix;
            do { idx_of(&ix, x, dims); int64_t o = laik_offset(nl, q, &ix); if (o != lexoff(base, dims, x)) FAIL("reuse-offset", "after reuse=%d of area %s in %s: index (%lld,%lld,%lld) of area %d is at offset %lld, expected %lld", g, rstr(&rn[i], dims), rstr(&rg[j], dims), (long long)x[0], (long long)x[1], (long long)x[2], q, (long long)o, (long long)lexoff(base, dims, x)); } while (iter_next(dims, rn[q].from.i, rn[q].to.i, x));
            uint64_t st = 1; for (int k = 0; k < dims; k++) { if (laik_layout_lex_stride(nl, q, k) != st) FAIL("reuse-stride", "after reuse: stride of dimension %d is %llu, expected %llu", k, (unsigned long long)laik_layout_lex_stride(nl, q, k), (unsigned long long)st); st *= (uint64_t)(base->to.i[k] - base->from.i[k]); } }
        int64_t cn = 0; for (int q = 0; q < m; q++) cn += vol(g && q == i ? &rg[j] : &rn[q], dims);
        if ((int64_t)nl->count != cn) FAIL("reuse-count", "after reuse=%d the layout counts %llu elements, expected %lld", g, (unsigned long long)nl->count, (long long)cn);
        vh_count(g ? "reused" : "not_reusable", 1); free(nl);
    }
    free(l);
    /* (3) pack in one place, unpack in another; copy */
    for (int rep = 0; rep < 4; rep++) {
        TM a, c; tm_make(r, &a, d, sp, &b, dims, es, 0); Laik_Range t; sub_range(r, &a.m.requiredRange, dims, &t); tm_make(r, &c, d, sp, &b, dims, es, &t); tm_fill(&a, 1, es); tm_fill(&c, 2, es); int64_t cnt = vol(&t, dims);
        vh_setwhere("layout world %d case %d rep %d: %d-d, element size %d, range %s in area %s (%s) to area %s (%s)", world_no, case_no, rep, dims, es, rstr(&t, dims), rstr(&a.lr, dims), a.lex ? "lex" : "custom", rstr(&c.lr, dims), c.lex ? "lex" : "custom");
        if (rng_p(r, 25)) { laik_data_copy(&t, &a.m, &c.m); tm_check(&c, 2, &a, 1, &t, dims, es, "copy"); tm_check(&a, 1, &a, 1, &t, dims, es, "copy source"); vh_count("copies", 1); }
        else {
            unsigned char* buf = malloc((size_t)(cnt * es)); int64_t at = 0; Laik_Index ix = t.from; int calls = 0, style = rng_int(r, 0, 3);
            while (at < cnt) { unsigned sz = style == 0 ? (unsigned)(cnt * es) : style == 1 ? (unsigned)es : (unsigned)rng_int(r, es, style == 2 ? 3 * es : 20 * es); if (rng_p(r, 5)) sz = (unsigned)rng_int(r, 1, es) - 1; 
                unsigned char* tmp = malloc(sz ? sz : 1); memset(tmp, 0xee, sz); unsigned got = a.l->pack(&a.m, &t, &ix, (char*)tmp, sz); if ((int64_t)got * es > sz) FAIL("pack-size", "%u elements packed into %u bytes", got, sz);
                unsigned most = sz / (unsigned)es; if (got < most && at + got < cnt) FAIL("pack-stops", "packed %u elements into %u bytes though %lld are left", got, sz, (long long)(cnt - at));
                if (at + got > cnt) FAIL("pack-more", "packed %lld elements of %lld", (long long)(at + got), (long long)cnt);
                for (unsigned q = got * (unsigned)es; q < sz; q++) if (tmp[q] != 0xee) FAIL("pack-tail", "byte %u behind %u packed elements was written", q, got);
                memcpy(buf + at * es, tmp, (size_t)got * (size_t)es); at += got; free(tmp); if (++calls > 5 * cnt + 100) FAIL("pack-noprogress", "no progress after %d calls", calls); }
            if (calls > 1) vh_count("split_packs", 1);
            for (int d2 = 0; d2 < dims; d2++) if (ix.i[d2] != t.to.i[d2]) FAIL("pack-end", "end position is not the end of the range in dimension %d: %lld", d2, (long long)ix.i[d2]);
            char dummy[64]; if (a.l->pack(&a.m, &t, &ix, dummy, sizeof dummy) != 0) FAIL("pack-after-end", "packing continues behind the end");
            int64_t x[3] = { t.from.i[0], t.from.i[1], t.from.i[2] }, k = 0; do { int64_t o = tm_off(&a, dims, x); for (int q = 0; q < es; q++) if (buf[k * es + q] != pat(o, 1, q)) FAIL("pack-data", "element %lld of %lld in the buffers (%d calls) is not index (%lld,%lld,%lld)", (long long)k, (long long)cnt, calls, (long long)x[0], (long long)x[1], (long long)x[2]); k++; } while (iter_next(dims, t.from.i, t.to.i, x));
            tm_check(&a, 1, &a, 1, &t, dims, es, "pack source");
            ix = t.from; at = 0; calls = 0; style = rng_int(r, 0, 2);
            while (at < cnt) { int64_t e = style == 0 ? cnt : style == 1 ? 1 : rng_int(r, 1, 12); if (e > cnt - at) e = cnt - at; unsigned sz = (unsigned)(e * es); char* tmp = malloc(sz); memcpy(tmp, buf + at * es, sz);
                unsigned got = c.l->unpack(&c.m, &t, &ix, tmp, sz); if (got != e) FAIL("unpack-count", "%u of %lld elements unpacked", got, (long long)e); at += e; free(tmp); calls++; }
            if (calls > 1) vh_count("split_unpacks", 1);
            for (int d2 = 0; d2 < dims; d2++) if (ix.i[d2] != t.to.i[d2]) FAIL("unpack-end", "end position is not the end of the range in dimension %d: %lld", d2, (long long)ix.i[d2]);
            tm_check(&c, 2, &a, 1, &t, dims, es, "unpack"); free(buf); vh_count("packs", 1);
        }
        vh_count("elements_checked", (uint64_t)cnt);
        if (cnt > 1) { uint64_t h = (uint64_t)es * 8 + (uint64_t)dims; for (int q = 0; q < dims; q++) { h = hash_mix(h, (uint64_t)(t.from.i[q] - a.lr.from.i[q])); h = hash_mix(h, (uint64_t)(t.to.i[q] - t.from.i[q])); h = hash_mix(h, (uint64_t)(a.lr.to.i[q] - a.lr.from.i[q])); h = hash_mix(h, (uint64_t)(t.from.i[q] - c.lr.from.i[q])); } vh_sig(h); }
        if (!rep) vh_sample("%.300s", vh_where);
        tm_free(&a); tm_free(&c);
    }
    laik_free(d); laik_free_space(sp);
}

/* ---- access to memory areas ---------------------------------------------------------------------------------------------- */
static Spec S[6];
static void set_id(char* p, int es, int64_t v) { unsigned char b[40]; for (int i = 0; i < es; i++) b[i] = (unsigned char)(v >> (8 * (i & 7))) ^ (unsigned char)(i * 13); memcpy(p, b, (size_t)es); }
static bool is_id(const char* p, int es, int64_t v) { char b[40]; set_id(b, es, v); return !memcmp(p, b, (size_t)es); }
void m_access(Rng* r) {
    int dims = rng_p(r, 45) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 50 : dims == 2 ? 12 : 6, true); Laik_Space* sp = gen_space(inst, &b); int nt = rng_int(r, 1, 5), me = rng_int(r, 0, nt - 1); Laik_Group* g = use_group(0, nt, me);
    int es = esizes[rng_int(r, 3, 11)]; if (es < 4) es = 4; Laik_Data* d = laik_new_data(sp, utype(es)); int np = rng_int(r, 1, 4);
    if (rng_p(r, 25)) { setenv("LAIK_LAYOUT_GENERIC", "1", 1); }
    for (int k = 0; k < np; k++) { if (k && rng_p(r, 30)) { gen_spec(r, &b, nt, rng_p(r, 50) ? SK_ALL : SK_SINGLE, true, -1, &S[k]); } else gen_spec(r, &b, nt, -1, true, -1, &S[k]); spec_make(&S[k], g, sp, "a"); }
    Laik_Reservation* res = 0;
    if (rng_p(r, 30)) { bool ok = true; for (int k = 0; k < np; k++) { laik_partitioning_store_myranges(S[k].p); for (int i = 0; i < laik_my_rangecount(S[k].p); i++) if (laik_my_mapcount(S[k].p) > 1 && laik_taskrange_get_tag(laik_my_range(S[k].p, i)) <= 0) ok = false; }
        if (ok) { res = laik_reservation_new(d); for (int k = 0; k < np; k++) laik_reservation_add(res, S[k].p); laik_reservation_alloc(res); laik_data_use_reservation(d, res); vh_count("with_reservation", 1); } }
    int steps = rng_int(r, 1, 6);
    for (int st = 0; st < steps; st++) {
        Spec* s = &S[rng_int(r, 0, np - 1)]; char ds[300]; spec_str(s, &b, ds, sizeof ds); vh_setwhere("access world %d case %d step %d: process %d of %d, element size %d%s, %.280s", world_no, case_no, st, me, nt, es, res ? ", reserved" : "", ds);
        laik_switchto_partitioning(d, s->p, LAIK_DF_None, LAIK_RO_None); vh_count("switches", 1);
        int mc = laik_my_mapcount(s->p), rc = laik_my_rangecount(s->p);
        if (laik_data_get_partitioning(d) != s->p || laik_data_get_space(d) != sp || laik_data_get_group(d) != g || laik_data_get_inst(d) != inst) FAIL("getters", "container reports wrong partitioning, space, group or instance");
        if (laik_get_map(d, -1) || laik_get_map(d, mc)) FAIL("map-range", "a mapping is returned for an invalid number");
        void* bp = &bp; uint64_t q = 1, q2 = 1, q3 = 1; if (laik_get_map_1d(d, mc, &bp, &q) || bp || q) FAIL("map-range", "1d mapping returned for an invalid number");
        if (dims == 2) { bp = &bp; if (laik_get_map_2d(d, mc, &bp, &q, 0, &q2) || bp || q || q2) FAIL("map-range", "2d mapping returned for an invalid number"); }
        if (dims == 3) { bp = &bp; if (laik_get_map_3d(d, mc, &bp, &q, 0, &q2, 0, &q3) || bp || q || q2 || q3) FAIL("map-range", "3d mapping returned for an invalid number"); }
        if (laik_data_range(d, rc) || laik_data_range(d, -1)) FAIL("range-number", "a range is returned for an invalid number");
        /* hull of each area */
        Laik_Range hull[64]; int seen[64] = { 0 }; if (mc > 64) { fprintf(stderr, "too many maps\n"); exit(3); }
        for (int i = 0; i < rc; i++) { Laik_TaskRange* t = laik_my_range(s->p, i); if (laik_data_range(d, i) != t && !laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(laik_data_range(d, i)), (Laik_Range*)laik_taskrange_get_range(t))) FAIL("data-range", "own range %d differs", i);
            const Laik_Range* g2 = laik_taskrange_get_range(t); int m = laik_taskrange_get_mapNo(t); if (m < 0 || m >= mc) FAIL("range-map", "range %d in area %d of %d", i, m, mc);
            if (!seen[m]) hull[m] = *g2; else for (int k = 0; k < dims; k++) { if (g2->from.i[k] < hull[m].from.i[k]) hull[m].from.i[k] = g2->from.i[k]; if (g2->to.i[k] > hull[m].to.i[k]) hull[m].to.i[k] = g2->to.i[k]; } seen[m]++; }
        for (int m = 0; m < mc; m++) {
            if (!seen[m]) FAIL("map-empty", "area %d of %d contains no range", m, mc);
            Laik_Mapping* mp = laik_get_map(d, m); if (!mp || laik_map_get_mapNo(mp) != m) FAIL("map-number", "area %d reports number %d", m, mp ? laik_map_get_mapNo(mp) : -1);
            char* base = 0; uint64_t xs, ys = 1, zs = 1, yst = 0, zst = 0; Laik_Mapping* m2;
            if (dims == 1) m2 = laik_get_map_1d(d, m, (void**)&base, &xs); else if (dims == 2) m2 = laik_get_map_2d(d, m, (void**)&base, &ys, &yst, &xs); else m2 = laik_get_map_3d(d, m, (void**)&base, &zs, &zst, &ys, &yst, &xs);
            if (m2 != mp) FAIL("map-pointer", "different mappings returned for area %d", m);
            uint64_t want[3] = { 1, 1, 1 }; for (int k = 0; k < dims; k++) want[k] = (uint64_t)(hull[m].to.i[k] - hull[m].from.i[k]);
            if (xs != want[0] || ys != want[1] || zs != want[2]) FAIL("map-size", "area %d has size %llux%llux%llu, expected %llux%llux%llu", m, (unsigned long long)xs, (unsigned long long)ys, (unsigned long long)zs, (unsigned long long)want[0], (unsigned long long)want[1], (unsigned long long)want[2]);
            if (dims > 1) { uint64_t c1; void* b1; laik_get_map_1d(d, m, &b1, &c1); if (b1 != base || c1 != want[0] * want[1] * want[2]) FAIL("map-count", "area %d: base/count of the flat view differ", m); if (yst < xs || (dims > 2 && zst < yst * ys)) FAIL("map-stride", "area %d: strides %llu,%llu too small", m, (unsigned long long)yst, (unsigned long long)zst); }
            if (base != mp->base) FAIL("map-base", "base of area %d", m);
            if (mp->base != mp->start) vh_count("embedded_areas", 1);
            int64_t x[3] = { hull[m].from.i[0], hull[m].from.i[1], hull[m].from.i[2] }; Laik_Index ix;
            do { idx_of(&ix, x, dims); char* p = base + ((x[0] - hull[m].from.i[0]) + (dims > 1 ? (x[1] - hull[m].from.i[1]) * (int64_t)yst : 0) + (dims > 2 ? (x[2] - hull[m].from.i[2]) * (int64_t)zst : 0)) * es; char* a = laik_get_map_addr(d, m, &ix);
                if (a != p) FAIL("address", "area %d, index (%lld,%lld,%lld): address %+lld elements off", m, (long long)x[0], (long long)x[1], (long long)x[2], (long long)(a - p) / es);
                set_id(p, es, lin(&b, x) * 64 + m); vh_count("addresses", 1); } while (iter_next(dims, hull[m].from.i, hull[m].to.i, x));
        }
        /* all elements distinct: everything written is still there, except in reserved memory shared between ... areas of one partitioning never share */
        for (int m = 0; m < mc; m++) { int64_t x[3] = { hull[m].from.i[0], hull[m].from.i[1], hull[m].from.i[2] }; Laik_Index ix; do { idx_of(&ix, x, dims); if (!is_id(laik_get_map_addr(d, m, &ix), es, lin(&b, x) * 64 + m)) FAIL("overlap", "area %d: element (%lld,%lld,%lld) was overwritten through another index or area", m, (long long)x[0], (long long)x[1], (long long)x[2]); } while (iter_next(dims, hull[m].from.i, hull[m].to.i, x)); }
        if (dims == 1) for (int64_t x = b.f[0] - 2; x < b.t[0] + 2; x++) {
            int holders = 0, last = -1; for (int m = 0; m < mc; m++) if (x >= hull[m].from.i[0] && x < hull[m].to.i[0]) { holders++; last = m; }
            uint64_t li = 77, li2 = 77; int mn = 77; Laik_Mapping* a = laik_global2local_1d(d, x, &li); Laik_Mapping* c = laik_global2maplocal_1d(d, x, &mn, &li2); vh_count("conversions", 1);
            if (!holders) { if (a || c || mn != -1) FAIL("foreign", "index %lld is outside all own areas but reported in area %d", (long long)x, mn); continue; }
            if (!a || !c) FAIL("not-found", "own index %lld not found", (long long)x);
            int ma = laik_map_get_mapNo(a); if (mn != laik_map_get_mapNo(c) || mn < 0 || mn >= mc || ma < 0 || ma >= mc) FAIL("map-of", "index %lld in area %d/%d", (long long)x, ma, mn);
            if (holders == 1 && (ma != last || mn != last)) FAIL("map-of", "index %lld is in area %d but reported in %d/%d", (long long)x, last, ma, mn);
            if (x < hull[ma].from.i[0] || x >= hull[ma].to.i[0] || x < hull[mn].from.i[0] || x >= hull[mn].to.i[0]) FAIL("map-of", "index %lld reported in area %d/%d not containing it", (long long)x, ma, mn);
            if ((int64_t)li != x - hull[ma].from.i[0] || (int64_t)li2 != x - hull[mn].from.i[0]) FAIL("local-index", "index %lld has local index %llu/%llu", (long long)x, (unsigned long long)li, (unsigned long long)li2);
            if (laik_maplocal2global_1d(d, mn, li2) != x) FAIL("inverse", "index %lld -> area %d local %llu -> %lld", (long long)x, mn, (unsigned long long)li2, (long long)laik_maplocal2global_1d(d, mn, li2));
            if (mc == 1 && laik_local2global_1d(d, li) != x) FAIL("inverse", "index %lld -> local %llu -> %lld", (long long)x, (unsigned long long)li, (long long)laik_local2global_1d(d, li));
            if (laik_global2local_1d(d, x, 0) != a || laik_global2maplocal_1d(d, x, 0, 0) != c) FAIL("null-args", "result depends on optional arguments");
            char* base; uint64_t cnt; laik_get_map_1d(d, mn, (void**)&base, &cnt); if (!is_id(base + li2 * (uint64_t)es, es, lin(&b, &x) * 64 + mn)) FAIL("local-element", "local index %llu of area %d is not element %lld", (unsigned long long)li2, mn, (long long)x);
        }
        if (mc > 1) vh_count("several_areas", 1);
        if (!mc) vh_count("no_area", 1); else vh_sig(hash_mix(spec_sig(s), (uint64_t)(me * 64 + st * 2 + (res != 0))));
        vh_sample("%.400s", vh_where);
    }
    unsetenv("LAIK_LAYOUT_GENERIC");
    if (res) laik_reservation_free(res);
    laik_free(d); for (int k = 0; k < np; k++) spec_free(&S[k], true); laik_free_space(sp);
}

/* ---- allocation ------------------------------------------------------------------------------------------------------------ */
typedef struct { char* p; size_t n; Laik_Data* d; int al; bool live; } Blk;
static Blk blk[20000]; static int nblk; static uint64_t nmalloc, nfree;
/* totals per container, as seen by the allocators */
typedef struct { Laik_Data* d; int mallocs, frees; uint64_t mbytes, fbytes, cur, max; } Tot;
static Tot tot[64]; static int ntot;
static Tot* tot_of(Laik_Data* d) { for (int i = ntot - 1; i >= 0; i--) if (tot[i].d == d) return &tot[i]; if (ntot == 64) { fprintf(stderr, "too many containers\n"); exit(3); } memset(&tot[ntot], 0, sizeof(Tot)); tot[ntot].d = d; return &tot[ntot++]; }
static void* a_malloc(Laik_Data* d, size_t n, int al) { if (!n) FAIL("alloc-zero", "allocator asked for 0 bytes"); char* p = malloc(n); memset(p, 0xa5, n); if (nblk == 20000) { fprintf(stderr, "too many blocks\n"); exit(3); } blk[nblk++] = (Blk){ p, n, d, al, true }; nmalloc++; Tot* t = tot_of(d); t->mallocs++; t->mbytes += n; t->cur += n; if (t->cur > t->max) t->max = t->cur; return p; }
static void a_free(Laik_Data* d, void* q, int al) { for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == q && blk[i].live) { if (blk[i].d != d) FAIL("free-container", "memory freed for another container"); if (blk[i].al != al) FAIL("free-allocator", "memory of allocator %d returned to allocator %d", blk[i].al, al); blk[i].live = false; free(q); nfree++; Tot* t = tot_of(d); t->frees++; t->fbytes += blk[i].n; t->cur -= blk[i].n; return; } FAIL("free-unknown", "allocator asked to free %s", q ? "memory it does not own (or twice)" : "a null pointer"); }
static void* a0m(Laik_Data* d, size_t n) { return a_malloc(d, n, 0); } static void a0f(Laik_Data* d, void* p) { a_free(d, p, 0); }
static void* a1m(Laik_Data* d, size_t n) { return a_malloc(d, n, 1); } static void a1f(Laik_Data* d, void* p) { a_free(d, p, 1); }
#define NC 3
typedef struct { Laik_Data* d; int es; Laik_Reservation* res; int resn; int resp[4]; char* prov; size_t provn; bool provOnce; int cur; bool curRes; int alcur; } Cont;
static Cont C[NC];
typedef struct { char* a; char* e; int c, m; } Area;
static void alloc_check(int nc, int dims, const Box* b) {
    Area ar[400]; int n = 0; (void)b;
    for (int c = 0; c < nc; c++) { Cont* k = &C[c]; if (k->cur < 0) continue; Laik_Partitioning* p = S[k->cur].p; int mc = laik_my_mapcount(p);
        for (int m = 0; m < mc; m++) { char* base; uint64_t cnt; Laik_Mapping* mp = laik_get_map_1d(k->d, m, (void**)&base, &cnt); if (!mp || !base) FAIL("no-memory", "container %d area %d has no memory", c, m);
            Laik_Range* rg = &mp->requiredRange; Laik_Index lo = rg->from, hi = rg->to; for (int q = 0; q < dims; q++) hi.i[q]--;
            char* first = laik_get_map_addr(k->d, m, &lo); char* last = laik_get_map_addr(k->d, m, &hi) + k->es; int al = -1; bool inside = false;
            for (int i = 0; i < nblk && !inside; i++) if (blk[i].live && first >= blk[i].p && last <= blk[i].p + blk[i].n) { inside = true; al = blk[i].al; if (blk[i].d != k->d) FAIL("foreign-memory", "container %d uses memory allocated for another container", c); }
            if (!inside && k->prov && first >= k->prov && last <= k->prov + k->provn) { inside = true; vh_count("areas_in_provided_memory", 1); }
            if (!inside) FAIL("too-small", "container %d area %d (%lld elements of %d bytes): not inside memory from the allocator or the application", c, m, (long long)cnt, k->es);
            (void)al; if (n < 400) ar[n++] = (Area){ first, last, c, m }; memset(first, 0x5a, (size_t)k->es); memset(last - k->es, 0x5b, (size_t)k->es); } }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (ar[i].a < ar[j].e && ar[j].a < ar[i].e) {
        /* strided areas embedded in the same allocation could interleave without sharing elements, but areas of one container are separate allocations here */
        FAIL("overlap", "area %d of container %d and area %d of container %d share memory", ar[i].m, ar[i].c, ar[j].m, ar[j].c); }
    vh_count("areas_checked", (uint64_t)n);
}
void m_alloc(Rng* r) {
    int dims = rng_p(r, 60) ? 1 : rng_int(r, 2, 3); Box b = gen_box(r, dims, dims == 1 ? 40 : dims == 2 ? 10 : 5, true); Laik_Space* sp = gen_space(inst, &b); int nt = rng_int(r, 1, 4), me = rng_int(r, 0, nt - 1); Laik_Group* g = use_group(0, nt, me);
    nblk = 0; ntot = 0; nmalloc = nfree = 0; Laik_Allocator* al[2] = { laik_new_allocator(a0m, a0f, 0), laik_new_allocator(a1m, a1f, 0) }; int nc = rng_int(r, 1, NC), np = rng_int(r, 2, 5); bool tagged = rng_p(r, 50);
    for (int k = 0; k < np; k++) { gen_spec(r, &b, nt, rng_p(r, 40) ? SK_ALL : -1, true, tagged ? 1 : -1, &S[k]); spec_make(&S[k], g, sp, "a"); laik_partitioning_store_myranges(S[k].p); }
    memset(C, 0, sizeof C); char* provs[64]; int nprov = 0;
    for (int c = 0; c < nc; c++) { C[c].es = esizes[rng_int(r, 0, 11)]; C[c].d = laik_new_data(sp, utype(C[c].es)); laik_set_allocator(C[c].d, al[C[c].alcur = rng_int(r, 0, 1)]); C[c].cur = -1; if (laik_get_allocator(C[c].d) != al[C[c].alcur]) FAIL("get-allocator", "allocator not set"); 
        if (rng_p(r, 50)) { char nm[30]; snprintf(nm, sizeof nm, "container %d", c); laik_data_set_name(C[c].d, nm); } }
    int steps = rng_int(r, 4, 25); uint64_t h = 0;
    for (int st = 0; st < steps; st++) {
        int c = rng_int(r, 0, nc - 1); Cont* k = &C[c]; int op = rng_int(r, 0, 11); const char* what = "";
        vh_setwhere("alloc world %d case %d step %d: process %d of %d, container %d (element size %d)", world_no, case_no, st, me, nt, c, k->es);
        if (op <= 6) { int p = rng_int(r, 0, np - 1); what = "switch"; bool useRes = false; if (k->res) for (int i = 0; i < k->resn; i++) if (k->resp[i] == p) useRes = true;
            uint64_t before = nmalloc; int oldmaps = k->cur >= 0 ? laik_my_mapcount(S[k->cur].p) : 0; (void)oldmaps;
            laik_switchto_partitioning(k->d, S[p].p, LAIK_DF_None, LAIK_RO_None); k->cur = p; k->curRes = useRes;
            if (useRes && nmalloc != before) FAIL("reserved-alloc", "switching to a reserved partitioning allocated memory"); vh_count("switches", 1); if (useRes) vh_count("reserved_switches", 1); if (nmalloc == before && !useRes) vh_count("switches_without_allocation", 1); }
        else if (op == 7 && !k->res) { /* reservation */ k->resn = rng_int(r, 1, 3); if (k->resn > np) k->resn = np; bool ok = true; int off = rng_int(r, 0, np - 1);
            for (int i = 0; i < k->resn; i++) { k->resp[i] = (off + i) % np; Laik_Partitioning* p = S[k->resp[i]].p; if (laik_my_mapcount(p) > 1) for (int q = 0; q < laik_my_rangecount(p); q++) if (laik_taskrange_get_tag(laik_my_range(p, q)) <= 0) ok = false; }
            if (!ok) continue;
            what = "reserve"; k->res = laik_reservation_new(k->d); for (int i = 0; i < k->resn; i++) laik_reservation_add(k->res, S[k->resp[i]].p); laik_reservation_alloc(k->res); laik_data_use_reservation(k->d, k->res); vh_count("reservations", 1); }
        else if (op == 8 && k->res && !k->curRes) { what = "free reservation"; laik_reservation_free(k->res); k->res = 0; k->resn = 0; }
        else if (op == 9 && !k->prov) { /* memory provided by the application: large enough for everything */ what = "provide"; k->provn = (size_t)b.n * (size_t)k->es + (size_t)rng_int(r, 0, 50); k->prov = malloc(k->provn); provs[nprov++] = k->prov; laik_data_provide_memory(k->d, k->prov, k->provn); vh_count("provided", 1); }
        else if (op == 10) { what = "set allocator"; laik_set_allocator(k->d, al[k->alcur = rng_int(r, 0, 1)]); vh_count("allocator_changes", 1); }
        else if (op == 11 && rng_p(r, 40)) { what = "free and recreate"; Laik_Data* old = k->d; if (k->res) { laik_reservation_free(k->res); k->res = 0; k->resn = 0; } laik_free(old);
            for (int i = 0; i < nblk; i++) if (blk[i].live && blk[i].d == old) FAIL("leak", "%zu bytes of a freed container were not returned", blk[i].n);
            for (int i = 0; i < nblk; i++) if (blk[i].d == old) blk[i].d = 0;
            tot_of(old)->d = 0;
            k->d = laik_new_data(sp, utype(k->es)); laik_set_allocator(k->d, al[k->alcur]); k->cur = -1; k->curRes = false; k->prov = 0; vh_count("containers_freed", 1); }
        h = hash_mix(h, (uint64_t)op * 16 + (uint64_t)c * 4 + (uint64_t)(k->cur + 1)); (void)what;
        alloc_check(nc, dims, &b);
        /* statistics agree with what the allocator saw */
        for (int q = 0; q < nc; q++) { uint64_t lv = 0; for (int i = 0; i < nblk; i++) if (blk[i].live && blk[i].d == C[q].d) lv += blk[i].n; if (C[q].d->stat->currAllocedBytes != lv) FAIL("stat-bytes", "container %d (step %s): %llu bytes allocated according to its statistics, %llu live", q, what, (unsigned long long)C[q].d->stat->currAllocedBytes, (unsigned long long)lv);
            Laik_SwitchStat* ss = C[q].d->stat; Tot* t = tot_of(C[q].d); vh_count("memory_statistics", 1);
            if (ss->mallocCount != t->mallocs || ss->freeCount != t->frees || ss->mallocedBytes != t->mbytes || ss->freedBytes != t->fbytes || ss->maxAllocedBytes != t->max) FAIL("stat-memory", "container %d (step %s): statistics report %d allocations of %llu bytes, %d releases of %llu bytes, maximum %llu; really %d/%llu, %d/%llu, %llu", q, what,
                ss->mallocCount, (unsigned long long)ss->mallocedBytes, ss->freeCount, (unsigned long long)ss->freedBytes, (unsigned long long)ss->maxAllocedBytes, t->mallocs, (unsigned long long)t->mbytes, t->frees, (unsigned long long)t->fbytes, (unsigned long long)t->max); }
    }
    vh_setwhere("alloc world %d case %d: final release", world_no, case_no);
    for (int c = 0; c < nc; c++) { if (C[c].res) laik_reservation_free(C[c].res); laik_free(C[c].d); }
    for (int i = 0; i < nblk; i++) if (blk[i].live) FAIL("leak", "%zu bytes of allocator %d not returned after all containers were freed", blk[i].n, blk[i].al);
    for (int i = 0; i < nprov; i++) { memset(provs[i], 0, 1); free(provs[i]); }
    vh_count("allocations", nmalloc); vh_count("frees", nfree); if (nmalloc > 1) vh_sig(h); vh_sample("%d steps on %d containers, %d partitionings of a %d-d space for %d processes: %llu allocations", steps, nc, np, dims, nt, (unsigned long long)nmalloc);
    for (int k = 0; k < np; k++) spec_free(&S[k], true); free(al[0]); free(al[1]); laik_free_space(sp);
}

/* ---- element types ------------------------------------------------------------------------------------------------------------ */
static void rnd_elem(Rng* r, TypeId t, char* p) {
    static const double spec[] = { 0, -0.0, 1, -1, 0.5, DBL_MAX, -DBL_MAX, DBL_MIN, 1e300, -1e-300, 3.25, INFINITY, -INFINITY };
    if (t == T_DOUBLE) { double v = rng_p(r, 40) ? spec[rng_int(r, 0, 12)] : (double)(int64_t)rng_u64(r) / 65536.0; memcpy(p, &v, 8); }
    else if (t == T_FLOAT) { static const float fs[] = { 0, -0.0f, 1, -1, 0.5f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e30f, -1e-30f, INFINITY, -INFINITY }; float v = rng_p(r, 40) ? fs[rng_int(r, 0, 11)] : (float)((int32_t)rng_u64(r)) / 256.0f; memcpy(p, &v, 4); }
    else { uint64_t v = rng_p(r, 30) ? (uint64_t)rng_int(r, -3, 3) : rng_p(r, 30) ? (uint64_t[]){ 0x7fffffffffffffffull, 0x8000000000000000ull, 0x7fffffffull, 0x80000000ull, 0x7f, 0x80, 0xff, ~0ull }[rng_int(r, 0, 7)] : rng_u64(r); memcpy(p, &v, (size_t)type_size(t)); }
}
#define COMB(T, U) { T x, y, z; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); switch (op) { case LAIK_RO_Sum: z = (T)((U)x + (U)y); break; case LAIK_RO_Prod: z = (T)((U)x * (U)y); break; case LAIK_RO_Min: z = x < y ? x : y; break; case LAIK_RO_Max: z = x > y ? x : y; break; case LAIK_RO_And: z = (T)((U)x & (U)y); break; default: z = (T)((U)x | (U)y); } memcpy(o, &z, sizeof z); break; }
#define COMBF(T) { T x, y, z; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); switch (op) { case LAIK_RO_Sum: z = x + y; break; case LAIK_RO_Prod: z = x * y; break; case LAIK_RO_Min: z = x < y ? x : y; break; default: z = x > y ? x : y; } memcpy(o, &z, sizeof z); break; }
static void combine(TypeId t, Laik_ReductionOperation op, const char* a, const char* b, char* o) {
    switch (t) { case T_CHAR: COMB(int8_t, uint8_t) case T_UCHAR: COMB(uint8_t, uint8_t) case T_I32: COMB(int32_t, uint32_t) case T_U32: COMB(uint32_t, uint32_t) case T_I64: COMB(int64_t, uint64_t) case T_U64: COMB(uint64_t, uint64_t) case T_FLOAT: COMBF(float) default: COMBF(double) }
}
static bool same(TypeId t, const char* a, const char* b) { if (!memcmp(a, b, (size_t)type_size(t))) return true; if (t == T_FLOAT) { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x == y || (x != x && y != y); } if (t == T_DOUBLE) { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x == y || (x != x && y != y); } return false; }
static void u_init(void* p, int n, Laik_ReductionOperation o) { (void)o; memset(p, 7, (size_t)n); }
static void u_red(void* o, const void* a, const void* b, int n, Laik_ReductionOperation op) { (void)a; (void)b; (void)op; memset(o, 9, (size_t)n); }
void m_types(Rng* r) {
    static const Laik_ReductionOperation ops[] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or };
    TypeId t = (TypeId)rng_int(r, 0, T_N - 1); Laik_ReductionOperation op = ops[rng_int(r, 0, t >= T_FLOAT ? 3 : 5)]; Laik_Type* lt = type_laik(t); int es = type_size(t), n = rng_p(r, 10) ? 0 : rng_p(r, 20) ? 1 : rng_int(r, 1, 70);
    vh_setwhere("types world %d case %d: %s, %s, %d elements", world_no, case_no, lt->name, red_names[op], n);
    if (lt->size != es || strcmp(lt->name, type_names[t]) || !lt->init || !lt->reduce) FAIL("type", "type %s has size %d, name %s", type_names[t], lt->size, lt->name);
    size_t by = (size_t)(n * es); char* a = malloc(by + 16); char* b = malloc(by + 16); char* o = malloc(by + 16); char* w = malloc(by + 16);
    memset(o, 0x3c, by + 16); lt->init(o + 8, n, op); for (int i = 0; i < n; i++) if (!type_is_neutral(t, o + 8 + i * es, op)) FAIL("neutral", "element %d is not the neutral element", i);
    for (int i = 0; i < 8; i++) if (o[i] != 0x3c || o[8 + by + (size_t)i] != 0x3c) FAIL("init-outside", "initialisation wrote outside of %d elements", n);
    for (int rep = 0; rep < 6; rep++) {
        for (int i = 0; i < n; i++) { rnd_elem(r, t, a + 8 + i * es); rnd_elem(r, t, b + 8 + i * es); }
        /* signed integer overflow is the application's problem */
        if (op == LAIK_RO_Sum || op == LAIK_RO_Prod) for (int i = 0; i < n; i++) for (int q = 0; q < 2; q++) { char* e = (q ? b : a) + 8 + i * es;
            if (t == T_I32) { int32_t v; memcpy(&v, e, 4); v = op == LAIK_RO_Sum ? v / 2 : v % 46340; memcpy(e, &v, 4); } if (t == T_I64) { int64_t v; memcpy(&v, e, 8); v = op == LAIK_RO_Sum ? v / 2 : v % 3037000499ll; memcpy(e, &v, 8); } }
        bool n1 = rep >= 4 ? rng_p(r, 50) : false, n2 = rep >= 4 ? rng_p(r, 60) : false; int alias = rng_int(r, 0, 3); /* 0 none, 1 out=in1, 2 out=in2, 3 all */
        char* p1 = a + 8; char* p2 = alias == 3 ? a + 8 : b + 8; char* po = alias == 1 || alias == 3 ? p1 : alias == 2 ? p2 : o + 8; memset(o, 0x3c, by + 16); for (int i = 0; i < 8; i++) a[i] = b[i] = a[8 + by + (size_t)i] = b[8 + by + (size_t)i] = 0x3c;
        for (int i = 0; i < n; i++) { if (n1 && n2) continue; if (n1) memcpy(w + i * es, p2 + i * es, (size_t)es); else if (n2) memcpy(w + i * es, p1 + i * es, (size_t)es); else combine(t, op, p1 + i * es, p2 + i * es, w + i * es); }
        vh_setwhere("types world %d case %d: %s, %s, %d elements, absent inputs %d/%d, output shared with %s", world_no, case_no, lt->name, red_names[op], n, n1, n2, (const char*[]){ "none", "first", "second", "both" }[alias]);
        char* save = malloc(by + 1); memcpy(save, po == p1 ? b + 8 : a + 8, by); lt->reduce(po, n1 ? 0 : p1, n2 ? 0 : p2, n, op);
        for (int i = 0; i < n; i++) { if (n1 && n2) { if (!type_is_neutral(t, po + i * es, op)) FAIL("reduce-empty", "element %d is not neutral without input", i); } else if (!same(t, po + i * es, w + i * es)) { char s1[60], s2[60]; type_str(t, po + i * es, s1); type_str(t, w + i * es, s2); FAIL("reduce", "element %d is %s, expected %s", i, s1, s2); } }
        if (memcmp(save, po == p1 ? b + 8 : a + 8, by)) FAIL("reduce-input", "an input was modified"); free(save);
        char* base = po == o + 8 ? o : po == a + 8 ? a : b; for (int i = 0; i < 8; i++) if (base[i] != 0x3c || base[8 + by + (size_t)i] != 0x3c) FAIL("reduce-outside", "reduction wrote outside of %d elements", n);
        vh_count("reductions", 1); vh_count("elements_checked", (uint64_t)n); if (alias) vh_count("aliased", 1); if (n1 || n2) vh_count("absent_input", 1);
    }
    if (rng_p(r, 5)) { char nm[20]; snprintf(nm, sizeof nm, "my%d", rng_int(r, 0, 999)); static char keep[20]; memcpy(keep, nm, 20); int sz = rng_int(r, 1, 99); Laik_Type* u = laik_type_register(keep, sz); if (u->size != sz || strcmp(u->name, keep) || u->init || u->reduce) FAIL("register", "registered type has size %d, name %s", u->size, u->name);
        laik_type_set_init(u, u_init); laik_type_set_reduce(u, u_red); if (u->init != u_init || u->reduce != u_red || u->size != sz) FAIL("register", "functions of a user type not stored"); free(u); vh_count("user_types", 1); }
    if (n) vh_sig(hash_mix((uint64_t)t * 8 + (uint64_t)op, (uint64_t)n)); vh_sample("%.300s", vh_where);
    free(a); free(b); free(o); free(w);
}
