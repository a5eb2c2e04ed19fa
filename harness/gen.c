#include "gen.h"
#include <float.h>
#include <math.h>

const char* type_names[T_N] = { "char", "uchar", "int32", "uint32", "int64", "uint64", "float", "double" };
const char* red_names[16] = { "none", "sum", "prod", "min", "max", "and", "or", "any", "single" };

int iter_next(int dims, const int64_t* f, const int64_t* t, int64_t* i) {
    for (int d = 0; d < dims; d++) { if (++i[d] < t[d]) return 1; i[d] = f[d]; }
    return 0;
}
Box gen_box(Rng* r, int dims, int maxper, bool shifted) {
    Box b; memset(&b, 0, sizeof b); b.dims = dims;
    for (int d = 0; d < dims; d++) {
        int sz = rng_p(r, 12) ? rng_int(r, 1, 3) : rng_int(r, 1, maxper);
        b.f[d] = shifted && rng_p(r, 50) ? rng_int(r, -40, 60) : 0; b.t[d] = b.f[d] + sz;
    }
    b.n = box_size(&b); return b;
}
void gen_boxname(const Box* b, char* out, size_t n) {
    int k = 0; for (int d = 0; d < b->dims; d++) k += snprintf(out + k, n - (size_t)k, "%s[%lld;%lld[", d ? "x" : "", (long long)b->f[d], (long long)b->t[d]); }
Laik_Space* gen_space(Laik_Instance* inst, const Box* b) {
    Laik_Space* s;
    if (b->dims == 1) { s = laik_new_space_1d(inst, b->t[0] - b->f[0]); if (b->f[0]) laik_change_space_1d(s, b->f[0], b->t[0]); }
    else if (b->dims == 2) { s = laik_new_space_2d(inst, b->t[0] - b->f[0], b->t[1] - b->f[1]); if (b->f[0] || b->f[1]) laik_change_space_2d(s, b->f[0], b->t[0], b->f[1], b->t[1]); }
    else { s = laik_new_space_3d(inst, b->t[0] - b->f[0], b->t[1] - b->f[1], b->t[2] - b->f[2]); if (b->f[0] || b->f[1] || b->f[2]) laik_change_space_3d(s, b->f[0], b->t[0], b->f[1], b->t[1], b->f[2], b->t[2]); }
    return s;
}
static void add(Spec* s, int task, int tag, const int64_t* f, const int64_t* t, int dims) {
    for (int d = 0; d < dims; d++) if (f[d] >= t[d]) return;
    if (s->cnt >= MAXENT) { fprintf(stderr, "spec too large\n"); exit(3); }
    Ent* e = &s->e[s->cnt++]; memset(e, 0, sizeof *e); e->task = task; e->tag = tag;
    for (int d = 0; d < dims; d++) { e->f[d] = f[d]; e->t[d] = t[d]; }
}
static int cuts(Rng* r, int64_t f, int64_t t, int maxparts, int64_t* c) { /* returns number of parts; c[0]=f..c[k]=t */
    int k = rng_int(r, 1, maxparts); int64_t n = t - f; if (k > n) k = (int)n;
    int m = 0; c[m++] = f;
    for (int i = 1; i < k; i++) c[m++] = f + rng_int(r, 0, (int)n);
    c[m++] = t;
    for (int a = 1; a < m - 1; a++) for (int b = a + 1; b < m - 1; b++) if (c[b] < c[a]) { int64_t x = c[a]; c[a] = c[b]; c[b] = x; }
    int o = 1; for (int a = 1; a < m; a++) if (c[a] > c[o-1]) c[o++] = c[a];
    return o - 1;
}
void gen_spec(Rng* r, const Box* b, int nt, int kind, bool multiOk, int tagmode, Spec* s) {
    memset(s, 0, sizeof *s); s->ntasks = nt;
    if (kind < 0) {
        static const int kinds[] = { SK_BLOCK, SK_BLOCK, SK_BOXES, SK_BOXES, SK_ALL, SK_SINGLE, SK_MULTIBOX, SK_MULTIBOX, SK_HOLES, SK_HALO, SK_HALO, SK_SCATTER };
        do kind = kinds[rng_int(r, 0, (int)(sizeof kinds / sizeof kinds[0]) - 1)]; while (!multiOk && nt > 1 && (kind == SK_ALL || kind == SK_MULTIBOX || kind == SK_HALO));
    }
    if (kind == SK_SCATTER && b->dims > 1) kind = SK_BOXES;
    s->kind = kind;
    bool tagged = tagmode < 0 ? rng_p(r, 50) : tagmode > 0;
    int ntags = tagged ? rng_int(r, 1, 3) : 0; int64_t c[3][80]; int k[3] = { 1, 1, 1 };
    #define TAG() (tagged ? rng_int(r, 1, ntags) : 0)
    switch (kind) {
    case SK_BLOCK: case SK_HALO: {
        int pd = rng_int(r, 0, b->dims - 1); int depth = kind == SK_HALO ? rng_int(r, 1, 2) : 0; int64_t bc[80];
        int parts = cuts(r, b->f[pd], b->t[pd], nt + rng_int(r, 0, 2), bc); int perm = rng_int(r, 0, nt - 1);
        if (parts > nt) { parts = nt; bc[nt] = b->t[pd]; }
        for (int i = 0; i < parts; i++) {
            int64_t f[3], t[3]; memcpy(f, b->f, sizeof f); memcpy(t, b->t, sizeof t); f[pd] = bc[i] - depth; t[pd] = bc[i+1] + depth;
            if (f[pd] < b->f[pd]) f[pd] = b->f[pd];
            if (t[pd] > b->t[pd]) t[pd] = b->t[pd];
            add(s, (i + perm) % nt, TAG(), f, t, b->dims);
        }
        break; }
    case SK_ALL: for (int i = 0; i < nt; i++) add(s, i, tagged ? 1 : 0, b->f, b->t, b->dims); break;
    case SK_SINGLE: add(s, rng_int(r, 0, nt - 1), tagged ? 1 : 0, b->f, b->t, b->dims); break;
    case SK_SCATTER: { /* many small 1d ranges */
        int64_t x = b->f[0]; int left = b->n > 300 && rng_p(r, 40) ? 500 : 60; int64_t w = left > 60 ? 2 * b->n / left : 4; if (w < 2) w = 2; while (x < b->t[0] && left-- > 0) { int64_t y = x + rng_int(r, 1, (int)w); if (y > b->t[0] || left == 0) y = b->t[0]; int64_t f[3] = { x }, t[3] = { y }; add(s, rng_int(r, 0, nt - 1), TAG(), f, t, 1); x = y; }
        if (!tagged && rng_p(r, 50)) s->single = true;
        break; }
    default: { /* boxes */
        int mp = b->dims == 1 ? 3 * nt + 1 : (b->dims == 2 ? 5 : 3); if (mp > 36) mp = 36;
        for (int d = 0; d < b->dims; d++) k[d] = cuts(r, b->f[d], b->t[d], mp, c[d]);
        for (int d = b->dims; d < 3; d++) { c[d][0] = 0; c[d][1] = 1; }
        uint64_t live = rng_u64(r) | (1ull << rng_int(r, 0, nt - 1)); /* some tasks may stay without part */
        if (rng_p(r, 60)) live = ~0ull;
        for (int z = 0; z < k[2]; z++) for (int y = 0; y < k[1]; y++) for (int x = 0; x < k[0]; x++) {
            int64_t f[3] = { c[0][x], c[1][y], c[2][z] }, t[3] = { c[0][x+1], c[1][y+1], c[2][z+1] };
            if (kind == SK_HOLES && rng_p(r, 30)) continue;
            if (kind == SK_MULTIBOX) { int m = 0; for (int q = 0; q < nt; q++) if (((live >> q) & 1) && rng_p(r, 45)) { add(s, q, TAG(), f, t, b->dims); m++; }
                if (!m) { int q; do q = rng_int(r, 0, nt - 1); while (!((live >> q) & 1)); add(s, q, TAG(), f, t, b->dims); } }
            else { int q; do q = rng_int(r, 0, nt - 1); while (!((live >> q) & 1)); add(s, q, TAG(), f, t, b->dims); }
        }
        break; }
    }
    for (int i = 0; i < s->cnt; i++) s->order[i] = i;
    if (rng_p(r, 60)) for (int i = s->cnt - 1; i > 0; i--) { int j = rng_int(r, 0, i); int x = s->order[i]; s->order[i] = s->order[j]; s->order[j] = x; }
    if (b->dims == 1 && rng_p(r, 25)) s->flags |= LAIK_PF_Merge;
    s->empties = !s->single && rng_p(r, 15) ? 1 + (unsigned)rng_int(r, 0, 1 << 20) : 0;
    if (tagged) s->flags |= LAIK_PF_GroupByTag;
    snprintf(s->desc, sizeof s->desc, "%s%s%s", (const char*[]){ "block", "boxes", "all", "single", "multibox", "holes", "halo", "scatter" }[kind], tagged ? "+tags" : "", s->single ? "+si" : s->empties ? "+empty" : "");
    spec_finish(b, s);
}
void spec_finish(const Box* b, Spec* s) {
    free(s->own); s->own = calloc((size_t)b->n + 1, sizeof(uint64_t)); s->multi = s->holes = false;
    for (int i = 0; i < s->cnt; i++) { Ent* e = &s->e[i]; int64_t x[3]; memcpy(x, e->f, sizeof x); do s->own[lin(b, x)] |= 1ull << (s->map ? s->map[e->task] : e->task); while (iter_next(b->dims, e->f, e->t, x)); }
    for (int64_t i = 0; i < b->n; i++) { if (!s->own[i]) s->holes = true; if (s->own[i] & (s->own[i] - 1)) s->multi = true; }
    if (s->holes) s->flags |= LAIK_PF_NoFullCoverage;
    s->all = s->cnt == s->ntasks; for (int i = 0; i < s->cnt && s->all; i++) for (int d = 0; d < b->dims; d++) if (s->e[i].f[d] != b->f[d] || s->e[i].t[d] != b->t[d]) s->all = false;
    uint64_t allm = 0; for (int i = 0; i < s->ntasks; i++) allm |= 1ull << (s->map ? s->map[i] : i);
    for (int64_t i = 0; i < b->n && s->all; i++) if (s->own[i] != allm) s->all = false;
    s->singleTask = -1; if (s->cnt == 1) { s->singleTask = s->e[0].task; for (int d = 0; d < b->dims; d++) if (s->e[0].f[d] != b->f[d] || s->e[0].t[d] != b->t[d]) s->singleTask = -1; }
}
void spec_remap(const Box* b, Spec* s, int grp, int* map) { s->grp = grp; s->map = map; spec_finish(b, s); }
void spec_run(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    Spec* s = laik_partitioner_data(p->partitioner);
    for (int k = 0; k < s->cnt; k++) {
        Ent* e = &s->e[s->order[k]];
        if (s->single) { for (int64_t i = e->f[0]; i < e->t[0]; i++) laik_append_index_1d(r, e->task, i); continue; }
        Laik_Range rg; int dims = laik_space_getdimensions(p->space);
        unsigned x = s->empties * 2654435761u + (unsigned)k * 40503u; x ^= x >> 13;
        if (s->empties && x % 3 == 0) {
            int64_t f[3], t[3]; memcpy(f, e->f, sizeof f); memcpy(t, e->t, sizeof t); int d = (int)(x >> 4) % dims; if (x & 4) f[d] = t[d]; else t[d] = f[d];
            rg = (Laik_Range) { .space = p->space }; for (int i = 0; i < dims; i++) { rg.from.i[i] = f[i]; rg.to.i[i] = t[i]; }
            laik_append_range(r, (int)((x >> 8) % (unsigned)s->ntasks), &rg, e->tag, 0);
        }
        if (dims == 1) laik_range_init_1d(&rg, p->space, e->f[0], e->t[0]);
        else if (dims == 2) laik_range_init_2d(&rg, p->space, e->f[0], e->t[0], e->f[1], e->t[1]);
        else laik_range_init_3d(&rg, p->space, e->f[0], e->t[0], e->f[1], e->t[1], e->f[2], e->t[2]);
        laik_append_range(r, e->task, &rg, e->tag, 0);
    }
}
void spec_make(Spec* s, Laik_Group* g, Laik_Space* sp, const char* name) {
    s->pr = laik_new_partitioner(name, spec_run, s, (Laik_PartitionerFlag)s->flags);
    s->p = laik_new_partitioning(s->pr, g, sp, 0);
}
void spec_from_laik(Spec* s, const Box* b, Laik_Partitioning* p) {
    memset(s, 0, sizeof *s); s->p = p; s->viaBuiltin = true; s->ntasks = laik_size(laik_partitioning_get_group(p));
    laik_partitioning_store_allranges(p);
    int n = laik_partitioning_rangecount(p);
    for (int i = 0; i < n; i++) {
        Laik_TaskRange* tr = laik_partitioning_get_taskrange(p, i); const Laik_Range* rg = laik_taskrange_get_range(tr);
        add(s, laik_taskrange_get_task(tr), laik_taskrange_get_tag(tr), rg->from.i, rg->to.i, b->dims); s->order[s->cnt ? s->cnt - 1 : 0] = s->cnt - 1;
    }
    spec_finish(b, s); s->flags = 0; snprintf(s->desc, sizeof s->desc, "builtin");
}
void spec_free(Spec* s, bool freeP) { free(s->own); s->own = 0; if (freeP && s->p) laik_free_partitioning(s->p); s->p = 0; if (s->pr) free(s->pr); s->pr = 0; }
uint64_t spec_sig(const Spec* s) { uint64_t h = (uint64_t)s->kind * 31 + (uint64_t)s->cnt; for (int i = 0; i < s->cnt; i++) { h = hash_mix(h, (uint64_t)s->e[i].task * 7 + (uint64_t)s->e[i].tag); for (int d = 0; d < 3; d++) h = hash_mix(h, (uint64_t)(s->e[i].f[d] * 1000003 + s->e[i].t[d])); } return h; }
void spec_str(const Spec* s, const Box* b, char* out, size_t n) {
    int k = snprintf(out, n, "%s:", s->desc);
    for (int i = 0; i < s->cnt && k < (int)n - 90; i++) { Ent* e = (Ent*)&s->e[s->order[i]]; k += snprintf(out + k, n - (size_t)k, " T%d", e->task); if (e->tag) k += snprintf(out + k, n - (size_t)k, "/%d", e->tag);
        for (int d = 0; d < b->dims; d++) k += snprintf(out + k, n - (size_t)k, "[%lld;%lld[", (long long)e->f[d], (long long)e->t[d]); }
}
Laik_Type* type_laik(TypeId t) { switch (t) { case T_CHAR: return laik_Char; case T_UCHAR: return laik_UChar; case T_I32: return laik_Int32; case T_U32: return laik_UInt32; case T_I64: return laik_Int64; case T_U64: return laik_UInt64; case T_FLOAT: return laik_Float; default: return laik_Double; } }
int type_size(TypeId t) { static const int s[T_N] = { 1, 1, 4, 4, 8, 8, 4, 8 }; return s[t]; }
void type_put(TypeId t, void* p, int64_t v) {
    switch (t) { case T_CHAR: *(int8_t*)p = (int8_t)v; break; case T_UCHAR: *(uint8_t*)p = (uint8_t)v; break; case T_I32: *(int32_t*)p = (int32_t)v; break; case T_U32: *(uint32_t*)p = (uint32_t)v; break;
    case T_I64: *(int64_t*)p = v; break; case T_U64: *(uint64_t*)p = (uint64_t)v; break; case T_FLOAT: *(float*)p = (float)v; break; default: *(double*)p = (double)v; } }
bool type_eq(TypeId t, const void* p, int64_t v) { char tmp[8]; type_put(t, tmp, v); return memcmp(tmp, p, (size_t)type_size(t)) == 0 || (t == T_FLOAT && *(float*)p == (float)v) || (t == T_DOUBLE && *(double*)p == (double)v); }
void type_str(TypeId t, const void* p, char* o) {
    switch (t) { case T_CHAR: sprintf(o, "%d", *(int8_t*)p); break; case T_UCHAR: sprintf(o, "%u", *(uint8_t*)p); break; case T_I32: sprintf(o, "%d", *(int32_t*)p); break; case T_U32: sprintf(o, "%u", *(uint32_t*)p); break;
    case T_I64: sprintf(o, "%lld", *(long long*)p); break; case T_U64: sprintf(o, "%llu", *(unsigned long long*)p); break; case T_FLOAT: sprintf(o, "%g", *(float*)p); break; default: sprintf(o, "%g", *(double*)p); } }
int64_t red_apply(Laik_ReductionOperation op, int64_t a, int64_t b) {
    switch (op) { case LAIK_RO_Sum: return a + b; case LAIK_RO_Prod: return a * b; case LAIK_RO_Min: return a < b ? a : b; case LAIK_RO_Max: return a > b ? a : b; case LAIK_RO_And: return a & b; case LAIK_RO_Or: return a | b; default: return a; } }
bool type_is_neutral(TypeId t, const void* p, Laik_ReductionOperation op) {
    if (op == LAIK_RO_Sum || op == LAIK_RO_Or) return type_eq(t, p, 0);
    if (op == LAIK_RO_Prod) return type_eq(t, p, 1);
    if (op == LAIK_RO_And) { unsigned char ff[8]; memset(ff, 255, 8); return t < T_FLOAT && !memcmp(p, ff, (size_t)type_size(t)); }
    bool mn = op == LAIK_RO_Min;
    switch (t) {
    case T_CHAR: return *(int8_t*)p == (mn ? INT8_MAX : INT8_MIN); case T_UCHAR: return *(uint8_t*)p == (mn ? UINT8_MAX : 0);
    case T_I32: return *(int32_t*)p == (mn ? INT32_MAX : INT32_MIN); case T_U32: return *(uint32_t*)p == (mn ? UINT32_MAX : 0);
    case T_I64: return *(int64_t*)p == (mn ? INT64_MAX : INT64_MIN); case T_U64: return *(uint64_t*)p == (mn ? UINT64_MAX : 0);
    /* for floating point the largest finite value or infinity are both fine for practical purposes */
    case T_FLOAT: return mn ? *(float*)p >= FLT_MAX : *(float*)p <= -FLT_MAX;
    default: return mn ? *(double*)p >= DBL_MAX : *(double*)p <= -DBL_MAX; }
}
