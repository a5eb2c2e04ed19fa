/* Collective services around the data switches: process groups, key-value stores, published index spaces, locations.
 * All ranks derive the same script from the seed, hold a model of every rank's state and compare after each step.
 * Runs over the monitoring MPI stand-in (forked ranks) or, with -DNOSHIM, as one process of a real job. */
#include "gen.h"
#include "laik-internal.h"
#include <unistd.h>
#include <inttypes.h>
#ifndef NOSHIM
#include "../shim/mpishim.h"
#define QUIESCE(w) vshim_quiesce(w)
#else
#define QUIESCE(w) ((void)0)
static void vshim_pubwhere(void) {}
#endif
static Laik_Instance* inst; static Laik_Group* world; static int wn, me, wi, ci, ngroups_made;
#define WHERE(...) do { vh_setwhere(__VA_ARGS__); vshim_pubwhere(); } while (0)

/* ------------------------------------------------------------------------------------------------ key-value stores */
#define MAXK 1600
typedef struct { bool there; uint64_t salt; unsigned len; } Val;
static unsigned char* valbuf; static const unsigned maxval = 6000;
static void genval(uint64_t salt, unsigned len, unsigned char* out) { Rng r = rng_make(salt, 17); bool txt = salt & 1; for (unsigned i = 0; i < len; i++) { uint64_t x = rng_u64(&r); out[i] = (unsigned char)(txt ? 'a' + (x % 26) : x % 3 == 0 ? 0 : x >> 8); } }
static bool same(const Val* a, const Val* b) { if (!a->there || !b->there) return a->there == b->there; if (a->len != b->len) return false; if (a->salt == b->salt) return true;
    if (a->len > 40) return false; unsigned char x[40], y[40]; genval(a->salt, a->len, x); genval(b->salt, b->len, y); return !memcmp(x, y, a->len); }
typedef struct { Laik_KVStore* s; int nk; char** key; Val* agreed; Val* loc; /* [rank*nk + k] */ int* own; bool cb, pending; Val* want; int* hits; char name[16]; bool textonly; } Store;
static Store S[2]; static int ns; static Store* cur;
static void showkey(const char* k, char* out) { int n = 0; for (; *k && n < 40; k++) n += sprintf(out + n, (*k > 32 && *k < 127) ? "%c" : "\\%02x", (unsigned char)*k); out[n] = 0; }
static int findkey(Store* s, const char* k) { for (int i = 0; i < s->nk; i++) if (!strcmp(s->key[i], k)) return i; return -1; }
static void cmpval(Store* s, int k, const char* v, unsigned len, const Val* want, const char* what) {
    char kn[130]; showkey(s->key[k], kn);
    if (!want->there) { if (v) vh_fail("kvs-value", "%s: store '%s' key '%s' is present on task %d (%u bytes), should be absent", what, s->name, kn, me, len); return; }
    if (!v) vh_fail("kvs-value", "%s: store '%s' key '%s' is missing on task %d", what, s->name, kn, me);
    if (len != want->len) vh_fail("kvs-value", "%s: store '%s' key '%s' on task %d has %u bytes, expected %u", what, s->name, kn, me, len, want->len);
    genval(want->salt, want->len, valbuf); if (memcmp(v, valbuf, len)) vh_fail("kvs-value", "%s: store '%s' key '%s' on task %d has wrong content (%u bytes)", what, s->name, kn, me, len);
}
static void cb(Laik_KVStore* st, const char* key, Laik_KVS_Entry* e, int kind) {
    Store* s = cur; int k;
    if (!s || st != s->s) vh_fail("kvs-callback", "callback outside of a synchronisation of this store");
    k = findkey(s, key); if (k < 0) { char kn[130]; showkey(key, kn); vh_fail("kvs-callback", "callback for unknown key '%s'", kn); }
    char kn[130]; showkey(key, kn);
    Val* old = &s->loc[me * s->nk + k]; Val* nw = &s->want[k]; int exp = same(old, nw) ? 0 : !old->there ? 1 : nw->there ? 2 : 3;
    static const char* nm[] = { "nothing", "created", "changed", "removed" };
    if (exp != kind) vh_fail("kvs-callback", "store '%s' key '%s' on task %d: reported as %s, but what happened to it is: %s", s->name, kn, me, nm[kind], nm[exp]);
    if (s->hits[k]++) vh_fail("kvs-callback", "store '%s' key '%s' on task %d: reported twice", s->name, kn, me);
    if (e) { unsigned sz = 0; char* v = laik_kvs_data(e, &sz); cmpval(s, k, v, sz, nw, "in callback"); }
    vh_count(kind == 1 ? "callbacks_created" : kind == 2 ? "callbacks_changed" : "callbacks_removed", 1);
}
static void cb_created(Laik_KVStore* s, Laik_KVS_Entry* e) { cb(s, laik_kvs_key(e), e, 1); }
static void cb_changed(Laik_KVStore* s, Laik_KVS_Entry* e) { cb(s, laik_kvs_key(e), e, 2); }
static void cb_removed(Laik_KVStore* s, char* key) { cb(s, key, 0, 3); }
/* whole content against a model map */
static void kvs_compare(Store* s, Val* m, bool sorted, const char* what) {
    unsigned want = 0; for (int k = 0; k < s->nk; k++) { want += m[k].there; unsigned sz = 12345; char* v = laik_kvs_get(s->s, s->key[k], &sz); cmpval(s, k, v, sz, &m[k], what);
        Laik_KVS_Entry* e = laik_kvs_entry(s->s, s->key[k]); if (m[k].there != (e != 0)) vh_fail("kvs-entry", "%s: entry lookup %s", what, e ? "finds an absent key" : "misses a key");
        if (e) { if (strcmp(laik_kvs_key(e), s->key[k])) vh_fail("kvs-entry", "%s: entry has another key", what); if (laik_kvs_size(e) != m[k].len) vh_fail("kvs-entry", "%s: entry size %u, expected %u", what, laik_kvs_size(e), m[k].len); } }
    vh_count("values_compared", (uint64_t)s->nk);
    unsigned n = laik_kvs_count(s->s); if (n != want) vh_fail("kvs-count", "%s: store '%s' counts %u entries on task %d, expected %u", what, s->name, n, me, want);
    static int seen[MAXK]; memset(seen, 0, sizeof(int) * (size_t)s->nk); char* last = 0;
    for (unsigned i = 0; i < n; i++) { Laik_KVS_Entry* e = laik_kvs_getn(s->s, i); if (!e) vh_fail("kvs-enum", "%s: entry %u of %u not available", what, i, n);
        char* key = laik_kvs_key(e); int k = findkey(s, key); if (k < 0 || !m[k].there) vh_fail("kvs-enum", "%s: enumeration lists an absent key", what); if (seen[k]++) vh_fail("kvs-enum", "%s: enumeration lists a key twice", what);
        if (sorted && last && strcmp(last, key) >= 0) vh_fail("kvs-sorted", "%s: entries not ordered by key", what);
        last = key; }
    if (laik_kvs_getn(s->s, n)) vh_fail("kvs-enum", "%s: enumeration does not end", what);
}
static void do_kset(Store* s, int r, int k, Val v, int how) { /* task r sets (or removes) key k */
    Val* l = &s->loc[r * s->nk + k];
    if (r == me) {
        if (v.there) { genval(v.salt, v.len, valbuf); Laik_KVS_Entry* e;
            if (v.len && valbuf[v.len - 1] == 0 && strlen((char*)valbuf) + 1 == v.len && how % 2) e = laik_kvs_sets(s->s, s->key[k], (char*)valbuf);
            else { char* c = malloc(v.len); memcpy(c, valbuf, v.len); e = laik_kvs_set(s->s, s->key[k], v.len, c); memset(c, 0x55, v.len); free(c); }
            if (!e) vh_fail("kvs-set", "setting returns no entry"); unsigned sz; char* d = laik_kvs_data(e, &sz); cmpval(s, k, d, sz, &v, "entry returned by set");
            char* cp = malloc(v.len + 8); memset(cp, 0x77, v.len + 8); unsigned ask = (unsigned)how % (v.len + 4); unsigned got = laik_kvs_copy(e, cp, ask); unsigned ex = ask < v.len ? ask : v.len;
            if (got != ex || memcmp(cp, valbuf, ex) || (unsigned char)cp[ex] != 0x77) vh_fail("kvs-copy", "copy of at most %u of %u bytes gave %u", ask, v.len, got);
            free(cp); vh_count("sets", 1); if (l->there && !same(l, &v)) vh_count("overwrites", 1);
        } else if (how % 4 == 0) { laik_kvs_set(s->s, s->key[k], 0, 0); vh_count("removals", l->there); }
        else { bool res = laik_kvs_remove(s->s, s->key[k]); if (res != l->there) vh_fail("kvs-remove", "removing %s key reports %d", l->there ? "a present" : "an absent", res); vh_count("removals", l->there); }
    }
    *l = v;
    if (r == me) { unsigned sz = 0; char* d = laik_kvs_get(s->s, s->key[k], &sz); cmpval(s, k, d, sz, l, "directly after the change"); }
}
static Val rndval(Rng* r, bool text) {
    Val v = { true, rng_u64(r) % 6 + 100 * (uint64_t)rng_int(r, 0, 1), 0 }; int q = rng_int(r, 0, 99); v.len = q < 60 ? (unsigned)rng_int(r, 1, 24) : q < 90 ? (unsigned)rng_int(r, 1, 200) : (unsigned)rng_int(r, 200, (int)maxval);
    if (text) v.salt |= 1;
    return v; }
static void m_kvs(Rng* r) {
    if (!valbuf) valbuf = malloc(maxval + 8);
    ns = rng_p(r, 30) ? 2 : 1; uint64_t sig = (uint64_t)wn;
    for (int i = 0; i < ns; i++) { Store* s = &S[i]; memset(s, 0, sizeof *s); sprintf(s->name, "store%d", i); s->s = laik_kvs_new(s->name, inst);
        s->nk = rng_p(r, 4) ? rng_int(r, 1001, MAXK) : rng_p(r, 40) ? rng_int(r, 1, 5) : rng_int(r, 3, 60); int nk = s->nk;
        s->key = calloc((size_t)nk, sizeof(char*)); s->agreed = calloc((size_t)nk, sizeof(Val)); s->loc = calloc((size_t)(nk * wn), sizeof(Val)); s->want = calloc((size_t)nk, sizeof(Val)); s->hits = calloc((size_t)nk, sizeof(int)); s->own = calloc((size_t)nk, sizeof(int));
        bool bin = rng_p(r, 40); bool pre = rng_p(r, 30);
        /* families of keys: long common beginnings, different only at the end (in any order of insertion) */
        int fam = rng_p(r, 35) ? rng_int(r, 1, 3) : 0; char fp[3][320]; int fl[3]; for (int q = 0; q < fam; q++) { fl[q] = rng_p(r, 50) ? rng_int(r, 4, 70) : rng_int(r, 60, 310); if (q && rng_p(r, 50)) { fl[q] = fl[0] - rng_int(r, 0, fl[0] > 4 ? 3 : 0); memcpy(fp[q], fp[0], 320); fp[q][fl[q] - 1] ^= 1; } else for (int z = 0; z < fl[q]; z++) fp[q][z] = bin ? (char)rng_int(r, 1, 255) : (char)('A' + rng_int(r, 0, 1) * 32 + rng_int(r, 0, 25)); for (int z = 0; z < fl[q]; z++) if (!fp[q][z]) fp[q][z] = 'x'; }
        if (fam) vh_count("key_families", (uint64_t)fam);
        for (int k = 0; k < nk; k++) for (;;) { char b[400]; int len = rng_p(r, 3) ? 0 : rng_p(r, 90) ? rng_int(r, 1, 12) : rng_int(r, 1, 350); int o = 0; if (fam && rng_p(r, 80)) { int q = rng_int(r, 0, fam - 1); memcpy(b, fp[q], (size_t)fl[q]); o = fl[q]; len = o + rng_int(r, 0, 3); } else if (pre) o = sprintf(b, "prefix"); for (; o < len; o++) b[o] = bin ? (char)rng_int(r, 1, 255) : (char)('a' + rng_int(r, 0, 25)); if (nk > 1000) o += sprintf(b + o, "%d", k); b[o] = 0;
            s->key[k] = 0; bool dup = false; for (int j = 0; j < k; j++) if (!strcmp(s->key[j], b)) dup = true; if (dup) { if (o < 6 || pre) { sprintf(b + o, "_%d", k); dup = false; for (int j = 0; j < k; j++) if (!strcmp(s->key[j], b)) dup = true; } if (dup) continue; }
            s->key[k] = strdup(b); break; }
        s->cb = rng_p(r, 75); if (s->cb) laik_kvs_reg_callbacks(s->s, cb_created, cb_changed, cb_removed);
    }
    int rounds = rng_int(r, 2, 6);
    for (int rd = 0; rd < rounds; rd++) {
        for (int i = 0; i < ns; i++) { Store* s = &S[i];
            if (s->pending) { if (rng_p(r, 30)) laik_kvs_sort(s->s); kvs_compare(s, &s->loc[me * s->nk], false, "while another store is used"); continue; }
            for (int k = 0; k < s->nk; k++) s->own[k] = rng_p(r, 15) ? -1 /* common */ : rng_p(r, 30) ? 0 : rng_int(r, 0, wn - 1);
            int idle = rng_p(r, 30) ? rng_int(r, 0, wn - 1) : -1; bool none = rng_p(r, 12);
            WHERE("seed=%llu world=%d case=%d ranks=%d %s keys=%d round=%d", (unsigned long long)vh_args.seed, wi, ci, wn, s->name, s->nk, rd);
            int ops = none ? 0 : s->nk > 1000 && rd == 0 ? 2 * s->nk : rng_int(r, 0, 40);
            for (int o = 0; o < ops; o++) {
                int k = s->nk > 1000 && rd == 0 && o < s->nk ? o : rng_p(r, 40) ? rng_int(r, 0, s->nk > 5 ? 4 : s->nk - 1) : rng_int(r, 0, s->nk - 1); Val v = rndval(r, false); if (s->nk > 1000) v.len = v.len % 30 + 1; if (rng_p(r, 25)) { v.there = false; v.salt = 0; v.len = 0; } int how = rng_int(r, 0, 1 << 20);
                if (s->own[k] >= 0 && rng_p(r, 25) && s->loc[s->own[k] * s->nk + k].there && v.there) { v.salt = s->loc[s->own[k] * s->nk + k].salt; if (rng_p(r, 40)) v.len = s->loc[s->own[k] * s->nk + k].len; } /* same or prefix-related value */
                if (s->own[k] >= 0) { if (s->own[k] != idle) do_kset(s, s->own[k], k, v, how); }
                else { /* common change by several tasks, all the same and only once per round */
                    for (int t = 0; t < wn; t++) { bool part = rng_p(r, 60); if (part) do_kset(s, t, k, v, how); }
                    s->own[k] = 1000; }
                if (s->own[k] == 1000) { /* no further change in this round */ s->own[k] = idle >= 0 ? idle : 0; if (s->own[k] != idle) { idle = s->own[k]; } }
            }
            if (rng_p(r, 6)) { bool can = true; int t = rng_int(r, 0, wn - 1); for (int k = 0; k < s->nk; k++) for (int q = 0; q < wn; q++) if (!same(&s->loc[q * s->nk + k], &s->agreed[k])) can = false;
                if (can) { if (t == me) laik_kvs_clean(s->s); for (int k = 0; k < s->nk; k++) s->loc[t * s->nk + k] = (Val){ false, 0, 0 }; vh_count("cleans", me == t); } }
            if (rng_p(r, 30)) laik_kvs_sort(s->s);
            kvs_compare(s, &s->loc[me * s->nk], false, "before synchronisation");
        }
        for (int i = ns - 1; i >= 0; i--) { Store* s = &S[i]; s->pending = ns == 2 && i == 1 && rng_p(r, 20); if (s->pending) continue; /* stores are synchronised independently */
            int changes = 0;
            for (int k = 0; k < s->nk; k++) { s->want[k] = s->agreed[k]; s->hits[k] = 0; for (int t = 0; t < wn; t++) if (!same(&s->loc[t * s->nk + k], &s->agreed[k])) { s->want[k] = s->loc[t * s->nk + k]; changes++; } }
            WHERE("seed=%llu world=%d case=%d ranks=%d %s keys=%d sync in round %d", (unsigned long long)vh_args.seed, wi, ci, wn, s->name, s->nk, rd);
            cur = s; laik_kvs_sync(s->s); cur = 0;
            if (s->cb) for (int k = 0; k < s->nk; k++) if (!same(&s->loc[me * s->nk + k], &s->want[k]) && !s->hits[k]) { char kn[130]; showkey(s->key[k], kn); vh_fail("kvs-callback", "store '%s' key '%s' on task %d: change not reported", s->name, kn, me); }
            for (int k = 0; k < s->nk; k++) { s->agreed[k] = s->want[k]; for (int t = 0; t < wn; t++) s->loc[t * s->nk + k] = s->want[k]; }
            kvs_compare(s, s->agreed, true, "after synchronisation");
            sig = hash_mix(sig, (uint64_t)changes * 7 + (uint64_t)s->nk);
            if (me == 0) { vh_count("syncs", 1); vh_count("changes_synchronised", (uint64_t)changes); if (!changes) vh_count("empty_syncs", 1); if (wn > 1 && changes) vh_sig(sig); }
        }
    }
    if (me == 0) vh_sample("%d ranks, %d store(s), %d/%d keys, %d rounds", wn, ns, S[0].nk, ns > 1 ? S[1].nk : 0, rounds);
    QUIESCE("end of case");
    for (int i = 0; i < ns; i++) { Store* s = &S[i]; laik_kvs_free(s->s); for (int k = 0; k < s->nk; k++) free(s->key[k]); free(s->key); free(s->agreed); free(s->loc); free(s->want); free(s->hits); free(s->own); }
}

/* ------------------------------------------------------------------------------------------- published index spaces */
typedef struct { char name[60]; int dims; int64_t f[3], t[3]; bool pub, agreed; Laik_Space* sp; int64_t af[3], at[3]; } MSpace;
static int64_t bigbound(Rng* r) { switch (rng_int(r, 0, 5)) { case 0: return INT64_MIN + rng_int(r, 0, 3); case 1: return -((int64_t)rng_int(r, 0, 1 << 30) << 32); case 2: return (int64_t)rng_int(r, 0, 1 << 30) << 20; default: return rng_int(r, -1000, 1000); } }
static void rndbounds(Rng* r, MSpace* m, bool usable) { for (int d = 0; d < 3; d++) { m->f[d] = usable ? rng_int(r, -50, 50) : bigbound(r); uint64_t w = usable ? (uint64_t)rng_int(r, 1, 9) : rng_p(r, 50) ? (uint64_t)rng_int(r, 1, 1000) : rng_u64(r) >> rng_int(r, 1, 40); uint64_t mx = (uint64_t)INT64_MAX - (uint64_t)m->f[d]; if (w > mx) w = mx; m->t[d] = (int64_t)((uint64_t)m->f[d] + w); } }
static void chkspace(MSpace* m, Laik_Space* s, const int64_t* f, const int64_t* t, const char* what) {
    if (laik_space_getdimensions(s) != m->dims) vh_fail("space-dims", "%s: space '%s' has %d dimensions on task %d, published with %d", what, m->name, laik_space_getdimensions(s), me, m->dims);
    const Laik_Range* rg = laik_space_asrange(s);
    for (int d = 0; d < m->dims; d++) if (rg->from.i[d] != f[d] || rg->to.i[d] != t[d]) vh_fail("space-bounds", "%s: space '%s' on task %d spans [%" PRId64 ",%" PRId64 "[ in dimension %d, published was [%" PRId64 ",%" PRId64 "[", what, m->name, me, rg->from.i[d], rg->to.i[d], d, f[d], t[d]);
    vh_count("spaces_compared", 1);
}
static void use_space(MSpace* m) { /* the space has to work like any other one */
    Laik_Partitioning* p = laik_new_partitioning(laik_new_block_partitioner1(), world, m->sp, 0); Laik_Partitioning* q = laik_new_partitioning(laik_All, world, m->sp, 0);
    Laik_Data* d = laik_new_data(m->sp, laik_Int64); laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
    if (m->dims == 1) { for (int i = 0; i < laik_my_mapcount(p); i++) { int64_t* b; uint64_t n; laik_get_map_1d(d, i, (void**)&b, &n); int64_t from = 0; for (int k = 0; k < laik_my_rangecount(p); k++) { Laik_TaskRange* tr = laik_my_range(p, k); if (laik_taskrange_get_mapNo(tr) == i) { from = laik_taskrange_get_range(tr)->from.i[0]; break; } } for (uint64_t j = 0; j < n; j++) b[j] = from + (int64_t)j; } }
    laik_switchto_partitioning(d, q, LAIK_DF_Preserve, LAIK_RO_None);
    if (m->dims == 1) { int64_t* b; uint64_t n; laik_get_map_1d(d, 0, (void**)&b, &n); if (n != (uint64_t)(m->at[0] - m->af[0])) vh_fail("space-use", "container over published space has %" PRIu64 " elements", n); for (uint64_t j = 0; j < n; j++) if (b[j] != m->af[0] + (int64_t)j) vh_fail("space-use", "wrong data in container over published space"); }
    laik_free(d); laik_free_partitioning(p); laik_free_partitioning(q); vh_count("spaces_used", me == 0);
}
static void m_spaces(Rng* r) {
    int n = rng_int(r, 1, 6); MSpace M[8]; memset(M, 0, sizeof M); uint64_t sig = (uint64_t)wn * 31;
    bool shapes = rng_p(r, 60);
    for (int i = 0; i < n; i++) { MSpace* m = &M[i]; m->dims = rng_int(r, 1, 3); int len = rng_int(r, 1, 40), o = sprintf(m->name, "w%dc%ds%d", wi, ci, i); for (; o < len; o++) m->name[o] = (char)('A' + rng_int(r, 0, 25)); m->name[o] = 0; }
    int rounds = rng_int(r, 1, 4);
    for (int rd = 0; rd < rounds; rd++) {
        bool chg[8] = { false };
        for (int i = 0; i < n; i++) { MSpace* m = &M[i]; int who = rng_int(r, 0, wn - 1); bool act = rng_p(r, 60), all = rng_p(r, 20), twice = rng_p(r, 20);
            WHERE("seed=%llu world=%d case=%d ranks=%d space %s round %d", (unsigned long long)vh_args.seed, wi, ci, wn, m->name, rd);
            if (!act) continue;
            if (!m->pub) { /* publish: by one task, or by all with their own object */
                rndbounds(r, m, shapes); bool ch = rng_p(r, 30);
                if (all || who == me) { m->sp = m->dims == 1 ? laik_new_space_1d(inst, 5) : m->dims == 2 ? laik_new_space_2d(inst, 5, 6) : laik_new_space_3d(inst, 5, 6, 7); laik_set_space_name(m->sp, m->name);
                    if (ch) laik_spacestore_set(m->sp);
                    if (m->dims == 1) laik_change_space_1d(m->sp, m->f[0], m->t[0]); else if (m->dims == 2) laik_change_space_2d(m->sp, m->f[0], m->t[0], m->f[1], m->t[1]); else laik_change_space_3d(m->sp, m->f[0], m->t[0], m->f[1], m->t[1], m->f[2], m->t[2]);
                    if (!ch) laik_spacestore_set(m->sp); }
                m->pub = true; m->agreed = false; chg[i] = true; vh_count("spaces_published", me == 0);
            } else if (m->agreed && !chg[i]) { /* any task may change it */
                for (int k = 0; k <= (int)twice; k++) { rndbounds(r, m, shapes); int keep = rng_int(r, 0, 99), kd = rng_int(r, 0, m->dims - 1), up = rng_int(r, 0, 1); if (keep < 50) { for (int d = 0; d < m->dims; d++) { m->f[d] = m->af[d]; m->t[d] = m->at[d]; } if (keep >= 15) { /* one bound only */ vh_count("one_bound_changed", me == 0); if (up) { if (m->t[kd] < INT64_MAX) m->t[kd]++; } else if (m->t[kd] - 1 > m->f[kd]) m->t[kd]--; else if (m->f[kd] > INT64_MIN) m->f[kd]--; if (m->f[kd] < 0 && m->t[kd] > INT64_MAX + m->f[kd]) m->f[kd] = 0; } }
                    if (who == me) { if (m->dims == 1) laik_change_space_1d(m->sp, m->f[0], m->t[0]); else if (m->dims == 2) laik_change_space_2d(m->sp, m->f[0], m->t[0], m->f[1], m->t[1]); else laik_change_space_3d(m->sp, m->f[0], m->t[0], m->f[1], m->t[1], m->f[2], m->t[2]); } }
                chg[i] = true; vh_count("spaces_changed", me == 0);
            }
        }
        laik_sync_spaces(inst);
        for (int i = 0; i < n; i++) { MSpace* m = &M[i]; WHERE("seed=%llu world=%d case=%d ranks=%d space %s after sync in round %d", (unsigned long long)vh_args.seed, wi, ci, wn, m->name, rd);
            Laik_Space* s = laik_spacestore_get(inst, m->name);
            if (!m->pub) { if (s) vh_fail("space-found", "space '%s' found on task %d without being published", m->name, me); continue; }
            if (!s) vh_fail("space-found", "published space '%s' not found on task %d", m->name, me);
            if (m->sp && m->sp != s) vh_fail("space-object", "space '%s' on task %d is another object than before", m->name, me);
            m->sp = s; chkspace(m, s, m->f, m->t, "after synchronisation"); for (int d = 0; d < 3; d++) { m->af[d] = m->f[d]; m->at[d] = m->t[d]; } m->agreed = true; if (shapes && (chg[i] || rng_p(r, 20))) use_space(m); else if (!shapes) rng_p(r, 20);
            sig = hash_mix(sig, hash_mix((uint64_t)m->f[0], (uint64_t)m->t[m->dims - 1]) + (uint64_t)m->dims); }
        if (laik_spacestore_get(inst, "no such space")) vh_fail("space-found", "unpublished space found");
        if (me == 0) { vh_count("space_syncs", 1); if (wn > 1) vh_sig(sig); }
    }
    if (me == 0) vh_sample("%d ranks, %d space(s), %d rounds, e.g. '%s' %d-d [%" PRId64 ",%" PRId64 "[", wn, n, rounds, M[0].name, M[0].dims, M[0].f[0], M[0].t[0]);
    QUIESCE("end of case");
}
/* gather a string of every task of the world by a container */
static void gather(const char* mine, char out[][128]) {
    Laik_Space* sp = laik_new_space_1d(inst, 128 * wn); Laik_Partitioning* all = laik_new_partitioning(laik_All, world, sp, 0); Laik_Partitioning* blk = laik_new_partitioning(laik_new_block_partitioner1(), world, sp, 0);
    Laik_Data* d = laik_new_data(sp, laik_Char); laik_switchto_partitioning(d, blk, LAIK_DF_None, LAIK_RO_None);
    char* b; uint64_t n; laik_get_map_1d(d, 0, (void**)&b, &n); if (n != 128) vh_fail("gather", "block of %" PRIu64 " elements", n); memset(b, 0, 128); snprintf(b, 128, "%s", mine);
    laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&b, &n); memcpy(out, b, (size_t)(128 * wn));
    laik_free(d); laik_free_partitioning(all); laik_free_partitioning(blk);
}
static char locs[64][128]; static bool haveLocs;
static void need_locs(void) {
    if (haveLocs) return;
    WHERE("seed=%llu world=%d ranks=%d locations", (unsigned long long)vh_args.seed, wi, wn);
    if (wn > 1 && laik_group_location(world, (me + 1) % wn)) vh_fail("location", "location known before synchronisation");
    char mine[128]; snprintf(mine, sizeof mine, "%s", laik_mylocation(inst)); gather(mine, locs); laik_sync_location(inst); haveLocs = true;
    for (int i = 0; i < wn; i++) for (int j = 0; j < i; j++) if (!strcmp(locs[i], locs[j])) vh_fail("location", "tasks %d and %d have the same location '%s'", j, i, locs[i]);
}

/* ---------------------------------------------------------------------------------------------------- process groups */
#define MAXG 12
typedef struct { Laik_Group* g; int n; int w[64]; /* world ids */ int parent; int rem; } MG;
static int myin(const MG* m) { for (int i = 0; i < m->n; i++) if (m->w[i] == me) return i; return -1; }
static void chkgroup(const MG* m, const MG* par, const char* what) {
    Laik_Group* g = m->g; int mine = myin(m);
    if (laik_size(g) != m->n) vh_fail("group-size", "%s: size %d, expected %d", what, laik_size(g), m->n);
    if (laik_myid(g) != mine) vh_fail("group-id", "%s: id %d on world task %d, expected %d", what, laik_myid(g), me, mine);
    if (laik_inst(g) != inst) vh_fail("group-inst", "%s: wrong instance", what);
    for (int i = 0; i < m->n; i++) { if (laik_group_locationid(g, i) != laik_group_locationid(world, m->w[i])) vh_fail("group-location", "%s: location id of task %d is %d, in the world %d", what, i, laik_group_locationid(g, i), laik_group_locationid(world, m->w[i]));
        char* l = laik_group_location(g, i); if (!l || strcmp(l, locs[m->w[i]])) vh_fail("location", "%s: location of task %d is '%s', expected '%s'", what, i, l ? l : "(none)", locs[m->w[i]]); }
    if (par && laik_group_parent(g) != par->g) vh_fail("group-parent", "%s: wrong parent", what);
    vh_count("group_checks", 1);
}
static int64_t gval(uint64_t salt, int w, int i) { return (int64_t)(hash_mix(salt + (uint64_t)w, (uint64_t)i) % 1000) - 500; }
/* collective work inside a group, done by its members only */
static void work(const MG* m, uint64_t salt, int len) {
    if (myin(m) < 0) return;
    Laik_Space* sp = laik_new_space_1d(inst, len); Laik_Partitioning* all = laik_new_partitioning(laik_All, m->g, sp, 0); Laik_Partitioning* blk = laik_new_partitioning(laik_new_block_partitioner1(), m->g, sp, 0); Laik_Partitioning* mst = laik_new_partitioning(laik_Master, m->g, sp, 0);
    Laik_Data* d = laik_new_data(sp, laik_Int64); int64_t* b; uint64_t n; laik_switchto_partitioning(d, all, LAIK_DF_None, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&b, &n);
    for (int i = 0; i < len; i++) b[i] = gval(salt, me, i);
    Laik_Partitioning* to = salt % 3 == 0 ? all : salt % 3 == 1 ? blk : mst; laik_switchto_partitioning(d, to, LAIK_DF_Preserve, LAIK_RO_Sum); if (to != all) laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_None);
    laik_get_map_1d(d, 0, (void**)&b, &n); if (n != (uint64_t)len) vh_fail("group-work", "%" PRIu64 " elements instead of %d", n, len);
    for (int i = 0; i < len; i++) { int64_t s = 0; for (int k = 0; k < m->n; k++) s += gval(salt, m->w[k], i); if (b[i] != s) vh_fail("group-work", "sum over the group at index %d is %" PRId64 " on world task %d, expected %" PRId64, i, b[i], me, s); }
    laik_free(d); laik_free_partitioning(all); laik_free_partitioning(blk); laik_free_partitioning(mst); vh_count("collective_work", myin(m) == 0); if (m->n < wn) vh_count("subgroup_work", myin(m) == 0);
}
static void m_groups(Rng* r) {
    need_locs();
    MG G[MAXG]; int n = 1; memset(G, 0, sizeof G); G[0].g = world; G[0].n = wn; G[0].parent = -1; for (int i = 0; i < wn; i++) G[0].w[i] = i;
    int want = rng_int(r, 1, 5); uint64_t sig = (uint64_t)wn; char desc[400]; int dl = sprintf(desc, "world(%d)", wn);
    for (int k = 0; k < want && ngroups_made < 46; k++) {
        int p = rng_int(r, 0, n - 1); MG* P = &G[p]; MG* m = &G[n]; memset(m, 0, sizeof *m); m->parent = p; int op = rng_int(r, 0, 9);
        WHERE("seed=%llu world=%d case=%d ranks=%d %s, new group from %d op %d", (unsigned long long)vh_args.seed, wi, ci, wn, desc, p, op);
        if (op == 0) { for (int i = 0; i < P->n; i++) m->w[i] = P->w[i]; m->n = P->n; m->g = laik_clone_group(P->g); ngroups_made++; dl += snprintf(desc + dl, sizeof desc - (size_t)dl, " %d=clone(%d)", n, p); vh_count("clones", me == 0); }
        else if (op == 1 && P->parent >= 0) { Laik_Group* u = laik_new_union_group(G[P->parent].g, P->g), * v = laik_new_union_group(P->g, G[P->parent].g); MG* Q = &G[P->parent];
            if (laik_size(u) != Q->n || laik_size(v) != Q->n) vh_fail("group-union", "union of group and its parent has %d members instead of %d", laik_size(u), Q->n);
            MG t = *Q; t.g = u; chkgroup(&t, 0, "union of parent and group"); t.g = v; chkgroup(&t, 0, "union of group and parent"); work(&t, rng_u64(r), 5); vh_count("unions", me == 0); continue; }
        else { int list[100], len = 0; bool gone[64] = { false }; int pct = rng_int(r, 0, 80); for (int i = 0; i < P->n; i++) if (rng_p(r, pct)) { list[len++] = i; gone[i] = true; if (rng_p(r, 10)) list[len++] = i; } if (rng_p(r, 15)) for (int i = 0; i < P->n; i++) { list[len++] = i; gone[i] = true; }
            /* order of the list must not matter */ for (int i = len - 1; i > 0; i--) { int j = rng_int(r, 0, i); int t = list[i]; list[i] = list[j]; list[j] = t; } int cp[100]; memcpy(cp, list, sizeof(int) * (size_t)len);
            for (int i = 0; i < P->n; i++) if (!gone[i]) m->w[m->n++] = P->w[i];
            m->g = laik_new_shrinked_group(P->g, len, list); ngroups_made++; if (memcmp(cp, list, sizeof(int) * (size_t)len)) vh_fail("group-list", "the list of removed processes was modified"); dl += snprintf(desc + dl, sizeof desc - (size_t)dl, " %d=%d-(%d)", n, p, P->n - m->n); vh_count("shrinks", me == 0); if (m->n < P->n && p > 0) vh_count("nested_shrinks", me == 0); if (!m->n) vh_count("empty_groups", me == 0); }
        sig = hash_mix(sig, (uint64_t)p * 100 + (uint64_t)m->n); for (int i = 0; i < m->n; i++) sig = hash_mix(sig, (uint64_t)m->w[i]);
        n++;
        chkgroup(m, P, "new group"); chkgroup(P, 0, "its parent");
        if (rng_p(r, 50)) { uint64_t s = rng_u64(r); work(&G[rng_int(r, 0, n - 1)], s, rng_int(r, 1, 30)); } else { rng_u64(r); }
    }
    /* interleave work of all groups in random order; members of disjoint groups run independently */
    for (int k = 0; k < 2 * n; k++) { int i = rng_int(r, 0, n - 1); uint64_t s = rng_u64(r); int len = rng_int(r, 1, 40); WHERE("seed=%llu world=%d case=%d ranks=%d %s, work in group %d", (unsigned long long)vh_args.seed, wi, ci, wn, desc, i); work(&G[i], s, len); }
    for (int i = 0; i < n; i++) { char w[40]; sprintf(w, "group %d at the end", i); chkgroup(&G[i], i ? &G[G[i].parent] : 0, w); for (int j = 0; j < i; j++) if (G[i].g == G[j].g) vh_fail("group-object", "groups %d and %d are the same object", j, i); }
    if (me == 0) { vh_sample("%s", desc); if (n > 1 && wn > 1) vh_sig(sig); }
    QUIESCE("end of case");
}
static struct { const char* nm; void (*f)(Rng*); } modes[] = { { "kvs", m_kvs }, { "spaces", m_spaces }, { "groups", m_groups }, { 0, 0 } };
static void rank_main(int rank, int size, void* arg) {
    (void)rank; (void)size; wi = *(int*)arg; Rng r = rng_make(vh_args.seed * 77 + (uint64_t)wi, 3); int k = 0; while (modes[k].nm && strcmp(modes[k].nm, vh_args.mode)) k++;
    if (!modes[k].nm) { fprintf(stderr, "unknown mode\n"); _exit(3); }
    if (!getenv("LAIK_BACKEND")) setenv("LAIK_BACKEND", "mpi", 1);
    (void)r;
#ifndef NOSHIM
    setenv("LAIK_MPI_REDUCE", rng_p(&r, 50) ? "1" : "0", 1); setenv("LAIK_MPI_ASYNC", rng_p(&r, 50) ? "1" : "0", 1); if (rng_p(&r, 10)) setenv("LAIK_LOG", "1", 1);
#endif
    int ac = 1; char* av_[2] = { "world", 0 }; char** av = av_; inst = laik_init(&ac, &av); world = laik_world(inst); wn = laik_size(world); me = laik_myid(world);
    for (ci = vh_args.from; ci < vh_args.from + vh_args.cases; ci++) { Rng q = rng_make(vh_args.seed * 1000003 + (uint64_t)wi, (uint64_t)ci + 500); if (vh_args.only >= 0 && ci != vh_args.only) continue; modes[k].f(&q); if (me == 0) vh_count("cases", 1); }
    laik_finalize(inst);
}
int main(int argc, char** argv) {
    vh_parse(argc, argv); vh_init();
#ifdef NOSHIM
    int a = vh_args.n; rank_main(0, 0, &a); vh_finish(); return 0;
#else
    for (int k = 0; k < vh_args.worlds; k++) {
        int w = vh_args.n + k; Rng r = rng_make(vh_args.seed * 31 + (uint64_t)w, 9);
        static const int szs[] = { 1, 2, 2, 3, 3, 4, 4, 5, 6, 8 }; int n = szs[rng_int(&r, 0, 9)]; if (rng_int(&r, 0, 99) < 3) n = rng_int(&r, 9, 14);
        VshimOpts o = { rng_u64(&r), (const int[]){ 0, 0, 30, 70, 100 }[rng_int(&r, 0, 4)], rng_p(&r, 60) ? rng_int(&r, 1, 12) : 0, rng_int(&r, 1, 200), rng_p(&r, 30) ? rng_int(&r, 0, n - 1) : -1, 120 };
        int res = vshim_run(n, o, rank_main, &w); vh_count("worlds", 1);
        if (res) { vh_line("R world %d result %d", w, res); if (res == 1) { vh_finish(); return 1; } }
    }
    vh_finish(); return 0;
#endif
}
