/* Groups derived in one process which plays every process (and outsiders) of a base group. */
#include "units.h"
#include <inttypes.h>
typedef struct { Laik_Group* g; int n; int lid[64]; } MG;
static int mygid(const MG* m) { for (int i = 0; i < m->n; i++) if (m->lid[i] == inst->mylocationid) return i; return -1; }
static void chk(const MG* m, const char* what) {
    if (laik_size(m->g) != m->n) FAIL("group-size", "%s: size %d, expected %d", what, laik_size(m->g), m->n);
    for (int i = 0; i < m->n; i++) if (laik_group_locationid(m->g, i) != m->lid[i]) FAIL("group-location", "%s: location id of process %d is %d, expected %d", what, i, laik_group_locationid(m->g, i), m->lid[i]);
    if (laik_myid(m->g) != mygid(m)) FAIL("group-id", "%s: my id is %d, expected %d (location id %d)", what, laik_myid(m->g), mygid(m), inst->mylocationid);
    vh_count("group_checks", 1);
}
static int pos(const MG* m, int lid) { for (int i = 0; i < m->n; i++) if (m->lid[i] == lid) return i; return -1; }
void m_groups(Rng* r) {
    int keep = inst->group_count, myl = inst->mylocationid, nloc = inst->locations;
    MG M[24]; int n = 1, size = rng_p(r, 20) ? rng_int(r, 1, 3) : rng_int(r, 2, 30); MG* b = &M[0];
    b->g = laik_create_group(inst, size); b->n = size; int lid = rng_p(r, 50) ? 0 : rng_int(r, 0, 5); bool gaps = rng_p(r, 40);
    for (int i = 0; i < size; i++) { b->lid[i] = lid; lid += gaps ? rng_int(r, 1, 4) : 1; }
    if (rng_p(r, 15)) for (int i = size - 1; i > 0; i--) { int j = rng_int(r, 0, i), t = b->lid[i]; b->lid[i] = b->lid[j]; b->lid[j] = t; } /* members in another order than their location ids */
    inst->mylocationid = rng_p(r, 80) ? b->lid[rng_int(r, 0, size - 1)] : lid + 1; inst->locations = lid + 2;
    b->g->size = size; for (int i = 0; i < size; i++) b->g->locationid[i] = b->lid[i]; b->g->myid = mygid(b);
    uint64_t sig = (uint64_t)size; int ops = rng_int(r, 2, 14);
    for (int o = 0; o < ops && n < 24; o++) {
        MG* m = &M[n]; MG* p = &M[rng_int(r, 0, n - 1)]; memset(m, 0, sizeof *m); int op = rng_int(r, 0, 9); char what[80];
        if (op <= 4) { int list[200], len = 0; bool gone[64] = { 0 }; int pct = rng_int(r, 0, 70);
            for (int i = 0; i < p->n; i++) if (rng_p(r, pct)) { gone[i] = true; list[len++] = i; if (rng_p(r, 10)) list[len++] = i; }
            for (int i = len - 1; i > 0; i--) { int j = rng_int(r, 0, i), t = list[i]; list[i] = list[j]; list[j] = t; }
            for (int i = 0; i < p->n; i++) if (!gone[i]) m->lid[m->n++] = p->lid[i];
            m->g = laik_new_shrinked_group(p->g, len, list); sprintf(what, "group %d shrunk from group %d", n, (int)(p - M)); vh_count("shrinks", 1); if (len && m->n) vh_count("real_shrinks", 1);
            if (m->n > 0 && mygid(m) < 0) vh_count("leaver_view", 1);
        } else if (op == 5) { memcpy(m->lid, p->lid, sizeof m->lid); m->n = p->n; m->g = laik_clone_group(p->g); sprintf(what, "group %d cloned from group %d", n, (int)(p - M)); vh_count("clones", 1); }
        else { MG* q = &M[rng_int(r, 0, n - 1)]; sprintf(what, "group %d union of groups %d and %d", n, (int)(p - M), (int)(q - M)); vh_setwhere("groups world %d case %d, %s", world_no, case_no, what);
            MG u; u.n = 0; for (int i = 0; i < p->n; i++) u.lid[u.n++] = p->lid[i]; for (int i = 0; i < q->n; i++) if (pos(p, q->lid[i]) < 0) u.lid[u.n++] = q->lid[i];
            Laik_Group* g = laik_new_union_group(p->g, q->g); vh_count("unions", 1);
            if (laik_size(g) != u.n) FAIL("group-union", "%s has %d members, expected %d", what, laik_size(g), u.n);
            if (u.n == p->n || u.n == q->n) { MG* e = 0; if (g == p->g) e = p; else if (g == q->g) e = q; if (e) { chk(e, what); vh_count("union_existing", 1); continue; } }
            for (int i = 0; i < u.n; i++) for (int j = i + 1; j < u.n; j++) if (u.lid[j] < u.lid[i]) { int t = u.lid[i]; u.lid[i] = u.lid[j]; u.lid[j] = t; }
            memcpy(m->lid, u.lid, sizeof m->lid); m->n = u.n; m->g = g; chk(m, what); vh_count("union_new", 1);
            if (g->parent != p->g || g->parent2 != q->g) FAIL("group-parent", "%s has wrong parents", what);
            for (int i = 0; i < m->n; i++) { if (g->toParent[i] != pos(p, m->lid[i])) FAIL("group-map", "%s: process %d is %d in the first group, expected %d", what, i, g->toParent[i], pos(p, m->lid[i])); if (g->toParent2[i] != pos(q, m->lid[i])) FAIL("group-map", "%s: process %d is %d in the second group, expected %d", what, i, g->toParent2[i], pos(q, m->lid[i])); }
            for (int i = 0; i < p->n; i++) if (g->fromParent[i] != pos(m, p->lid[i])) FAIL("group-map", "%s: process %d of the first group is %d, expected %d", what, i, g->fromParent[i], pos(m, p->lid[i]));
            for (int i = 0; i < q->n; i++) if (g->fromParent2[i] != pos(m, q->lid[i])) FAIL("group-map", "%s: process %d of the second group is %d, expected %d", what, i, g->fromParent2[i], pos(m, q->lid[i]));
            n++; sig = hash_mix(sig, (uint64_t)m->n); continue; }
        vh_setwhere("groups world %d case %d, %s", world_no, case_no, what);
        chk(m, what); if (laik_group_parent(m->g) != p->g) FAIL("group-parent", "%s has wrong parent", what); if (laik_inst(m->g) != inst) FAIL("group-inst", "%s has wrong instance", what);
        for (int i = 0; i < m->n; i++) if (m->g->toParent[i] != pos(p, m->lid[i])) FAIL("group-map", "%s: process %d is process %d of the parent, expected %d", what, i, m->g->toParent[i], pos(p, m->lid[i]));
        for (int i = 0; i < p->n; i++) { int e = pos(m, p->lid[i]); if (e >= 0 ? m->g->fromParent[i] != e : m->g->fromParent[i] >= 0) FAIL("group-map", "%s: process %d of the parent is %d, expected %d", what, i, m->g->fromParent[i], e); }
        n++; sig = hash_mix(sig, (uint64_t)m->n * 50 + (uint64_t)(p - M)); for (int i = 0; i < m->n; i++) sig = hash_mix(sig, (uint64_t)m->lid[i]);
    }
    for (int i = 0; i < n; i++) { char w[60]; sprintf(w, "group %d after all operations", i); chk(&M[i], w); for (int j = 0; j < i; j++) if (M[i].g == M[j].g || M[i].g->gid == M[j].g->gid) FAIL("group-gid", "groups %d and %d have the same id", j, i); }
    if (n > 1 && size > 1) vh_sig(sig);
    for (int i = 0; i < n; i++) free(M[i].g);
    inst->group_count = keep; inst->mylocationid = myl; inst->locations = nloc;
}
