/* Single-process monitors for the index space, partitioning, layout, container and type layers.
 * The real library code runs with the single-process backend; groups of any size are simulated by giving
 * the process every process id in turn. Each mode judges one property against an independent model. */
#include "gen.h"
#include "laik-internal.h"
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <errno.h>
#include "units.h"

Laik_Instance* inst;
Laik_Group* grp[8];
int world_no, case_no;
const char* mode;

static void sig_abort(int s) { (void)s; char b[700]; int n = snprintf(b, sizeof b, "at [%s]\n", vh_where); if (write(2, b, (size_t)n) < 0) {} }
Laik_Group* use_group(int k, int size, int myid) {
    if (!grp[k]) grp[k] = laik_create_group(inst, 64);
    Laik_Group* g = grp[k]; g->size = size; g->myid = myid; g->parent = 0; g->parent2 = 0;
    for (int i = 0; i < 64; i++) { g->locationid[i] = i < size ? i : -1; g->toParent[i] = g->fromParent[i] = -1; }
    return g;
}
static struct { const char* name; void (*f)(Rng*); } modes[] = {
    { "cover", m_cover }, { "shape", m_shape }, { "list", m_list }, { "canon", m_canon }, { "alg", m_alg }, { "filter", m_filter },
    { "layout", m_layout }, { "access", m_access }, { "alloc", m_alloc }, { "types", m_types }, { "migrate", m_migrate }, { "groups", m_groups }, { 0, 0 } };

int main(int argc, char** argv) {
    vh_init(); vh_parse(argc, argv); signal(SIGABRT, sig_abort);
    mode = vh_args.mode;
    int k = 0; while (modes[k].name && strcmp(modes[k].name, mode)) k++;
    if (!modes[k].name) { fprintf(stderr, "unknown mode\n"); return 3; }
    setenv("LAIK_BACKEND", "single", 1);
    int ac = 1; char* av0[] = { "units", 0 }; char** av = av0;
    inst = laik_init(&ac, &av);
    for (world_no = vh_args.from; world_no < vh_args.from + vh_args.worlds; world_no++)
        for (case_no = 0; case_no < vh_args.cases; case_no++) {
            if (vh_args.only >= 0 && case_no != vh_args.only) continue;
            Rng r = rng_make(vh_args.seed * 1000003 + (uint64_t)world_no, (uint64_t)case_no * 77 + (uint64_t)k);
            vh_setwhere("%s world %d case %d", mode, world_no, case_no);
            modes[k].f(&r); vh_count("cases", 1);
        }
    vh_finish();
    return 0;
}
