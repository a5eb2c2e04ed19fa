/* Agents (loaded from functions and from libraries) and program control against a model of what has to be called when. */
#include "gen.h"
#include "laik-internal.h"
#include "misc.h"
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>

typedef struct { Laik_Ft_Agent a; int kind, nfail, big, det, its, lastIt, asked; char uid[8][20]; int argc; char** argv; } Ag;
static Ag ag[16]; static int nag, detached[16], ndet, iters[16], niter;
static Laik_Agent* mk(int k, int argc, char** argv) { Ag* x = &ag[k]; x->argc = argc; x->argv = argv; if (k != nag) vh_fail("agent-load", "initialisation of agent %d runs as number %d", k, nag); nag++; return &x->a.base; }
#define A(k) static Laik_Agent* ini##k(int c, char** v) { return mk(k, c, v); } static void det##k(void) { detached[ndet++] = k; } static void it##k(const int i) { ag[k].its++; ag[k].lastIt = i; iters[niter++] = k; } \
  static int peek##k(void) { return ag[k].nfail; } static void get##k(int* n, node_uid_t* u) { ag[k].asked++; if (!ag[k].nfail) vh_fail("agent-failed", "agent %d asked although it has nothing to report", k); *n = ag[k].nfail; for (int i = 0; i < ag[k].nfail; i++) snprintf(u[i].uid, sizeof u[i].uid, "%d-%d", k, i); }
A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10)
#define L(f) { f##0, f##1, f##2, f##3, f##4, f##5, f##6, f##7, f##8, f##9, f##10 }
static laik_agent_init inis[] = L(ini); static laik_agent_detach dets[] = L(det); static laik_agent_set_iter its[] = L(it); static laik_agent_peek_failed peeks[] = L(peek); static laik_agent_get_failed gets[] = L(get);
static bool expectAbort; static int libDetached; /* counted through a pointer: the library may be gone */
static void on_abort(int s) { (void)s; if (expectAbort) { vh_count("too_many_refused", 1); vh_count("cases", 1); _exit(0); } }

void m_agent(Rng* r) {
    signal(SIGABRT, on_abort); setenv("LAIK_BACKEND", "single", 1); unsetenv("LAIK_LOG"); unsetenv("LAIK_LOG_FILE"); if (rng_p(r, 15)) setenv("LAIK_LOG", "1", 1); int ac = 1; char* av0[] = { "misc", 0 }; char** av = av0; Laik_Instance* inst = laik_init(&ac, &av);
    const char* so = getenv("AGENT_SIMPLE"), * so2 = getenv("AGENT_TEST"); char cfg[3][20]; char* args[3] = { cfg[0], cfg[1], 0 };
    struct { int what, k; } ord[12]; int no = 0; /* all agents in the order of loading: 0 function, 1 simple agent, 2 test library */
    bool simple = false; int failIter = 0, failTask = 0, iter = -1, aIter = 0; uint64_t sig = 3; int steps = rng_int(r, 3, 40);
    int phase = 0; const char* pname = 0; void* pdata = 0; bool pset = false; int curIter = 0; static const char* names[] = { "init", "compute", "output" };
    int* tlog = 0; int** tst = 0; bool tl = false;
    for (int s = 0; s < steps; s++) {
        int q = rng_int(r, 0, 99); sig = hash_mix(sig, (uint64_t)(q / 5));
        if (q < 30 && no < 10) { int w = rng_int(r, 0, 9);
            if (w < 7 || !so || !so2) { int k = nag; Ag* x = &ag[k]; x->kind = rng_int(r, 0, 3); static const Laik_Agent_Type ty[] = { LAIK_AGENT_FT, LAIK_AGENT_FT, LAIK_AGENT_DEFAULT, LAIK_AGENT_PROFILING }; x->a.base.type = ty[x->kind]; x->a.base.detach = rng_p(r, 85) ? dets[k] : 0; x->a.peekfail = peeks[k]; x->a.getfail = gets[k]; x->a.setiter = rng_p(r, 80) ? its[k] : 0; x->a.base.name = "stub";
                char* a1[] = { "x", "y", 0 }; int c = rng_int(r, 0, 2); char** v = c || rng_p(r, 50) ? a1 : 0; laik_ext_load_agent_from_function(inst, inis[k], c, v); if (nag != k + 1 || x->argc != c || x->argv != v) vh_fail("agent-load", "agent %d initialised %d times with %d arguments instead of %d", k, nag - k, x->argc, c); ord[no].what = 0; ord[no++].k = k; vh_count("function_agents", 1); }
            else if (w < 9 && !simple) { failIter = rng_int(r, 0, 20); failTask = rng_int(r, 0, 99); sprintf(cfg[0], "%d", failIter); sprintf(cfg[1], "%d", failTask); laik_ext_load_agent_from_file(inst, (char*)so, 2, args); simple = true; aIter = 0; ord[no++].what = 1; vh_count("library_agents", 1); }
            else if (!tl) { laik_ext_load_agent_from_file(inst, (char*)so2, 0, 0); tl = true; ord[no++].what = 2; void* h = dlopen(so2, RTLD_LAZY | RTLD_NOLOAD); if (!h) vh_fail("agent-load", "library is not loaded"); tlog = dlsym(h, "counts"); tst = dlsym(h, "mark"); *tst = &libDetached; dlclose(h); if (tlog[0] != 1) vh_fail("agent-load", "agent of library initialised %d times", tlog[0]); vh_count("library_agents", 1); } }
        else if (q < 50) { iter = rng_int(r, -2, 30); niter = 0; int before[16]; for (int i = 0; i < nag; i++) before[i] = ag[i].its; int tb = tl ? tlog[1] : 0; laik_set_iteration(inst, iter); curIter = iter; int e = 0; for (int i = 0; i < no; i++) if (ord[i].what == 0) { Ag* x = &ag[ord[i].k]; bool should = x->a.base.type == LAIK_AGENT_FT && x->a.setiter; if (x->its - before[ord[i].k] != should || (should && x->lastIt != iter)) vh_fail("agent-iter", "agent %d told %d times about iteration %d (expected %d)", ord[i].k, x->its - before[ord[i].k], iter, should); if (should && iters[e++] != ord[i].k) vh_fail("agent-iter", "agents told in wrong order"); }
            if (tl && (tlog[1] != tb + 1 || tlog[2] != iter)) vh_fail("agent-iter", "agent of library told %d times, value %d", tlog[1] - tb, tlog[2]);
            if (simple) aIter = iter; vh_count("iterations", 1); }
        else if (q < 65 && inst->repart_ctrl) { for (int i = 0; i < nag; i++) { ag[i].nfail = rng_p(r, 50) ? 0 : rng_p(r, 10) ? rng_int(r, 30, 40) : rng_int(r, 1, 5); }
            static node_uid_t out[200]; char wantu[200][20]; int nw = 0, max = rng_p(r, 50) ? 150 : rng_int(r, 0, 12); memset(out, 0x5a, sizeof out);
            for (int i = 0; i < no; i++) if (ord[i].what == 0) { Ag* x = &ag[ord[i].k]; if (x->a.base.type == LAIK_AGENT_FT) for (int j = 0; j < x->nfail; j++) if (nw < 200) sprintf(wantu[nw++], "%d-%d", ord[i].k, j); } else if (ord[i].what == 1) { if (aIter >= failIter && nw < 200) sprintf(wantu[nw++], "%d", failTask); } else if (tlog[3]) { if (nw < 200) strcpy(wantu[nw++], "node-of-library"); }
            int n = -77; if (nw > 199) continue; int full = nw; if (nw > max) { nw = max; vh_count("failed_truncated", 1); }
            laik_get_failed(inst, &n, out, max); if (n != nw) vh_fail("agent-failed", "%d failed nodes reported, agents know %d (space for %d)", n, full, max);
            for (int i = 0; i < nw; i++) if (strcmp(out[i].uid, wantu[i])) vh_fail("agent-failed", "failed node %d reported as '%.20s', expected '%s'", i, out[i].uid, wantu[i]);
            for (int i = max; i < 200; i++) for (unsigned j = 0; j < sizeof out[i].uid; j++) if (out[i].uid[j] != 0x5a) vh_fail("agent-failed", "entry %d written although there is space for %d only", i, max);
            vh_count("failed_queries", 1); vh_count("failed_nodes", (uint64_t)nw); if (tl) tlog[3] = !tlog[3]; }
        else if (q < 80) { phase = rng_int(r, -3, 40); pname = names[rng_int(r, 0, 2)]; pdata = (void*)(size_t)rng_u64(r); laik_set_phase(inst, phase, pname, pdata); pset = true; vh_count("phases", 1); }
        else if (q < 86) { laik_iter_reset(inst); curIter = 0; }
        if (laik_get_iteration(inst) != curIter) vh_fail("iteration", "current iteration is %d, set to %d", laik_get_iteration(inst), curIter);
        if (pset) { int p = -9; const char* nm = 0; void* d = 0; laik_get_phase(inst, &p, &nm, &d); if (p != phase || nm != pname || d != pdata) vh_fail("phase", "current phase is %d '%s', set to %d '%s'", p, nm ? nm : "", phase, pname); }
    }
    if (no == 10 && nag < 11 && rng_p(r, 70)) { expectAbort = true; laik_ext_load_agent_from_function(inst, inis[nag], 0, 0); expectAbort = false; vh_fail("agent-limit", "an agent beyond the limit was accepted"); }
    if (no) vh_sig(sig);
    bool direct = inst->repart_ctrl && rng_p(r, 30); if (direct) laik_ext_cleanup(inst); else laik_finalize(inst);
    int e = 0; for (int i = 0; i < no; i++) if (ord[i].what == 0 && ag[ord[i].k].a.base.detach) { if (e >= ndet || detached[e] != ord[i].k) vh_fail("agent-detach", "agents detached in the wrong order or not at all (%d of them detached, next should be %d)", ndet, ord[i].k); e++; }
    if (e != ndet) vh_fail("agent-detach", "%d agents detached, %d expected", ndet, e);
    if (tl && libDetached != 1) vh_fail("agent-detach", "agent of library detached %d times", libDetached);
    if (direct && inst->repart_ctrl) vh_fail("agent-detach", "agents still registered after cleanup");
    for (int i = 0; i < 2; i++) if ((i ? tl : simple) && dlopen(i ? so2 : so, RTLD_LAZY | RTLD_NOLOAD)) vh_fail("agent-unload", "library of agent is still loaded");
    vh_count("agents_detached", (uint64_t)ndet);
}
