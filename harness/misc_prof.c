/* Profiling under a virtual clock: time passes only where the harness lets it pass (in the backend, in partitioner runs,
 * in the application), so that every reported time span has exactly one right value. */
#include "gen.h"
#include "laik-internal.h"
#include "misc.h"
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

static int64_t vnow = 1700000000000000ll; /* microseconds */
static int64_t inBackend, inPart; static uint64_t execs, syncs;
int __real_gettimeofday(struct timeval* tv, void* tz);
static bool virt;
int __wrap_gettimeofday(struct timeval* tv, void* tz) { if (!virt) return __real_gettimeofday(tv, tz); tv->tv_sec = vnow / 1000000; tv->tv_usec = vnow % 1000000; return 0; }
static Rng* R;
static int64_t tick(void) { int64_t t = rng_p(R, 20) ? rng_int(R, 1000000, 90000000) : rng_int(R, 1, 5000); vnow += t; return t; }
static void f_exec(Laik_ActionSeq* as) { (void)as; inBackend += tick(); execs++; }
static void f_sync(Laik_KVStore* s) { (void)s; inBackend += tick(); syncs++; }
static void f_part(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    inPart += tick(); int n = p->group->size, k = *(int*)p->partitioner->data; int64_t l = (int64_t)laik_space_size(p->space); Laik_Range g;
    for (int i = 0; i < n; i++) { laik_range_init_1d(&g, p->space, l * i / n, l * (i + 1) / n); if (g.from.i[0] < g.to.i[0]) laik_append_range(r, (i + k) % n, &g, 0, 0); }
}
typedef struct { char* buf; size_t n; } Str;
static Str want[3]; static int cur = -1; static const char* fn[3] = { "prof", "prof2", "log" };
static void put(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void put(const char* fmt, ...) { char* t; va_list a; va_start(a, fmt); int k = vasprintf(&t, fmt, a); va_end(a); if (cur >= 0) { Str* s = &want[cur]; s->buf = realloc(s->buf, s->n + (size_t)k + 1); memcpy(s->buf + s->n, t, (size_t)k + 1); s->n += (size_t)k; } free(t); }
/* numbers of seconds come from the real clock: '#' in the expected text stands for digits */
static bool match(const char* w, const char* g) { while (*w) { if (*w == '#') { if (*g < '0' || *g > '9') return false; while (*g >= '0' && *g <= '9') g++; w++; continue; } if (*w != *g) return false; w++; g++; } return !*g; }
extern char* __progname;

void m_prof(Rng* r) {
    R = r; virt = true; setenv("LAIK_BACKEND", "single", 1); unsetenv("LAIK_LOG"); unsetenv("LAIK_LOG_FILE"); int ac = 1; char* av0[] = { "misc", 0 }; char** av = av0; Laik_Instance* inst = laik_init(&ac, &av);
    Laik_Backend be = *inst->backend; be.exec = f_exec; be.sync = f_sync; inst->backend = &be;
    int n = rng_int(r, 2, 5); Laik_Group* g = laik_create_group(inst, 8); g->size = n; g->myid = rng_int(r, 0, n - 1); for (int i = 0; i < 8; i++) g->locationid[i] = i < n ? i : -1;
    Laik_Space* sp = laik_new_space_1d(inst, rng_int(r, 1, 40)); Laik_Data* d = laik_new_data(sp, laik_Int32); Laik_KVStore* kv = laik_kvs_new("store", inst);
    int ks[4] = { 0, 1, 0, 1 }; Laik_Partitioning* P[40]; int np = 0; Laik_Partitioner* pr[4]; for (int i = 0; i < 4; i++) pr[i] = laik_new_partitioner("p", f_part, &ks[i], 0);
    P[np++] = laik_new_partitioning(pr[0], g, sp, 0); Laik_Transition* tr[60]; Laik_ActionSeq* as[60]; int nt = 0; int active = -1;
    bool on = false; int64_t total = 0, back = 0, user = 0, userSum = 0, ustart = -1; int ph = 0, it = 0; uint64_t sig = 7;
    int steps = rng_int(r, 5, 60);
    for (int s = 0; s < steps; s++) {
        int q = rng_int(r, 0, 99); sig = hash_mix(sig, (uint64_t)q);
        int64_t t0 = vnow, b0 = inBackend; bool laik = false;
        if (q < 12) { tick(); vh_count("app_time", 1); }
        else if (q < 34) { int k = rng_int(r, 0, 9); laik = true;
            if (np < 40 && rng_p(r, 40)) P[np++] = laik_new_partitioning(pr[rng_int(r, 0, 3)], g, sp, 0);
            int to = rng_int(r, 0, np - 1); t0 = vnow; b0 = inBackend;
            if (k < 5 || active < 0) { laik_switchto_partitioning(d, P[to], active < 0 || rng_p(r, 30) ? LAIK_DF_None : LAIK_DF_Preserve, LAIK_RO_None); active = to; }
            else if (k < 6) { laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None); active = -1; }
            else if (k < 7) { laik_switchto_flow(d, LAIK_DF_Init, LAIK_RO_Sum); }
            else if (nt < 60) { tr[nt] = laik_calc_transition(sp, P[active], P[to], LAIK_DF_Preserve, LAIK_RO_None); as[nt] = 0; if (tr[nt]) { if (rng_p(r, 50)) as[nt] = laik_calc_actions(d, tr[nt], 0, 0); t0 = vnow; b0 = inBackend; if (as[nt]) laik_exec_actions(as[nt]); else laik_exec_transition(d, tr[nt]); active = to; nt++; } else { t0 = vnow; b0 = inBackend; } }
            vh_count("switches", 1); }
        else if (q < 40) { laik = true; char k[8], v[8]; sprintf(k, "k%d", s); sprintf(v, "v%d", s); laik_kvs_sets(kv, k, v); laik_kvs_sync(kv); vh_count("kvs_syncs", 1); }
        else if (q < 47) { laik_enable_profiling(inst); if (!on) { on = true; total = back = user = userSum = 0; } }
        else if (q < 51) { laik_enable_profiling(0); on = false; }
        else if (q < 55) { laik_reset_profiling(inst); if (on) total = back = user = userSum = 0; }
        else if (q < 62) { int f = rng_int(r, 0, 3); if (!on) { user = userSum = 0; } on = true; total = back = 0; if (cur >= 0) put("======MEASUREMENT END AT: #======\n"); cur = -1; laik_enable_profiling_file(inst, f < 3 ? fn[f] : "nodir/x"); if (f < 3) { cur = f; put("======MEASUREMENT START AT: #======\n======Application %s======\n", __progname); vh_count("files_opened", 1); } else vh_count("unopenable_files", 1); }
        else if (q < 66) { laik_close_profiling_file(inst); put("======MEASUREMENT END AT: #======\n"); cur = -1; }
        else if (q < 74) { if (on && cur >= 0) { put("%s, %d, %d, %f, %f, ", "0", ph, it, (double)total * 1e-6, (double)back * 1e-6); put("~%f|%f~\n", (double)user * 1e-6, (double)userSum * 1e-6); vh_count("records", 1); } laik_writeout_profile(); }
        else if (q < 80) { int x = rng_int(r, -99, 99); if (on && cur >= 0) put("text %d %s\n", x, "abc"); laik_profile_printf("text %d %s\n", x, "abc"); }
        else if (q < 86) { laik_profile_user_start(inst); if (on) ustart = vnow; }
        else if (q < 92) { laik_profile_user_stop(inst); if (on && ustart >= 0) { user = vnow - ustart; userSum += user; ustart = -1; } }
        else if (q < 96) { it = rng_int(r, 0, 50); laik_set_iteration(inst, it); }
        else { ph = rng_int(r, 0, 50); laik_set_phase(inst, ph, "phase", 0); }
        if (laik && on) { total += vnow - t0; back += inBackend - b0; if (inBackend != b0) vh_count("measured_backend", 1); if (vnow - t0 != inBackend - b0) vh_count("measured_other", 1); }
        double gt = laik_get_total_time(), gb = laik_get_backend_time(), wt = on ? (double)total * 1e-6 : 0, wb = on ? (double)back * 1e-6 : 0; vh_count("time_checks", 1);
        if (fabs(gt - wt) > 1e-5 + 1e-9 * wt) vh_fail("prof-total", "step %d (kind %d): total time is %f, expected %f", s, q, gt, wt);
        if (fabs(gb - wb) > 1e-5 + 1e-9 * wb) vh_fail("prof-backend", "step %d (kind %d): backend time is %f, expected %f", s, q, gb, wb);
    }
    bool wasOpen = cur >= 0; if (wasOpen) put("======MEASUREMENT END AT: #======\n");
    laik_finalize(inst);
    if (laik_get_total_time() != 0 || laik_get_backend_time() != 0) vh_fail("prof-end", "times are reported after the end");
    laik_writeout_profile(); laik_profile_printf("x\n");
    for (int f = 0; f < 3; f++) { int fd = open(fn[f], O_RDONLY); if (fd < 0) { if (want[f].n) vh_fail("prof-file", "file '%s' was not written", fn[f]); continue; } size_t k; char* b = slurp(fd, &k); close(fd);
        if (!want[f].n) vh_fail("prof-file", "unexpected file '%s'", fn[f]);
        /* line by line; the user time of a record may be that of the last interval or the sum since start */
        char* w = want[f].buf, * o = b; int line = 0; while (*w) { char* we = strchr(w, '\n'), * oe = strchr(o, '\n'); line++; if (!oe) vh_fail("prof-file", "file '%s': line %d '%.*s' is missing", fn[f], line, (int)(we - w), w); *we = *oe = 0; char* alt = strchr(w, '~'); bool ok;
            if (alt) { char x[600]; char* bar = strchr(alt, '|'); char a1[60], a2[60]; snprintf(a1, sizeof a1, "%.*s", (int)(bar - alt - 1), alt + 1); snprintf(a2, sizeof a2, "%.*s", (int)(strlen(bar) - 2), bar + 1); double gx[3], wx[2]; int q1 = 0, q2 = 0; char gid[300], wid[300]; (void)x; int i1, i2, j1, j2; *alt = 0;
                ok = sscanf(o, "%299[^,], %d, %d, %lf, %lf, %lf%n", gid, &i1, &i2, &gx[0], &gx[1], &gx[2], &q1) == 6 && !o[q1] && sscanf(w, "%299[^,], %d, %d, %lf, %lf, %n", wid, &j1, &j2, &wx[0], &wx[1], &q2) == 5 && !strcmp(gid, wid) && i1 == j1 && i2 == j2 && fabs(gx[0] - wx[0]) < 2e-5 && fabs(gx[1] - wx[1]) < 2e-5 && (fabs(gx[2] - atof(a1)) < 2e-5 || fabs(gx[2] - atof(a2)) < 2e-5); *alt = '~'; }
            else ok = match(w, o);
            if (!ok) vh_fail("prof-file", "file '%s' line %d is '%.200s', expected '%.200s'", fn[f], line, o, w);
            w = we + 1; o = oe + 1; }
        if (*o) vh_fail("prof-file", "file '%s' has extra text '%.200s'", fn[f], o);
        vh_count("files_compared", 1); free(b); }
    if (execs + syncs > 0) vh_sig(sig);
}
