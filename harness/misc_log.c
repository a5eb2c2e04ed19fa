#include "gen.h"
#include "laik-internal.h"
#include "misc.h"
#include "logmon.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <inttypes.h>

static char* text; static char fileName[100]; static bool toFile, panicking;
static const char* gentext(Rng* r) {
    static char b[20000]; size_t n = 0; int style = rng_int(r, 0, 9); size_t want = (size_t)(style < 4 ? rng_int(r, 0, 60) : style < 7 ? rng_int(r, 60, 400) : style < 9 ? rng_int(r, 400, 3000) : rng_int(r, 3000, 9000));
    while (n < want) { int q = rng_int(r, 0, 99);
        if (q < 55) { int l = q < 50 ? rng_int(r, 1, 12) : q < 54 ? rng_int(r, 12, 120) : rng_int(r, 120, 900); while (l-- > 0) b[n++] = (char)(rng_p(r, 5) ? '%' : rng_p(r, 5) ? '\\' : rng_int(r, 33, 126)); }
        else if (q < 93) b[n++] = ' '; else if (q < 96) { int l = rng_int(r, 2, rng_p(r, 10) ? 150 : 8); while (l-- > 0) b[n++] = ' '; }
        else b[n++] = '\n'; }
    if (rng_p(r, 20)) b[n++] = '\n';
    b[n] = 0; return b;
}
static void finish_case(const char* how) {
    fflush(0); int fd = toFile ? open(fileName, O_RDONLY) : 2; size_t n, m; if (fd < 0) vh_fail("log-file", "log file was not created"); char* b = slurp(fd, &n);
    if (toFile) { char* e = slurp(2, &m); if (m) vh_fail("log-file", "output on standard error although a log file is used: '%.200s'", e); }
    if (panicking) { /* assert prints its own line after the message */
        char* a = 0; for (char* q = b; (q = strstr(q, "Assertion `")); q++) a = q; if (!a) vh_fail("log-panic", "no assertion after panic"); while (a > b && a[-1] != '\n') a--; n = (size_t)(a - b); }
    unsigned k = logmon_messages(); if (k) vh_sig(hash_mix(hash_mix((uint64_t)n, k), (uint64_t)b[n / 2])); logmon_check(b, n); vh_count(how, 1); if (toFile) vh_count("log_files", 1); vh_count("log_bytes", n);
}
static void on_abort(int s) { (void)s; if (!panicking) return; signal(SIGABRT, SIG_DFL); finish_case("panics"); vh_count("cases", 1); _exit(0); }
static void expect(const char* what, const char* want) { vh_count("debug_texts", 1); if (strcmp(logmon_text(), want)) vh_fail("log-debug", "%s logged as '%.200s', expected '%.200s'", what, logmon_text(), want); }
static int64_t big(Rng* r) { int64_t v = (int64_t)rng_u64(r) >> rng_int(r, 1, 60); return v; }
static void debug_objects(Rng* r, Laik_Instance* inst, int lv) {
    char w[400]; int dims = rng_int(r, 1, 3); Box b; b.dims = dims; for (int d = 0; d < 3; d++) { b.f[d] = d < dims ? big(r) : 0; b.t[d] = d < dims ? b.f[d] + rng_int(r, 1, 9) : 1; }
    Laik_Space* s = gen_space(inst, &b); if (!laik_log_begin(lv)) return;
    switch (rng_int(r, 0, 6)) {
    case 0: { int k = 0; for (int d = 0; d < dims; d++) k += sprintf(w + k, "%s[%" PRId64 ";%" PRId64 "[", d ? " x " : "", b.f[d], b.t[d]); laik_log_Space(s); expect("space", w); break; }
    case 1: { Laik_Index x = { { b.f[0], b.f[1], b.f[2] } }; int k = 0; for (int d = 0; d < dims; d++) k += sprintf(w + k, "%s%" PRId64, d ? "/" : "", b.f[d]); laik_log_Index(dims, &x); expect("index", w); break; }
    case 2: { Laik_Range g; memset(&g, 0, sizeof g); g.space = s; bool e = false; for (int d = 0; d < dims; d++) { g.from.i[d] = b.f[d] + rng_int(r, 0, 3); g.to.i[d] = g.from.i[d] + rng_int(r, rng_p(r, 30) ? 0 : 1, 5); if (g.to.i[d] <= g.from.i[d]) e = true; }
        int k = sprintf(w, "["); for (int d = 0; d < dims; d++) k += sprintf(w + k, "%s%" PRId64, d ? "/" : "", g.from.i[d]); k += sprintf(w + k, ";"); for (int d = 0; d < dims; d++) k += sprintf(w + k, "%s%" PRId64, d ? "/" : "", g.to.i[d]); sprintf(w + k, "["); laik_log_Range(&g); expect("range", e ? "(empty)" : w); break; }
    case 3: { int l[20], n = rng_int(r, 0, 20), k = sprintf(w, "["); for (int i = 0; i < n; i++) { l[i] = (int)big(r); k += sprintf(w + k, "%s%d", i ? ", " : "", l[i]); } sprintf(w + k, "]"); laik_log_IntList(n, l); expect("list", w); break; }
    case 4: { uint64_t v = (uint64_t)big(r) & INT64_MAX; v %= 5000000000000ull; double x = (double)v; if (x > 1e9) sprintf(w, "%.1f G", x / 1e9); else if (x > 1e6) sprintf(w, "%.1f M", x / 1e6); else if (x > 1e3) sprintf(w, "%.1f K", x / 1e3); else sprintf(w, "%.0f ", x); laik_log_PrettyInt(v); expect("number", w); break; }
    case 5: { static const Laik_ReductionOperation o[] = { LAIK_RO_None, LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or, LAIK_RO_Any }; static const char* n[] = { "-", "sum", "prod", "min", "max", "bitwise and", "bitwise or", "any" }; int i = rng_int(r, 0, 7); laik_log_Reduction(o[i]); expect("reduction", n[i]); break; }
    default: { static const char* n[] = { "-", "preserve", "init" }; int i = rng_int(r, 0, 2); laik_log_DataFlow((Laik_DataFlow)i); expect("flow", n[i]); break; }
    }
    laik_log_flush(rng_p(r, 50) ? "\n" : 0);
}
/* a group of several processes seen by one of them: partitionings, transitions and action sequences of all kinds are logged */
static void debug_parts(Rng* r, Laik_Instance* inst, int lv) {
    Box b = gen_box(r, rng_int(r, 1, 3), 12, true); int n = rng_int(r, 1, 6); Laik_Group* g = laik_create_group(inst, 64); g->size = n; g->myid = rng_int(r, 0, n - 1); for (int i = 0; i < 64; i++) { g->locationid[i] = i < n ? i : -1; }
    Laik_Space* sp = gen_space(inst, &b); Spec s[2]; for (int i = 0; i < 2; i++) { gen_spec(r, &b, n, -1, true, -1, &s[i]); spec_make(&s[i], g, sp, i ? "second" : "first"); if (rng_p(r, 50)) laik_partitioning_store_allranges(s[i].p); else if (rng_p(r, 50)) laik_partitioning_store_myranges(s[i].p); }
    if (rng_p(r, 30) && b.dims == 1) { laik_partitioning_store_myranges(s[1].p); laik_partitioning_store_intersectranges(s[0].p, s[1].p); }
    if (laik_log_begin(lv)) { laik_log_Partitioning(rng_p(r, 10) ? 0 : s[0].p); laik_log_flush(0); }
    Laik_ReductionOperation red = b.dims == 1 && (s[0].multi || rng_p(r, 50)) ? (Laik_ReductionOperation)rng_int(r, LAIK_RO_Sum, LAIK_RO_Or) : LAIK_RO_None;
    Laik_DataFlow fl = rng_p(r, 70) ? LAIK_DF_Preserve : red != LAIK_RO_None ? LAIK_DF_Init : LAIK_DF_None; if (fl == LAIK_DF_None) red = LAIK_RO_None;
    if (fl == LAIK_DF_Preserve && s[0].multi && b.dims > 1) { for (int i = 0; i < 2; i++) spec_free(&s[i], true); return; }
    Laik_Transition* t = laik_calc_transition(sp, s[0].p, s[1].p, fl, red); if (laik_log_begin(lv)) { laik_log_Transition(rng_p(r, 5) ? 0 : t, rng_p(r, 80)); laik_log_flush("\n"); }
    vh_count("debug_transitions", 1); laik_free_transition(t); for (int i = 0; i < 2; i++) spec_free(&s[i], true);
}
void m_log(Rng* r) {
    char e[100]; unsetenv("LAIK_LOG"); unsetenv("LAIK_LOG_FILE"); signal(SIGABRT, on_abort); bool badFile = false;
    if (rng_p(r, 85)) { int k = 0; if (rng_p(r, 20)) e[k++] = 'n'; else if (rng_p(r, 30)) e[k++] = 's'; k += sprintf(e + k, "%d", rng_int(r, 1, 5)); if (rng_p(r, 50)) { int f = rng_int(r, 0, 6); k += sprintf(e + k, ":%d", f); if (rng_p(r, 50)) k += sprintf(e + k, "-%d", f + rng_int(r, 0, 5)); } e[k] = 0; setenv("LAIK_LOG", e, 1); }
    if (rng_p(r, 40)) { toFile = true; snprintf(fileName, sizeof fileName, "log"); if (rng_p(r, 10)) { strcpy(fileName, "nodir/log"); badFile = true; toFile = false; } setenv("LAIK_LOG_FILE", fileName, 1); }
    logmon_start(); setenv("LAIK_BACKEND", "single", 1);
    int n = rng_int(r, 3, 40), early = rng_p(r, 30) ? rng_int(r, 1, 5) : 0, fin = rng_p(r, 50) ? rng_int(r, 0, n) : n + 1; Laik_Instance* inst = 0; bool fileMsg = false; (void)badFile; (void)fileMsg; (void)text;
    if (early) { int l = rng_p(r, 10) ? 90 : rng_int(r, 0, 30); char loc[100]; for (int i = 0; i < l; i++) loc[i] = (char)rng_int(r, 'a', 'z'); loc[l] = 0; laik_log_init_loc(loc); }
    for (int i = -early; i < n; i++) {
        if (i == 0) { int ac = 1; char* av0[] = { "misc", 0 }; char** av = av0; inst = laik_init(&ac, &av); if (rng_p(r, 60)) { inst->mylocationid = rng_int(r, 0, rng_p(r, 20) ? 200 : 6); } }
        int lv = rng_int(r, 1, 4), q = rng_int(r, 0, 99);
        if (q < 40) laik_log(lv, "%s", gentext(r));
        else if (q < 60) { bool s = laik_log_begin(lv); if (s || rng_p(r, 50)) { int k = rng_int(r, 0, 12); for (int j = 0; j < k; j++) { if (rng_p(r, 50)) laik_log_append("%s", gentext(r)); else laik_log_append("%d %5.2f|%s|%c", (int)rng_u64(r), (double)rng_int(r, 0, 1000), "abc", 'x'); } } if (rng_p(r, 70)) laik_log_flush("%s\n", gentext(r)); else laik_log_flush(0); }
        else if (q < 75 && inst) debug_objects(r, inst, lv);
        else if (q < 82 && inst && i < fin) debug_parts(r, inst, lv);
        else if (q < 88) laik_log_inc();
        else if (q < 91 && inst && i <= fin) { if (rng_p(r, 50)) laik_set_iteration(inst, rng_int(r, 0, 100)); else laik_set_phase(inst, rng_int(r, 0, 9), "ph", 0); }
        else if (q < 95) laik_set_loglevel(rng_int(r, 1, 5));
        else laik_log(lv, "%s %d %" PRIu64 " %s", "numbers", i, rng_u64(r), gentext(r));
        if (i == fin) { inst->mylocationid = 0; laik_finalize(inst); vh_count("after_finalize", 1); }
    }
    if (rng_p(r, 25)) { panicking = true; if (rng_p(r, 50)) laik_panic(gentext(r)); else laik_log(LAIK_LL_Panic, "%s", gentext(r)); panicking = false; if (1) vh_fail("log-panic", "the program continues after a panic"); }
    finish_case("regular_ends");
}
