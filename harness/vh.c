#define _GNU_SOURCE
#include "vh.h"
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <errno.h>
#include <fcntl.h>

char vh_where[512];
VhArgs vh_args = { 1, 1, 10, 0, 0, -1, 0, "" };
typedef struct { char name[48]; uint64_t v; } Ctr;
#define NCTR 200
typedef struct { int lock; int n; int nsamples; Ctr c[NCTR]; } Shared;
static Shared* sh;
static int out_fd = 1; /* own copy: LAIK_LOG_FILE redirects stdout */

static void out(const char* buf, size_t len) {
    while (len > 0) { ssize_t k = write(out_fd, buf, len); if (k < 0) { if (errno == EINTR) continue; break; } buf += k; len -= (size_t)k; }
}
void vh_init(void) { if (!sh) { sh = mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { perror("mmap"); exit(3); } int d = fcntl(1, F_DUPFD_CLOEXEC, 100); if (d >= 0) out_fd = d; } }
static void lk(void) { while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) usleep(1); }
static void ul(void) { __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE); }
static Ctr* ctr(const char* name) {
    int n = __atomic_load_n(&sh->n, __ATOMIC_ACQUIRE);
    for (int i = 0; i < n; i++) if (!strcmp(sh->c[i].name, name)) return &sh->c[i];
    lk();
    for (int i = 0; i < sh->n; i++) if (!strcmp(sh->c[i].name, name)) { ul(); return &sh->c[i]; }
    if (sh->n >= NCTR) { ul(); fprintf(stderr, "too many counters\n"); _exit(3); }
    Ctr* c = &sh->c[sh->n]; snprintf(c->name, sizeof c->name, "%s", name); c->v = 0;
    __atomic_store_n(&sh->n, sh->n + 1, __ATOMIC_RELEASE); ul(); return c;
}
void vh_count(const char* name, uint64_t add) { __atomic_fetch_add(&ctr(name)->v, add, __ATOMIC_RELAXED); }
uint64_t vh_getcount(const char* name) { return __atomic_load_n(&ctr(name)->v, __ATOMIC_RELAXED); }
void vh_setwhere(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(vh_where, sizeof vh_where, fmt, a); va_end(a); }
static void vline(const char* pre, const char* fmt, va_list a) {
    char b[3000]; int n = snprintf(b, sizeof b, "%s", pre);
    int k = vsnprintf(b + n, sizeof(b) - (size_t)n - 1, fmt, a); if (k < 0) k = 0;
    n += k; if (n > (int)sizeof(b) - 2) n = (int)sizeof(b) - 2;
    for (int i = 0; i < n; i++) if (b[i] == '\n' || b[i] == '\r') b[i] = ' ';
    b[n++] = '\n'; out(b, (size_t)n);
}
void vh_line(const char* fmt, ...) { va_list a; va_start(a, fmt); vline("", fmt, a); va_end(a); }
void vh_fail(const char* key, const char* fmt, ...) {
    char pre[700]; snprintf(pre, sizeof pre, "V %s [%s] ", key, vh_where);
    va_list a; va_start(a, fmt); vline(pre, fmt, a); va_end(a); _exit(77);
}
void vh_sig(uint64_t h) { char b[32]; int n = snprintf(b, sizeof b, "S %016llx\n", (unsigned long long)h); out(b, (size_t)n); }
void vh_sample(const char* fmt, ...) {
    if (__atomic_fetch_add(&sh->nsamples, 1, __ATOMIC_RELAXED) >= 3) return;
    va_list a; va_start(a, fmt); vline("X ", fmt, a); va_end(a); }
extern unsigned long vh_cut_reads __attribute__((weak)), vh_cut_writes __attribute__((weak));
void vh_finish(void) { if (&vh_cut_reads && vh_cut_reads + vh_cut_writes) { vh_line("N cut_reads %lu", vh_cut_reads); vh_line("N cut_writes %lu", vh_cut_writes); }
    for (int i = 0; i < sh->n; i++) vh_line("N %s %llu", sh->c[i].name, (unsigned long long)sh->c[i].v); vh_line("D"); }
void vh_parse(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        const char* k = argv[i]; const char* v = argv[i+1];
        if (!strcmp(k, "--seed")) vh_args.seed = strtoull(v, 0, 10);
        else if (!strcmp(k, "--worlds")) vh_args.worlds = atoi(v);
        else if (!strcmp(k, "--cases")) vh_args.cases = atoi(v);
        else if (!strcmp(k, "--n")) vh_args.n = atoi(v);
        else if (!strcmp(k, "--from")) vh_args.from = atoi(v);
        else if (!strcmp(k, "--only")) vh_args.only = atoi(v);
        else if (!strcmp(k, "--verbose")) vh_args.verbose = atoi(v);
        else if (!strcmp(k, "--mode")) vh_args.mode = v;
        else { fprintf(stderr, "unknown option %s\n", k); exit(3); }
    }
}
