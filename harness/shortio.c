/* Transfers over sockets may be cut anywhere: read() and write() of the library handle fewer bytes than asked for.
 * VH_SHORTIO=p: p percent of the calls on sockets are cut (or delayed); linked with --wrap=read,--wrap=write. */
#include <unistd.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/stat.h>
ssize_t __real_read(int fd, void* b, size_t n);
ssize_t __real_write(int fd, const void* b, size_t n);
static int pct = -1; static uint64_t st; unsigned long vh_cut_reads, vh_cut_writes;
static unsigned rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned)(st >> 20); }
static int hit(int fd, size_t n) {
    if (pct < 0) { const char* e = getenv("VH_SHORTIO"); pct = e ? atoi(e) : 0; st = 88172645463325252ull ^ ((uint64_t)getpid() * 2654435761u); }
    struct stat s; if (!pct || n < 2 || rnd() % 100 >= (unsigned)pct || fstat(fd, &s) || !S_ISSOCK(s.st_mode)) return 0;
    return 1;
}
static size_t cut(size_t n) { size_t m = rnd() % 3 ? 1 + rnd() % 12 : 1 + rnd() % n; return m < n ? m : n - 1; }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (hit(fd, n)) { n = cut(n); vh_cut_reads++; } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (hit(fd, n)) { n = cut(n); vh_cut_writes++; if (rnd() % 40 == 0) { ssize_t r = __real_write(fd, b, n); usleep(rnd() % 1500); return r; } } return __real_write(fd, b, n); }
