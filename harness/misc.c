/* Single-process monitors with one forked child per case: logging, profiling, agents, program control. */
#include "gen.h"
#include "laik-internal.h"
#include "misc.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <errno.h>
#include <dirent.h>

int world_no, case_no; const char* mode; char scratch[200];
static struct { const char* name; void (*f)(Rng*); } modes[] = { { "log", m_log }, { "prof", m_prof }, { "agent", m_agent }, { 0, 0 } };
char* slurp(int fd, size_t* n) { struct stat st; fstat(fd, &st); char* b = malloc((size_t)st.st_size + 1); ssize_t k = pread(fd, b, (size_t)st.st_size, 0); if (k < 0) k = 0; b[k] = 0; *n = (size_t)k; return b; }
int main(int argc, char** argv) {
    vh_init(); vh_parse(argc, argv); mode = vh_args.mode; int k = 0, bad = 0;
    while (modes[k].name && strcmp(modes[k].name, mode)) k++;
    if (!modes[k].name) { fprintf(stderr, "unknown mode\n"); return 3; }
    const char* td = getenv("TMPDIR"); snprintf(scratch, sizeof scratch, "%s/laikmisc.XXXXXX", td ? td : "/tmp"); if (!mkdtemp(scratch)) { perror("mkdtemp"); return 3; }
    for (world_no = vh_args.from; world_no < vh_args.from + vh_args.worlds; world_no++)
        for (case_no = 0; case_no < vh_args.cases && bad < 3; case_no++) {
            if (vh_args.only >= 0 && case_no != vh_args.only) continue;
            vh_setwhere("%s seed %llu world %d case %d", mode, (unsigned long long)vh_args.seed, world_no, case_no);
            int err = memfd_create("err", 0); fflush(0);
            pid_t p = fork();
            if (!p) { dup2(err, 2); alarm(60); if (chdir(scratch)) _exit(3); Rng r = rng_make(vh_args.seed * 1000003 + (uint64_t)world_no, (uint64_t)case_no * 77 + (uint64_t)k); modes[k].f(&r); vh_count("cases", 1); _exit(0); }
            int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (st) { bad++; if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { size_t n; char* b = slurp(err, &n); vh_line("K [%s] case ended with %s %d", vh_where, WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                char* sv, * q = strtok_r(b, "\n", &sv); for (int i = 0; q && i < 400; i++, q = strtok_r(0, "\n", &sv)) vh_line("  %.1500s", q); vh_line("KEND"); free(b); } }
            close(err);
            DIR* d = opendir(scratch); struct dirent* de; while (d && (de = readdir(d))) if (de->d_name[0] != '.') unlinkat(dirfd(d), de->d_name, 0);
            if (d) closedir(d);
        }
    if (rmdir(scratch)) { fprintf(stderr, "scratch directory not empty\n"); }
    vh_finish(); return 0;
}
