/* launch N [-s USEC] [-e VAR=FORMAT]... CMD ARGS: start N processes of a job and report how they end.
 * Each process gets its own stderr (memory file), shown when it fails. FORMAT may contain one %d for the process number. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static pid_t pid[300]; static int fd[300];
static void show(int i, const char* how, int v) {
    struct stat st; fstat(fd[i], &st); size_t n = (size_t)st.st_size; char* b = malloc(n + 1); ssize_t k = pread(fd[i], b, n, 0); if (k < 0) k = 0; b[k] = 0;
    size_t cap = 16000, off = (size_t)k > cap ? (size_t)k - cap : 0; char* o = malloc(cap + 400); int m = sprintf(o, "K process %d ended with %s %d\n", i, how, v); memcpy(o + m, b + off, (size_t)k - off); m += (int)((size_t)k - off); if (o[m - 1] != '\n') o[m++] = '\n'; m += sprintf(o + m, "KEND\n");
    for (int w = 0; w < m;) { ssize_t x = write(1, o + w, (size_t)(m - w)); if (x < 0 && errno != EINTR) break; if (x > 0) w += (int)x; }
    free(b); free(o);
}
int main(int argc, char** argv) {
    int n = atoi(argv[1]), a = 2, stagger = 0; const char* env[40]; int ne = 0;
    for (; a + 1 < argc && argv[a][0] == '-'; a += 2) { if (argv[a][1] == 's') stagger = atoi(argv[a + 1]); else if (argv[a][1] == 'e') env[ne++] = argv[a + 1]; else return 3; }
    if (n < 1 || n > 300 || a >= argc) return 3;
    signal(SIGPIPE, SIG_IGN); unsigned rs = (unsigned)stagger * 7 + 1;
    for (int i = 0; i < n; i++) {
        fd[i] = memfd_create("err", 0);
        pid[i] = fork();
        if (pid[i] < 0) { perror("fork"); return 3; }
        if (!pid[i]) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_DFL); dup2(fd[i], 2);
            for (int e = 0; e < ne; e++) { char b[2000]; snprintf(b, sizeof b, env[e], i); char* q = strchr(b, '='); *q = 0; setenv(b, q + 1, 1); }
            execvp(argv[a], argv + a); perror("exec"); _exit(3);
        }
        if (stagger && i + 1 < n) usleep((useconds_t)(rand_r(&rs) % (unsigned)stagger));
    }
    int left = n, bad = 0; double end = 0;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, end ? WNOHANG : 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (p == 0) { if (now() > end) { for (int i = 0; i < n; i++) if (pid[i]) kill(pid[i], SIGKILL); end = now() + 1e9; } usleep(2000); continue; }
        for (int i = 0; i < n; i++) if (pid[i] == p) {
            pid[i] = 0; left--;
            if (end > 1e8 || (st == 0)) break;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) bad = 1; /* has reported a violation itself */
            else { show(i, WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); bad = 1; }
            if (!end) end = now() + 2;
        }
    }
    return bad;
}
