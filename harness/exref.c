/* Serial reference implementations of what the example programs compute, written from their descriptions; no LAIK code is used.
 * exref NAME ARGS prints lines "<key> <values>". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define A(i) atoi(argv[i])
static void jac(int d, long n, int maxiter) {
    /* cells of a d-dimensional cube (fastest dimension first); borders fixed: a later dimension is set first and may be overwritten */
    static const double lo[3][3] = {{-5, 0, 0}, {-10, -5, 0}, {-10, -5, -20}}, hi[3][3] = {{10, 0, 0}, {5, 10, 0}, {5, 10, 15}};
    long len[3] = {n, d > 1 ? n : 1, d > 2 ? n : 1}, st[3] = {1, n, n * n}, tot = len[0] * len[1] * len[2];
    double* a = malloc(sizeof(double) * (size_t)tot), *b = malloc(sizeof(double) * (size_t)tot);
    for (long i = 0; i < tot; i++) {
        long c[3] = {i % n, i / n % len[1], i / n / len[1]};
        a[i] = (double)((c[0] + c[1] + c[2]) & 6);
        for (int k = d - 1; k >= 0; k--) { if (c[k] == 0) a[i] = lo[d - 1][k]; if (c[k] == n - 1) a[i] = hi[d - 1][k]; }
        b[i] = a[i];
    }
    int it; double w = d == 1 ? .5 : d == 2 ? .25 : 1.0 / 6.0;
    double* last = a;
    for (it = 0; it < maxiter; it++) {
        double res = 0;
        for (long i = 0; i < tot; i++) {
            long c[3] = {i % n, i / n % len[1], i / n / len[1]}; int border = 0; double s = 0;
            for (int k = 0; k < d; k++) border |= c[k] == 0 || c[k] == n - 1;
            if (border) { b[i] = a[i]; continue; }
            for (int k = d - 1; k >= 0; k--) s += a[i - st[k]] + a[i + st[k]];
            b[i] = w * s; res += (a[i] - b[i]) * (a[i] - b[i]);
        }
        double* t = a; a = b; b = t; last = a;
        if (it % 10 == 0) { printf("residuum %d %.9f\n", it + 1, res); if (res < .001) break; }
    }
    double sum = 0; for (long i = 0; i < tot; i++) sum += last[i];
    printf("sum %d %.9f\n", it, sum);
}
/* edges of the graphs: from node i to (or into i from) the neighbors on a ring in growing steps */
static int edge(int n, int i, int j, int fine) { int s = 1; for (int k = 1; k < j; k++) { s = 2 * s + k + fine * (i % 37); while (s > n) s -= n; } return (i + s) % n; }
static void markov(int n, int in, int iters, int fine) {
    double* w = malloc(sizeof(double) * (size_t)n * (size_t)(in + 1)), *sum = calloc((size_t)n, sizeof(double)); int* f = malloc(sizeof(int) * (size_t)n * (size_t)(in + 1));
    for (int i = 0; i < n; i++) for (int j = 0; j <= in; j++) { long o = (long)i * (in + 1) + j; f[o] = j ? edge(n, i, j, fine) : i; w[o] = j ? (double)((i + j) % (5 * in) + 1) : 5; sum[f[o]] += w[o]; }
    for (int r = 0; r < 3; r++) {
        double* a = calloc((size_t)n, sizeof(double)), *b = calloc((size_t)n, sizeof(double)), s = 0;
        if (r < 2) a[r] = 1; else for (int i = 0; i < n; i++) a[i] = 1.0 / n;
        for (int t = 0; t < iters; t++) {
            for (int i = 0; i < n; i++) { b[i] = 0; for (int j = 0; j <= in; j++) { long o = (long)i * (in + 1) + j; b[i] += a[f[o]] * (w[o] / sum[f[o]]); } }
            double* x = a; a = b; b = x;
        }
        for (int i = 0; i < n; i++) s += a[i];
        printf("probs %.12g %.12g %.12g %.9f\n", a[0], a[1], a[2], s); free(a); free(b);
    }
}
static void markov2(int n, int out, int iters, int one, int fine) {
    double* a = calloc((size_t)n, sizeof(double)), *b = calloc((size_t)n, sizeof(double)), s = 0;
    for (int i = 0; i < n; i++) a[i] = one < 0 ? 1.0 / n : i == one;
    for (int t = 0; t < iters; t++) {
        memset(b, 0, sizeof(double) * (size_t)n);
        for (int i = 0; i < n; i++) {
            double sum = 5; for (int j = 1; j <= out; j++) sum += (double)((i + j) % (5 * out) + 1);
            b[i] += a[i] * 5 / sum; for (int j = 1; j <= out; j++) b[edge(n, i, j, fine)] += a[i] * (double)((i + j) % (5 * out) + 1) / sum;
        }
        double* x = a; a = b; b = x;
    }
    for (int i = 0; i < n; i++) s += a[i];
    printf("probs %.12g %.12g %.12g %.9f\n", a[0], a[1], a[2], s);
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    const char* p = argv[1];
    if (!strncmp(p, "jac", 3)) jac(p[3] - '0', A(2), A(3));
    else if (!strcmp(p, "markov")) markov(A(2), A(3), A(4), A(5));
    else if (!strcmp(p, "markov2")) markov2(A(2), A(3), A(4), A(5), A(6));
    else if (!strcmp(p, "spmv")) { /* lower triangle, row r has value n - r; vector 1, 2, 3.. */
        int n = A(2); double s = 0; for (int r = 0; r < n; r++) for (int c = 0; c < r; c++) s += (double)(n - r) * (c + 1);
        printf("res %.9f\n", s);
    } else if (!strcmp(p, "spmv2")) {
        int iters = A(2), n = A(3); double* x = malloc(sizeof(double) * (size_t)n), *y = malloc(sizeof(double) * (size_t)n), s = 0;
        for (int i = 0; i < n; i++) x[i] = 1;
        for (int t = 0; t < iters; t++) {
            double acc = 0; s = 0; for (int r = 0; r < n; r++) { y[r] = acc * (n - r); acc += x[r]; s += y[r]; }
            printf("iter %d %.9f\n", t, s); for (int r = 0; r < n; r++) x[r] = y[r] / s;
        }
        printf("result %.9f\n", s);
    } else return 2;
    return 0;
}
