/* Common harness support: RNG, counters shared between forked ranks, reporting protocol.
 * Protocol on stdout (one write per line):
 *   V <key> <text>   a property violation (key: stable identification)
 *   I <text>         inconclusive (watchdog)
 *   N <name> <n>     measured counter
 *   S <hex>          signature of a distinct non-trivial case
 *   X <text>         sample case
 *   D                harness reached its end
 */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { uint64_t s; } Rng;
static inline uint64_t rng_u64(Rng* r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline Rng rng_make(uint64_t a, uint64_t b) { Rng r = { a * 0x9e3779b97f4a7c15ULL ^ (b + 0x1234567) * 0xd1342543de82ef95ULL }; rng_u64(&r); rng_u64(&r); return r; }
static inline int rng_int(Rng* r, int lo, int hi) { /* inclusive */
    if (hi <= lo) return lo;
    return lo + (int)(rng_u64(r) % (uint64_t)((int64_t)hi - lo + 1)); }
static inline bool rng_p(Rng* r, int percent) { return (int)(rng_u64(r) % 100) < percent; }
static inline uint64_t hash_mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL ^ (h >> 29); }

/* where we are: used as prefix of violation texts */
extern char vh_where[512];
void vh_setwhere(const char* fmt, ...) __attribute__((format(printf,1,2)));
/* report a violation and end this process (exit code 77) */
void vh_fail(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void vh_line(const char* fmt, ...) __attribute__((format(printf,1,2)));
void vh_sig(uint64_t h);
void vh_sample(const char* fmt, ...) __attribute__((format(printf,1,2)));
/* counters live in shared memory; call vh_init() before any fork */
void vh_init(void);
void vh_count(const char* name, uint64_t add);
uint64_t vh_getcount(const char* name);
void vh_finish(void);   /* print counters + D */

typedef struct { uint64_t seed; int worlds, cases, n, from, only; int verbose; const char* mode; } VhArgs;
extern VhArgs vh_args;
void vh_parse(int argc, char** argv);
#endif
