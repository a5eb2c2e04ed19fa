/* Memory kept by the library: the same work is repeated; places in the library which, at the end, hold memory allocated in
 * every single repetition make a program grow without bound. Needs the address sanitizer (it knows where each live block
 * was allocated). Only blocks whose innermost known frame is library code count. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "growth.h"
#include "vh.h"
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)); /* not all compilers come with the headers */
size_t __asan_get_alloc_stack(void* addr, void** trace, size_t size, int* tid);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);

#define TS (1u << 21)
typedef struct { const volatile void* p; uint32_t size; int rep; } Blk;
static Blk* tab; static volatile int rep = -1; static uint64_t nblk;
static unsigned slot(const volatile void* p) { uint64_t h = (uint64_t)(uintptr_t)p; h ^= h >> 17; h *= 0x9e3779b97f4a7c15ULL; return (unsigned)(h >> 40) & (TS - 1); }
static void on_malloc(const volatile void* p, size_t n) {
    if (rep < 0 || !p) return;
    unsigned i = slot(p); for (unsigned k = 0; k < 64; k++, i = (i + 1) & (TS - 1)) if (!tab[i].p || tab[i].p == (void*)1 || tab[i].p == p) { tab[i] = (Blk){ p, n > 0xffffffffu ? 0xffffffffu : (uint32_t)n, rep }; nblk++; return; }
}
static void on_free(const volatile void* p) { if (!p || !tab) return; unsigned i = slot(p); for (unsigned k = 0; k < 64; k++, i = (i + 1) & (TS - 1)) { if (!tab[i].p) return; if (tab[i].p == p) { tab[i].p = (void*)1; return; } } }
void growth_rep(int r) {
    if (!tab) { tab = mmap(0, TS * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
    rep = r;
}
void growth_reset(void) { rep = -1; if (tab) madvise(tab, TS * sizeof(Blk), MADV_DONTNEED); }

typedef struct { char key[160]; char stack[700]; uint64_t reps; uint64_t bytes, blocks; int exempt; } Site;
static Site sites[128]; static int nsites;
typedef struct { uintptr_t pc; char fn[80], file[160]; int lib; } Sym;
static Sym syms[4096]; static int nsyms;
static Sym* sym(void* pc) {
    for (int i = 0; i < nsyms; i++) if (syms[i].pc == (uintptr_t)pc) return &syms[i];
    if (nsyms == 4096) return &syms[0];
    Sym* s = &syms[nsyms++]; s->pc = (uintptr_t)pc; char b[400] = ""; __sanitizer_symbolize_pc((char*)pc - 1, "%f %s", b, sizeof b);
    char* sp = strrchr(b, ' '); if (sp) *sp++ = 0; snprintf(s->fn, sizeof s->fn, "%s", b); snprintf(s->file, sizeof s->file, "%s", sp ? sp : "");
    s->lib = strstr(s->file, "/harness/") || strstr(s->file, "/shim/") ? 2 : strstr(s->file, "/src/") && !strncmp(s->file, "/", 1) && !strstr(s->file, "libsanitizer") ? 1 : 0;
    return s;
}
void growth_judge(int reps, const char* const* exempt) {
    rep = -1; nsites = 0; uint64_t live = 0;
    for (unsigned i = 0; tab && i < TS; i++) {
        Blk* b = &tab[i]; if (!b->p || b->p == (void*)1 || b->rep < 1) continue;
        live++;
        void* st[24]; int tid; size_t n = __asan_get_alloc_stack((void*)b->p, st, 24, &tid); Sym *in = 0, *out = 0; int ex = 0; char txt[700]; int k = 0; txt[0] = 0;
        for (size_t j = 0; j < n; j++) { Sym* s = sym(st[j]); if (!s->lib) continue; if (s->lib == 2 && !in) break; if (s->lib == 2) continue;
            if (!in) in = s; else if (!out) out = s;
            for (int e = 0; exempt && exempt[e]; e++) if (!strcmp(s->fn, exempt[e])) ex = 1;
            const char* f = strrchr(s->file, '/'); k += snprintf(txt + k, k < (int)sizeof txt ? sizeof txt - (size_t)k : 0, "%s%s (%s)", k ? " < " : "", s->fn, f ? f + 1 : s->file); if (k > 600) break; }
        if (!in) continue;
        char key[160]; snprintf(key, sizeof key, "growth:%s<%s", in->fn, out ? out->fn : "-");
        int q = 0; while (q < nsites && strcmp(sites[q].key, key)) q++;
        if (q == nsites) { if (nsites == 128) continue; memset(&sites[q], 0, sizeof sites[q]); memcpy(sites[q].key, key, sizeof key); memcpy(sites[q].stack, txt, sizeof txt); nsites++; }
        sites[q].exempt |= ex; sites[q].reps |= 1ull << (b->rep & 63); sites[q].bytes += b->size; sites[q].blocks++;
    }
    uint64_t all = 0; for (int i = 1; i < reps; i++) all |= 1ull << i;
    vh_count("growth_judged", 1); vh_count("blocks_tracked", nblk); vh_count("blocks_live", live); nblk = 0;
    for (int q = 0; q < nsites; q++) if (!sites[q].exempt && (sites[q].reps & all) == all)
        vh_fail(sites[q].key, "memory grows with every repetition: %llu bytes in %llu blocks from %d repetitions still allocated, by %s", (unsigned long long)sites[q].bytes, (unsigned long long)sites[q].blocks, reps - 1, sites[q].stack);
}
