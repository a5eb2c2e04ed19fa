/* Thread primitives of GLib on top of pthreads, compiled under the names the library uses (renamed with -Dg_...=vg_...),
 * so that the race detector sees all synchronisation. Only for builds with the thread sanitizer: GLib itself is not
 * instrumented and implements its locks directly with futexes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <glib.h>
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>
#include <time.h>

void __tsan_acquire(void*); void __tsan_release(void*);

static pthread_mutex_t* mx(GMutex* m) {
    pthread_mutex_t* p = __atomic_load_n((pthread_mutex_t**)m, __ATOMIC_ACQUIRE);
    if (!p) {
        pthread_mutex_t* n = malloc(sizeof *n); pthread_mutex_init(n, 0);
        if (__atomic_compare_exchange_n((pthread_mutex_t**)m, &p, n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) p = n; else { pthread_mutex_destroy(n); free(n); }
    }
    return p;
}
void g_mutex_init(GMutex* m) { *(void**)m = 0; }
void g_mutex_clear(GMutex* m) { pthread_mutex_t* p = mx(m); pthread_mutex_destroy(p); free(p); *(void**)m = 0; }
void g_mutex_lock(GMutex* m) { pthread_mutex_lock(mx(m)); }
void g_mutex_unlock(GMutex* m) { pthread_mutex_unlock(mx(m)); }

void g_cond_init(GCond* c) { pthread_cond_t* p = malloc(sizeof *p); pthread_condattr_t a; pthread_condattr_init(&a); pthread_condattr_setclock(&a, CLOCK_MONOTONIC); pthread_cond_init(p, &a); *(void**)c = p; }
void g_cond_clear(GCond* c) { pthread_cond_destroy(*(void**)c); free(*(void**)c); }
void g_cond_broadcast(GCond* c) { pthread_cond_broadcast(*(void**)c); }
void g_cond_wait(GCond* c, GMutex* m) { pthread_cond_wait(*(void**)c, mx(m)); }
gboolean g_cond_wait_until(GCond* c, GMutex* m, gint64 t) { struct timespec s = { t / 1000000, t % 1000000 * 1000 }; return pthread_cond_timedwait(*(void**)c, mx(m), &s) == 0; }

typedef struct { pthread_t t; GThreadFunc f; gpointer d; } Th;
static void* th(void* x) { Th* t = x; return t->f(t->d); }
GThread* g_thread_new(const gchar* n, GThreadFunc f, gpointer d) { (void)n; Th* t = malloc(sizeof *t); t->f = f; t->d = d; pthread_create(&t->t, 0, th, t); return (GThread*)t; }
gpointer g_thread_join(GThread* g) { Th* t = (Th*)g; void* r; pthread_join(t->t, &r); free(t); return r; }

typedef struct Item { void* d; struct Item* next; } Item;
typedef struct { pthread_mutex_t m; pthread_cond_t c; Item *first, **last; GFunc f; gpointer u; pthread_t* t; int n, max, idle; bool end; GDestroyNotify fr; } Pool;
static Pool* pnew(void) { Pool* p = calloc(1, sizeof *p); pthread_mutex_init(&p->m, 0); pthread_cond_init(&p->c, 0); p->last = &p->first; return p; }
static void pfree(Pool* p) { pthread_mutex_destroy(&p->m); pthread_cond_destroy(&p->c); free(p->t); free(p); }
static void add(Pool* p, void* d) { Item* i = malloc(sizeof *i); i->d = d; i->next = 0; *p->last = i; p->last = &i->next; }
static void* take(Pool* p) { Item* i = p->first; if (!i) return 0; void* d = i->d; p->first = i->next; if (!p->first) p->last = &p->first; free(i); return d; }
static void* worker(void* x) {
    Pool* p = x; pthread_mutex_lock(&p->m);
    for (;;) {
        void* d = take(p);
        if (d) { pthread_mutex_unlock(&p->m); p->f(d, p->u); pthread_mutex_lock(&p->m); continue; }
        if (p->end) break;
        p->idle++; pthread_cond_wait(&p->c, &p->m); p->idle--;
    }
    pthread_mutex_unlock(&p->m); return 0;
}
GThreadPool* g_thread_pool_new(GFunc f, gpointer u, gint max, gboolean ex, GError** e) { (void)ex; (void)e; Pool* p = pnew(); p->f = f; p->u = u; p->max = max; p->t = calloc((size_t)max, sizeof *p->t); return (GThreadPool*)p; }
gboolean g_thread_pool_push(GThreadPool* g, gpointer d, GError** e) {
    (void)e; Pool* p = (Pool*)g; pthread_mutex_lock(&p->m); add(p, d);
    if (!p->idle && p->n < p->max) pthread_create(&p->t[p->n++], 0, worker, p);
    pthread_cond_signal(&p->c); pthread_mutex_unlock(&p->m); return TRUE;
}
void g_thread_pool_free(GThreadPool* g, gboolean now, gboolean wait) {
    (void)now; (void)wait; Pool* p = (Pool*)g; pthread_mutex_lock(&p->m); p->end = true; pthread_cond_broadcast(&p->c); pthread_mutex_unlock(&p->m);
    for (int i = 0; i < p->n; i++) pthread_join(p->t[i], 0);
    pfree(p);
}
GAsyncQueue* g_async_queue_new_full(GDestroyNotify fr) { Pool* p = pnew(); p->fr = fr; return (GAsyncQueue*)p; }
void g_async_queue_push(GAsyncQueue* q, gpointer d) { Pool* p = (Pool*)q; pthread_mutex_lock(&p->m); add(p, d); pthread_mutex_unlock(&p->m); }
gpointer g_async_queue_try_pop(GAsyncQueue* q) { Pool* p = (Pool*)q; pthread_mutex_lock(&p->m); void* d = take(p); pthread_mutex_unlock(&p->m); return d; }
void g_async_queue_unref(GAsyncQueue* q) { Pool* p = (Pool*)q; void* d; while ((d = take(p))) if (p->fr) p->fr(d); pfree(p); }

/* reference counts: releasing is ordered before freeing */
void g_bytes_unref(GBytes* b) {
    static void (*real)(GBytes*);
    void (*r)(GBytes*) = __atomic_load_n(&real, __ATOMIC_ACQUIRE);
    if (!r) { r = (void (*)(GBytes*))dlsym(RTLD_DEFAULT, "g_bytes_unref"); __atomic_store_n(&real, r, __ATOMIC_RELEASE); }
    if (b) { __tsan_release(b); __tsan_acquire(b); }
    r(b);
}

/* strings of error domains: GLib protects its table with a lock of its own */
static pthread_mutex_t quarks = PTHREAD_MUTEX_INITIALIZER;
GQuark g_quark_from_string(const gchar* s) { pthread_mutex_lock(&quarks); GQuark q = ((GQuark (*)(const gchar*))dlsym(RTLD_DEFAULT, "g_quark_from_string"))(s); pthread_mutex_unlock(&quarks); return q; }
const gchar* g_quark_to_string(GQuark q) { pthread_mutex_lock(&quarks); const gchar* s = ((const gchar* (*)(GQuark))dlsym(RTLD_DEFAULT, "g_quark_to_string"))(q); pthread_mutex_unlock(&quarks); return s; }
