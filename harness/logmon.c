#define _GNU_SOURCE
#include "vh.h"
#include "laik-internal.h"
#include "logmon.h"
#include <stdarg.h>
#include <ctype.h>
typedef struct { int level, inst, loc, ctr; char* text; } LM;
static LM* lm; static unsigned nlm, clm; static int on, active, level, from = -1, to = -1, prefix = 2, curlevel, ctr; static Laik_Instance* inst0; static char* loc0;
static char* buf; static size_t blen, bcap;
bool __real_laik_log_begin(int l); void __real_laik_log_append(const char* m, ...); void __real_laik_log_flush(const char* m, ...); void __real_laik_log(int l, const char* m, ...);
void __real_laik_panic(const char* m); void __real_laik_log_init(Laik_Instance* i); void __real_laik_log_init_loc(char* l); void __real_laik_log_inc(void); void __real_laik_set_loglevel(int l);
void logmon_start(void) {
    on = 1; level = LAIK_LL_Error; char* s = getenv("LAIK_LOG"); nlm = 0; active = 0; ctr = 0; inst0 = 0; from = to = -1; prefix = 2;
    if (s) { if (*s == 'n') { prefix = 0; s++; } if (*s == 's') { prefix = 1; s++; } level = atoi(s); char* p = strchr(s, ':'); if (p) { from = to = atoi(p + 1); char* q = strchr(p, '-'); if (q) to = atoi(q + 1); } }
}
unsigned logmon_messages(void) { return nlm; }
static int shown(int l) { return l >= level && (l >= LAIK_LL_Panic || from < 0 || !inst0 || (inst0->mylocationid >= from && inst0->mylocationid <= to)); }
static void add(const char* t, size_t n) { if (blen + n + 1 > bcap) { bcap = 2 * (blen + n + 1); buf = realloc(buf, bcap); } memcpy(buf + blen, t, n); blen += n; buf[blen] = 0; }
static void push(void) { if (!blen) return; if (nlm == clm) { clm = clm ? 2 * clm : 256; lm = realloc(lm, clm * sizeof(LM)); } lm[nlm++] = (LM){ curlevel, inst0 != 0, inst0 ? inst0->mylocationid : -1, ctr, strdup(buf) }; }
static void nested(int l, const char* what) { if (active) vh_fail("log-nested", "a message of level %d is started ('%.60s') while another one ('%.100s') is being built, which gets lost", l, what, blen ? buf : ""); }
bool __wrap_laik_log_begin(int l) {
    if (!on) return __real_laik_log_begin(l);
    nested(l, "(in steps)"); bool r = __real_laik_log_begin(l); if (r != (shown(l) != 0)) vh_fail("log-level", "message of level %d is %s: minimum level %d, processes %d-%d, this is %d", l, r ? "shown" : "not shown", level, from, to, inst0 ? inst0->mylocationid : -1);
    active = r; curlevel = l; blen = 0; if (buf) buf[0] = 0; return r;
}
void __wrap_laik_log_append(const char* m, ...) { va_list a; va_start(a, m); char* t = 0; int n = vasprintf(&t, m, a); va_end(a); if (on && active) add(t, (size_t)n); __real_laik_log_append("%s", t); free(t); }
void __wrap_laik_log_flush(const char* m, ...) {
    char* t = 0; int n = 0; if (m) { va_list a; va_start(a, m); n = vasprintf(&t, m, a); va_end(a); }
    if (on && active) { if (t) add(t, (size_t)n); push(); active = 0; } if (t) __real_laik_log_flush("%s", t); else __real_laik_log_flush(0); free(t);
}
void __wrap_laik_log(int l, const char* m, ...) {
    char* t = 0; va_list a; va_start(a, m); int n = vasprintf(&t, m, a); va_end(a);
    if (on) { nested(l, t); if (shown(l)) { curlevel = l; blen = 0; add(t, (size_t)n); push(); } } __real_laik_log(l, "%s", t); free(t);
}
void __wrap_laik_panic(const char* m) { if (on) { nested(LAIK_LL_Panic, m); curlevel = LAIK_LL_Panic; blen = 0; add(m, strlen(m)); push(); } __real_laik_panic(m); }
const char* logmon_text(void) { return active && buf ? buf : ""; }
static int inited; /* the first initialisation opens the log file */
static void first(void) { const char* f = getenv("LAIK_LOG_FILE"); if (inited++ || !on || !f || !shown(LAIK_LL_Error)) return; FILE* x = fopen(f, "a+"); if (x) { fclose(x); return; } curlevel = LAIK_LL_Error; blen = 0; static const char m[] = "Cannot Initialize File for print output.\n"; add(m, strlen(m)); push(); }
void __wrap_laik_log_init(Laik_Instance* i) { inst0 = i; first(); __real_laik_log_init(i); }
void __wrap_laik_log_init_loc(char* l) { loc0 = strdup(l); first(); __real_laik_log_init_loc(l); }
void __wrap_laik_log_inc(void) { ctr++; __real_laik_log_inc(); }
void __wrap_laik_set_loglevel(int l) { level = l; __real_laik_set_loglevel(l); }

/* one output line at *o: check and skip its prefix; returns start of the text, *e its end */
static const char* line(const char** o, const char* end, const LM* m, unsigned no, int counter, int lineno, const char** e) {
    const char* s = *o; if (s >= end) vh_fail("log-lost", "message %u ('%.80s'): line %d is missing", no, m->text, lineno);
    const char* nl = memchr(s, '\n', (size_t)(end - s)); if (!nl) vh_fail("log-lost", "message %u: last line '%.80s' is not complete", no, s);
    char want[300]; int k = sprintf(want, "%s ", lineno == 1 ? "==" : "..");
    if (!m->inst) k += snprintf(want + k, sizeof want - (size_t)k, "%-7s: ", loc0 ? loc0 : ""); else if (prefix == 1) k += sprintf(want + k, "L%02d | ", m->loc); else if (prefix == 2) k += sprintf(want + k, "LAIK-%04d-L%02d %04d.%02d ", m->ctr, m->loc, counter, lineno);
    if ((size_t)k >= sizeof want) k = sizeof want - 1;
    if (nl - s < k || memcmp(s, want, (size_t)k)) vh_fail("log-prefix", "message %u line %d starts with '%.60s', expected '%s'", no, lineno, s, want);
    s += k;
    if (m->inst && prefix == 2) { int n = 0, mi; double sec; if (sscanf(s, "%d:%lf |%n", &mi, &sec, &n) != 2 || !n || mi < 0 || sec < 0 || sec > 60.0005 || s[n] != ' ') vh_fail("log-prefix", "message %u line %d has no valid time: '%.30s'", no, lineno, s); s += n + 1; }
    const char* lv = m->level == LAIK_LL_Warning ? "Warning" : m->level == LAIK_LL_Error ? "ERROR" : m->level == LAIK_LL_Panic ? "PANIC" : 0;
    if (lv) { sprintf(want, "%-7s: ", lineno == 1 ? lv : ""); if (nl - s < 9 || memcmp(s, want, 9)) vh_fail("log-prefix", "message %u line %d: level shown as '%.9s', expected '%s'", no, lineno, s, want); s += 9; }
    *o = nl + 1; *e = nl; return s;
}
void logmon_check(const char* out, size_t len) {
    const char* o = out, * end = out + len; int counter = 0, last = 0; on = 0; unsigned wrapped = 0, lines = 0;
    for (unsigned i = 0; i < nlm; i++) { LM* m = &lm[i]; if (m->ctr != last) { counter = 0; last = m->ctr; } counter++; int ln = 0; const char* t = m->text;
        while (*t) { /* one line of the message, possibly broken at spaces */
            const char* te = strchrnul(t, '\n'); int sp = 0; while (t[sp] == ' ') sp++; const char* p = t; bool first = true;
            for (;;) { const char* e, * s = line(&o, end, m, i, counter, ++ln, &e); lines++;
                if (!first) { int q = 0; while (s < e && *s == ' ' && q < sp + 4) { s++; q++; } if (q != sp + 4) vh_fail("log-indent", "message %u: continuation line %d is not indented", i, ln); wrapped++; }
                size_t n = (size_t)(e - s); if (n > (size_t)(te - p) || memcmp(p, s, n)) vh_fail("log-text", "message %u line %d is '%.*s', expected (beginning of) '%.*s'", i, ln, (int)n < 200 ? (int)n : 200, s, (int)(te - p) < 200 ? (int)(te - p) : 200, p);
                p += n; first = false; if (p == te) break; if (*p != ' ') vh_fail("log-text", "message %u line %d: text lost after '%.*s'", i, ln, (int)n < 200 ? (int)n : 200, s);
                p++; if (p == te && !*te) break; /* a space at the very end may vanish */ }
            t = *te ? te + 1 : te; } }
    if (o != end) vh_fail("log-extra", "unexpected output after %u messages: '%.100s'", nlm, o);
    vh_count("log_messages", nlm); vh_count("log_lines", lines); vh_count("log_wrapped_lines", wrapped); for (unsigned i = 0; i < nlm; i++) free(lm[i].text); nlm = 0;
}
