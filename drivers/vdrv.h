/* Common part of the native contract drivers.
 *
 * A driver evaluates, on the real code, the same postconditions the deductive
 * proof states, on one input at a time (run_case).  It is used to replay a
 * failed obligation against the real code and as the bounded stand-in where a
 * function is out of the verifier's reach.  Cases are byte strings, so every
 * failing one can be stored, shrunk and replayed. */
#ifndef VDRV_H
#define VDRV_H
#include <u/libu.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <ctype.h>

int facility = LOG_LOCAL0;

typedef struct { const uint8_t *p; size_t n, i; } vin_t;

static inline unsigned vb (vin_t *v) { return v->i < v->n ? v->p[v->i++] : (v->i++, 0); }
static inline int vend (vin_t *v) { return v->i >= v->n; }
static inline unsigned v16 (vin_t *v) { unsigned a = vb(v); return a | vb(v) << 8; }
static inline uint32_t v32 (vin_t *v) { uint32_t a = v16(v); return a | (uint32_t) v16(v) << 16; }
static inline uint64_t v64 (vin_t *v) { uint64_t a = v32(v); return a | (uint64_t) v32(v) << 32; }

static char v_trace[16384];
static size_t v_trace_len;

static inline void vtrace (const char *fmt, ...)
{
    va_list ap;
    int rc;
    if (v_trace_len >= sizeof v_trace - 1)
        return;
    va_start(ap, fmt);
    rc = vsnprintf(v_trace + v_trace_len, sizeof v_trace - v_trace_len, fmt, ap);
    va_end(ap);
    if (rc > 0)
        v_trace_len += rc;
    if (v_trace_len > sizeof v_trace - 1)
        v_trace_len = sizeof v_trace - 1;
}

static inline __attribute__((noreturn)) void vfail (const char *file, int line, const char *fmt, ...)
{
    va_list ap;
    fprintf(stderr, "VFAIL %s:%d: ", file, line);
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fprintf(stderr, "\n");
    if (v_trace_len)
        fprintf(stderr, "VTRACE %s\n", v_trace);
    fflush(stderr);
    abort();
}
#define VCHECK(c, ...) do { if (!(c)) vfail(__FILE__, __LINE__, __VA_ARGS__); } while (0)

/* allocation accounting and fault injection through the library's own hooks */
static long v_live, v_fail_at = -1, v_nalloc, v_failed;
static inline int v_inject (void)
{
    v_nalloc++;
    if (v_fail_at >= 0 && v_nalloc - 1 == v_fail_at) { v_failed++; return 1; }
    return 0;
}
static void *v_malloc (size_t n) { void *p; if (v_inject()) { errno = ENOMEM; return NULL; } p = malloc(n); if (p) v_live++; return p; }
static void *v_calloc (size_t a, size_t b) { void *p; if (v_inject()) { errno = ENOMEM; return NULL; } p = calloc(a, b); if (p) v_live++; return p; }
static void *v_realloc (void *q, size_t n)
{
    void *p;
    if (v_inject()) { errno = ENOMEM; return NULL; }
    p = realloc(q, n);
    if (p && !q) v_live++;
    if (q && !n && !p) v_live--;
    return p;
}
static void v_free (void *p) { if (p) v_live--; free(p); }

static int v_lognop (void *arg, int level, const char *str) { (void) arg; (void) level; (void) str; return 0; }
void v_driver_init (void);
int v_run_case (const uint8_t *data, size_t size);

static void v_hooks_on (void)
{
    u_memory_set_malloc(v_malloc);
    u_memory_set_calloc(v_calloc);
    u_memory_set_realloc(v_realloc);
    u_memory_set_free(v_free);
}

static inline void v_begin (void) { v_trace_len = 0; v_trace[0] = 0; v_live = v_nalloc = v_failed = 0; v_fail_at = -1; }

int LLVMFuzzerInitialize (int *argc, char ***argv);
int LLVMFuzzerInitialize (int *argc, char ***argv)
{
    (void) argc; (void) argv;
    u_log_set_hook(v_lognop, NULL, NULL, NULL);
    v_driver_init();
    return 0;
}
int LLVMFuzzerTestOneInput (const uint8_t *data, size_t size);
int LLVMFuzzerTestOneInput (const uint8_t *data, size_t size)
{
    v_begin();
    return v_run_case(data, size);
}
#endif
