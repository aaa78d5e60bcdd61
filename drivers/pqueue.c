/* P01: priority queue against a multiset of (key, value) pairs */
#include "vdrv.h"

typedef struct { double k; size_t v; } it_t;
#define MAXC 300

static void check_fill (u_pq_t *pq, size_t n, size_t cap)
{
    VCHECK((u_pq_empty(pq) != 0) == (n == 0), "u_pq_empty=%d with %zu elements", u_pq_empty(pq), n);
    VCHECK((u_pq_full(pq) != 0) == (n == cap), "u_pq_full=%d with %zu of %zu", u_pq_full(pq), n, cap);
}

static size_t take (it_t *m, size_t *n, size_t val, double *k)
{
    size_t i;
    for (i = 0; i < *n; i++)
        if (m[i].v == val) {
            *k = m[i].k;
            m[i] = m[--*n];
            return 1;
        }
    return 0;
}

static double maxk (it_t *m, size_t n)
{
    size_t i;
    double k = m[0].k;
    for (i = 1; i < n; i++) if (m[i].k > k) k = m[i].k;
    return k;
}

static void del (u_pq_t *pq, it_t *m, size_t *n, int wantkey)
{
    double k = -12345.5, kk = 0, mx = maxk(m, *n), pk = 0;
    size_t v = (size_t) u_pq_peekmax(pq, wantkey ? &pk : NULL), v2;
    size_t j;
    if (wantkey) VCHECK(pk == mx, "peekmax key %g, maximum is %g", pk, mx);
    for (j = 0; j < *n; j++) if (m[j].v == v) break;
    VCHECK(j < *n && m[j].k == mx, "peekmax value %zu does not carry the maximal key %g", v, mx);
    v2 = (size_t) u_pq_delmax(pq, wantkey ? &k : NULL);
    VCHECK(take(m, n, v2, &kk), "delmax returned %zu which is not in the queue", v2);
    VCHECK(kk == mx, "delmax evicted key %g, maximum is %g", kk, mx);
    if (wantkey) VCHECK(k == kk, "delmax reported key %g for an element of key %g", k, kk);
}

int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    u_pq_t *pq = NULL;
    it_t m[MAXC];
    size_t n = 0, next = 1, cap = vb(&v) % 40;
    unsigned mode = vb(&v), op;
    int rc;

    if (mode % 16 == 0) cap = 40 + vb(&v);
    rc = u_pq_create(cap, &pq);
    vtrace("create(%zu) ", cap);
    if (cap < 2) { VCHECK(rc != 0, "create(%zu) accepted", cap); return 0; }
    VCHECK(rc == 0 && pq, "create(%zu) failed", cap);
    check_fill(pq, 0, cap);
    while (!vend(&v)) {
        op = vb(&v);
        if (op % 8 < 5) {
            double k;
            unsigned b = vb(&v);
            switch (mode % 4) {
                case 0: k = (signed char) b; break;
                case 1: k = (double) (b % 4); break;
                case 2: k = ((signed char) b) / 16.0 * 1e-3; break;
                default: k = (b & 1 ? 1e300 : -1e300) * (b / 2); break;
            }
            rc = u_pq_push(pq, k, (void *) next);
            vtrace("push(%g)=%d ", k, rc);
            if (n == cap) VCHECK(rc == -2, "push on a full queue returned %d", rc);
            else {
                VCHECK(rc == 0, "push returned %d with %zu of %zu used", rc, n, cap);
                m[n].k = k; m[n].v = next; n++;
            }
            next++;
        } else if (n) {
            vtrace("delmax ");
            del(pq, m, &n, op & 8);
        } else {
            double k = 7;
            VCHECK(u_pq_delmax(pq, &k) == NULL, "delmax on an empty queue returned a value");
        }
        check_fill(pq, n, cap);
    }
    while (n) { del(pq, m, &n, 1); check_fill(pq, n, cap); }
    VCHECK(u_pq_delmax(pq, NULL) == NULL, "delmax on an empty queue returned a value");
    u_pq_free(pq);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}

static void perms (int *a, int k, int n)
{
    int i, t, r;
    if (k == n) {
        /* push all, pop all; and push all, pop one, push, pop */
        for (r = 0; r < 2; r++) {
            uint8_t buf[64]; size_t l = 0;
            buf[l++] = n + r; buf[l++] = 4;
            for (i = 0; i < n; i++) { buf[l++] = 0; buf[l++] = a[i]; }
            buf[l++] = 15; buf[l++] = 0; buf[l++] = a[0]; buf[l++] = 7; buf[l++] = 0; buf[l++] = 200;
            v_begin();
            v_run_case(buf, l);
        }
        return;
    }
    for (i = k; i < n; i++) {
        t = a[k]; a[k] = a[i]; a[i] = t;
        perms(a, k + 1, n);
        t = a[k]; a[k] = a[i]; a[i] = t;
    }
}

void v_driver_init (void)
{
    int n, i, a[8];
    u_pq_t *pq = NULL;
    v_hooks_on();
    VCHECK(u_pq_create(2, NULL) != 0, "create with no result argument accepted");
    VCHECK(u_pq_create((size_t) -1, &pq) != 0, "create(SIZE_MAX) accepted");
    VCHECK(u_pq_push(NULL, 1, NULL) == -1, "push on NULL");
    for (n = 2; n <= 7; n++) {
        for (i = 0; i < n; i++) a[i] = i;
        perms(a, 0, n);
        for (i = 0; i < n; i++) a[i] = i / 2;
        perms(a, 0, n);
    }
}
