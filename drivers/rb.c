/* P02: ring buffer against a byte queue */
#include "vdrv.h"
#include <u/toolbox/rb.h>

static uint8_t q[1 << 16];
static size_t qh, qn, qsz;
static uint8_t seqno;

static void state (u_rb_t *rb)
{
    VCHECK(u_rb_size(rb) == qsz, "size %zu became %zu", qsz, u_rb_size(rb));
    VCHECK(u_rb_ready(rb) == qn, "ready=%zu, %zu bytes are queued", u_rb_ready(rb), qn);
    VCHECK(u_rb_avail(rb) == qsz - qn, "avail=%zu with %zu of %zu used", u_rb_avail(rb), qn, qsz);
}

int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    u_rb_t *rb = NULL;
    unsigned mode = vb(&v) % 8, op;
    size_t hint = 1 + vb(&v) % 24, n, i, k;
    int opts, rc, contig;
    uint8_t *buf, *p;
    size_t mapped = 0;

    opts = mode == 0 ? U_RB_OPT_NONE : mode == 1 ? U_RB_OPT_USE_CONTIGUOUS_MEM :
        mode < 5 ? U_RB_OPT_IMPL_MALLOC : (U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM);
    contig = opts & U_RB_OPT_USE_CONTIGUOUS_MEM;
    if (mode < 2) { hint = 1 + v16(&v) % 6000; mapped = 1; }
    rc = u_rb_create(hint, opts, &rb);
    VCHECK(rc == 0 && rb, "create(%zu, %d)", hint, opts);
    qsz = u_rb_size(rb); qh = qn = 0;
    VCHECK(qsz >= hint, "size %zu for a hint of %zu", qsz, hint);
    if (!mapped) VCHECK(qsz == hint, "size %zu for a hint of %zu", qsz, hint);
    vtrace("create(%zu,%d)=%zu ", hint, opts, qsz);
    state(rb);
    while (!vend(&v)) {
        op = vb(&v);
        k = mapped ? v16(&v) % (qsz + 2) : vb(&v) % (qsz + 2);
        if (mapped && (op & 0x80)) k = qsz - (k % 3);
        switch (op % 8) {
        case 0: case 1: case 2: case 6:
            buf = malloc(k ? k : 1);
            for (i = 0; i < k; i++) buf[i] = seqno++;
            n = (size_t) u_rb_write(rb, buf, k);
            vtrace("w(%zu)=%zd ", k, (ssize_t) n);
            if (k > qsz) VCHECK((ssize_t) n == -1, "oversized write of %zu returned %zd", k, (ssize_t) n);
            else {
                size_t e = qsz - qn < k ? qsz - qn : k;
                VCHECK(n == e, "write of %zu stored %zu, %zu fit", k, n, e);
                for (i = 0; i < n; i++) q[(qh + qn + i) & 0xffff] = buf[i];
                qn += n;
            }
            free(buf);
            break;
        case 3: case 4:
            buf = malloc(k ? k : 1);
            memset(buf, 0xEE, k ? k : 1);
            n = (size_t) u_rb_read(rb, buf, k);
            vtrace("r(%zu)=%zd ", k, (ssize_t) n);
            if (k > qsz) VCHECK((ssize_t) n == -1, "oversized read of %zu returned %zd", k, (ssize_t) n);
            else {
                size_t e = qn < k ? qn : k;
                VCHECK(n == e, "read of %zu delivered %zu, %zu were queued", k, n, qn);
                for (i = 0; i < n; i++) VCHECK(buf[i] == q[(qh + i) & 0xffff], "byte %zu of a read of %zu is out of order", i, k);
                for (; i < k; i++) VCHECK(buf[i] == 0xEE, "read of %zu wrote past the %zu bytes delivered", k, n);
                qh += n; qn -= n;
            }
            free(buf);
            break;
        case 5:
            n = k;
            p = u_rb_fast_read(rb, &n);
            vtrace("f(%zu)=%zu ", k, n);
            if (!contig) {
                VCHECK(mapped || p == NULL, "fast_read delivered data on a non contiguous buffer");
                if (!p) { VCHECK(n == k || mapped, "failed fast_read touched the count"); break; }
            }
            if (k > qsz) { VCHECK(p == NULL && n == k, "oversized fast_read accepted"); break; }
            VCHECK(n == (qn < k ? qn : k), "fast_read of %zu delivered %zu, %zu were queued", k, n, qn);
            VCHECK((p == NULL) == (n == 0), "fast_read pointer vs count");
            for (i = 0; i < n; i++) VCHECK(p[i] == q[(qh + i) & 0xffff], "byte %zu of a fast_read of %zu is out of order", i, k);
            qh += n; qn -= n;
            break;
        case 7:
            if (op & 0x60) break;
            vtrace("clear ");
            VCHECK(u_rb_clear(rb) == 0, "clear");
            qn = 0;
            break;
        }
        state(rb);
    }
    /* drain */
    buf = malloc(qsz);
    n = (size_t) u_rb_read(rb, buf, qsz);
    VCHECK(n == qn, "drain delivered %zu of %zu", n, qn);
    for (i = 0; i < n; i++) VCHECK(buf[i] == q[(qh + i) & 0xffff], "byte %zu of the drain is out of order", i);
    free(buf);
    u_rb_free(rb);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}

void v_driver_init (void)
{
    int o, a, b, c, e, f;
    u_rb_t *rb = NULL;
    v_hooks_on();
    VCHECK(u_rb_create(0, U_RB_OPT_IMPL_MALLOC, &rb) != 0, "empty malloc buffer accepted");
    VCHECK(u_rb_create(5, U_RB_OPT_IMPL_MALLOC, NULL) != 0, "no result argument accepted");
    VCHECK(u_rb_create(5, 0, NULL) != 0, "no result argument accepted");
    VCHECK(u_rb_create((size_t) -1, 0, &rb) != 0, "SIZE_MAX buffer accepted");
    VCHECK(u_rb_create(((size_t) 1 << 63) + 1, 3, &rb) != 0, "2^63+1 contiguous buffer accepted");
    VCHECK(u_rb_write(NULL, "", 1) == -1 && u_rb_read(NULL, &o, 1) == -1 && u_rb_clear(NULL) == -1, "NULL buffer");
    /* failing allocations */
    for (o = 0; o < 4; o++)
        for (a = 0; a < 3; a++) {
            v_begin(); v_fail_at = a; rb = NULL;
            if (u_rb_create(7, o, &rb) == 0) u_rb_free(rb);
            VCHECK(v_live == 0, "%ld blocks leaked by a failed create", v_live);
        }
    /* every history of four operations on capacities 1..4, each method pair */
    for (o = 2; o <= 5; o += 3)
        for (e = 0; e < 4; e++)
            for (a = 0; a <= e + 1; a++) for (b = 0; b <= e + 1; b++) for (c = 0; c <= e + 1; c++) for (f = 0; f <= e + 1; f++) {
                uint8_t s1[] = { o, e, 0, a, 3, b, 0, c, 3, f };
                uint8_t s2[] = { o, e, 0, a, 5, b, 0, c, 5, f, 0, a };
                uint8_t s3[] = { o, e, 0, a, 0, b, 3, c, 0, f, 3, a, 0, b };
                v_begin(); v_run_case(s1, sizeof s1);
                v_begin(); v_run_case(s2, sizeof s2);
                v_begin(); v_run_case(s3, sizeof s3);
            }
}
