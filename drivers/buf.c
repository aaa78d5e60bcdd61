/* P04: binary buffers against a plain byte array */
#include "vdrv.h"
#include <fcntl.h>
#include <sys/stat.h>

#define CAP (1 << 20)
static uint8_t *m;
static size_t mn;
static char fn[64];

static void same (u_buf_t *u, const char *what, int term)
{
    VCHECK(u_buf_len(u) == (ssize_t) mn, "%s: length %zd, expected %zu", what, u_buf_len(u), mn);
    VCHECK(u_buf_size(u) >= u_buf_len(u), "%s: size %zd < length", what, u_buf_size(u));
    if (mn) VCHECK(memcmp(u_buf_ptr(u), m, mn) == 0, "%s: content differs", what);
    if (term) VCHECK(((char *) u_buf_ptr(u))[mn] == 0, "%s: not NUL terminated", what);
}

int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    u_buf_t *u;
    int rc, steps = 0, fault, fd;
    size_t n, i;
    uint8_t *b = malloc(70000);

    fault = vb(&v);
    VCHECK(u_buf_create(&u) == 0, "create");
    mn = 0;
    same(u, "create", 0);
    if (fault & 1) v_fail_at = v_nalloc + (fault >> 1) % 16;
    while (!vend(&v) && steps++ < 100) {
        int op = vb(&v), before = v_failed, term = 0;
        switch (op % 10) {
        case 0: case 1: case 2:
            n = op % 10 == 2 ? v16(&v) : vb(&v);
            if (mn + n > CAP / 2) break;
            for (i = 0; i < n; i++) b[i] = (uint8_t) (op + i * 7);
            vtrace("append(%zu) ", n);
            { uint8_t *x = malloc(n ? n : 1); memcpy(x, b, n); rc = u_buf_append(u, x, n); free(x); }
            if (n == 0) { VCHECK(rc != 0, "empty append accepted"); break; }
            if (rc == 0) { memcpy(m + mn, b, n); mn += n; term = 1; } else VCHECK(v_failed != before, "append failed");
            break;
        case 3:
            n = 1 + vb(&v);
            for (i = 0; i < n; i++) b[i] = (uint8_t) (op - i * 5);
            vtrace("set(%zu) ", n);
            rc = u_buf_set(u, b, n);
            if (rc == 0) { memcpy(m, b, n); mn = n; term = 1; } else { VCHECK(v_failed != before, "set failed"); mn = u_buf_len(u); VCHECK(mn == 0, "failed set"); }
            break;
        case 4: case 5:
            n = op & 0x80 ? v16(&v) % 3000 : 1 + vb(&v) % 200;
            if (mn + n > CAP / 2 || n == 0) break;
            for (i = 0; i < n; i++) b[i] = 'a' + (i + op) % 26;
            b[n] = 0;
            vtrace("printf(%zu) ", n);
            rc = u_buf_printf(u, "%s%c", (char *) b, 'Z');
            if (rc == 0) { memcpy(m + mn, b, n); m[mn + n] = 'Z'; mn += n + 1; term = 1; } else VCHECK(v_failed != before, "printf failed");
            break;
        case 6:
            n = vb(&v) % (mn + 2);
            vtrace("shrink(%zu) ", n);
            rc = u_buf_shrink(u, n);
            VCHECK((rc == 0) == (n <= mn), "shrink(%zu) of %zu bytes returned %d", n, mn, rc);
            if (rc == 0) mn = n;
            break;
        case 7:
            if (op & 0x10) { vtrace("clear "); VCHECK(u_buf_clear(u) == 0, "clear"); mn = 0; }
            else { n = v16(&v); vtrace("reserve(%zu) ", n); rc = u_buf_reserve(u, n); VCHECK(rc == 0 || v_failed != before, "reserve failed");
                   if (rc == 0) VCHECK(u_buf_size(u) >= (ssize_t) n, "reserve(%zu) left size %zd", n, u_buf_size(u)); }
            break;
        case 8:
            if (op & 0x80) break;
            n = vb(&v) & 1 ? vb(&v) : v16(&v) % 9000;
            if (op & 0x40) n = 0;
            for (i = 0; i < n; i++) b[i] = (uint8_t) (op ^ i);
            fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0600);
            VCHECK(fd >= 0 && write(fd, b, n) == (ssize_t) n, "scratch file"); close(fd);
            vtrace("load(%zu) ", n);
            rc = u_buf_load(u, fn);
            if (rc == 0) { memcpy(m, b, n); mn = n; term = n > 0; } else { VCHECK(v_failed != before, "load of %zu bytes failed", n); mn = u_buf_len(u); }
            break;
        case 9:
            if (op & 0x80 && op & 0x40) {
                void *p = u_buf_ptr(u);
                vtrace("detach ");
                VCHECK(u_buf_detach(u) == 0, "detach");
                if (mn) VCHECK(!memcmp(p, m, mn), "detached bytes differ");
                u_free(p); mn = 0;
                VCHECK(u_buf_ptr(u) == NULL && u_buf_size(u) == 0, "detach leaves storage");
                break;
            }
            if (op & 0x20) break;
            vtrace("save ");
            rc = u_buf_save(u, fn);
            if (rc == 0) {
                fd = open(fn, O_RDONLY);
                n = read(fd, b, 70000); close(fd);
                if (mn < 60000) VCHECK(n == mn && !memcmp(b, m, mn), "saved file differs from the %zu bytes", mn);
            } else VCHECK(v_failed != before, "save of %zu bytes failed", mn);
            break;
        }
        same(u, "after", term);
    }
    u_buf_free(u);
    free(b);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}

void v_driver_init (void)
{
    u_buf_t *u = NULL;
    int k, f;
    m = malloc(CAP);
    snprintf(fn, sizeof fn, "buf-%d.tmp", (int) getpid());
    v_hooks_on();
    for (k = 1; k < 400; k++) for (f = 0; f < 3; f++) {
        VCHECK(u_buf_create(&u) == 0, "create");
        if (f) u_buf_reserve(u, f * 64);
        if (f == 2) u_buf_append(u, "0123456789", 10);
        VCHECK(u_buf_printf(u, "%*s", k, "x") == 0, "printf of %d characters", k);
        VCHECK(u_buf_len(u) == k + (f == 2 ? 10 : 0) && strlen(u_buf_ptr(u)) == (size_t) u_buf_len(u), "printf of %d characters", k);
        u_buf_free(u);
    }
    VCHECK(u_buf_create(NULL) != 0 && u_buf_append(NULL, "", 1) != 0 && u_buf_load(NULL, "x") != 0 && u_buf_len(NULL) == -1, "NULL arguments");
    VCHECK(u_buf_create(&u) == 0, "create");
    VCHECK(u_buf_reserve(u, (size_t) -1) != 0, "absurd reserve accepted");
    VCHECK(u_buf_load(u, "/nonexistent/x") != 0, "load of a missing file");
    u_buf_free(u);
    v_begin();
}
