/* P28: copy and move in a scratch directory, every stdio call may fail */
#include "vdrv.h"
#include <sys/stat.h>
#include <fcntl.h>
static char dir[] = "./vfs.XXXXXX", A[64], B[64];
static int plan_on, n_open, errflag, injected; static vin_t *pv;
static FILE *opened[8];
FILE *__real_fopen (const char *, const char *); size_t __real_fread (void *, size_t, size_t, FILE *); size_t __real_fwrite (const void *, size_t, size_t, FILE *);
int __real_fclose (FILE *), __real_ferror (FILE *), __real_link (const char *, const char *), __real_unlink (const char *);
static int inj (void) { int r; if (!plan_on || vend(pv)) return 0; r = vb(pv) < 24; if (r) injected = 1; return r; }
FILE *__wrap_fopen (const char *n, const char *m) { FILE *f; int i; if (inj()) { errno = EACCES; return NULL; } f = __real_fopen(n, m); if (plan_on && f) { n_open++; for (i = 0; i < 8 && opened[i]; i++) ; opened[i] = f; } return f; }
size_t __wrap_fread (void *p, size_t s, size_t n, FILE *f) { if (inj()) { errflag = 1; n = n ? vb(pv) % (n / 40 + 1) * 40 / (s ? s : 1) : 0; return n ? __real_fread(p, s, n, f) : 0; } return __real_fread(p, s, n, f); }
size_t __wrap_fwrite (const void *p, size_t s, size_t n, FILE *f) { if (inj()) { n = n > 1 ? vb(pv) % n : 0; errno = ENOSPC; return n ? __real_fwrite(p, s, n, f) : 0; } return __real_fwrite(p, s, n, f); }
int __wrap_ferror (FILE *f) { return errflag || __real_ferror(f); }
int __wrap_fclose (FILE *f)
{
    int i, r, k;
    if (!plan_on) return __real_fclose(f);
    for (i = 0; i < 8 && opened[i] != f; i++) ;
    VCHECK(i < 8, "fclose of a stream that is not open (closed twice?)");
    opened[i] = NULL; n_open--; k = inj(); r = __real_fclose(f);
    if (k) { errno = ENOSPC; return EOF; }
    return r;
}
int __wrap_link (const char *a, const char *b) { if (plan_on && !vend(pv)) { int k = vb(pv); if (k < 100) { errno = EXDEV; return -1; } if (k < 120) { errno = EPERM; return -1; } } return __real_link(a, b); }
int __wrap_unlink (const char *a) { if (inj()) { errno = EACCES; return -1; } return __real_unlink(a); }
static void put (const char *n, const char *p, size_t l) { int fd = open(n, O_CREAT | O_TRUNC | O_WRONLY, 0600); VCHECK(write(fd, p, l) == (ssize_t) l, "driver"); close(fd); }
static long get (const char *n, char *p, size_t l) { int fd = open(n, O_RDONLY); long r; if (fd < 0) return -1; r = read(fd, p, l); close(fd); return r; }
int v_run_case (const uint8_t *d, size_t sz)
{
    static char c[20000], b[20001]; vin_t v = { d, sz, 0 }; int op = vb(&v), rc; size_t n = v16(&v) % 12000, i; long k;
    static const size_t edge[] = { 0, 1, 4095, 4096, 4097, 8191, 8192, 8193 };
    if (op & 8) n = edge[n % 8];
    for (i = 0; i < n; i++) c[i] = (char) (i * 131 + op + (i >> 8));
    remove(A); remove(B); put(A, c, n);
    if (op & 16) put(B, "old content of the target", 25);
    pv = &v; plan_on = 1; n_open = errflag = injected = 0; memset(opened, 0, sizeof opened);
    rc = (op & 1) ? u_move(A, B) : u_copy(A, B);
    plan_on = 0;
    vtrace("%s(%zu bytes)=%d injected=%d ", (op & 1) ? "move" : "copy", n, rc, injected);
    VCHECK(n_open == 0, "%d streams left open", n_open);
    if (rc == 0) {
        k = get(B, b, sizeof b); VCHECK(k == (long) n && !memcmp(b, c, n), "success, but the target holds %ld of %zu bytes", k, n);
        if (op & 1) VCHECK(access(A, F_OK) != 0, "moved, but the source is still there");
    } else VCHECK(injected || (op & 1), "failed although nothing failed");
    if (rc != 0 || !(op & 1)) { k = get(A, b, sizeof b); VCHECK(k == (long) n && !memcmp(b, c, n), "the source is damaged"); }
    VCHECK(u_copy(NULL, B) != 0 && u_copy(A, NULL) != 0 && u_move(NULL, B) != 0 && u_move(A, NULL) != 0 && u_remove(NULL) != 0, "NULL accepted");
    if (op & 32) { rc = u_remove(B); VCHECK(access(B, F_OK) != 0, "removed, but still there"); VCHECK(u_remove(B) != 0, "removing nothing"); }
    return 0;
}
static void done (void) { remove(A); remove(B); rmdir(dir); }
void v_driver_init (void) { if (!mkdtemp(dir)) exit(3); sprintf(A, "%s/a", dir); sprintf(B, "%s/b", dir); atexit(done); }
