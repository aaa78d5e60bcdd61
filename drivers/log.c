/* P29: one complete record per call, or an error */
#include "vdrv.h"
static int nrec, lastlev, depth, locked, badlock; static char rec[4096]; static void *lastarg;
static int hook1 (void *a, int l, const char *s) { nrec++; lastlev = l; lastarg = a; if (locked && depth != 1) badlock = 1; VCHECK(strlen(s) < 1024, "record of %zu bytes", strlen(s)); strcpy(rec, s); errno = 77; return 0; }
static int lk (void *a) { if (a != &depth) badlock = 1; depth++; errno = 78; return 0; }
static int ul (void *a) { if (a != &depth) badlock = 1; depth--; errno = 79; return 0; }
int v_run_case (const uint8_t *d, size_t sz)
{
    static const int errs[] = { 0, 2, 4, 22, 12345, -1, 11, 32 }; static const char *lab[] = { "emg", "alr", "crt", "err", "wrn", "ntc", "inf", "dbg" };
    vin_t v = { d, sz, 0 }; char msg[2200], want[4096], e[128], t[128]; u_log_hook_t o, o2; void *oa;
    int k, n, lev, flags, err, rc, len, eno; static const char *file = "f.c", *fun = "fun"; char lf[1400];
    u_log_set_hook(hook1, &nrec, &o, &oa);
    nrec = badlock = depth = 0; locked = vb(&v) & 1;
    u_log_set_lock(locked ? lk : NULL, &depth); u_log_set_unlock(locked ? ul : NULL, &depth);
    for (k = 0; k < 3; k++) {
        lev = vb(&v) % 8; flags = vb(&v) & 3; err = errs[vb(&v) % 8]; n = (vb(&v) & 1) ? 1024 - v16(&v) % 80 + 20 : v16(&v) % 2100; if (n < 0) n = 0;
        memset(msg, 'a' + k, n); msg[n] = 0; if (n) msg[n / 2] = '%';
        file = "f.c"; if (vb(&v) & 1) { size_t l = v16(&v) % 1300; memset(lf, 'F', l); lf[l] = 0; file = lf; }
        e[0] = 0; if (err) { t[0] = 0; u_strerror_r(err, t, sizeof t); VCHECK(memchr(t, 0, sizeof t), "error text not terminated"); snprintf(e, sizeof e, "[errno: %d, %s]", err, t); }
        len = (flags & 1) ? snprintf(want, sizeof want, "[%s][%d:%s:%d:%s] %s %s", lab[lev], (int) getpid(), file, 42, fun, msg, e)
                          : snprintf(want, sizeof want, "[%s][%d:::] %s %s", lab[lev], (int) getpid(), msg, e);
        nrec = 0; eno = 5 + k; errno = eno;
        rc = u_log_write_ex(LOG_USER, lev, flags, err, file, 42, fun, "%s", msg);
        vtrace("write(lev=%d,flags=%d,err=%d,msg %d bytes,record %d)=%d ", lev, flags, err, n, len, rc);
        VCHECK(errno == eno, "errno %d became %d", eno, errno);
        VCHECK(depth == 0 && !badlock, "lock not balanced");
        if (rc == 0) { VCHECK(nrec == 1, "%d records", nrec); VCHECK(!strcmp(rec, want), "record '%.60s...' of %zu bytes, expected %d", rec, strlen(rec), len); VCHECK(lastlev == lev && lastarg == &nrec, "level or argument"); }
        else VCHECK(nrec == 0, "failed, but a record was delivered");
        VCHECK((rc == 0) == (n < 1024 && len < 1024), "message of %d, record of %d bytes: rc %d", n, len, rc);
    }
    o2 = NULL; oa = NULL; u_log_set_hook(o, NULL, &o2, &oa); VCHECK(o2 == hook1 && oa == &nrec, "previous hook");
    VCHECK(depth == 0, "lock"); u_log_set_lock(NULL, NULL); u_log_set_unlock(NULL, NULL);
    for (k = 1; k < 20; k++) { memset(msg, 'x', sizeof msg); u_strerror_r(2, msg, k); VCHECK(memchr(msg, 0, k), "unterminated"); for (n = k; n < 200; n++) VCHECK(msg[n] == 'x', "overrun"); }
    return 0;
}
void v_driver_init (void) { }
