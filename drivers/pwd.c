/* P27: password files (with and without snapshot) against an independent reading of the file */
#include "vdrv.h"
enum { MAXL = 30 };
static char text[8000]; static size_t tlen, tpos; static int fail_open, gen, nopen;
typedef struct { char u[300], p[300], o[300]; int has_o; } rec_t;
static rec_t R[MAXL], S[MAXL]; static int nr, ns;
static int cb_open (const char *p, void **h) { VCHECK(!strcmp(p, "res"), "uri"); if (fail_open) return ~0; nopen++; tpos = 0; *h = &tpos; return 0; }
static void cb_close (void *h) { VCHECK(h == &tpos && nopen == 1, "close"); nopen--; }
static char *cb_load (char *s, int n, void *h)
{
    int k = 0; VCHECK(h == &tpos && nopen == 1, "load"); if (tpos >= tlen) return NULL;
    while (k < n - 1 && tpos < tlen) { s[k] = text[tpos++]; if (s[k++] == '\n') break; }
    s[k] = 0; return s;
}
static int cb_notify (const char *p, time_t last, time_t *new_) { (void) p; if (last != gen) { *new_ = gen; return 1; } return 0; }
static int cb_hash (const char *s, size_t n, char out[]) { size_t i; for (i = 0; i < n && i < 10; i++) out[i] = (s[n - 1 - i] == 'x') ? 'y' : s[n - 1 - i]; return 0; }
static const char *names[] = { "al", "alice", "alice2", "bob", "b", "#c", "Alice", "al ", "root:x", "alice:pw", "", "zz" };
static void field (vin_t *v, char *b, int nonempty) { int n = vb(v) % 6 + nonempty, i; static const char al[] = "abcxyP 12#"; for (i = 0; i < n; i++) b[i] = al[vb(v) % 10]; b[n] = 0; }
static void makefile_ (vin_t *v)
{
    int n = vb(v) % 8, i, k; nr = 0; tlen = 0;
    for (i = 0; i < n; i++) {
        rec_t *r = &R[nr]; const char *u = names[vb(v) % 8]; char ln[600]; k = vb(v) % 8; ln[0] = 0;
        if (k == 0) { strcpy(ln, "# comment:al:x"); }
        else if (k == 1) { strcpy(ln, u); }                                  /* a name only: bad syntax */
        else if (k == 2 && (vb(v) & 1)) { ln[0] = 0; }                       /* an empty line */
        else if (k == 3 && (vb(v) & 1)) { memcpy(text + tlen, "\0zz:pw\n", 7); tlen += 7; continue; }   /* a stray NUL */
        else {
            strcpy(r->u, u); field(v, r->p, 1); r->has_o = vb(v) & 1; r->o[0] = 0; if (r->has_o) field(v, r->o, 1);
            if (k == 4) { memset(r->p, 'p', 200); r->p[200] = 0; }
            sprintf(ln, "%s:%s%s%s", r->u, r->p, r->has_o ? ":" : "", r->o);
            if (u[0] != '#') { nr++; }
        }
        tlen += sprintf(text + tlen, "%s\n", ln);
    }
    if (tlen && (vb(v) & 1) && text[tlen - 1] == '\n') tlen--;               /* no newline at the end */
}
static void lookup (u_pwd_t *pwd, rec_t *T, int nt, const char *u, int mem, const char *why)
{
    u_pwd_rec_t *r = NULL; int rc = u_pwd_retr(pwd, u, &r), i, ok = 0, there = 0;
    for (i = 0; i < nt; i++) if (!strcmp(T[i].u, u)) {
        there = 1; if (rc) continue;
        if (!strcmp(u_pwd_rec_get_user(r), u) && !strcmp(u_pwd_rec_get_password(r), T[i].p) && (T[i].has_o ? u_pwd_rec_get_opaque(r) && !strcmp(u_pwd_rec_get_opaque(r), T[i].o) : u_pwd_rec_get_opaque(r) == NULL)) ok = 1;
    }
    VCHECK((rc == 0) == there, "%s: user '%.40s' %s", why, u, rc ? "not found, but there" : "found, but not there");
    if (rc == 0) { VCHECK(ok, "%s: user '%s': not the fields of its line", why, u); if (!mem) u_pwd_rec_free(pwd, r); }
    VCHECK(nopen == 0, "the resource stays open");
}
static void auth (u_pwd_t *pwd, const char *u, const char *pw, int hash, rec_t *T, int nt)
{
    char h[64] = { 0 }; const char *c = pw; int i, want = 0, other = 0, rc;
    if (hash) { cb_hash(pw, strlen(pw), h); c = h; }
    for (i = 0; i < nt; i++) if (!strcmp(T[i].u, u)) { if (!strcmp(T[i].p, c)) want = 1; else other = 1; }
    if (want && other) return;                                               /* duplicates: which line counts is not promised */
    rc = u_pwd_auth_user(pwd, u, pw);
    VCHECK((rc == 0) == want, "auth('%s','%s') = %d, expected %s", u, pw, rc, want ? "ok" : "failure");
    VCHECK(nopen == 0, "the resource stays open");
}
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 }; u_pwd_t *m = NULL, *r = NULL; int i, k, c, hash, ok; char big[700];
    v_hooks_on(); fail_open = 0; gen = 1; nopen = 0; hash = vb(&v) & 1;
    makefile_(&v); ns = 0; ok = 0;
    VCHECK(u_pwd_init("res", cb_open, cb_load, cb_close, NULL, hash ? cb_hash : NULL, hash ? 16 : 0, 0, &r) == 0, "init");
    VCHECK(u_pwd_init("res", cb_open, cb_load, cb_close, cb_notify, hash ? cb_hash : NULL, hash ? 16 : 0, 1, &m) == 0, "init");
    for (c = 0; c < 3; c++) {
        if (c) { gen++; makefile_(&v); }
        fail_open = (vb(&v) & 3) == 0;
        vtrace("[%.*s]%s ", (int) tlen, text, fail_open ? " open fails" : "");
        if (!fail_open) { memcpy(S, R, sizeof S); ns = nr; ok = 1; }
        (void) ok;
        memset(big, 'a', sizeof big); strcpy(big + 400, ":x");
        for (i = 0; i < 12; i++) {
            lookup(m, S, ns, names[i], 1, "snapshot");
            if (!fail_open) lookup(r, R, nr, names[i], 0, "file");
        }
        lookup(m, S, ns, big, 1, "snapshot"); if (!fail_open) lookup(r, R, nr, big, 0, "file");
        for (i = 0; i < 3; i++) {
            char pw[300]; k = vb(&v); field(&v, pw, 0); if (!(k & 1) && nr) { strcpy(pw, R[k % nr].p); if (hash) { char t[300] = { 0 }; if (strlen(pw) < 10 && !strchr(pw, 'x')) { cb_hash(pw, strlen(pw), t); strcpy(pw, t); } } }
            auth(m, names[k % 8], pw, hash, S, ns); if (nr) auth(m, R[k % nr].u, pw, hash, S, ns);
            if (!fail_open) { auth(r, names[k % 8], pw, hash, R, nr); if (nr) auth(r, R[k % nr].u, pw, hash, R, nr); }
        }
        if (fail_open) { u_pwd_rec_t *x = NULL; VCHECK(u_pwd_retr(r, "al", &x) != 0, "found without a file"); fail_open = 0; if (vb(&v) & 1) { memcpy(S, R, sizeof S); ns = nr; lookup(m, S, ns, "al", 1, "after a failed reload"); } else { gen++; makefile_(&v); memcpy(S, R, sizeof S); ns = nr; lookup(m, S, ns, "al", 1, "after a failed reload"); } }
    }
    VCHECK(u_pwd_in_memory(m) == 1 && u_pwd_in_memory(r) == 0, "in memory");
    u_pwd_term(m); u_pwd_term(r);
    VCHECK(v_live == 0, "%ld blocks left", v_live);
    return 0;
}
void v_driver_init (void) { }
