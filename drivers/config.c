/* P25 (MODE 25): loading against an independent reading of the text; P26 (MODE 26): edits, saving and reloading against a model tree */
#include "vdrv.h"
#include <fcntl.h>
#ifndef MODE
#define MODE 25
#endif
void v_driver_init (void) { v_hooks_on(); }
typedef struct rn_s { char *k, *v; struct rn_s *ch[300]; int n; struct rn_s *up; u_config_t *c; } rn_t;
static rn_t *P[4000]; static int nP; static char *SB[40000]; static int nSB; static int skip;
static char *sdup (const char *s, size_t n) { char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; if (nSB >= 40000) { skip = 1; return r; } return SB[nSB++] = r; }
static rn_t *rnew (rn_t *up, const char *k) { rn_t *r = calloc(1, sizeof *r); if (nP >= 4000) abort(); P[nP++] = r; r->k = k ? sdup(k, strlen(k)) : NULL; r->up = up; if (up) { if (up->n >= 299 || nP > 3900) { skip = 1; return r; } up->ch[up->n++] = r; } return r; }
static void rclear (void) { while (nP) free(P[--nP]); while (nSB) free(SB[--nSB]); skip = 0; }
static rn_t *rchild (rn_t *c, const char *k, int n) { int i; for (i = 0; i < c->n; i++) if ((!k || !strcmp(c->ch[i]->k, k)) && n-- == 0) return c->ch[i]; return NULL; }
static rn_t *rpath (rn_t *c, const char *path, int n) { const char *d; while ((d = strchr(path, '.'))) { if (!(c = rchild(c, sdup(path, (size_t) (d - path)), 0))) return NULL; path = d + 1; } return rchild(c, path, n); }
static char *strim (char *s) { size_t n = strlen(s); while (n && (s[n - 1] == ' ' || s[n - 1] == '\t')) s[--n] = 0; while (*s == ' ' || *s == '\t') s++; return s; }
static int rset (rn_t *c, const char *val)
{
    char *o; size_t cap = 0, on = 0; const char *p, *e;
    if (!val) { c->v = NULL; return 0; }
    c->v = NULL;
    o = sdup("", 0);
    for (p = val; *p;) {
        const char *add = NULL; size_t an;
        if (p[0] == '$' && p[1] == '{') {
            rn_t *r = NULL; char *name;
            if (!(e = strchr(p + 2, '}'))) return 1;
            name = sdup(p + 2, (size_t) (e - p - 2)); r = c->up ? rpath(c->up, name, 0) : NULL;
            if (!r) { rn_t *t = c; while (t->up) t = t->up; r = rpath(t, name, 0); }
            add = r && r->v ? r->v : ""; an = strlen(add); p = e + 1;
        } else { add = p++; an = 1; }
        if (on + an + 1 > cap) { char *q; cap = 2 * (on + an + 16); if (cap > 4000000) { skip = 1; return 1; } q = malloc(cap); memcpy(q, o, on); if (nSB < 40000) SB[nSB++] = q; else skip = 1; o = q; }
        memcpy(o + on, add, an); on += an; o[on] = 0;
    }
    c->v = strim(o);
    return 0;
}
static int rkey (rn_t *c, const char *key, const char *val, int over)
{
    const char *d; rn_t *h; int added = 0, rc;
    while ((d = strchr(key, '.'))) { char *k = sdup(key, (size_t) (d - key)); if (!(h = rchild(c, k, 0))) h = rnew(c, k); c = h; key = d + 1; if (skip) return 1; }
    h = rchild(c, key, 0); if (!h || !over) { h = rnew(c, key); added = 1; }
    if (skip) return 1;
    { char *old = h->v; rc = rset(h, val); if (rc) { h->v = old; if (added) { c->n--; } } }
    return rc;
}
static const char *tx;
static int rload (rn_t *c, int over, int nested)
{
    char *last = NULL;
    while (*tx) {
        const char *e = strchr(tx, '\n'); size_t n = e ? (size_t) (e - tx) : strlen(tx), i, w; char *l = malloc(n + 1), *s, *k, *v; if (nSB < 40000) SB[nSB++] = l; else { skip = 1; return 1; }
        for (i = w = 0; i < n; i++) { if (tx[i] == '#') { if (i && tx[i - 1] == '\\') { l[w - 1] = '#'; continue; } break; } l[w++] = tx[i]; }
        l[w] = 0; tx += n + (e ? 1 : 0);
        if (skip) return 1;
        s = strim(l); for (n = strlen(s); n && (s[n - 1] == '\r' || s[n - 1] == '\n'); ) s[--n] = 0;
        if (!n) continue;
        while (*s == ' ' || *s == '\t') s++;
        if (*s == '{') { rn_t *g; if (!last) return 1; if (s[1 + strspn(s + 1, " \t")]) return 1; if (!over || !(g = rchild(c, last, 0))) g = rnew(c, last); if (skip || rload(g, over, 1)) return 1; last = NULL; continue; }
        if (*s == '}') { if (!nested) return 1; return s[1 + strspn(s + 1, " \t")] != 0; }
        i = strcspn(s, " \t"); k = sdup(s, i); v = strim(s + i);
        if (!strcmp(k, "include") || !strcmp(k, "-include")) { skip = 1; return 1; }
        if (!*v) { last = *k ? k : NULL; continue; }
        last = NULL;
        if (rkey(c, k, v, over)) return 1;
    }
    return nested;
}
static int eqs (const char *a, const char *b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static void cmp (u_config_t *c, rn_t *r, int lookups)
{
    int i, j; r->c = c; if (r->up) VCHECK(eqs(u_config_get_key(c), r->k), "key '%s', expected '%s'", u_config_get_key(c), r->k);
    VCHECK(eqs(u_config_get_value(c), r->v), "value of '%s' is '%.60s' (%zu), expected '%.60s' (%zu)", r->k ? r->k : "(top)", u_config_get_value(c) ? u_config_get_value(c) : "(none)", u_config_get_value(c) ? strlen(u_config_get_value(c)) : 0, r->v ? r->v : "(none)", r->v ? strlen(r->v) : 0);
    for (i = 0; i < r->n; i++) { u_config_t *h = u_config_get_child_n(c, NULL, i); VCHECK(h, "'%s': child %d missing", r->k ? r->k : "(top)", i); cmp(h, r->ch[i], lookups); }
    VCHECK(!u_config_get_child_n(c, NULL, r->n), "'%s': too many children", r->k ? r->k : "(top)"); VCHECK(!u_config_has_children(c) == !r->n, "has children");
    for (i = 0; lookups && i < r->n && i < 12; i++) {
        int nth = 0; rn_t *f; u_config_t *x = NULL; const char *k = r->ch[i]->k; int iv, rc; const char *v;
        for (j = 0; j < i; j++) nth += !strcmp(r->ch[j]->k, k);
        if (strchr(k, '.')) continue;
        VCHECK(u_config_get_child_n(c, k, nth) == r->ch[i]->c, "child '%s' number %d", k, nth);
        VCHECK(u_config_get_subkey_nth(c, k, nth, &x) == 0 && x == r->ch[i]->c, "subkey '%s' number %d", k, nth);
        f = rchild(r, k, 0); v = f->v; VCHECK(eqs(u_config_get_subkey_value(c, k), v), "value of '%s'", k);
        iv = 4711; rc = u_config_get_subkey_value_i(c, k, 42, &iv);
        if (!v) VCHECK(rc == 0 && iv == 42, "default integer of '%s'", k);
        else { char *e; long l; errno = 0; l = strtol(v, &e, 10); if (e == v || errno || l < INT_MIN || l > INT_MAX) VCHECK(rc && iv == 4711, "integer of '%s' is '%.40s', got %d", k, v, iv); else VCHECK(rc == 0 && iv == l, "integer of '%s' is '%.40s', got %d rc %d", k, v, iv, rc); }
        iv = 4711; rc = u_config_get_subkey_value_b(c, k, 3, &iv);
        if (!v) VCHECK(rc == 0 && iv == 3, "default truth value"); else { int t = !strcasecmp(v, "yes") || !strcasecmp(v, "enable") || !strcmp(v, "1") || !strcasecmp(v, "on"), z = !strcasecmp(v, "no") || !strcasecmp(v, "disable") || !strcmp(v, "0") || !strcasecmp(v, "off"); VCHECK(t || z ? rc == 0 && iv == t : rc && iv == 4711, "truth value of '%.40s': %d rc %d", v, iv, rc); }
        for (j = 0; j < r->ch[i]->n && j < 6; j++) { char path[600]; int q, m = 0; rn_t *y; if (strlen(k) + strlen(r->ch[i]->ch[j]->k) > 590 || strchr(r->ch[i]->ch[j]->k, '.')) continue; sprintf(path, "%s.%s", k, r->ch[i]->ch[j]->k); for (q = 0; q < j; q++) m += !strcmp(r->ch[i]->ch[q]->k, r->ch[i]->ch[j]->k); y = rpath(r, path, m); x = NULL; rc = u_config_get_subkey_nth(c, path, m, &x); if (!y) VCHECK(rc, "subkey '%s' number %d found", path, m); else VCHECK(rc == 0 && eqs(u_config_get_value(x), y->v) && eqs(u_config_get_key(x), y->k) && (!y->c || y->c == x), "subkey '%s' number %d", path, m); y = rpath(r, path, 0); VCHECK(eqs(u_config_get_subkey_value(c, path), y ? y->v : NULL), "value of '%s'", path); }
    }
    if (lookups) { u_config_t *x; int iv = 0; VCHECK(!u_config_get_child(c, "no such key") && u_config_get_subkey(c, "no such key", &x) && u_config_get_subkey(c, "no such.key", &x) && !u_config_get_subkey_value(c, "no such key"), "absent key found"); VCHECK(u_config_get_subkey_value_i(c, "no such key", -5, &iv) == 0 && iv == -5, "default"); }
}
static const char *gp; static size_t gchunk;
static char *gets_cb (void *a, char *buf, size_t size) { size_t n = 0, lim = gchunk && gchunk < size - 1 ? gchunk : size - 1; (void) a; if (!*gp) return NULL; while (n < lim && *gp) { buf[n++] = *gp; if (*gp++ == '\n') break; } buf[n] = 0; return buf; }
static char G[200000]; static size_t g;
static void gs (const char *s) { while (*s && g < sizeof G - 1) G[g++] = *s++; G[g] = 0; }
#if MODE == 25
static const char *KS[] = { "a", "b", "key", "name", "x.y", "a.b", "a.b.c", "long_key-1", "a.", ".b", "\\#h", "k\\#", "$v", "${a}", "1" };
static const char *VS[] = { "1", "yes", "off", "a b  c", "0", "${a}", "${b}${a}", "x${key}y", "${x.y}", "${nosuch}", "\\#1", "\\\\#", "#c", "a # b", "2147483647", "2147483648", "-7", "{", "}", "${", "$", "${a}${", "x\r", "\t t \t", "On", "DISABLE", "a\\b", "}x${a.b.c}", "99999999999999999999", "12x", "a\\##c d", "\\#\\##x", "v\\## t" };
static void gen (vin_t *in)
{
    unsigned c = vb(in), dep = 0; g = 0; G[0] = 0;
    if (c % 5 == 0) { while (!vend(in) && g < sizeof G - 1) { char x = (char) vb(in); if (x) G[g++] = x; } G[g] = 0; return; }
    if (c % 5 == 1) { static const char AL[] = "ab.{}#\\$ \t\n\r{}\n\n=x1"; while (!vend(in) && g < sizeof G - 1) G[g++] = AL[vb(in) % (sizeof AL - 1)]; G[g] = 0; return; }
    while (!vend(in) && g < sizeof G / 2) {
        unsigned o = vb(in);
        if (o % 3 == 0) gs(&"  \0\t\0    \0"[o / 3 % 3 * 3]);
        switch (o / 8 % 10) {
            case 0: gs(KS[vb(in) % 10]); gs("\n"); gs(o & 1 ? "\t{" : "{ "); dep++; break;
            case 1: if (dep || vb(in) % 12 == 0) { gs("}"); if (dep) dep--; } if (vb(in) % 60 == 59) gs(" x"); break;
            case 2: gs("# comment { } ${"); break;
            case 3: break;
            case 4: { unsigned k = vb(in), n, i; static const unsigned NS[] = { 1015, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 2040, 2043, 2044, 2045, 2046, 2047, 2048, 3000, 3060, 3066, 3067, 3068, 3069 }; gs(KS[k % 9]); gs(" "); n = NS[vb(in) % 21] - (unsigned) (k / 9 % 4); for (i = 0; i < n && g < sizeof G - 8; i++) G[g++] = (char) ('a' + i % 26); G[g] = 0; break; }
            default: { unsigned k = vb(in); gs(KS[k % (k > 200 ? 15 : 9)]); if (k % 19 == 7) break; gs(k & 1 ? " " : "\t  "); k = vb(in); gs(VS[k % 33 == 19 || k % 33 == 21 ? (k / 33) % 8 ? 0 : k % 33 : k % 33]); if (k % 7 == 6) gs("  # tail"); }
        }
        if (vend(in) && (c & 128)) break;
        gs(o % 11 == 10 ? "\r\n" : "\n");
    }
    while (dep-- > 0 && c % 16 != 2) gs("\n}");
    if (c & 64) gs("\n");
}
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t in = { d, n, 0 }; unsigned how = vb(&in), f = vb(&in); rn_t *top; u_config_t *c = NULL; int rc, want, over = 0; char *x; long live;
    rclear(); gen(&in); x = malloc(g + 1); memcpy(x, G, g + 1); vtrace("how %u f %u: %.3000s", how, f, x);
    top = rnew(NULL, NULL);
    switch (how % 4) {
        case 0: case 1:
            tx = x; want = rload(top, 0, 0); if (skip) break;
            if (how % 8 == 5) { v_nalloc = v_failed = 0; v_fail_at = f; }
            { char *y = malloc(g); memcpy(y, x, g); rc = u_config_load_from_buf(y, g, &c); free(y); }
            v_fail_at = -1; if (!v_failed) VCHECK((rc != 0) == (want != 0), "load says %d, expected %d", rc, want);
            if (want) VCHECK(rc, "load accepted a bad text");
            if (rc) VCHECK(v_live == 0, "a failed load leaks %ld blocks", v_live); else cmp(c, top, 1);
            break;
        case 2: case 3:
            over = how / 4 % 2; VCHECK(u_config_create(&c) == 0, "create");
            { char *cut = how / 8 % 3 == 0 ? strchr(x + g / 2, '\n') : NULL; char *part[2]; int q, np = 1;
              part[0] = x; if (cut) { vtrace(" [cut] %.500s", cut); *cut = 0; part[1] = cut + 1; np = 2; }
              for (q = 0; q < np; q++) {
                tx = part[q]; want = rload(top, over, 0); if (skip) break;
                live = v_live; gp = part[q]; gchunk = how / 24 % 2 ? 1 + f % 40 : 0; 
                if (how % 4 == 2) rc = u_config_load_from(c, gets_cb, NULL, over);
                else { int fd = open("cfg", O_RDWR | O_CREAT | O_TRUNC, 0600); VCHECK(fd >= 0 && write(fd, part[q], strlen(part[q])) == (ssize_t) strlen(part[q]) && lseek(fd, 0, SEEK_SET) == 0, "driver"); rc = u_config_load(c, fd, over); VCHECK(close(fd) == 0, "the caller's descriptor was closed"); (void) live; }
                VCHECK((rc != 0) == (want != 0), "load says %d, expected %d", rc, want);
                if (rc) break;
                cmp(c, top, 1);
              } }
            break;
    }
    if (c) u_config_free(c);
    VCHECK(v_live == 0, "%ld blocks left", v_live);
    free(x); rclear();
    return 0;
}
#else
static void want_reload (rn_t *s, rn_t *t) { int i; for (i = 0; i < s->n; i++) { rn_t *h = s->ch[i], *q; if (h->v && *h->v) { q = rnew(t, h->k); q->v = h->v; } else if (h->n) { q = rnew(t, h->k); want_reload(h, q); } } }
static rn_t *ALLn[4000]; static int nA;
static void all (rn_t *r) { int i; ALLn[nA++] = r; for (i = 0; i < r->n; i++) all(r->ch[i]); }
static void setc (u_config_t *c, rn_t *r) { int i; r->c = c; for (i = 0; i < r->n; i++) setc(u_config_get_child_n(c, NULL, i), r->ch[i]); }
static int kcmp (u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static int w_n; static u_config_t *w_at[4000]; static void w_cb (u_config_t *c) { if (w_n < 4000) w_at[w_n++] = c; }
int v_run_case (const uint8_t *d, size_t n)
{
    static const char *SEG[] = { "a", "b", "cc", "d", "k1", "k2", "host", "port" }, *VAL[] = { "1", "a b", "x\ty", "/etc/x", "", "0", "http://h:80/", "v1.2", "{", "a}b", "}" , "\xc3\xa9" , "0.0" , "y" , "z z z", "=" };
    vin_t in = { d, n, 0 }; rn_t *top; u_config_t *c; int rc, i; long live;
    rclear(); VCHECK(u_config_create(&c) == 0, "create"); top = rnew(NULL, NULL);
    while (!vend(&in) && nP < 250 && nSB < 30000) {
        unsigned op = vb(&in) % 12; rn_t *r; char path[64], big[300]; const char *v; unsigned k, q;
        nA = 0; all(top); r = ALLn[vb(&in) % (unsigned) nA]; setc(c, top);
        switch (op) {
            case 0: case 1: case 2: case 3: case 4: {
                int bad = 0; rn_t *h; char *p, *s; if (r->v) break;
                k = 1 + vb(&in) % 3; path[0] = 0; for (q = 0; q < k; q++) { if (q) strcat(path, "."); strcat(path, SEG[vb(&in) % 8]); }
                k = vb(&in); v = VAL[k % 16]; if (k > 240) { memset(big, 'w', 299); big[200 + vb(&in) % 99] = 0; v = big; }
                for (h = r, s = path; h && (p = strchr(s, '.')); s = p + 1) { *p = 0; h = rchild(h, s, 0); *p = '.'; if (h && h->v) bad = 1; }
                if (bad || (h && op % 2 == 0 && (h = rchild(h, s, 0)) && h->n)) break;
                live = v_live; if (vb(&in) % 8 == 7) { v_nalloc = v_failed = 0; v_fail_at = vb(&in) % 16; }
                rc = op % 2 ? u_config_add_key(r->c, path, v) : u_config_set_key(r->c, path, v); k = (unsigned) v_failed; v_fail_at = -1; v_failed = 0;
                vtrace("%s %s='%.20s' -> %d; ", op % 2 ? "add" : "set", path, v, rc);
                if (k && rc) { rn_t *t = r; char *s2 = path; while ((p = strchr(s2, '.'))) { rn_t *hh; *p = 0; hh = rchild(t, s2, 0); if (!hh) { if (!u_config_get_child(t->c, s2)) { *p = '.'; break; } hh = rnew(t, s2); hh->c = u_config_get_child(t->c, s2); } t = hh; *p = '.'; s2 = p + 1; } break; }   /* groups on the way may have been created */
                VCHECK(rc == 0, "set or add fails"); rkey(r, path, v, op % 2 == 0); break; }
            case 5: if (r == top) break; VCHECK(u_config_del_child(r->up->c, r->c) == 0, "delete"); for (i = 0; r->up->ch[i] != r; i++) ; for (; i + 1 < r->up->n; i++) r->up->ch[i] = r->up->ch[i + 1]; r->up->n--; break;
            case 6: if (r == top || r->n) break; k = vb(&in); v = k % 5 == 4 ? NULL : k % 7 == 6 ? u_config_get_value(r->c) : VAL[k % 16]; { char *vv = v ? sdup(v, strlen(v)) : NULL; VCHECK(u_config_set_value(r->c, v) == 0, "set value"); r->v = vv; } break;
            case 7: { u_config_t *o; if (r == top) break; VCHECK(u_config_create(&o) == 0, "create"); VCHECK(u_config_del_child(r->c, o), "a stranger deleted"); u_config_free(o); break; }
            case 8: { rn_t *t; int j; if (vb(&in) % 3) break; VCHECK(u_config_sort_children(r->c, kcmp) == 0, "sort"); for (i = 1; i < r->n; i++) for (j = i; j > 0 && strcmp(r->ch[j - 1]->k, r->ch[j]->k) > 0; j--) { t = r->ch[j]; r->ch[j] = r->ch[j - 1]; r->ch[j - 1] = t; }
                for (i = 0; i < r->n; i++) { u_config_t *h = u_config_get_child_n(r->c, NULL, i); for (j = 0; j < r->n && r->ch[j]->c != h; j++) ; VCHECK(j < r->n, "sorting lost a child"); t = r->ch[j]; VCHECK(!strcmp(t->k, r->ch[i]->k), "not sorted"); r->ch[j] = r->ch[i]; r->ch[i] = t; } break; }
            case 9: case 10: {     /* save, reload */
                char *buf = malloc(60000), *s2; size_t sz, need; u_config_t *o = NULL; rn_t *t = rnew(NULL, NULL), *t2 = t; live = v_live;
                VCHECK(u_config_save_to_buf(r->c, buf, 60000) == 0, "save"); need = strlen(buf) + 1; vtrace("saved: %.500s", buf);
                k = vb(&in); sz = k % 4 == 0 ? need : k % 4 == 1 ? need - 1 : v16(&in) % (need + 3);
                s2 = malloc(sz ? sz : 1); rc = u_config_save_to_buf(r->c, s2, sz); VCHECK((rc == 0) == (sz >= need), "saving %zu bytes into %zu: %d", need, sz, rc); if (!rc) VCHECK(!memcmp(s2, buf, need), "another text"); free(s2);
                if (r->up) { if (r->v && *r->v) { t2 = rnew(t, r->k); t2->v = r->v; } else if (r->n) { t2 = rnew(t, r->k); want_reload(r, t2); } } else want_reload(r, t);
                VCHECK(u_config_load_from_buf(buf, need - 1 + (k & 1), &o) == 0, "the saved text is refused"); cmp(o, t, 0); u_config_free(o);
                if (k & 64) { char *m = NULL; size_t ml; FILE *fp = open_memstream(&m, &ml); u_config_print_to_fp(c, fp, 0); fclose(fp); t = rnew(NULL, NULL); want_reload(top, t); VCHECK(u_config_create(&o) == 0, "create"); gp = m; gchunk = 0; VCHECK(u_config_load_from(o, gets_cb, NULL, 0) == 0, "the printed text is refused: %s", m); cmp(o, t, 0); u_config_free(o); free(m); }
                if (k & 32) { v_nalloc = v_failed = 0; v_fail_at = vb(&in) % 20; s2 = malloc(need); rc = u_config_save_to_buf(r->c, s2, need); v_fail_at = -1; VCHECK(rc || (!v_failed && !strcmp(s2, buf)), "saving reported success though memory ran out"); free(s2); v_failed = 0; }
                free(buf); VCHECK(v_live == live, "saving leaks"); break; }
            case 11: { int j = 0; nA = 0; all(top); w_n = 0; u_config_walk(c, U_CONFIG_WALK_PREORDER, w_cb); VCHECK(w_n == nA - 1, "walk shows %d of %d", w_n, nA - 1); for (i = 1; i < nA; i++, j++) VCHECK(w_at[j] == ALLn[i]->c, "walk order"); break; }
        }
        cmp(c, top, 1);
    }
    u_config_free(c); VCHECK(v_live == 0, "%ld blocks left", v_live); rclear();
    return 0;
}
#endif
