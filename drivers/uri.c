/* P14 (MODE 14): u_uri_crumble against a reference splitter of RFC 3986; P15 (MODE 15):
 * assembling and parsing again.  Tokens of up to 125 characters are required to work, longer
 * ones may be refused but never cut. */
#include "vdrv.h"
#ifndef MODE
#define MODE 14
#endif
void v_driver_init (void) { v_hooks_on(); }
#define LIM 125
typedef struct { const char *p; size_t n; } sl;
typedef struct { sl scheme, userinfo, user, pwd, host, port, path, query, fragment; int lit, ip, auth; } ref;
enum { BAD, OK, ANY };

static int ups (const char *s, size_t n, size_t *i)
{
    unsigned char c = s[*i];
    if (c == '%') {
        if (*i + 2 >= n || !isxdigit((unsigned char) s[*i + 1]) || !isxdigit((unsigned char) s[*i + 2])) return 0;
        *i += 3;
        return 1;
    }
    if (c && c < 128 && (isalnum(c) || strchr("-._~!$&'()*+,;=", c))) { ++*i; return 1; }
    return 0;
}
static int all (sl t, const char *extra)
{
    size_t i = 0;
    while (i < t.n)
        if (t.p[i] && strchr(extra, t.p[i])) i++;
        else if (!ups(t.p, t.n, &i)) return 0;
    return 1;
}
static sl mk (const char *a, const char *b) { sl r = { a, (size_t) (b - a) }; return r; }

static int split (const char *s, ref *r)
{
    const char *p = s, *e, *a, *x;
    int v = OK;
    memset(r, 0, sizeof *r);
    if (!isalpha((unsigned char) *p) || (unsigned char) *p > 127) return BAD;
    while ((unsigned char) *p < 128 && *p && (isalnum((unsigned char) *p) || strchr("+-.", *p))) p++;
    if (*p != ':') return BAD;
    r->scheme = mk(s, p);
    p++;
    e = p + strcspn(p, "?#");                /* end of hier-part */
    if (!strncmp(p, "//", 2)) {
        r->auth = 1;
        p += 2;
        a = p + strcspn(p, "/?#");           /* end of authority */
        x = memchr(p, '@', a - p);
        if (x) {
            sl u = mk(p, x);
            const char *c = memchr(u.p, ':', u.n);
            if (!all(u, ":")) return BAD;
            r->userinfo = u;
            r->user = mk(u.p, c ? c : x);
            if (c) r->pwd = mk(c + 1, x);
            p = x + 1;
        }
        if (*p == '[') {
            const char *b = memchr(p, ']', a - p);
            if (!b) return BAD;
            r->host = mk(p + 1, b);
            if (!all(r->host, ":@")) return BAD;
            if (!r->host.n || strspn(r->host.p, "0123456789abcdefABCDEF:.") < r->host.n) v = ANY;
            r->lit = r->ip = 1;
            p = b + 1;
        } else {
            const char *b = p;
            while (b < a && *b != ':') b++;
            r->host = mk(p, b);
            if (!all(r->host, "")) return BAD;
            r->ip = r->host.n && isdigit((unsigned char) *p) && strspn(p, "0123456789.") >= r->host.n;
            p = b;
        }
        if (p < a) {
            size_t i;
            if (*p != ':') return BAD;
            r->port = mk(p + 1, a);
            if (!(r->port.n == 1 && *r->port.p == '*'))  /* wildcard port of the network module */
            for (i = 0; i < r->port.n; i++)
                if ((unsigned char) r->port.p[i] > 127 || (!isalnum((unsigned char) r->port.p[i]) && !strchr("_-.", r->port.p[i]))) return BAD;
            p = a;
        }
        r->path = mk(a, e);
    } else {
        r->path = mk(p, e);
        v = ANY;
    }
    if (!all(r->path, ":@/")) return BAD;
    p = e;
    if (*p == '?') {
        e = p + 1 + strcspn(p + 1, "#");
        r->query = mk(p + 1, e);
        if (!all(r->query, ":@/?")) return BAD;
        p = e;
    }
    if (*p == '#') {
        r->fragment = mk(p + 1, p + strlen(p));
        if (!all(r->fragment, ":@/?")) return BAD;
    }
    return v;
}
static int is (const char *got, sl t) { return strlen(got) == t.n && !memcmp(got, t.p ? t.p : "", t.n); }
static int fits (ref *r) { return r->scheme.n <= LIM && r->userinfo.n <= LIM && r->host.n <= LIM && r->port.n <= LIM && r->path.n <= LIM && r->query.n <= LIM && r->fragment.n <= LIM; }

static size_t chars (vin_t *v, char *d, size_t max, const char *set, int wild)
{
    size_t n = vb(v), i, k = 0, m = strlen(set);
    n = n > 250 ? 120 + n % 10 : n % 9;
    if (n > max) n = max;
    for (i = 0; i < n; i++) {
        unsigned c = vb(v);
        if (c == 255 && wild) d[k++] = (char) (1 + vb(v) % 255);
        else if (c > 250 && i + 3 <= n && strchr(set, '%')) { d[k++] = '%'; d[k++] = "0aF9"[vb(v) & 3]; d[k++] = "1bE8"[vb(v) & 3]; i += 2; }
        else { c = set[c % m]; d[k++] = (char) (c == '%' ? '-' : c); }
    }
    d[k] = 0;
    return k;
}
#define ALNUM "abz019XY"

#if MODE == 14
static void text (vin_t *v, char *d)
{
    unsigned f = vb(v), w = (f & 3) == 3;
    char t[160];
    *d = 0;
    strcpy(d, (f & 4) ? "h" : "");
    chars(v, t, 140, ALNUM "+-.", w); strcat(d, t);
    strcat(d, (f & 8) && w ? "" : ":");
    f = vb(v);
    if (f % 16) strcat(d, "//");
    f = vb(v);
    if (f & 1) { chars(v, t, 140, ALNUM ":%-._~!$&'()*+,;=:", w); strcat(d, t); strcat(d, "@"); }
    if ((f & 6) == 6) { strcat(d, "["); chars(v, t, 140, "0123:abF.", w); strcat(d, t); strcat(d, "]"); }
    else if ((f & 6) == 4) { chars(v, t, 140, "0123.", w); strcat(d, t); }
    else { chars(v, t, 140, ALNUM "%-._~!$&'()*+,;=", w); strcat(d, t); }
    if (f & 8) { strcat(d, ":"); chars(v, t, 140, (f & 16) ? "0123456789" : ALNUM "_-.", w); strcat(d, t); }
    if (f & 32) { strcat(d, "/"); chars(v, t, 140, ALNUM "%-._~!$&'()*+,;=:@//", w); strcat(d, t); }
    if (f & 64) { strcat(d, "?"); chars(v, t, 140, ALNUM "%-._~!$&'()*+,;=:@/?", w); strcat(d, t); }
    if (f & 128) { strcat(d, "#"); chars(v, t, 140, ALNUM "%-._~!$&'()*+,;=:@/?", w); strcat(d, t); }
}
int v_run_case (const uint8_t *data, size_t size)
{
    vin_t v = { data, size, 0 };
    char *s, big[2400];
    u_uri_t *u = NULL;
    ref r;
    int verdict, rc, opt;
    unsigned f = vb(&v);
    size_t i, n;
    opt = (f & 2) ? U_URI_OPT_DONT_PARSE_USERINFO : 0;
    if (f & 1) { for (n = 0; n + 1 < sizeof big && !vend(&v); n++) big[n] = (char) vb(&v); big[n] = 0; }
    else {
        text(&v, big);
        for (i = vb(&v); i > 252 && strlen(big); i--) {            /* corrupt a character */
            unsigned w = vb(&v), q = vb(&v);
            big[w % strlen(big)] = "%[]@:/?#\" \x7f\xe9<"[q % 13];
        }
    }
    n = strlen(big);
    s = malloc(n + 1);
    memcpy(s, big, n + 1);
    vtrace("\"%s\" opt %d", s, opt);
    verdict = split(s, &r);
    rc = u_uri_crumble(s, opt, &u);
    VCHECK(rc == 0 || rc == -1, "returned %d", rc);
    if (verdict == BAD) VCHECK(rc != 0, "accepted what the syntax rules out");
    if (verdict == OK && fits(&r)) VCHECK(rc == 0, "refused");
    if (rc == 0 && verdict == OK) {
        VCHECK(u != NULL, "no result");
        VCHECK(is(u_uri_get_scheme(u), r.scheme), "scheme <%s>", u_uri_get_scheme(u));
        VCHECK(is(u_uri_get_userinfo(u), r.userinfo), "userinfo <%s>", u_uri_get_userinfo(u));
        if (opt) r.user.n = r.pwd.n = 0;
        VCHECK(is(u_uri_get_user(u), r.user), "user <%s>", u_uri_get_user(u));
        VCHECK(is(u_uri_get_pwd(u), r.pwd), "pwd <%s>", u_uri_get_pwd(u));
        VCHECK(is(u_uri_get_host(u), r.host), "host <%s>", u_uri_get_host(u));
        VCHECK(is(u_uri_get_port(u), r.port), "port <%s>", u_uri_get_port(u));
        VCHECK(is(u_uri_get_path(u), r.path), "path <%s>", u_uri_get_path(u));
        VCHECK(is(u_uri_get_query(u), r.query), "query <%s>", u_uri_get_query(u));
        VCHECK(is(u_uri_get_fragment(u), r.fragment), "fragment <%s>", u_uri_get_fragment(u));
        VCHECK(!!(u_uri_get_flags(u) & U_URI_FLAGS_HOST_IS_IPLITERAL) == r.lit, "literal flag");
        VCHECK(!!(u_uri_get_flags(u) & U_URI_FLAGS_HOST_IS_IPADDRESS) == r.ip, "address flag");
        VCHECK(u_uri_is_absolute(s) == (r.fragment.n == 0), "u_uri_is_absolute");
    }
    if (rc == 0) u_uri_free(u);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    free(s);
    return 0;
}
#else
#define GS(x) x(scheme) x(userinfo) x(user) x(pwd) x(host) x(port) x(path) x(query) x(fragment)
static void same (u_uri_t *a, u_uri_t *b)
{
#define X(n) VCHECK(!strcmp(u_uri_get_##n(a), u_uri_get_##n(b)), #n ": <%s> became <%s>", u_uri_get_##n(a), u_uri_get_##n(b));
    X(scheme) X(user) X(pwd) X(host) X(port) X(path) X(query) X(fragment)
}
int v_run_case (const uint8_t *data, size_t size)
{
    vin_t v = { data, size, 0 };
    u_uri_t *u = NULL, *w = NULL;
    unsigned f = vb(&v);
    char t[400], *s = malloc(U_URI_STRMAX), *s2 = malloc(U_URI_STRMAX);
    size_t n;
    VCHECK(u_uri_new(0, &u) == 0, "u_uri_new");
#define SET(field, set, first, must) do { \
        n = chars(&v, t + 1, !strcmp(#field, "user") || !strcmp(#field, "pwd") ? 58 : 122, set, 0); t[0] = first; \
        if (!(first)) memmove(t, t + 1, n + 1); \
        if ((must) && !t[0]) strcpy(t, "h"); \
        VCHECK(u_uri_set_##field(u, t) == 0, "u_uri_set_" #field); \
        VCHECK(!strcmp(u_uri_get_##field(u), t), "u_uri_get_" #field); \
        vtrace(#field "=<%s> ", t); } while (0)
    SET(scheme, ALNUM "+-.", 's', 1);
    if (f & 1) { SET(user, ALNUM "%-._~!$&'()*+,;=", 0, 1); if (f & 2) SET(pwd, ALNUM "%-._~!$&'()*+,;=:", 0, 0); }
    else if (f & 2) SET(userinfo, ALNUM "%-._~!$&'()*+,;=:", 0, 0);
    if ((f & 12) == 12) SET(host, "0123:abF.", ':', 1);
    else if ((f & 12) == 8) SET(host, "0123.", '1', 1);
    else SET(host, ALNUM "%-._~!$&'()*+,;=", 0, 1);
    if (f & 16) SET(port, "0123456789", 0, 0);
    if (f & 32) SET(path, ALNUM "%-._~!$&'()*+,;=:@//", '/', 0);
    if (f & 64) SET(query, ALNUM "%-._~!$&'()*+,;=:@/?", 0, 0);
    if (f & 128) SET(fragment, ALNUM "%-._~!$&'()*+,;=:@/?", 0, 0);
    if (vb(&v) == 7) {                 /* values that do not fit are refused */
        memset(t, 'q', 399); t[128 + vb(&v) % 250] = 0;
        VCHECK(u_uri_set_port(u, t) != 0, "too long value accepted");
        VCHECK(strlen(u_uri_get_port(u)) < 128, "overrun");
        VCHECK(u_uri_set_port(u, "80") == 0, "u_uri_set_port");
    }
    memset(s, 'Z', U_URI_STRMAX); memset(s2, 'Y', U_URI_STRMAX);
    VCHECK(u_uri_knead(u, s) == 0, "u_uri_knead");
    VCHECK(memchr(s, 0, U_URI_STRMAX), "not terminated");
    vtrace("-> <%s>", s);
    VCHECK(u_uri_crumble(s, 0, &w) == 0, "result refused by the parser");
    if ((f & 3) == 2) {                /* userinfo given as a whole */
        VCHECK(!strcmp(u_uri_get_userinfo(u), u_uri_get_userinfo(w)), "userinfo");
        VCHECK(u_uri_set_user(u, u_uri_get_user(w)) == 0 && u_uri_set_pwd(u, u_uri_get_pwd(w)) == 0, "set");
    }
    same(u, w);
    VCHECK(u_uri_knead(w, s2) == 0 && (!strcmp(s, s2)), "assembled again: <%s>", s2);
    u_uri_free(u);
    u_uri_free(w);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    free(s); free(s2);
    return 0;
}
#endif
