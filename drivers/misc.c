/* P19-P22: misc.c conversions, bounded copies, fields, complete I/O (MODE selects) */
#include "vdrv.h"
#include <inttypes.h>
#include <math.h>

static char *text (vin_t *v, const char *alpha, size_t max)
{
    size_t n = vb(v) % (max + 1), i, la = strlen(alpha);
    char *s = malloc(n + 1);
    for (i = 0; i < n; i++) { unsigned b = vb(v); s[i] = alpha[b % la]; }
    s[n] = 0;
    return s;
}
static char *raw (vin_t *v, size_t max)
{
    size_t n = vb(v) % (max + 1), i;
    char *s = malloc(n + 1);
    for (i = 0; i < n; i++) { s[i] = vb(v); if (!s[i]) s[i] = 1; }
    s[n] = 0;
    return s;
}

#if MODE == 19
/* independent reading of a decimal numeral */
static int numeral (const char *s, int *neg, __int128 *val)
{
    __int128 a = 0;
    while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
    *neg = 0;
    if (*s == '+' || *s == '-') *neg = *s++ == '-';
    if (*s < '0' || *s > '9') return 0;
    for (; *s >= '0' && *s <= '9'; s++) if (a < (__int128) 1 << 90) a = a * 10 + (*s - '0');
    *val = a;
    return 1;
}
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    int k = vb(&v), neg = 0, has, fit, rc, eno;
    char *s;
    __int128 val = 0;
    static const char *edge[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "", " ", "-", "+", "0", "-0", "00", "x", "1x", " 12", "\t-7", "0x10", "4294967296", "-4294967297", "1e400", "1e-400", "nan", "inf", ".5", ".", "1e", "-18446744073709551615", "-18446744073709551616", "340282366920938463463374607431768211456" };
    switch (k % 3) {
    case 0: s = text(&v, "0123456789-+ \tx.e", 24); break;
    case 1: s = strdup(edge[vb(&v) % (sizeof edge / sizeof *edge)]); { size_t n = strlen(s); unsigned p = vb(&v); if (n && (p & 1)) s[p / 2 % n] = "0123456789 -"[vb(&v) % 12]; } break;
    default: s = raw(&v, 24);
    }
    { int es[] = { 0, ERANGE, EINVAL, ENOENT }; eno = es[vb(&v) % 4]; }
    vtrace("\"%s\" errno=%d", s, eno);
    has = numeral(s, &neg, &val);
    { long l = 424242; errno = eno; rc = u_atol(s, &l);
      fit = has && (neg ? val <= (__int128) 1 << 63 : val < (__int128) 1 << 63);
      VCHECK(errno == eno, "u_atol changed errno");
      VCHECK((rc == 0) == fit, "u_atol returned %d", rc);
      VCHECK(l == (fit ? (long) (neg ? -val : val) : 424242), "u_atol value %ld", l); }
    { int i = 424242; errno = eno; rc = u_atoi(s, &i);
      fit = has && (neg ? val <= (__int128) 1 << 31 : val < (__int128) 1 << 31);
      VCHECK(errno == eno, "u_atoi changed errno");
      VCHECK((rc == 0) == fit, "u_atoi returned %d", rc);
      VCHECK(i == (fit ? (int) (neg ? -val : val) : 424242), "u_atoi value %d", i); }
    { uintmax_t u = 424242; errno = eno; rc = u_atoumax(s, &u);
      fit = has && val < (__int128) 1 << 64;
      VCHECK(errno == eno, "u_atoumax changed errno");
      VCHECK((rc == 0) == fit, "u_atoumax returned %d", rc);
      VCHECK(u == (fit ? (uintmax_t) (neg ? -val : val) : 424242), "u_atoumax value %ju", u); }
    { double x = 0.125, y; char *e; errno = 0; y = strtod(s, &e); fit = e != s && errno != ERANGE; errno = eno; rc = u_atof(s, &x);
      VCHECK(errno == eno, "u_atof changed errno");
      VCHECK((rc == 0) == fit, "u_atof returned %d", rc);
      VCHECK(fit ? (x == y || (x != x && y != y)) : x == 0.125, "u_atof value %g", x); }
    free(s);
    return 0;
}
#elif MODE == 20
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    int op = vb(&v), rc;
    size_t n, L, i;
    char *s = op & 0x40 ? raw(&v, 60) : text(&v, "ab/", 60), *b, *r;
    L = strlen(s);
    n = vb(&v) % 80;
    if (op & 0x80) n = L + (op >> 4) % 4 - 1 < 200 ? L + (op >> 4) % 4 - 1 : 0;
    b = malloc(n ? n : 1);
    memset(b, 'Z', n ? n : 1);
    vtrace("op %d size %zu text \"%s\"", op % 6, n, s);
    switch (op % 6) {
    case 0:
        rc = u_strlcpy(b, s, n);
        VCHECK((rc == 0) == (L < n), "u_strlcpy returned %d", rc);
        if (n) { size_t m = L < n ? L : n - 1; VCHECK(memcmp(b, s, m) == 0 && b[m] == 0, "u_strlcpy text"); for (i = m + 1; i < n; i++) VCHECK(b[i] == 'Z', "wrote past the text"); }
        break;
    case 1: {
        char *t = text(&v, "xyz", 20); size_t D = strlen(t);
        if (D >= n) { free(t); break; }
        memcpy(b, t, D + 1);
        rc = u_strlcat(b, s, n);
        VCHECK((rc == 0) == (D + L < n), "u_strlcat returned %d", rc);
        { size_t m = D + L < n ? L : n - 1 - D; VCHECK(memcmp(b, t, D) == 0 && memcmp(b + D, s, m) == 0 && b[D + m] == 0, "u_strlcat text"); }
        free(t);
        break; }
    case 2:
        rc = u_snprintf(b, n, "%s", s);
        VCHECK((rc == 0) == (L < n), "u_snprintf returned %d", rc);
        if (n) { size_t m = L < n ? L : n - 1; VCHECK(memcmp(b, s, m) == 0 && b[m] == 0, "u_snprintf text"); }
        break;
    case 3: {
        char want[80]; size_t w = 0, m; char sep = (op & 0x20) ? 'b' : '/';
        rc = u_path_snprintf(b, n, sep, "%s", s);
        VCHECK((rc == 0) == (L < n), "u_path_snprintf returned %d", rc);
        for (i = 0; i < L; i++) if (!(i && s[i] == sep && s[i - 1] == sep)) want[w++] = s[i];
        want[w] = 0;
        m = strnlen(b, n);
        if (n) VCHECK(m < n, "not terminated");
        if (rc == 0) VCHECK(strcmp(b, want) == 0, "u_path_snprintf gave \"%s\", expected \"%s\"", b, want);
        break; }
    case 4:
        n = vb(&v) % 70;
        if (op & 0x80) n = L;
        r = u_strndup(s, n);
        VCHECK((r != NULL) == (n <= L), "u_strndup(%zu) of %zu characters", n, L);
        if (r) { VCHECK(strlen(r) == n && memcmp(r, s, n) == 0, "u_strndup text"); u_free(r); }
        break;
    default:
        r = u_strdup(s);
        VCHECK(r && strcmp(r, s) == 0, "u_strdup");
        u_free(r);
        r = u_memdup(s, L + 1);
        VCHECK(r && memcmp(r, s, L + 1) == 0, "u_memdup");
        u_free(r);
    }
    free(b);
    free(s);
    return 0;
}
#elif MODE == 21
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    int op = vb(&v), rc, nf = 0, fault = op >> 6;
    char *s = op & 0x20 ? raw(&v, 200) : text(&v, "ab ,;\t", 200), *dl, *c, *p;
    const char *f[256]; size_t fl[256], n, i;
    static const char *sets[] = { " ", ",;", " \t", "", ",", "a", ";, \t" };
    dl = strdup(sets[vb(&v) % 7]);
    vtrace("op %d \"%s\" delim \"%s\"", op % 3, s, dl);
    for (p = s; *p; ) {
        char *q = p + strcspn(p, dl);
        if (q > p) { f[nf] = p; fl[nf++] = q - p; }
        p = *q ? q + 1 : q;
    }
    c = strdup(s);
    if (op % 3 == 0) {
        char **tv = NULL; size_t ne = 4711;
        if (fault == 3) v_fail_at = v_nalloc + vb(&v) % 6;
        { long live = v_live;
        rc = u_strtok(s, dl, &tv, &ne);
        v_fail_at = -1;
        if (rc) { VCHECK(v_failed, "u_strtok failed"); VCHECK(v_live == live, "u_strtok failed and leaked"); }
        else {
            VCHECK(ne == (size_t) nf, "u_strtok: %zu fields, expected %d", ne, nf);
            for (i = 0; i < ne; i++) VCHECK(strlen(tv[i]) == fl[i] && memcmp(tv[i], f[i], fl[i]) == 0, "field %zu is \"%s\"", i, tv[i]);
            u_strtok_cleanup(tv, ne);
            VCHECK(v_live == live, "u_strtok_cleanup leaked");
        }
        VCHECK(strcmp(s, c) == 0, "source changed"); }
    } else if (op % 3 == 1) {
        char **tv;
        n = vb(&v) % 20;
        if (op & 8) n = nf + (op >> 4) % 3;
        tv = malloc((n ? n : 1) * sizeof *tv);
        memset(tv, 0x5a, (n ? n : 1) * sizeof *tv);
        rc = u_tokenize(c, dl, tv, n);
        VCHECK((rc == 0) == (n > 0), "u_tokenize returned %d", rc);
        if (rc == 0) {
            size_t m = (size_t) nf < n - 1 ? (size_t) nf : n - 1;
            VCHECK(tv[m] == NULL, "terminator not at %zu", m);
            for (i = 0; i < m; i++) VCHECK(tv[i] && strlen(tv[i]) >= fl[i] && memcmp(tv[i], f[i], fl[i]) == 0 && tv[i][fl[i]] == 0, "field %zu", i);
        }
        free(tv);
    } else {
        size_t a = 0, b = strlen(s);
        while (a < b && (s[a] == ' ' || s[a] == '\t')) a++;
        while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) b--;
        u_trim(c);
        VCHECK(strlen(c) == b - a && memcmp(c, s + a, b - a) == 0, "u_trim gave \"%s\"", c);
        VCHECK(u_isblank_str(s) == (a == b), "u_isblank_str");
    }
    free(c);
    free(s);
    free(dl);
    return 0;
}
#elif MODE == 22
#define FD (-7777)
static vin_t *sv; static uint8_t *base, *stream; static size_t total, done; static int last, calls, writing, badfd;
static ssize_t step (int fd, void *buf, size_t n)
{
    unsigned k = vb(sv);
    size_t m;
    calls++;
    VCHECK(fd == FD, "descriptor");
    VCHECK(last == 0 || last == 3, "transfer after end of file or error");
    VCHECK((uint8_t *) buf == base + done && n == total - done && n, "asked for %zu bytes at offset %td, %zu of %zu done", n, (uint8_t *) buf - base, done, total);
    if (calls > 300) k = 4;
    switch (k % 5) {
    case 0: if (k & 0x80) { last = 1; return 0; } break;
    case 1: last = 3; errno = EINTR; return -1;
    case 2: if (k & 0x80) { last = 2; errno = k & 0x40 ? EIO : EAGAIN; return -1; } break;
    }
    m = k % 5 == 4 ? n : 1 + (k >> 3) % n;
    if (writing) VCHECK(memcmp(buf, stream + done, m) == 0, "bytes handed out differ");
    else memcpy(buf, stream + done, m);
    done += m; last = 0;
    return m;
}
ssize_t __real_read (int, void *, size_t);
ssize_t __real_write (int, const void *, size_t);
ssize_t __wrap_read (int fd, void *b, size_t n) { return fd == FD ? step(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write (int fd, const void *b, size_t n) { return fd == FD ? step(fd, (void *) b, n) : __real_write(fd, b, n); }
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    int op = vb(&v), rc, eof = 77;
    ssize_t n = 77, r;
    size_t i;
    sv = &v; done = last = calls = 0;
    total = vb(&v); if (op & 0x80) total = 1 + total * 40;
    writing = op & 1;
    stream = malloc(total + 1);
    base = malloc(total ? total : 1);
    for (i = 0; i < total; i++) stream[i] = (uint8_t) (i * 7 + op);
    if (writing) memcpy(base, stream, total); else memset(base, 0xee, total);
    vtrace("op %d total %zu ", op, total);
    switch ((op >> 1) % 3) {
    case 0: r = writing ? u_write(FD, base, total) : u_read(FD, base, total);
        if (done == total) VCHECK(r == (ssize_t) total, "returned %zd of %zu", r, total);
        else if (last == 1 && !writing) VCHECK(r == (ssize_t) done, "returned %zd at end of file, %zu read", r, done);
        else VCHECK(r == -1, "returned %zd after a failure", r);
        break;
    default:
        rc = u_io((iof_t) step, FD, base, total, (op >> 1) % 3 == 1 ? &n : NULL, op & 0x20 ? &eof : NULL);
        VCHECK((rc == 0) == (done == total), "u_io returned %d with %zu of %zu done", rc, done, total);
        if ((op >> 1) % 3 == 1) VCHECK(n == (ssize_t) done, "count %zd, done %zu", n, done);
        if (op & 0x20) VCHECK(eof == (last == 1), "eof %d", eof);
    }
    VCHECK(done == total || last == 1 || last == 2, "stopped early: %zu of %zu", done, total);
    if (!writing) { VCHECK(memcmp(base, stream, done) == 0, "bytes differ"); for (i = done; i < total; i++) VCHECK(base[i] == 0xee, "byte %zu beyond the count changed", i); }
    free(base);
    free(stream);
    return 0;
}
#endif
void v_driver_init (void) { v_hooks_on(); }
