/* P03: string objects against a plain character array */
#include "vdrv.h"

#define NS 2
#define CAP (1 << 20)
static char *m[NS];
static size_t mn[NS];

static void same (u_string_t *s, int k, const char *what)
{
    const char *c = u_string_c(s);
    VCHECK(c != NULL, "%s: NULL content", what);
    VCHECK(u_string_len(s) == mn[k], "%s: length %zu, expected %zu", what, u_string_len(s), mn[k]);
    VCHECK(memcmp(c, m[k], mn[k]) == 0, "%s: content differs: \"%.40s\" instead of \"%.40s\"", what, c, m[k]);
    VCHECK(c[mn[k]] == 0, "%s: not terminated", what);
    VCHECK(strlen(c) == mn[k], "%s: strlen %zu, length %zu", what, strlen(c), mn[k]);
}

static size_t fill (vin_t *v, char *b, size_t n)
{
    size_t i;
    unsigned st = vb(v), k = vb(v) | 1;
    for (i = 0; i < n; i++) { unsigned c = (st + i * k) & 0xff; b[i] = c ? c : 'z'; if (st & 1 && (i < 3 || i + 3 > n)) b[i] = " \t\n\r\v\fx"[c % 7]; }
    b[n] = 0;
    return n;
}

int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    u_string_t *s[NS];
    int i, k, rc, steps = 0, fault;
    char *b = malloc(70000);
    size_t n;

    fault = vb(&v);
    for (k = 0; k < NS; k++) {
        n = vb(&v) % 80;
        fill(&v, b, n);
        rc = u_string_create(vb(&v) & 1 ? NULL : b, n, &s[k]);
        VCHECK(rc == 0, "create");
        mn[k] = 0;
        if (v.i <= v.n ? !(d[v.i - 1] & 1) : 1) { memcpy(m[k], b, n); mn[k] = n; }
        same(s[k], k, "create");
    }
    if (fault & 1) v_fail_at = v_nalloc + (fault >> 1) % 16;
    while (!vend(&v) && steps++ < 200) {
        int op = vb(&v), before = v_failed;
        k = (op >> 4) % NS;
        switch (op % 16) {
        case 0: case 1: case 2: case 3:
            n = op % 16 == 3 ? v16(&v) : vb(&v) % 130;
            if (mn[k] + n > CAP / 2) break;
            fill(&v, b, n);
            { char *x = malloc(n + 1); memcpy(x, b, n);
              /* an exact copy: reading past the given length is caught */
              char *y = realloc(x, n ? n : 1);
              vtrace("append%d(%zu) ", k, n);
              rc = u_string_append(s[k], y, n);
              free(y); }
            if (v_failed == before) { VCHECK(rc == 0, "append failed"); memcpy(m[k] + mn[k], b, n); mn[k] += n; }
            else if (rc == 0) { memcpy(m[k] + mn[k], b, n); mn[k] += n; }
            break;
        case 4:
            n = vb(&v); fill(&v, b, n);
            vtrace("set%d(%zu) ", k, n);
            rc = u_string_set(s[k], b, n);
            if (rc == 0) { memcpy(m[k], b, n); mn[k] = n; }
            else { VCHECK(v_failed != before, "set failed"); mn[k] = u_string_len(s[k]); VCHECK(mn[k] == 0, "failed set left %zu characters", mn[k]); }
            break;
        case 5: case 6: case 7:
            n = op % 16 == 7 ? v16(&v) % 5000 : vb(&v) % 140;
            fill(&v, b, n);
            if (mn[k] + n + 40 > CAP / 2) break;
            vtrace("printf%d(%d,%zu) ", k, op % 16, n);
            if (op % 16 == 5) { rc = u_string_sprintf(s[k], "%s|%d", b, (int) n); }
            else rc = u_string_aprintf(s[k], "%s|%d", b, (int) n);
            if (rc == 0) {
                if (op % 16 == 5) mn[k] = 0;
                mn[k] += sprintf(m[k] + mn[k], "%s|%d", b, (int) n);
            } else { VCHECK(v_failed != before, "printf failed"); if (op % 16 == 5) mn[k] = 0; }
            break;
        case 8: vtrace("clear%d ", k); VCHECK(u_string_clear(s[k]) == 0, "clear"); mn[k] = 0; break;
        case 9:
            n = vb(&v) % (mn[k] + 3);
            vtrace("setlen%d(%zu) ", k, n);
            rc = u_string_set_length(s[k], n);
            VCHECK((rc == 0) == (n <= mn[k]), "set_length(%zu) of %zu characters returned %d", n, mn[k], rc);
            if (rc == 0) mn[k] = n;
            break;
        case 10: case 11: {
            size_t a = 0, e = mn[k];
            vtrace("trim%d ", k);
            VCHECK(u_string_trim(s[k]) == 0, "trim");
            while (a < e && (m[k][a] == 32 || m[k][a] == 9)) a++;
            while (e > a && (m[k][e - 1] == 32 || m[k][e - 1] == 9)) e--;
            memmove(m[k], m[k] + a, e - a); mn[k] = e - a;
            break; }
        case 12:
            vtrace("copy%d ", k);
            rc = u_string_copy(s[k], s[!k]);
            if (rc == 0) { memcpy(m[k], m[!k], mn[!k]); mn[k] = mn[!k]; }
            else { VCHECK(v_failed != before, "copy failed"); mn[k] = 0; }
            break;
        case 13:
            n = v16(&v);
            vtrace("reserve%d(%zu) ", k, n);
            rc = u_string_reserve(s[k], n);
            VCHECK(rc == 0 || v_failed != before, "reserve failed");
            break;
        case 14: {
            char *p;
            if (!(op & 0x40)) break;
            vtrace("detach%d ", k);
            p = u_string_detach_cstr(s[k]);
            if (p) { VCHECK(strlen(p) == mn[k] && !memcmp(p, m[k], mn[k]), "detached text"); u_free(p); }
            else VCHECK(mn[k] == 0, "text lost by detach");
            v_fail_at = -1;
            VCHECK(u_string_create(NULL, 0, &s[k]) == 0, "create"); mn[k] = 0;
            break; }
        case 15:
            if (!(op & 0x40)) break;
            vtrace("recreate%d ", k);
            u_string_free(s[k]);
            n = vb(&v); fill(&v, b, n);
            rc = u_string_create(b, n, &s[k]);
            if (rc) { VCHECK(v_failed != before, "create failed"); v_fail_at = -1; VCHECK(u_string_create(b, n, &s[k]) == 0, "create"); }
            memcpy(m[k], b, n); mn[k] = n;
            break;
        }
        for (i = 0; i < NS; i++) same(s[i], i, "after");
    }
    for (k = 0; k < NS; k++) u_string_free(s[k]);
    free(b);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}

void v_driver_init (void)
{
    u_string_t *s = NULL;
    size_t i;
    int k, f;
    for (k = 0; k < NS; k++) m[k] = malloc(CAP);
    v_hooks_on();
    /* growth over many small appends; exact block boundaries */
    for (k = 1; k < 300; k += (k < 140 ? 1 : 13)) {
        char *b = malloc(k);
        memset(b, 'a' + k % 26, k);
        VCHECK(u_string_create(NULL, 0, &s) == 0, "create");
        for (i = 0; i < 60; i++) {
            VCHECK(u_string_append(s, b, k) == 0, "append");
            VCHECK(u_string_len(s) == (i + 1) * k && strlen(u_string_c(s)) == (i + 1) * k, "length after %zu appends of %d", i + 1, k);
        }
        u_string_free(s); free(b);
    }
    /* every printf length around the capacity of a freshly created string */
    for (k = 0; k < 200; k++) for (f = 0; f < 3; f++) {
        VCHECK(u_string_create(f ? "0123456789" : NULL, f ? 10 : 0, &s) == 0, "create");
        if (f == 2) { for (i = 0; i < 40; i++) u_string_append(s, "xyzt", 4); }
        i = u_string_len(s);
        VCHECK(u_string_aprintf(s, "%*s", k, "") == 0, "aprintf");
        VCHECK(u_string_len(s) == i + k && strlen(u_string_c(s)) == i + k, "aprintf of %d characters", k);
        u_string_free(s);
    }
    VCHECK(u_string_create("x", 1, NULL) != 0 && u_string_append(NULL, "x", 1) != 0 && u_string_clear(NULL) != 0 && u_string_c(NULL) == NULL && u_string_len(NULL) == 0, "NULL arguments");
    for (f = 0; f < 3; f++) { v_begin(); v_fail_at = f; s = NULL; if (u_string_create("abc", 3, &s) == 0) u_string_free(s); VCHECK(v_live == 0, "leak in a failed create"); }
    v_begin();
    VCHECK(u_string_create("ab", 2, &s) == 0, "create");
    VCHECK(u_string_reserve(s, (size_t) -1) != 0 && u_string_len(s) == 2, "absurd reserve accepted");
    u_string_free(s);
}
