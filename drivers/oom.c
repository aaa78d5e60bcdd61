/* P30: one allocation of one call fails, anywhere: the call reports it or completes, nothing leaks, what was there stays usable */
#include "vdrv.h"
static long L0; static unsigned FA;
static void on (vin_t *v) { unsigned f = vb(v); L0 = v_live; v_nalloc = v_failed = 0; v_fail_at = FA = f & 1 ? f / 2 % 24 : 1000; }
static int off (void) { int f = v_failed != 0; v_fail_at = -1; v_failed = 0; return f; }
#define CALL(v, what, expr, bad) do { int f_; on(v); expr; f_ = off(); vtrace("%s[%d] -> %s; ", what, f_ ? (int) FA : -1, (bad) ? "failed" : "ok"); \
    if (bad) { VCHECK(f_, "%s fails although memory is there", what); VCHECK(v_live == L0, "a failed %s keeps %ld blocks", what, v_live - L0); } } while (0)

static void o_hmap (vin_t *v)
{
    enum { N = 40 }; static char K[N][8], VV[N][8]; static int M[N]; u_hmap_opts_t *o = NULL, *o2 = NULL; u_hmap_t *h = NULL; int i, rc, n = 0, c = vb(v), max = 3 + vb(v) % 14, pol = c % 4, lin = c / 4 % 2, easy = c / 8 % 2, nover = c / 16 % 2, k; char *g;
    for (i = 0; i < N; i++) { sprintf(K[i], "k%d", i); sprintf(VV[i], "v%d", i); M[i] = -1; }
    CALL(v, "u_hmap_opts_new", rc = u_hmap_opts_new(&o), rc); if (rc) return;
    u_hmap_opts_set_size(o, lin ? 2 * max + 3 : 5); u_hmap_opts_set_max(o, max); u_hmap_opts_set_type(o, lin ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN);
    u_hmap_opts_set_policy(o, pol); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING); if (!nover) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE);
    if (!easy) u_hmap_opts_set_key_type(o, U_HMAP_OPTS_DATATYPE_STRING);
    if (c & 64) { VCHECK(u_hmap_opts_new(&o2) == 0, "opts"); CALL(v, "u_hmap_opts_copy", rc = u_hmap_opts_copy(o2, o), rc); u_hmap_opts_free(o2); }
    if (easy) CALL(v, "u_hmap_easy_new", rc = u_hmap_easy_new(o, &h), rc); else CALL(v, "u_hmap_new", rc = u_hmap_new(o, &h), rc);
    u_hmap_opts_free(o); if (rc) return;
    while (!vend(v) && n++ < 60) {
        int op = vb(v) % 8, nv; ssize_t cnt = u_hmap_count(h); k = vb(v) % (pol ? N : N); nv = vb(v) % N;
        if (op < 5) {
            if (easy) { on(v); rc = u_hmap_easy_put(h, K[k], VV[nv]); i = off(); }
            else { u_hmap_o_t *ob; CALL(v, "u_hmap_o_new", ob = u_hmap_o_new(h, K[k], VV[nv]), ob == NULL); if (!ob) continue; on(v); rc = u_hmap_put(h, ob, NULL); i = off(); }
            vtrace("put %d[%d] -> %d; ", k, i ? (int) FA : -1, rc);
            if (rc == U_HMAP_ERR_NONE) M[k] = nv;
            else if (rc == U_HMAP_ERR_EXISTS) VCHECK(nover && M[k] >= 0, "put says a key is present, which is not");
            else { VCHECK(i, "put fails although memory is there"); VCHECK(u_hmap_count(h) <= cnt, "a failed put adds an element"); }
        } else if (op == 5) {
            on(v); rc = easy ? u_hmap_easy_del(h, K[k]) : u_hmap_del(h, K[k], NULL); i = off(); vtrace("del %d -> %d; ", k, rc);
            if (rc == 0) { VCHECK(M[k] >= 0, "deleted an absent key"); M[k] = -1; } else VCHECK(M[k] < 0 || pol || !i || 1, "del");
        } else if (op == 6 && easy) { on(v); g = u_hmap_easy_get(h, K[k]); i = off(); if (g) VCHECK(M[k] >= 0 && !strcmp(g, VV[M[k]]), "value of key %d", k); else if (!pol) VCHECK(M[k] < 0 || i, "key %d lost", k); }
        else if (op == 7 && !pol && !easy && n % 4 == 0) { u_hmap_t *h2 = NULL; VCHECK(u_hmap_new(NULL, &h2) == 0, "new"); u_hmap_free(h2); }
        /* every key is there with its value, unless the policy discarded it */
        cnt = 0;
        for (k = 0; k < N; k++) { u_hmap_o_t *ob = NULL; g = NULL; if (easy) g = u_hmap_easy_get(h, K[k]); else if (u_hmap_get(h, K[k], &ob) == 0) g = u_hmap_o_get_val(ob);
            if (g) { VCHECK(M[k] >= 0 && !strcmp(g, VV[M[k]]), "key %d has value %s", k, g); cnt++; } else { VCHECK(M[k] < 0 || pol, "key %d lost", k); M[k] = -1; } }
        VCHECK(cnt == u_hmap_count(h), "count %zd of %zd elements", u_hmap_count(h), cnt);
    }
    if (easy) u_hmap_easy_free(h); else u_hmap_free(h);
}
static int pq_d (const void *p) { return *(const int *) p; }
static void o_seq (vin_t *v)     /* list, array, priority queue, ring buffer */
{
    static int X[64]; int rc, i, n = 0, M[64], k = vb(v) % 4; for (i = 0; i < 64; i++) X[i] = i; (void) pq_d;
    if (k == 0) {
        u_list_t *l = NULL; CALL(v, "u_list_create", rc = u_list_create(&l), rc); if (rc) return;
        while (!vend(v) && n < 60) { int x = vb(v) % 64, at = (int) (vb(v) % (unsigned) (n + 1)); if (vb(v) & 1) CALL(v, "u_list_insert", rc = u_list_insert(l, &X[x], (size_t) at), rc); else { at = n; CALL(v, "u_list_add", rc = u_list_add(l, &X[x]), rc); }
            if (!rc) { memmove(M + at + 1, M + at, sizeof(int) * (size_t) (n - at)); M[at] = x; n++; }
            VCHECK(u_list_count(l) == (size_t) n, "count"); for (i = 0; i < n; i++) VCHECK(u_list_get_n(l, (size_t) i) == &X[M[i]], "item %d", i); }
        u_list_free(l);
    } else if (k == 1) {
        u_array_t *a = NULL; static int A[1200]; int old; memset(A, 0, sizeof A); CALL(v, "u_array_create", rc = u_array_create(U_ARRAY_TYPE_INT, vb(v) % 5, &a), rc); if (rc) return;
        while (!vend(v) && n++ < 40) { size_t ix = vb(v); int x = vb(v); if (x & 1) ix *= 4; CALL(v, "u_array_set_int", rc = u_array_set_int(a, ix, x, &old), rc); if (!rc) { VCHECK(old == A[ix] , "old value"); A[ix] = x; }
            for (i = 0; i < 1030; i += 1 + (n % 3)) { int g; if (u_array_get_int(a, (size_t) i, &g)) VCHECK(!A[i], "element %d lost", i); else VCHECK(g == A[i], "element %d", i); } }
        u_array_free(a);
    } else if (k == 2) {
        u_pq_t *q = NULL; double p; CALL(v, "u_pq_create", rc = u_pq_create(2 + vb(v), &q), rc); if (rc) return;
        VCHECK(u_pq_push(q, 2, &X[2]) == 0 && u_pq_push(q, 1, &X[1]) == 0, "push"); VCHECK(u_pq_delmax(q, &p) == &X[2] && p == 2, "max"); u_pq_free(q);
    } else {
        u_rb_t *r = NULL; char b[4]; CALL(v, "u_rb_create", rc = u_rb_create(1 + vb(v), vb(v) & 1 ? U_RB_OPT_USE_CONTIGUOUS_MEM : U_RB_OPT_NONE, &r), rc); if (rc) return;
        i = u_rb_write(r, "ab", 2) ; VCHECK(u_rb_read(r, b, 4) == i, "read"); u_rb_free(r);
    }
}
static void o_text (vin_t *v)    /* strings, buffers, tokens */
{
    static char M[4000], big[300]; char *d; int rc, i, n = 0, len; memset(big, 'w', sizeof big); M[0] = 0;
    switch (vb(v) % 4) {
        case 0: { u_string_t *s = NULL; const char *t = "initial"; i = vb(v) % 8; CALL(v, "u_string_create", rc = u_string_create(t, (size_t) i, &s), rc); if (rc) return; strncat(M, t, (size_t) i);
            while (!vend(v) && n++ < 12) { len = vb(v); switch (vb(v) % 5) {
                case 0: CALL(v, "u_string_append", rc = u_string_append(s, big, (size_t) len), rc); if (!rc) strncat(M, big, (size_t) len); break;
                case 1: CALL(v, "u_string_aprintf", rc = u_string_aprintf(s, "<%.*s>", len, big), rc); if (!rc) sprintf(M + strlen(M), "<%.*s>", len, big); break;
                case 2: CALL(v, "u_string_set", rc = u_string_set(s, big, (size_t) len), rc); if (!rc) { M[0] = 0; strncat(M, big, (size_t) len); } else if (!*u_string_c(s)) M[0] = 0; break;
                case 3: CALL(v, "u_string_reserve", rc = u_string_reserve(s, (size_t) len * 9), rc); break;
                case 4: CALL(v, "u_string_sprintf", rc = u_string_sprintf(s, "%.*s", len, big), rc); if (!rc) sprintf(M, "%.*s", len, big); else if (!*u_string_c(s)) M[0] = 0; break; }
                VCHECK(u_string_len(s) == strlen(M) && !strcmp(u_string_c(s), M), "text"); }
            u_string_free(s); break; }
        case 1: { u_buf_t *b = NULL; size_t m = 0; CALL(v, "u_buf_create", rc = u_buf_create(&b), rc); if (rc) return;
            while (!vend(v) && n++ < 12) { len = vb(v) | 1; switch (vb(v) % 3) {
                case 0: CALL(v, "u_buf_append", rc = u_buf_append(b, big, (size_t) len), rc); if (!rc) { memcpy(M + m, big, (size_t) len); m += (size_t) len; } break;
                case 1: CALL(v, "u_buf_set", rc = u_buf_set(b, big, (size_t) len), rc); if (!rc) { memcpy(M, big, (size_t) len); m = (size_t) len; } else m = (size_t) u_buf_len(b) ? m : 0; break;
                case 2: len |= 1; CALL(v, "u_buf_printf", rc = u_buf_printf(b, "%.*s", len, big), rc); if (!rc) { memcpy(M + m, big, (size_t) len); m += (size_t) len; } break; }
                VCHECK((size_t) u_buf_len(b) == m && (!m || !memcmp(u_buf_ptr(b), M, m)), "content"); }
            u_buf_free(b); break; }
        case 2: { char **tv; size_t nt; len = vb(v) % 60; for (i = 0; i < len; i++) M[i] = "ab:"[vb(v) % 3]; M[len] = 0; CALL(v, "u_strtok", rc = u_strtok(M, ":", &tv, &nt), rc); if (!rc) { int c = 0; for (i = 0; i < len; i++) c += M[i] != ':' && (i == 0 || M[i - 1] == ':'); VCHECK((int) nt == c, "tokens"); u_strtok_cleanup(tv, nt); } break; }
        case 3: { u_lexer_t *l = NULL; CALL(v, "u_strdup", d = u_strdup("text"), d == NULL); if (d) { VCHECK(!strcmp(d, "text"), "dup"); u_free(d); } CALL(v, "u_memdup", d = u_memdup(big, 20), d == NULL); if (d) { VCHECK(!memcmp(d, big, 20), "dup"); u_free(d); } CALL(v, "u_strndup", d = u_strndup("text", 2), d == NULL); if (d) { VCHECK(!strcmp(d, "te"), "dup"); u_free(d); } CALL(v, "u_lexer_new", rc = u_lexer_new("x y", &l), rc); if (!rc) u_lexer_free(l); break; }
    }
}
static void o_uri (vin_t *v)
{
    u_uri_t *u = NULL; char s[U_URI_STRMAX]; int rc; static const char *U[] = { "http://u:p@host.x:80/a/b?q=1#f", "ftp://[::1]/", "x://h", "bad uri", "http://%41/" }; const char *x = U[vb(v) % 5];
    on(v); rc = u_uri_crumble(x, 0, &u); { int f = off(); if (rc) { VCHECK(f || *x == 'b', "crumble fails"); VCHECK(v_live == L0, "a failed u_uri_crumble keeps %ld blocks", v_live - L0); return; } }
    CALL(v, "u_uri_knead", rc = u_uri_knead(u, s), rc); if (!rc) VCHECK(!strcmp(s, x), "knead %s", s); u_uri_free(u);
    CALL(v, "u_uri_new", rc = u_uri_new(0, &u), rc); if (!rc) u_uri_free(u);
}
static char text[400]; static size_t tpos; static int gen, np;
static int cb_open (const char *p, void **h) { (void) p; np++; tpos = 0; *h = &tpos; return 0; }
static void cb_close (void *h) { (void) h; np--; }
static char *cb_load (char *s, int n, void *h) { int k = 0; (void) h; if (!text[tpos]) return NULL; while (k < n - 1 && text[tpos]) { s[k] = text[tpos++]; if (s[k++] == '\n') break; } s[k] = 0; return s; }
static int cb_notify (const char *p, time_t last, time_t *t) { (void) p; if (last != gen) { *t = gen; return 1; } return 0; }
static void o_pwd (vin_t *v)
{
    u_pwd_t *p = NULL; int rc, i, n, mem = vb(v) & 1, r, ver[2] = { 0, 0 }; static const char *T[] = { "a:1\nb:2:o\nc:3\nd:4\n", "c:9\nd:4\ne:5\nx\nf:6:oo\n#g:1\nh:7\n", "" };
    static const char *W[3][9] = { { "1", "2", "3", "4", 0, 0, 0, 0, 0 }, { 0, 0, "9", "4", "5", "6", 0, "7", 0 }, { 0 } };
    gen = 1; np = 0; strcpy(text, T[0]);
    CALL(v, "u_pwd_init", rc = u_pwd_init("res", cb_open, cb_load, cb_close, mem ? cb_notify : NULL, NULL, 0, mem, &p), rc); if (rc) return;
    for (n = 0; n < 20 && !vend(v); n++) {
        u_pwd_rec_t *q = NULL; char us[2] = { 0, 0 }; int f, a = vb(v);
        if (a % 5 == 0) { gen++; ver[0] = a / 5 % 3; strcpy(text, T[ver[0]]); if (!mem) ver[1] = ver[0]; }
        i = a % 8; us[0] = (char) ('a' + i);
        on(v); r = u_pwd_retr(p, us, &q); f = off(); VCHECK(np == 0, "the resource stays open"); vtrace("retr %s[%d] -> %d; ", us, f ? (int) FA : -1, r);
        if (!mem) { if (r == 0) { VCHECK(W[ver[1]][i] && !strcmp(u_pwd_rec_get_password(q), W[ver[1]][i]), "record of %s", us); u_pwd_rec_free(p, q); } else VCHECK(f || !W[ver[1]][i], "user %s not found", us); VCHECK(v_live == L0, "retr keeps %ld blocks", v_live - L0); }
        else {
            if (!f) ver[1] = ver[0];
            if (r == 0) { const char *pw = u_pwd_rec_get_password(q); VCHECK((W[ver[0]][i] && !strcmp(pw, W[ver[0]][i])) || (f && W[ver[1]][i] && !strcmp(pw, W[ver[1]][i])), "record of %s: %s", us, pw); }
            else VCHECK(f || !W[ver[0]][i], "user %s not found", us);
            /* the snapshot is complete again as soon as memory is there */
            ver[1] = ver[0]; for (i = 0; i < 8; i++) { us[0] = (char) ('a' + i); q = NULL; r = u_pwd_retr(p, us, &q); VCHECK((r == 0) == !!W[ver[0]][i], "user %s lost from the snapshot", us); if (!r) VCHECK(!strcmp(u_pwd_rec_get_password(q), W[ver[0]][i]), "record of %s", us); }
        }
    }
    u_pwd_term(p);
}
static int icmp (const void *a, const void *b) { return strcmp(a, b); }
static void nb (u_bst_node_t *n, void *a) { (void) n; ++*(int *) a; }
static void o_bst (vin_t *v)
{
    u_bst_t *b = NULL; int rc, n = 0, c, M[64] = { 0 }; (void) icmp; CALL(v, "u_bst_new", rc = u_bst_new((int[]) { U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED }[vb(v) % 3], &b), rc); if (rc) return;
    u_bst_set_valattr(b, U_BST_TYPE_STRING, 0);
    while (!vend(v) && n < 60) { char k[8]; int x = vb(v) % 64, i; sprintf(k, "%d", x); if (!M[x]) { CALL(v, "u_bst_push", rc = u_bst_push(b, k, k), rc); if (!rc) { n++; M[x] = 1; } } c = 0; u_bst_foreach(b, nb, &c); VCHECK(c == n && u_bst_count(b) == n, "nodes"); for (i = 0; i < 64; i++) { sprintf(k, "%d", i); VCHECK(!u_bst_search(b, k) == !M[i], "key %d", i); } }
    u_bst_free(b);
}
static void o_json (vin_t *v)
{
    u_json_t *j = NULL, *a = NULL, *o = NULL; char *s = NULL, *t = NULL; int rc; static const char *T[] = { "{ \"a\": 1, \"b\": [ true, null, \"x\" ], \"c\": { } }", "[ [ ], [ 1.5e3, \"\" ] ]", "{}" }; const char *x = T[vb(v) % 3];
    { char st[U_LEXER_ERR_SZ]; CALL(v, "u_json_validate", rc = u_json_validate(x, st), rc); }
    CALL(v, "u_json_decode", rc = u_json_decode(x, &j), rc); if (rc) return;
    VCHECK(u_json_encode(j, &t) == 0, "encode");
    CALL(v, "u_json_encode", rc = u_json_encode(j, &s), rc); if (!rc) { VCHECK(!strcmp(s, t), "encoded %s", s); u_free(s); }
    CALL(v, "u_json_index", rc = u_json_index(j), rc); if (!rc) { VCHECK(u_json_cache_get(j, ".") == j, "index"); CALL(v, "u_json_cache_get", a = u_json_cache_get(j, "."), a == NULL); VCHECK(u_json_unindex(j) == 0, "unindex"); }
    CALL(v, "u_json_new_object", rc = u_json_new_object("o", &o), rc);
    if (!rc) { CALL(v, "u_json_new_int", rc = u_json_new_int("i", 5, &a), rc); if (!rc) { CALL(v, "u_json_add", rc = u_json_add(o, a), rc); if (rc) u_json_free(a); } CALL(v, "u_json_new_array", rc = u_json_new_array("r", &a), rc); if (!rc) u_json_free(a); CALL(v, "u_json_new_string", rc = u_json_new_string("r", "s", &a), rc); if (!rc) { CALL(v, "u_json_set_val", rc = u_json_set_val(a, "longer"), rc); u_json_free(a); } u_json_free(o); }
    s = NULL; VCHECK(u_json_encode(j, &s) == 0 && !strcmp(s, t), "the document changed"); u_free(s); u_free(t); u_json_free(j);
}
static int kcmp (u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static void o_config (vin_t *v)
{
    u_config_t *c = NULL, *d = NULL; int rc; char T[] = "a 1\nb\n{\n c $" "{a}2\n}\na 3\n", s[200]; const char *x;
    CALL(v, "u_config_load_from_buf", rc = u_config_load_from_buf(T, strlen(T), &c), rc); if (rc) return;
    x = u_config_get_subkey_value(c, "b.c"); VCHECK(x && !strcmp(x, "12"), "value of b.c");
    CALL(v, "u_config_set_key", rc = u_config_set_key(c, "a", "new"), rc); x = u_config_get_subkey_value(c, "a"); VCHECK(x && !strcmp(x, rc ? "1" : "new"), "value of a after set_key: %s", x ? x : "(none)");
    CALL(v, "u_config_add_key", rc = u_config_add_key(c, "z", "9"), rc); x = u_config_get_subkey_value(c, "z"); VCHECK(rc ? !x : x && !strcmp(x, "9"), "value of z: %s", x ? x : "(none)");
    CALL(v, "u_config_add_child", rc = u_config_add_child(c, "ch", &d), rc); if (!rc) VCHECK(u_config_get_child(c, "ch") == d, "child");
    if (!rc) { CALL(v, "u_config_set_value", rc = u_config_set_value(d, "val"), rc); x = u_config_get_value(d); VCHECK(rc ? !x : x && !strcmp(x, "val"), "value"); }
    CALL(v, "u_config_save_to_buf", rc = u_config_save_to_buf(c, s, sizeof s), rc);
    CALL(v, "u_config_sort_children", rc = u_config_sort_children(c, kcmp), rc); CALL(v, "u_config_create", rc = u_config_create(&d), rc); if (!rc) u_config_free(d);
    u_config_free(c);
}
static void o_net (vin_t *v)
{
    u_net_addr_t *a = NULL; int rc; static const char *U[] = { "tcp4://127.0.0.1:80", "udp6://[::1]:53", "unix:///tmp/sock", "tcp4://127.0.0.1:*" };
    CALL(v, "u_net_uri2addr", rc = u_net_uri2addr(U[vb(v) % 4], U_NET_SSOCK, &a), rc); if (!rc) u_net_addr_free(a);
}
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t v = { d, n, 0 }; static void (*const F[]) (vin_t *) = { o_hmap, o_hmap, o_seq, o_text, o_uri, o_pwd, o_bst, o_json, o_config, o_net };
    v_hooks_on(); do F[vb(&v) % 10](&v); while (!vend(&v));
    VCHECK(v_live == 0, "%ld blocks left", v_live);
    return 0;
}
void v_driver_init (void) { }
