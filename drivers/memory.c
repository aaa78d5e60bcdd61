/* P24: everything goes through the installed allocator */
#include "vdrv.h"
#define MAGIC 0x756d656d756d656dull
typedef struct { uint64_t magic; uint64_t n; } hd_t;
static long live; static size_t last_n, last_c; static int last_op; static void *last_p, *ret_p;
static void *out (hd_t *h, size_t n) { if (!h) return NULL; h->magic = MAGIC; h->n = n; live++; return h + 1; }
static hd_t *in (void *p, const char *w) { hd_t *h = (hd_t *) p - 1; VCHECK(h->magic == MAGIC, "%s of a block the hooks did not hand out", w); return h; }
static void *h_malloc (size_t n) { hd_t *h; last_op = 1; last_n = n; h = n > (1u << 30) ? NULL : malloc(n + sizeof *h); if (h) memset(h, 0xdd, n + sizeof *h); return ret_p = out(h, n); }
static void *h_calloc (size_t c, size_t n) { hd_t *h; last_op = 2; last_c = c; last_n = n; if (n && c > (1u << 30) / n) return ret_p = NULL; h = calloc(1, c * n + sizeof *h); return ret_p = out(h, c * n); }
static void h_free (void *p) { last_op = 4; last_p = p; if (!p) return; { hd_t *h = in(p, "free"); h->magic = 0; live--; free(h); } }
static void *h_realloc (void *p, size_t n)
{
    hd_t *h, *q; last_op = 3; last_p = p; last_n = n;
    if (n > (1u << 30)) return ret_p = NULL;
    h = p ? in(p, "realloc") : NULL;
    q = malloc(n + sizeof *q);
    if (p) { memcpy(q + 1, p, h->n < n ? h->n : n); h->magic = 0; free(h); live--; }
    return ret_p = out(q, n);
}
static void *h2_malloc (size_t n) { return h_malloc(n); }
static void h2_free (void *p) { h_free(p); }
static int cmpi (const void *a, const void *b) { return *(int *) a - *(int *) b; }

static void modules (vin_t *v)
{
    char key[32]; int i, k = vb(v) % 9, n = vb(v) % 24; long l0 = live;
    vtrace("module %d n %d ", k, n);
    switch (k) {
    case 0: { u_string_t *s; if (u_string_create("x", 1, &s)) break; for (i = 0; i < n; i++) u_string_cat(s, "hello world"); u_string_free(s); break; }
    case 1: { u_buf_t *b; if (u_buf_create(&b)) break; for (i = 0; i < n; i++) u_buf_append(b, "abcdefgh", 8); u_buf_printf(b, "%d", n); u_buf_free(b); break; }
    case 2: { u_list_t *l; int *it; void *x; if (u_list_create(&l)) break; for (i = 0; i < n; i++) u_list_add(l, &live); if (n) u_list_del(l, &live); (void) it; (void) x; u_list_free(l); break; }
    case 3: { u_hmap_opts_t *o = NULL; u_hmap_t *h = NULL; if (u_hmap_opts_new(&o)) break; u_hmap_opts_set_size(o, 3); if (u_hmap_easy_new(o, &h) == 0) { for (i = 0; i < n; i++) { snprintf(key, sizeof key, "k%d", i); u_hmap_easy_put(h, key, &live); } u_hmap_easy_free(h); } u_hmap_opts_free(o); break; }
    case 4: { u_json_t *j = NULL; if (u_json_decode("{\"a\":[1,2,{\"b\":null}],\"c\":\"d\"}", &j) == 0) { char *s = NULL; u_json_index(j); u_json_cache_get(j, ".c"); if (u_json_encode(j, &s) == 0) u_free(s); u_json_free(j); } break; }
    case 5: { u_uri_t *u = NULL; if (u_uri_crumble("http://u:p@h:80/p?q#f", 0, &u) == 0) { u_uri_free(u); } break; }
    case 6: { u_config_t *c = NULL; if (u_config_create(&c) == 0) { for (i = 0; i < n; i++) { snprintf(key, sizeof key, "k%d.x", i % 5); u_config_add_key(c, key, "v"); } u_config_free(c); } break; }
    case 7: { char **tv; size_t ne; if (u_strtok("a b c d e f g h i j k l m", " ", &tv, &ne) == 0) u_strtok_cleanup(tv, ne); { u_array_t *a; long x = 3, y; if (u_array_create(U_ARRAY_TYPE_LONG, n, &a) == 0) { u_array_set_long(a, n * 2, x, &y); u_array_free(a); } } break; }
    case 8: { u_pq_t *q; if (u_pq_create(n + 2, &q) == 0) { u_pq_push(q, 1, NULL); u_pq_free(q); } { u_rb_t *r; if (u_rb_create(n + 1, U_RB_OPT_USE_CONTIGUOUS_MEM, &r) == 0) u_rb_free(r); } { u_bst_t *b; if (u_bst_new(0, &b) == 0) { for (i = 0; i < n; i++) { snprintf(key, sizeof key, "%d", i); u_bst_push(b, key, key); } u_bst_free(b); } } break; }
    }
    VCHECK(live == l0, "module %d leaves %ld blocks", k, live - l0);
}
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    int steps = 0; size_t n, c, i; unsigned char *p, *q;
    live = 0;
    u_memory_set_malloc(h_malloc); u_memory_set_calloc(h_calloc); u_memory_set_realloc(h_realloc); u_memory_set_free(h_free);
    while (!vend(&v) && steps++ < 12) {
        int op = vb(&v);
        last_op = 0; ret_p = NULL;
        switch (op % 8) {
        case 0: n = v16(&v); p = u_malloc(n); VCHECK(last_op == 1 && last_n == n && p == ret_p, "u_malloc(%zu) asked for %zu", n, last_n); u_free(p); VCHECK(last_op == 4 && last_p == p, "u_free"); break;
        case 1: c = op & 8 ? v64(&v) : vb(&v); n = op & 16 ? v64(&v) : vb(&v);
            p = u_calloc(c, n); VCHECK(last_op == 2 && last_c == c && last_n == n && p == ret_p, "u_calloc(%zu, %zu) asked for (%zu, %zu)", c, n, last_c, last_n);
            if (p) { VCHECK(n == 0 || c <= SIZE_MAX / n, "overflowing count accepted"); for (i = 0; i < c * n; i++) VCHECK(p[i] == 0, "u_calloc not zeroed"); u_free(p); } break;
        case 2: n = v16(&v); p = u_zalloc(n); VCHECK(last_op == 2 && last_c * last_n == n && p == ret_p, "u_zalloc(%zu)", n); for (i = 0; i < n; i++) VCHECK(p[i] == 0, "u_zalloc not zeroed"); u_free(p); break;
        case 3: n = vb(&v); p = u_malloc(n); for (i = 0; i < n; i++) p[i] = i; c = v16(&v);
            q = u_realloc(p, c); VCHECK(last_op == 3 && last_p == p && last_n == c && q == ret_p, "u_realloc(%zu) asked for %zu", c, last_n); for (i = 0; i < n && i < c; i++) VCHECK(q[i] == (uint8_t) i, "content lost"); u_free(q);
            p = u_realloc(NULL, c); VCHECK(last_op == 3 && last_p == NULL, "u_realloc(NULL)"); u_free(p); break;
        case 4: last_op = 0; u_free(NULL); VCHECK(last_op == 0, "u_free(NULL) reached the hook"); break;
        case 5: n = vb(&v); q = malloc(n + 1); for (i = 0; i < n; i++) q[i] = i * 3 + op; p = u_memdup(q, n); VCHECK(last_op == 1 && last_n == n, "u_memdup asked for %zu", last_n); VCHECK(p && memcmp(p, q, n) == 0, "u_memdup"); u_free(p); free(q); break;
        case 6: u_memory_set_malloc(h2_malloc); u_memory_set_free(h2_free); break;
        default: modules(&v);
        }
        VCHECK(live == 0, "%ld blocks left", live);
    }
    return 0;
}
void v_driver_init (void) { }
