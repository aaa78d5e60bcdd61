/* P07: a list against a reference vector */
#include "vdrv.h"
#define MAXN 200
static void *ref[MAXN + 1]; static size_t n;
static void audit (u_list_t *l)
{
    void *it = NULL, *p; size_t i;
    VCHECK(u_list_count(l) == n, "count %zu, expected %zu", u_list_count(l), n);
    for (i = 0; i < n; i++) VCHECK(u_list_get_n(l, i) == ref[i], "get_n(%zu) is not the item inserted there", i);
    VCHECK(u_list_get_n(l, n) == NULL && u_list_get_n(l, n + 1) == NULL && u_list_get_n(l, SIZE_MAX) == NULL, "get_n beyond the end");
    i = 0;
    for (p = u_list_first(l, &it); p; p = u_list_next(l, &it)) { VCHECK(i < n && p == ref[i], "iteration: item %zu", i); i++; }
    VCHECK(i == n, "iteration shows %zu of %zu items", i, n);
    VCHECK(u_list_first(l, NULL) == (n ? ref[0] : NULL), "first without iterator");
    u_list_iforeach(l, p, it, i) { void *q, *it2; size_t j; VCHECK(p == ref[i], "iforeach"); if (n < 8) { u_list_iforeach(l, q, it2, j) VCHECK(q == ref[j], "nested iteration"); } }
}
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 }; u_list_t *l = NULL, *l2 = NULL; int steps = 0, rc; size_t i; void *p;
    v_hooks_on();
    n = 0;
    if (vb(&v) % 8 == 0) { v_fail_at = 0; VCHECK(u_list_create(&l2) != 0, "create without memory"); VCHECK(v_live == 0, "leak"); v_fail_at = -1; }
    VCHECK(u_list_create(&l) == 0, "create failed"); VCHECK(u_list_create(&l2) == 0, "create failed");
    while (!vend(&v) && steps++ < 120) {
        int op = vb(&v); long live;
        p = (void *) (uintptr_t) (vb(&v) % 16 + 1);
        v_nalloc = v_failed = 0; v_fail_at = (op & 0x80) ? 0 : -1;
        live = v_live;
        switch (op & 7) {
        case 0: case 1: if (n >= MAXN) break; rc = u_list_add(l, p); vtrace("add(%p)=%d ", p, rc); VCHECK(rc == 0 || v_failed, "add refused"); if (rc == 0) ref[n++] = p; else VCHECK(rc == ~0 && v_live == live, "failed add"); break;
        case 2: case 3: if (n >= MAXN) break; i = vb(&v) % (n + 3); rc = u_list_insert(l, p, i); vtrace("insert(%p, %zu)=%d ", p, i, rc);
            if (i > n) VCHECK(rc != 0, "insert at %zu of %zu accepted", i, n); else VCHECK(rc == 0 || v_failed, "insert refused");
            if (rc == 0) { memmove(ref + i + 1, ref + i, (n - i) * sizeof *ref); ref[i] = p; n++; } else VCHECK(v_live == live, "failed insert"); break;
        case 4: rc = u_list_del(l, p); vtrace("del(%p)=%d ", p, rc); for (i = 0; i < n && ref[i] != p; i++) ;
            VCHECK((rc == 0) == (i < n), "del of %s item: %d", i < n ? "a present" : "an absent", rc);
            if (i < n) { memmove(ref + i, ref + i + 1, (n - i - 1) * sizeof *ref); n--; VCHECK(v_live == live - 1, "item not released"); } break;
        case 5: { void *q = &v; i = vb(&v) % (n + 3); rc = u_list_del_n(l, i, (op & 8) ? NULL : &q); vtrace("del_n(%zu)=%d ", i, rc);
            VCHECK((rc == 0) == (i < n), "del_n of %zu of %zu: %d", i, n, rc);
            if (rc == 0) { if (!(op & 8)) VCHECK(q == ref[i], "del_n hands back another item"); memmove(ref + i, ref + i + 1, (n - i - 1) * sizeof *ref); n--; VCHECK(v_live == live - 1, "item not released"); }
            else VCHECK(q == &v, "refused del_n stored something"); break; }
        case 6: if (op & 0x40) { rc = u_list_clear(l); vtrace("clear "); VCHECK(rc == 0, "clear failed"); VCHECK(v_live == live - (long) n, "clear released %ld of %zu items", live - v_live, n); n = 0; } break;
        default: if (op & 0x40) { u_list_add(l2, p); } break;
        }
        v_fail_at = -1;
        audit(l);
    }
    u_list_free(l); u_list_free(l2);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}
void v_driver_init (void) { }
