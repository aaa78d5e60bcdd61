/* P10 (MODE 10), P11 (MODE 11), P12 (MODE 12): hash maps against a reference map with a discard queue */
#include "vdrv.h"
#ifndef MODE
#define MODE 10
#endif
enum { NK = 40, NV = 700 };
static char K[NK][8];
typedef struct { int id, prio, freed, in; } val_t;
static val_t V[NV]; static int nv;
typedef struct { int on, v, cnt; u_hmap_o_t *o; } ent_t;
static ent_t M[NK]; static int Q[NK], nq;              /* Q: oldest first */
static int kt, vt, owns, linear, pol, nover, hashm, nM, easy, kfreed[NK], kgiven[NK];
static size_t maxm;
static size_t h_coll (const void *k, size_t n) { int i = atoi((const char *) k + 1); return (size_t) (hashm == 1 ? 5 : hashm == 2 ? i / 4 + 7 : hashm == 3 ? (i % 3 ? 12 : 0) : i * 31) % n; }
static int c_cmp (const void *a, const void *b) { int x = atoi((const char *) a + 1), y = atoi((const char *) b + 1); return x < y ? -1 : x > y; }
static val_t *asv (void *p) { return vt == U_HMAP_OPTS_DATATYPE_POINTER || !owns ? p : vt == U_HMAP_OPTS_DATATYPE_OPAQUE ? *(val_t **) p : &V[atoi((char *) p)]; }
static int p_cmp (void *a, void *b) { int x = asv(a)->prio, y = asv(b)->prio; return x < y ? -1 : x > y; }
static void vfree (void *p) { val_t *v = p; v->freed++; VCHECK(v->freed == 1, "value %d released twice", v->id); }
static void kfree (const void *p) { int i = atoi((const char *) p + 1); kfreed[i]++; }
static void unq (int k) { int i, j = 0; for (i = 0; i < nq; i++) if (Q[i] != k) Q[j++] = Q[i]; nq = j; }
static int n_ent (void) { int k, n = 0; for (k = 0; k < NK; k++) n += M[k].on; return n; }
static void ck_freed (int v, int want) { if (MODE == 12 && owns && vt == U_HMAP_OPTS_DATATYPE_POINTER) VCHECK(V[v].freed == want, "value %d: released %d times, expected %d", v, V[v].freed, want); }
static void gone (int k, int expect_o, u_hmap_o_t *o) /* element k left the map */
{
    VCHECK(M[k].on, "driver"); M[k].on = 0; unq(k); ck_freed(M[k].v, 1);
    if (!owns && expect_o) VCHECK(o == M[k].o, "the element handed back is not the one that left");
    if (!owns) u_hmap_o_free(M[k].o);
}
static int victim (void)
{
    return Q[0];
}
static int seen[NK], seenbad;
static int each (const void *k, const void *v) { int i = atoi((const char *) k + 1); seen[i]++; if (!M[i].on || asv((void *) v) != &V[M[i].v]) seenbad = i + 1; return 0; }
static void check_all (u_hmap_t *h)
{
    int k; VCHECK(u_hmap_count(h) == n_ent(), "count %zd, expected %d", u_hmap_count(h), n_ent());
    memset(seen, 0, sizeof seen); seenbad = 0; VCHECK(u_hmap_foreach_keyval(h, each) == 0, "foreach");
    VCHECK(!seenbad, "iteration shows key %d wrongly", seenbad - 1);
    for (k = 0; k < NK; k++) VCHECK(seen[k] == M[k].on, "key %d shown %d times, expected %d", k, seen[k], M[k].on);
    if (MODE == 11) VCHECK((size_t) u_hmap_count(h) <= maxm, "more than the maximum");
}
static u_hmap_t *mk (void)
{
    u_hmap_opts_t *o; u_hmap_t *h = NULL;
    VCHECK(u_hmap_opts_new(&o) == 0, "opts");
    VCHECK(u_hmap_opts_set_size(o, nM) == 0 && u_hmap_opts_set_max(o, (int) maxm) == 0 && u_hmap_opts_set_type(o, linear ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0, "opts");
    VCHECK(u_hmap_opts_set_policy(o, pol) == 0 && (pol != U_HMAP_PCY_CUSTOM || u_hmap_opts_set_policy_cmp(o, p_cmp) == 0), "policy");
    if (!nover) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE);
    if (hashm) { u_hmap_opts_set_hashfunc(o, h_coll); if (hashm != 4) u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG); }
    if (hashm == 2) u_hmap_opts_set_compfunc(o, c_cmp);
    u_hmap_opts_set_val_type(o, vt);
    if (vt == U_HMAP_OPTS_DATATYPE_OPAQUE) u_hmap_opts_set_val_sz(o, sizeof(val_t *));
    if (vt == U_HMAP_OPTS_DATATYPE_POINTER) u_hmap_opts_set_val_freefunc(o, vfree);
    if (!easy) {
        if (!owns) u_hmap_opts_unset_option(o, U_HMAP_OPTS_OWNSDATA);
        u_hmap_opts_set_key_type(o, kt); if (kt == U_HMAP_OPTS_DATATYPE_OPAQUE) u_hmap_opts_set_key_sz(o, 8);
        if (kt == U_HMAP_OPTS_DATATYPE_POINTER) u_hmap_opts_set_key_freefunc(o, kfree);
        VCHECK(u_hmap_new(o, &h) == 0, "new");
    } else VCHECK(u_hmap_easy_new(o, &h) == 0, "easy new");
    u_hmap_opts_free(o);
    return h;
}
static void put (u_hmap_t *h, int k, int prio)
{
    val_t *v; char sb[16]; int rc, ex, vic = -1, full, i, was = M[k].v, b4 = n_ent(); u_hmap_o_t *o = NULL, *old = NULL; void *vp;
    if (nv >= NV) return;
    v = &V[nv]; v->id = nv++; v->prio = prio; v->freed = 0; kgiven[k]++;
    snprintf(sb, sizeof sb, "%d", v->id);
    vp = !owns || vt == U_HMAP_OPTS_DATATYPE_POINTER ? (void *) v : vt == U_HMAP_OPTS_DATATYPE_OPAQUE ? (void *) &v : sb;
    ex = M[k].on; full = pol != U_HMAP_PCY_NONE && (size_t) b4 >= maxm; if (full && !ex && pol != U_HMAP_PCY_LFU && pol != U_HMAP_PCY_CUSTOM) vic = victim();
    if (easy) rc = u_hmap_easy_put(h, K[k], vp);
    else { o = u_hmap_o_new(h, K[k], vp); VCHECK(o, "o_new"); rc = u_hmap_put(h, o, &old); }
    vtrace("put(%d,#%d)=%d ", k, v->id, rc);
    if (ex && nover) {
        VCHECK(rc == U_HMAP_ERR_EXISTS, "put of a present key: rc %d", rc); ck_freed(v->id, 1); ck_freed(was, 0);
        if (!owns) { VCHECK(old == M[k].o, "old element"); u_hmap_o_free(o); }
        return;
    }
    VCHECK(rc == U_HMAP_ERR_NONE, "put: rc %d", rc);
    if (ex) { ck_freed(was, 1); if (!owns) { VCHECK(old == M[k].o, "the overwritten element is not handed back"); u_hmap_o_free(old); } unq(k); }
    else if (full) {
        #define RANK(k) (pol == U_HMAP_PCY_LFU ? M[k].cnt : V[M[k].v].prio)
        if (pol == U_HMAP_PCY_LFU || pol == U_HMAP_PCY_CUSTOM) { /* whichever left must be a least frequently used one, or one of lowest priority */
            int mn = 1 << 30; memset(seen, 0, sizeof seen); u_hmap_foreach_keyval(h, each);
            for (i = 0; i < nq; i++) { if (RANK(Q[i]) < mn) mn = RANK(Q[i]); if (!seen[Q[i]]) vic = Q[i]; }
            VCHECK(vic >= 0, "nothing discarded"); VCHECK(RANK(vic) == mn, "discarded key %d used %d times (or of priority), least is %d", vic, RANK(vic), mn);
        }
        gone(vic, 1, old);
    } else VCHECK(old == NULL, "an old element is reported for a new key");
    M[k].on = 1; M[k].v = v->id; M[k].o = o; M[k].cnt = 0; Q[nq++] = k; ck_freed(v->id, 0);
}
static void get (u_hmap_t *h, int k)
{
    void *p; u_hmap_o_t *o = (void *) 1; int rc;
    if (easy) p = u_hmap_easy_get(h, K[k]);
    else { rc = u_hmap_get(h, K[k], &o); VCHECK((rc == 0) == M[k].on, "get(%d)=%d", k, rc); p = rc == 0 ? u_hmap_o_get_val(o) : NULL; VCHECK(rc == 0 || o == NULL, "object of a failed get"); if (!owns && rc == 0) VCHECK(o == M[k].o, "another object"); if (rc == 0) VCHECK(!strcmp(u_hmap_o_get_key(o), K[k]), "key"); }
    VCHECK(!!p == M[k].on, "key %d: %s", k, p ? "found, but absent" : "not found, but present");
    if (p) { VCHECK(asv(p) == &V[M[k].v], "key %d: value %d, expected %d", k, asv(p)->id, M[k].v); M[k].cnt++; if (pol == U_HMAP_PCY_LRU) { unq(k); Q[nq++] = k; } }
}
static void del (u_hmap_t *h, int k)
{
    u_hmap_o_t *o = (void *) 1; int rc = easy ? u_hmap_easy_del(h, K[k]) : u_hmap_del(h, K[k], &o);
    vtrace("del(%d)=%d ", k, rc); VCHECK((rc == 0) == M[k].on, "del of key %d: %d", k, rc);
    if (rc == 0) gone(k, 1, o); else VCHECK(easy || o == NULL, "object of a failed del");
}
static void clearall (u_hmap_t *h, int free_) { int k; if (free_) u_hmap_free(h); else u_hmap_clear(h); vtrace(free_ ? "free " : "clear "); for (k = 0; k < NK; k++) if (M[k].on) gone(k, 0, NULL); }
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 }; u_hmap_t *h, *g; int c = vb(&v), c2 = vb(&v), op, k, i, nk;
    static const int pols[] = { U_HMAP_PCY_FIFO, U_HMAP_PCY_LRU, U_HMAP_PCY_CUSTOM, U_HMAP_PCY_LFU };
    static const int types[] = { U_HMAP_OPTS_DATATYPE_POINTER, U_HMAP_OPTS_DATATYPE_STRING, U_HMAP_OPTS_DATATYPE_OPAQUE };
    memset(M, 0, sizeof M); nq = nv = 0; memset(kfreed, 0, sizeof kfreed); memset(kgiven, 0, sizeof kgiven);
    linear = c & 1; nover = (c >> 1) & 1; easy = (c >> 2) & 1; owns = easy || ((c >> 3) & 1); hashm = (c >> 4) % 5;
    kt = easy ? U_HMAP_OPTS_DATATYPE_STRING : types[c2 % 3]; vt = types[c2 / 3 % 3];
    pol = MODE == 10 ? U_HMAP_PCY_NONE : MODE == 11 ? pols[(c2 >> 4) % 4] : (c2 & 128) ? pols[(c2 >> 4) % 4] : U_HMAP_PCY_NONE;
    nM = 1 + vb(&v) % 15; maxm = 1 + vb(&v) % 12; nk = 4 + vb(&v) % (NK - 4); if (pol != U_HMAP_PCY_NONE && (size_t) nM < maxm) nM = (int) maxm;
    vtrace("%s %s %s max=%zu size=%d policy=%d hash=%d kt=%d vt=%d%s: ", linear ? "linear" : "chain", owns ? "owns" : "user", easy ? "easy" : "adv", maxm, nM, pol, hashm, kt, vt, nover ? " no-overwrite" : "");
    v_hooks_on();
    h = mk();
    for (i = 0; i < 200 && !vend(&v); i++) {
        op = vb(&v); k = vb(&v) % nk;
        switch (op % 16) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: put(h, k, op >> 4); break;
        case 7: case 8: case 9: get(h, k); break;
        case 10: case 11: case 12: case 13: del(h, k); break;
        case 14: if ((op >> 4) == 3) clearall(h, 0); else if ((op >> 4) == 4) { g = mk(); VCHECK(u_hmap_copy(g, h) == 0, "copy"); if (MODE != 12 && pol == U_HMAP_PCY_NONE) VCHECK(u_hmap_count(h) == 0, "count of the source"); u_hmap_free(h); h = g; vtrace("copy "); if (pol != U_HMAP_PCY_NONE) goto out; } break;
        default: break;
        }
        if (!(op & 3)) check_all(h);
    }
    check_all(h);
    if (pol == U_HMAP_PCY_NONE || pol == U_HMAP_PCY_FIFO) for (k = 0; k < nk; k++) get(h, k);
out:
    clearall(h, 1);
    if (MODE == 12) {
        VCHECK(v_live == 0, "%ld blocks left", v_live);
        if (owns && kt == U_HMAP_OPTS_DATATYPE_POINTER) for (k = 0; k < NK; k++) VCHECK(kfreed[k] == kgiven[k], "key %d given %d times, released %d times", k, kgiven[k], kfreed[k]);
        for (i = 0; i < nv; i++) VCHECK(V[i].freed == (owns && vt == U_HMAP_OPTS_DATATYPE_POINTER), "value %d released %d times", i, V[i].freed);
    }
    return 0;
}
void v_driver_init (void) { int i; for (i = 0; i < NK; i++) sprintf(K[i], "k%d", i); }
