/* P09: binary search trees against a reference multimap */
#include "vdrv.h"
void v_driver_init (void) { v_hooks_on(); }
enum { N = 400 };
typedef struct { int k, v; } it_t;
static it_t M[N]; static int nM, kt, vt, desc; static int KI[N * 2], kfreed, vfreed;
static char VS[N * 4][12]; static int nV; static int VI[N * 4];
static int keyval (const void *k) { int i; if (kt == U_BST_TYPE_STRING) return atoi((const char *) k + 1); memcpy(&i, k, sizeof i); return i; }
static int cmpf (const void *a, const void *b) { int x = keyval(a), y = keyval(b), r = x < y ? -1 : x > y; return desc ? -r : r; }
static const void *mkkey (int k, char *sb, int *ib) { if (kt == U_BST_TYPE_STRING) { sprintf(sb, "k%05d", k); return sb; } if (kt == U_BST_TYPE_OPAQUE) { *ib = k; return ib; } KI[k] = k; return &KI[k]; }
static int valid (u_bst_node_t *n) { const void *v = u_bst_node_val(n); int i; if (vt == U_BST_TYPE_STRING) return atoi((const char *) v + 1); if (vt == U_BST_TYPE_OPAQUE) { memcpy(&i, v, sizeof i); return i; } return (int) ((const int *) v - VI); }
static int keyfreed; static void keyfree (void *p) { (void) p; keyfreed++; }
static int kless (int a, int b) { return desc ? a > b : a < b; }
static it_t W[N]; static int nW; static void cb (u_bst_node_t *n, void *a) { VCHECK(a == (void *) &nW, "callback argument"); VCHECK(nW < N, "too many nodes"); W[nW].k = keyval(u_bst_node_key(n)); W[nW++].v = valid(n); }
static int it_cmp (const void *a, const void *b) { const it_t *x = a, *y = b; return x->k != y->k ? (kless(x->k, y->k) ? -1 : 1) : x->v < y->v ? -1 : x->v > y->v; }
static void check (u_bst_t *b, int absent)
{
    static it_t A[N], B[N]; int i; char sb[16]; int ib; u_bst_node_t *n;
    VCHECK(u_bst_count(b) == nM, "count %zd, expected %d", u_bst_count(b), nM); VCHECK(!u_bst_empty(b) == (nM > 0), "empty");
    nW = 0; VCHECK(u_bst_foreach(b, cb, &nW) == 0, "foreach"); VCHECK(nW == nM, "traversal shows %d of %d", nW, nM);
    for (i = 1; i < nW; i++) VCHECK(!kless(W[i].k, W[i - 1].k), "traversal not in order");
    memcpy(A, W, sizeof(it_t) * nW); memcpy(B, M, sizeof(it_t) * nM); qsort(A, nW, sizeof *A, it_cmp); qsort(B, nM, sizeof *B, it_cmp); for (i = 0; i < nM; i++) VCHECK(A[i].k == B[i].k && A[i].v == B[i].v, "pair %d/%d instead of %d/%d", A[i].k, A[i].v, B[i].k, B[i].v);
    for (i = 0; i < nW; i++) { n = u_bst_find_nth(b, i); VCHECK(n && keyval(u_bst_node_key(n)) == W[i].k && valid(n) == W[i].v, "rank %d", i); }
    VCHECK(!u_bst_find_nth(b, nM), "rank past the end");
    for (i = 0; i < nM; i++) { int j, ok = 0; n = u_bst_search(b, mkkey(M[i].k, sb, &ib)); VCHECK(n && keyval(u_bst_node_key(n)) == M[i].k, "key %d not found", M[i].k); for (j = 0; j < nM; j++) ok |= M[j].k == M[i].k && M[j].v == valid(n); VCHECK(ok, "value of key %d", M[i].k); }
    for (i = 0; i < nM && M[i].k != absent; i++) ; if (i == nM) VCHECK(!u_bst_search(b, mkkey(absent, sb, &ib)), "absent key found");
}
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t in = { d, n, 0 }; u_bst_t *b; unsigned c = vb(&in), range; int i; char sb[16]; int ib;
    nM = nV = 0; kt = (int[]) { U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR }[c % 3]; vt = (int[]) { U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR }[c / 3 % 3]; desc = c / 9 % 4 == 3; range = (unsigned[]) { 5, 40, 300 }[vb(&in) % 3];
    VCHECK(u_bst_new((int[]) { U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED }[c / 36 % 3], &b) == 0, "new"); srand(vb(&in));
    if (kt != U_BST_TYPE_STRING) { VCHECK(u_bst_set_keyattr(b, kt, sizeof(int)) == 0, "keyattr"); }
    if (kt != U_BST_TYPE_STRING || desc) VCHECK(u_bst_set_cmp(b, cmpf) == 0, "cmp");
    keyfreed = 0; if (kt == U_BST_TYPE_PTR) VCHECK(u_bst_set_keyfree(b, keyfree) == 0, "keyfree");
    if (vt != U_BST_TYPE_PTR) VCHECK(u_bst_set_valattr(b, vt, sizeof(int)) == 0, "valattr");
    while (!vend(&in) && nM < N - 1 && nV < 4 * N) {
        unsigned op = vb(&in) % 16; int k = (int) ((range > 256 ? v16(&in) : vb(&in)) % range); long live = v_live;
        if (op < 8) {
            const void *v; int id = nV++, rc; char vb2[16]; if (vt == U_BST_TYPE_STRING) { sprintf(vb2, "v%d", id); v = vb2; } else if (vt == U_BST_TYPE_OPAQUE) { ib = id; v = NULL; } else v = &VI[id];
            if (op == 7 && vb(&in) % 2) { v_nalloc = v_failed = 0; v_fail_at = vb(&in) % 3; }
            { int kb; const void *kp = mkkey(k, sb, &kb); int vv = id; if (vt == U_BST_TYPE_OPAQUE) v = &vv; rc = u_bst_push(b, kp, v); }
            v_fail_at = -1; vtrace("push %d -> %d; ", k, rc);
            if (v_failed) { VCHECK(keyfreed == 0, "a failed push releases the caller's key"); VCHECK(rc, "push reports success though memory ran out"); VCHECK(v_live == live, "a failed push leaks"); v_failed = 0; }
            else { VCHECK(rc == 0, "push fails"); M[nM].k = k; M[nM++].v = id; }
        } else if (op < 13) {
            int have = 0, rc, j; for (i = 0; i < nM; i++) have += M[i].k == k;
            rc = u_bst_delete(b, mkkey(k, sb, &ib)); vtrace("del %d -> %d; ", k, rc); VCHECK((rc == 0) == (have > 0), "delete of a key held %d times says %d", have, rc);
            if (have) { nW = 0; u_bst_foreach(b, cb, &nW); for (i = 0; i < nM; i++) { if (M[i].k != k) continue; for (j = 0; j < nW && !(W[j].k == k && W[j].v == M[i].v); j++) ; if (j == nW) break; } VCHECK(i < nM, "nothing deleted"); M[i] = M[--nM]; }
            VCHECK(keyfreed == (have && kt == U_BST_TYPE_PTR), "delete releases %d keys", keyfreed); keyfreed = 0; VCHECK(v_live == live - (have ? 1 + (kt != U_BST_TYPE_PTR) + (vt != U_BST_TYPE_PTR) : 0), "delete releases %ld blocks", live - v_live);
        } else if (op == 13) VCHECK(u_bst_balance(b) == 0, "balance");
        else if (op == 14) check(b, k);
        if (nM < 12) check(b, k);
    }
    check(b, 1);
    u_bst_free(b); VCHECK(keyfreed == (kt == U_BST_TYPE_PTR ? nM : 0), "freeing the tree releases %d keys", keyfreed); VCHECK(v_live == 0, "%ld blocks left", v_live);
    return 0;
}
