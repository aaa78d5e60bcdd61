/* P16 (MODE 16) decoder/validator against an independent RFC 4627 recogniser; P17 (MODE 17) tree and encoding against an
 * independent parse; P18 (MODE 18) edits, walks and cached lookups against a model tree */
#include "vdrv.h"
#ifndef MODE
#define MODE 16
#endif
void v_driver_init (void) { v_hooks_on(); }
/* ---- independent recogniser; tolerated by design: isspace() as blanks, one ',' before a closing bracket, text after the top ---- */
enum { STR = 1, NUM, OBJ, ARR, TRU, FAL, NUL };
enum { NN = 4000 };
typedef struct rn_s { int type, dep; const char *k, *v; int kl, vl, hask; int first, last, next, n; } rn_t;
static rn_t R[NN]; static int nR, maxdep, maxtok, maxval, toobig;
static const char *t;
static void ws (void) { while (*t && isspace((unsigned char) *t)) t++; }
static int r_str (const char **s, int *n)
{
    if (*t != '"') return 0;
    *s = ++t;
    for (; *t != '"'; t++) {
        unsigned char c = *t; int i;
        if (c < 0x20) return 0;
        if (c != '\\') continue;
        c = *++t;
        if (c == 'u') { for (i = 1; i <= 4; i++) if (!t[i] || !strchr("0123456789abcdefABCDEF", t[i])) return 0; t += 4; }
        else if (!c || !strchr("\"\\/bfnrt", c)) return 0;
    }
    *n = (int) (t++ - *s);
    return 1;
}
static int dig (void) { return *t >= '0' && *t <= '9'; }
static int r_num (const char **s, int *n)
{
    *s = t;
    if (*t == '-') t++;
    if (*t == '0') t++; else if (dig()) while (dig()) t++; else return 0;
    if (*t == '.') { t++; if (!dig()) return 0; while (dig()) t++; }
    if (*t == 'e' || *t == 'E') { t++; if (*t == '+' || *t == '-') t++; if (!dig()) return 0; while (dig()) t++; }
    *n = (int) (t - *s);
    return 1;
}
static int r_lit (const char *w) { size_t n = strlen(w); if (strncmp(t, w, n)) return 0; t += n; return 1; }
static int r_value (int me, int dep)
{
    rn_t *r = &R[me]; r->first = r->last = r->next = -1; r->n = 0; r->v = ""; r->vl = 0; r->dep = dep;
    if (dep > maxdep) maxdep = dep;
    if (*t == '"') { r->type = STR; if (!r_str(&r->v, &r->vl)) return 0; if (r->vl > maxval) maxval = r->vl; return 1; }
    if (*t == '-' || dig()) { r->type = NUM; if (!r_num(&r->v, &r->vl)) return 0; if (r->vl > maxval) maxval = r->vl; return 1; }
    if (*t == '{' || *t == '[') {
        char e = *t == '{' ? '}' : ']'; int any = 0;
        r->type = *t == '{' ? OBJ : ARR;
        t++; ws();
        for (;;) {
            int c; const char *k = NULL; int kl = 0;
            if (*t == e) { t++; return 1; }
            if (any && 0) return 0;
            if (r->type == OBJ) { if (!r_str(&k, &kl)) return 0; if (kl > maxtok) maxtok = kl; ws(); if (*t != ':') return 0; t++; ws(); }
            if (nR >= NN) { toobig = 1; return 0; }
            c = nR++; memset(&R[c], 0, sizeof R[c]); R[c].k = k; R[c].kl = kl; R[c].hask = k != NULL;
            if (!r_value(c, dep + 1)) return 0;
            if (r->last < 0) r->first = c; else R[r->last].next = c;
            r->last = c; r->n++; any = 1;
            ws();
            if (*t == ',') { t++; ws(); } else if (*t == e) { t++; return 1; } else return 0;
        }
    }
    if (r_lit("true")) { r->type = TRU; return 1; }
    if (r_lit("false")) { r->type = FAL; return 1; }
    if (r_lit("null")) { r->type = NUL; return 1; }
    return 0;
}
static int r_text (const char *s)
{
    t = s; nR = 1; maxdep = maxtok = maxval = toobig = 0; memset(&R[0], 0, sizeof R[0]);
    ws();
    if (*t != '{' && *t != '[') return 0;
    return r_value(0, 0);
}
/* ---- text generation ---- */
static char G[8000]; static int g;
static void gs (const char *s) { while (*s && g < (int) sizeof G - 1) G[g++] = *s++; G[g] = 0; }
static void gws (vin_t *in) { unsigned c = vb(in); if (c % 5 == 0) gs(&" \0\t\0\n\0\r\0"[c / 5 % 4 * 2]); if (c % 35 == 0) gs("  "); }
static void gstr (vin_t *in, int big)
{
    static const char *P[] = { "a", "b", "key", "\\n", "\\\"", "\\\\", "\\u00e9", "\\uFfFf", " ", "\xc3\xa9", "\xff", "}", "]", ",", ":", "%s", "%", "\\/", "0", "true", "{", "[", ".", "\\u12", "\\x", "\n", "\x1f", "\x7f" };
    unsigned c = vb(in), n = c % 7 == 6 ? c / 7 : c % 6, i;
    gs("\"");
    if (big && c % 29 == 3) { for (i = 0; i < 120 + vb(in) % 16; i++) gs("x"); }
    else for (i = 0; i < n; i++) gs(P[vb(in) % (c % 11 == 0 ? 28 : 23)]);
    gs("\"");
}
static void gnum (vin_t *in)
{
    static const char *P[] = { "0", "1", "-1", "12", "-0", "0.5", "1e3", "1E-2", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "3.14", "100", "1e400", "-2.5e+1", "00", "01", "+1", "1.", ".5", "1e", "-", "1e+", "1.e1", "--1", "0x1" };
    unsigned c = vb(in), i;
    if (c % 40 == 39) { for (i = 0; i < 120 + vb(in) % 16; i++) gs("7"); return; }
    gs(P[c < 200 ? c % 15 : c % 26]);
}
static void gval (vin_t *in, int dep)
{
    unsigned c = vb(in), i, n; int o;
    if (g > 6000) { gs("0"); return; }
    switch (dep > 18 ? 2 + c % 5 : c % 9) {
        case 0: case 1: case 8:
            o = c % 2; n = vb(in); n = n % 8 == 7 ? n / 8 : n % 4;
            gs(o ? "{" : "["); gws(in);
            for (i = 0; i < n; i++) { if (o) { gstr(in, 1); gws(in); gs(":"); gws(in); } gval(in, dep + 1); gws(in); if (i + 1 < n || vb(in) % 60 == 59) { gs(","); gws(in); } }
            gs(o ? "}" : "]"); break;
        case 2: gstr(in, 1); break;
        case 3: case 4: gnum(in); break;
        case 5: gs("true"); break;
        case 6: gs("false"); break;
        case 7: gs("null"); break;
    }
}
static void gtext (vin_t *in)
{
    unsigned c = vb(in), i; g = 0; G[0] = 0;
    if (c % 4 == 0) { while (!vend(in) && g < (int) sizeof G - 1) { char x = (char) vb(in); if (x) G[g++] = x; } G[g] = 0; return; }
    if (c % 4 == 1) { static const char AL[] = "{}[]:,\"\\u019aet-+.E rualsfn\t{}[]"; while (!vend(in) && g < (int) sizeof G - 1) G[g++] = AL[vb(in) % (sizeof AL - 1)]; G[g] = 0; return; }
    gws(in);
    if (c % 8 == 2) { unsigned n = 12 + vb(in) % 8, o = vb(in); for (i = 0; i < n; i++) gs(o >> (i % 8) & 1 ? "{\"k\":" : "["); gval(in, 17); for (i = n; i-- > 0;) gs(o >> (i % 8) & 1 ? "}" : "]"); }
    else { i = vb(in); gs(i % 2 ? "{" : "["); if (i % 2) { gstr(in, 1); gs(":"); gval(in, 1); while (vb(in) % 4) { gs(","); gws(in); gstr(in, 1); gws(in); gs(":"); gval(in, 1); } } else { gval(in, 1); while (vb(in) % 4) { gs(", "); gval(in, 1); } } gws(in); gs(i % 2 ? "}" : "]"); }
    gws(in);
    if (MODE == 16 && c % 8 > 4 && g) {          /* damage it */
        unsigned n = 1 + vb(in) % 2;
        while (n--) { i = v16(in) % (unsigned) g; switch (vb(in) % 4) { case 0: G[i] = "{}[]:,\"\\u0-.eE \x01t"[vb(in) % 17]; break; case 1: memmove(G + i, G + i + 1, g - i); g--; break; case 2: if (g < (int) sizeof G - 2) { memmove(G + i + 1, G + i, g - i + 1); G[i] = "{}[]:,\"\\u0-.eE 1t"[vb(in) % 17]; g++; } break; case 3: G[i] = 0; g = (int) i; break; } if (!g) break; }
    }
}
/* ---- comparisons ---- */
static char *enc (u_json_t *j) { char *s = NULL; VCHECK(u_json_encode(j, &s) == 0 && s, "encode failed"); return s; }
static void cmp_tree (u_json_t *j, int me)
{
    rn_t *r = &R[me]; const char *v = u_json_get_val(j); long l; double d; char b; u_json_it_t it; u_json_t *c; int k, n;
    if (r->type == STR || r->type == NUM) VCHECK(v && (int) strlen(v) == r->vl && !memcmp(v, r->v, r->vl), "value is '%s', the text has '%.*s'", v ? v : "(null)", r->vl, r->v);
    else if (r->type == OBJ || r->type == ARR) VCHECK(!v, "container with a value");
    else VCHECK(v && !strcmp(v, r->type == TRU ? "true" : r->type == FAL ? "false" : "null"), "literal is '%s'", v ? v : "(null)");
    b = 7; VCHECK((u_json_get_bool(j, &b) == 0) == (r->type == TRU || r->type == FAL) && b == (r->type == TRU ? 1 : r->type == FAL ? 0 : 7), "boolean getter");
    l = 77; d = 77;
    if (r->type != NUM) { VCHECK(u_json_get_int(j, &l) && l == 77 && u_json_get_real(j, &d) && d == 77, "number getter on another type"); }
    else {
        char buf[256]; int isint = r->vl < 250; const char *p; long x; char *e;
        snprintf(buf, sizeof buf, "%.*s", r->vl, r->v); for (p = buf; *p; p++) if (!isdigit((unsigned char) *p) && *p != '-') isint = 0;
        if (isint) { errno = 0; x = strtol(buf, &e, 10); n = errno != 0; VCHECK((u_json_get_int(j, &l) != 0) == n && (n || l == x), "%s read as %ld", buf, l); }
        if (r->vl < 250) { double y; errno = 0; y = strtod(buf, &e); n = errno != 0; VCHECK((u_json_get_real(j, &d) != 0) == n && (n || d == y), "%s read as %g", buf, d); }
    }
    VCHECK(u_json_array_count(j) == (r->type == ARR ? (unsigned) r->n : 0), "array count %u", u_json_array_count(j));
    if (r->type != OBJ && r->type != ARR) { VCHECK(!u_json_child_first(j) && !u_json_child_last(j), "atom with children"); return; }
    u_json_it(u_json_child_first(j), &it);
    for (k = r->first, n = 0; k >= 0; k = R[k].next, n++) { VCHECK((c = u_json_it_next(&it)) != NULL, "child %d missing", n); if (r->type == ARR && n < 8) VCHECK(u_json_array_get_nth(j, n) == c, "element %d", n); cmp_tree(c, k); }
    VCHECK(!u_json_it_next(&it), "too many children");
    u_json_it(u_json_child_last(j), &it); for (k = 0; u_json_it_prev(&it); k++) ; VCHECK(k == n, "backward iteration shows %d of %d", k, n);
    if (r->type == ARR) VCHECK(!u_json_array_get_nth(j, n), "element past the end");
}
static rn_t R0[NN];
static int same (rn_t *A, int a, rn_t *B, int b)
{
    int i, j;
    if (A[a].type != B[b].type || A[a].hask != B[b].hask || A[a].kl != B[b].kl || (A[a].kl && memcmp(A[a].k, B[b].k, A[a].kl)) || A[a].vl != B[b].vl || memcmp(A[a].v, B[b].v, A[a].vl)) return 0;
    for (i = A[a].first, j = B[b].first; i >= 0 && j >= 0; i = A[i].next, j = B[j].next) if (!same(A, i, B, j)) return 0;
    return i < 0 && j < 0;
}
#if MODE == 18
/* ---- model of an edited tree ---- */
enum { TN = 160 };
typedef struct { u_json_t *j; int type, up, on, n; int ch[TN]; char key[160], val[200], fqn[600]; } mt_t;
static mt_t M[TN]; static int nM, indexed, serial;
static char emitted[60000]; static int em;
static void ap (const char *s) { size_t n = strlen(s); if (em + n < sizeof emitted) { memcpy(emitted + em, s, n + 1); em += (int) n; } }
static void m_enc (int i)
{
    int k; mt_t *m = &M[i];
    if (m->up >= 0 && M[m->up].type == OBJ) { ap("\""); ap(m->key); ap("\":"); }
    switch (m->type) { case STR: ap("\""); ap(m->val); ap("\""); break; case NUM: ap(m->val); break; case TRU: ap("true"); break; case FAL: ap("false"); break; case NUL: ap("null"); break; default: ap(m->type == OBJ ? "{" : "["); for (k = 0; k < m->n; k++) { if (k) ap(","); m_enc(m->ch[k]); } ap(m->type == OBJ ? "}" : "]"); }
}
static int walked, order[TN]; static int find (u_json_t *j) { int i; for (i = 0; i < nM; i++) if (M[i].on && M[i].j == j) return i; return -1; }
static void w_cb (u_json_t *j, size_t l, void *a) { int i = find(j), d = 0, p; (void) a; VCHECK(i >= 0, "walk visits a node outside the tree"); for (p = M[i].up; p >= 0; p = M[p].up) d++; VCHECK((size_t) d == l, "walk level %zu of %d", l, d); VCHECK(walked < TN, "walk"); order[walked++] = i; }
static int pre[TN], npre, post[TN], npost;
static void m_order (int i) { int k; pre[npre++] = i; for (k = 0; k < M[i].n; k++) m_order(M[i].ch[k]); post[npost++] = i; }
static void m_fqn (int i) { int k; for (k = 0; k < M[i].n; k++) { int c = M[i].ch[k]; if (M[i].type == OBJ) snprintf(M[c].fqn, sizeof M[c].fqn, "%.300s.%.150s", M[i].fqn, M[c].key); else snprintf(M[c].fqn, sizeof M[c].fqn, "%.500s[%d]", M[i].fqn, k); m_fqn(c); } }
static void m_off (int i) { int k; for (k = 0; k < M[i].n; k++) m_off(M[i].ch[k]); M[i].on = 0; }
static int m_size (int i) { int k, n = 1; for (k = 0; k < M[i].n; k++) n += m_size(M[i].ch[k]); return n; }
static int top (int i) { while (M[i].up >= 0) i = M[i].up; return i; }
static int depth (int i) { int d = 0; while (M[i].up >= 0) { i = M[i].up; d++; } return d; }
static void check_tree (int root)
{
    int i, k; char *s; u_json_it_t it; u_json_t *c;
    npre = npost = 0; m_order(root);
    walked = 0; u_json_walk(M[root].j, U_JSON_WALK_PREORDER, 0, w_cb, NULL); VCHECK(walked == npre && !memcmp(order, pre, npre * sizeof(int)), "pre-order walk shows %d of %d nodes or another order", walked, npre);
    walked = 0; u_json_walk(M[root].j, U_JSON_WALK_POSTORDER, 0, w_cb, NULL); VCHECK(walked == npost && !memcmp(order, post, npost * sizeof(int)), "post-order walk shows %d of %d nodes or another order", walked, npost);
    for (i = 0; i < npre; i++) {
        mt_t *m = &M[pre[i]]; const char *v = u_json_get_val(m->j);
        if (m->type == STR || m->type == NUM) VCHECK(v && !strcmp(v, m->val), "value '%s', expected '%s'", v ? v : "-", m->val);
        if (m->type != OBJ && m->type != ARR) continue;
        u_json_it(u_json_child_first(m->j), &it); for (k = 0; k < m->n; k++) VCHECK(u_json_it_next(&it) == M[m->ch[k]].j, "iteration, child %d", k); VCHECK(!u_json_it_next(&it), "iteration goes on");
        u_json_it(u_json_child_last(m->j), &it); for (k = m->n; k-- > 0;) VCHECK(u_json_it_prev(&it) == M[m->ch[k]].j, "backward iteration, child %d", k); VCHECK(!u_json_it_prev(&it), "backward iteration goes on");
        if (m->type == ARR) { VCHECK(u_json_array_count(m->j) == (unsigned) m->n, "count %u, expected %d", u_json_array_count(m->j), m->n); for (k = 0; k < m->n; k++) VCHECK(u_json_array_get_nth(m->j, k) == M[m->ch[k]].j, "element %d", k); VCHECK(!u_json_array_get_nth(m->j, m->n), "element past the end"); }
    }
    if (indexed == root + 1) {
        strcpy(M[root].fqn, "."); m_fqn(root);
        for (i = 0; i < npre; i++) if (strlen(M[pre[i]].fqn) < U_JSON_FQN_SZ) {
            c = u_json_cache_get(M[root].j, M[pre[i]].fqn); VCHECK(c == M[pre[i]].j, "cached lookup of '%s' is %s", M[pre[i]].fqn, c ? "another node" : "not found");
            if (pre[i] != root && M[pre[i]].up != root && M[M[pre[i]].up].type == ARR) { const char *f = M[M[pre[i]].up].fqn; c = u_json_cache_get(M[M[pre[i]].up].j, M[pre[i]].fqn + strlen(f)); VCHECK(c == M[pre[i]].j, "relative lookup of '%s' from '%s'", M[pre[i]].fqn + strlen(f), f); }
            { const char *v = u_json_cache_get_val(M[root].j, M[pre[i]].fqn), *w = u_json_get_val(M[pre[i]].j); VCHECK((!v && !w) || (v && w && !strcmp(v, w)), "cached value"); }
        }
        VCHECK(!u_json_cache_get(M[root].j, "..nosuchkey") && !u_json_cache_get(M[root].j, ".[4096]"), "cached lookup of an absent name");
    } else VCHECK(!u_json_cache_get(M[root].j, "."), "lookup without an index");
    em = 0; emitted[0] = 0; m_enc(root);
    if ((M[root].type == OBJ || M[root].type == ARR) && em < 50000) { VCHECK(r_text(emitted), "driver: model text %s", emitted); memcpy(R0, R, nR * sizeof *R); { char *keep = u_strdup(emitted); rn_t *x; int q, nr = nR; for (q = 0; q < nr; q++) { x = &R0[q]; if (x->k) x->k = keep + (x->k - emitted); if (x->vl) x->v = keep + (x->v - emitted); }
        s = enc(M[root].j); VCHECK(r_text(s) && !*t, "encoded text is not JSON: %s", s); VCHECK(same(R0, 0, R, 0), "encoded text differs from the tree: %s / %s", s, keep); u_free(s); u_free(keep); } }
}
static int pick (vin_t *in, int want) { int i, n = 0, c; for (i = 0; i < nM; i++) n += M[i].on && (want < 0 || (want == 9 ? M[i].type == OBJ || M[i].type == ARR : M[i].type == want)); if (!n) return -1; c = (int) (vb(in) % (unsigned) n); for (i = 0; i < nM; i++) if (M[i].on && (want < 0 || (want == 9 ? M[i].type == OBJ || M[i].type == ARR : M[i].type == want))) if (!c--) return i; return -1; }
static int mk (vin_t *in)
{
    unsigned c = vb(in); int ty = c % 9 < 2 ? OBJ : c % 9 < 4 ? ARR : c % 9 == 4 ? STR : c % 9 == 5 ? NUM : c % 9 == 6 ? TRU + (int) (c / 9 % 2) : c % 9 == 7 ? NUL : NUM, rc, ok = 1; mt_t *m; static const char *SV[] = { "", "x", "a b", "\\n", "\\u0041", "a\\\"b", "%d", "\"", "\\", "a\"b", "\n" }, *NV[] = { "0", "-1", "12", "1.5e3", "7", "", "-", "1x", "01", "1.", "+1" };
    if (nM >= TN) return -1;
    m = &M[nM]; memset(m, 0, sizeof *m); m->up = -1; m->type = ty; m->j = NULL;
    if (vb(in) % 6 == 0) memset(m->key, 'k', vb(in) % 110); snprintf(m->key + strlen(m->key), 30, "k%d", serial++);
    switch (ty) {
        case OBJ: rc = u_json_new_object(m->key, &m->j); break;
        case ARR: rc = u_json_new_array(m->key, &m->j); break;
        case TRU: case FAL: rc = u_json_new_bool(m->key, ty == TRU, &m->j); break;
        case NUL: rc = u_json_new_null(m->key, &m->j); break;
        case STR: { unsigned k = vb(in) % 11; snprintf(m->val, sizeof m->val, "%s", SV[k]); ok = k < 7; if (k == 1 && vb(in) % 4 == 0) { memset(m->val, 'y', 199); ok = 0; } rc = u_json_new_string(m->key, m->val, &m->j); break; }
        default: if (c % 9 == 8) { long l = (long) (int8_t) vb(in); if (c & 128) { l = l < 0 ? LONG_MIN : LONG_MAX; } snprintf(m->val, sizeof m->val, "%ld", l); rc = u_json_new_int(m->key, l, &m->j); { long q; VCHECK(rc || (u_json_get_int(m->j, &q) == 0 && q == l), "int"); } }
                 else { unsigned k = vb(in) % 11; ok = k < 5; snprintf(m->val, sizeof m->val, "%s", NV[k]); rc = u_json_new_number(m->key, m->val, &m->j); }
    }
    VCHECK((rc == 0) == ok, "creating a node of type %d with value '%s': rc %d", ty, m->val, rc);
    if (rc) return -1;
    m->on = 1; return nM++;
}
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t in = { d, n, 0 }; int i, j, k; long live;
    nM = indexed = serial = 0;
    while (!vend(&in)) {
        unsigned op = vb(&in) % 16;
        switch (op) {
            case 0: case 1: case 2: case 3: case 4: case 5:
                live = v_live; i = mk(&in); if (i < 0) { VCHECK(v_live == live, "a failed creation leaks"); break; }
                j = pick(&in, 9); if (j < 0 || j == i || vb(&in) % 16 == 0) break;
                if (indexed == top(j) + 1) { VCHECK(u_json_add(M[j].j, M[i].j), "child added to an indexed tree"); break; }
                if (M[j].n >= TN - 1 || depth(j) > 30) break;
                VCHECK(u_json_add(M[j].j, M[i].j) == 0, "add"); M[i].up = j; M[j].ch[M[j].n++] = i; break;
            case 6:     /* attach a detached tree */
                i = pick(&in, -1); j = pick(&in, 9); if (i < 0 || j < 0 || M[i].up >= 0 || top(j) == i || indexed == i + 1 || indexed == top(j) + 1 || depth(j) > 30) break;
                VCHECK(u_json_add(M[j].j, M[i].j) == 0, "add"); M[i].up = j; M[j].ch[M[j].n++] = i; break;
            case 7: case 8:
                i = pick(&in, -1); if (i < 0) break;
                live = v_live;
                if (indexed == top(i) + 1) { VCHECK(u_json_remove(M[i].j), "node of an indexed tree removed"); VCHECK(v_live == live, "refused removal releases"); break; }
                k = m_size(i); VCHECK(u_json_remove(M[i].j) == 0, "remove"); VCHECK(v_live == live - k, "removing a subtree of %d nodes released %ld blocks", k, live - v_live);
                if ((j = M[i].up) >= 0) { for (k = 0; M[j].ch[k] != i; k++) ; for (; k + 1 < M[j].n; k++) M[j].ch[k] = M[j].ch[k + 1]; M[j].n--; }
                m_off(i); break;
            case 9: i = pick(&in, -1); if (i < 0) break; i = top(i); if (indexed) break;
                { int q, f = 0, rc; strcpy(M[i].fqn, "."); m_fqn(i); npre = npost = 0; m_order(i); for (q = 0; q < npre; q++) f |= strlen(M[pre[q]].fqn) >= U_JSON_FQN_SZ; live = v_live; if (vb(&in) % 4 == 0) { v_nalloc = v_failed = 0; v_fail_at = vb(&in); } rc = u_json_index(M[i].j); v_fail_at = -1; VCHECK(rc ? f || v_failed : !f, "index: %d", rc); if (rc) VCHECK(v_live == live, "a failed indexing leaks"); else indexed = i + 1; } break;
            case 10: if (!indexed) break; i = indexed - 1; if (vb(&in) % 3 == 0 && M[i].n) i = M[i].ch[vb(&in) % (unsigned) M[i].n]; live = v_live; VCHECK(u_json_unindex(M[i].j) == 0, "unindex"); VCHECK(v_live < live, "unindex releases nothing"); indexed = 0; break;
            case 11: i = pick(&in, STR); if (i < 0) break; { static const char *SV[] = { "", "new", "a\\tb", "zz" }; k = (int) vb(&in) % 4; VCHECK(u_json_set_val(M[i].j, SV[k]) == 0, "set"); strcpy(M[i].val, SV[k]); } break;
            case 12: i = pick(&in, NUM); if (i < 0) break; { static const char *NV[] = { "5", "-7.5", "1e9", "x", "1 ", "1,2" }; k = (int) vb(&in) % 6; VCHECK((u_json_set_val_ex(M[i].j, NV[k], 1) == 0) == (k < 3), "checked value '%s'", NV[k]); if (k < 3) strcpy(M[i].val, NV[k]); } break;
            case 13: i = pick(&in, -1); if (i < 0 || M[i].type == OBJ || M[i].type == ARR) break; if (indexed == top(i) + 1) { VCHECK(u_json_set_key(M[i].j, "q"), "key of an indexed node set"); break; } if (vb(&in) % 2 == 0) { snprintf(M[i].key, 20, "n%d", serial++); VCHECK(u_json_set_key(M[i].j, M[i].key) == 0, "set key"); } else if (M[i].type != STR && M[i].type != NUM) { VCHECK(u_json_set_type(M[i].j, U_JSON_TYPE_NULL) == 0, "set type"); M[i].type = NUL; } break;
            case 14: i = pick(&in, -1); if (i < 0 || M[i].type == OBJ || M[i].type == ARR) break; if (u_json_add(M[i].j, M[i].j) == 0) VCHECK(0, "child added to an atom"); break;
            case 15: i = pick(&in, -1); if (i >= 0) check_tree(top(i)); break;
        }
    }
    for (i = 0; i < nM; i++) if (M[i].on && M[i].up < 0) check_tree(i);
    for (i = 0; i < nM; i++) if (M[i].on && M[i].up < 0) u_json_free(M[i].j);
    VCHECK(v_live == 0, "%ld blocks left after freeing every tree", v_live);
    return 0;
}
#else
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t in = { d, n, 0 }; u_json_t *j = NULL; int ok, rc, oom, big; char st[U_LEXER_ERR_SZ], *x; 
    oom = (int) vb(&in); gtext(&in); x = malloc(g + 1); memcpy(x, G, g + 1); vtrace("%s", x);
    ok = r_text(x); if (toobig) { free(x); return 0; }
    memcpy(R0, R, nR * sizeof *R);
    if (MODE == 16) {
        memset(st, 'Z', sizeof st); rc = u_json_validate(x, st); VCHECK((rc == 0) == (ok != 0), "validation says %s", rc ? "no" : "yes");
        if (rc) VCHECK(memchr(st, 0, sizeof st), "status not terminated");
        VCHECK(v_live == 0, "validation leaks %ld blocks", v_live);
        if (oom % 8 == 6) { v_nalloc = 0; v_fail_at = oom / 8; memset(st, 'Z', sizeof st); rc = u_json_validate(x, st); v_fail_at = -1; if (rc) VCHECK(memchr(st, 0, sizeof st), "status not terminated"); if (!ok || v_failed) VCHECK(rc, "validated"); VCHECK(v_live == 0, "validation leaks %ld blocks", v_live); v_failed = 0; }
    }
    big = maxval > 125 || maxtok > 125;
    if (MODE == 16 && oom % 8 == 7) { v_nalloc = 0; v_fail_at = oom / 8; }
    rc = u_json_decode(x, &j); v_fail_at = -1;
    if (!ok) VCHECK(rc, "decoded although not JSON");
    if (ok && maxdep >= U_JSON_MAX_DEPTH) VCHECK(rc, "decoded beyond the nesting limit");
    if (ok && maxdep < U_JSON_MAX_DEPTH && !big && !v_failed) VCHECK(rc == 0, "JSON text refused");
    if (rc) { VCHECK(v_live == 0, "a failed decode leaks %ld blocks", v_live); free(x); return 0; }
    VCHECK(!v_failed, "decode reports success although an allocation failed");
    cmp_tree(j, 0);
    if (MODE == 17) {
        char *e = enc(j); VCHECK(r_text(e) && !*t, "encoded text is not JSON: %s", e); VCHECK(same(R0, 0, R, 0), "encoded text is another document: %s", e);
        { u_json_t *k = NULL; char *e2; VCHECK(u_json_decode(e, &k) == 0, "encoded text is refused: %s", e); cmp_tree(k, 0); e2 = enc(k); VCHECK(!strcmp(e, e2), "encoding again differs"); u_free(e2); u_json_free(k); }
        u_free(e);
        if (oom % 8 == 5) { char *y = NULL; long l0 = v_live; v_nalloc = 0; v_failed = 0; v_fail_at = oom / 8; rc = u_json_encode(j, &y); v_fail_at = -1; VCHECK(rc == 0 || v_live == l0, "failed encode leaks"); VCHECK(rc || (!v_failed && y), "encode succeeded although an allocation failed"); if (!rc) u_free(y); }
    }
    u_json_free(j);
    VCHECK(v_live == 0, "%ld blocks left", v_live);
    free(x);
    return 0;
}
#endif
