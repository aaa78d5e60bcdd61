/* P13: the lexer against an independent cursor over the same text */
#include "vdrv.h"
#include <toolbox/lexer.h>
static int ws (unsigned char c) { return c == 32 || (c >= 9 && c <= 13); }
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 }; u_lexer_t *l = NULL; char *txt, *ref, c, match[U_TOKEN_SZ + 2]; size_t n, i, pos = 0, lm = 0, rm = 0; int rc, steps = 0;
    v_hooks_on();
    n = vb(&v) % 200;
    if (n > 150) n = U_TOKEN_SZ - 3 + n % 8;
    txt = malloc(n + 1); ref = malloc(n + 1);
    { unsigned mode = vb(&v) % 4; for (i = 0; i < n; i++) { unsigned b = mode == 3 ? (unsigned) (" \t\nab\x85\xff\x0b")[vb(&v) % 8] & 255 : mode == 2 ? 'a' + vb(&v) % 3 : vb(&v); txt[i] = b ? b : 1; } }
    txt[n] = 0; memcpy(ref, txt, n + 1);
    for (i = 0; i < 2; i++) { v_nalloc = v_failed = 0; v_fail_at = i; VCHECK(u_lexer_new(txt, &l) != 0, "new without memory"); VCHECK(v_live == 0, "failed new leaks"); }
    v_fail_at = -1;
    VCHECK(u_lexer_new(txt, &l) == 0 && l, "new refused");
    free(txt);                              /* the text has been internalised */
    while (!vend(&v) && steps++ < 400) {
        int op = vb(&v) % 12; c = '?';
        switch (op) {
        case 0: case 1: rc = u_lexer_next(l, op ? &c : NULL); vtrace("next=%d ", rc); VCHECK(rc == (pos < n ? 0 : -1), "next at %zu of %zu: %d", pos, n, rc); if (pos < n) { pos++; if (op) VCHECK(c == ref[pos], "next copies out another character"); } else if (op) VCHECK(c == '?', "failed next stores something"); break;
        case 2: case 3: rc = u_lexer_skip(l, op == 3 ? &c : NULL); vtrace("skip=%d ", rc);
            if (pos < n) { pos++; while (pos < n && ws(ref[pos])) pos++; if (rc == 0) { if (op == 3) VCHECK(c == ref[pos], "skip copies out another character"); } }
            VCHECK(u_lexer_pos(l) == pos, "skip: at %zu, expected %zu", u_lexer_pos(l), pos);
            VCHECK(rc == 0 || pos >= n, "skip fails before the end"); break;
        case 4: rc = u_lexer_eat_ws(l); vtrace("eat=%d ", rc); VCHECK((rc == 0) == (pos < n), "eat_ws at %zu of %zu: %d", pos, n, rc); while (pos < n && ws(ref[pos])) pos++; break;
        case 5: u_lexer_record_lmatch(l); lm = pos; vtrace("lm "); break;
        case 6: u_lexer_record_rmatch(l); rm = pos; vtrace("rm "); break;
        case 7: { char *m; memset(match, '#', sizeof match); m = u_lexer_get_match(l, match); vtrace("match(%zu, %zu)=%s ", lm, rm, m ? "ok" : "NULL");
            if (rm < lm || rm - lm + 1 >= U_TOKEN_SZ) { VCHECK(m == NULL, "match that does not fit delivered"); VCHECK(match[0] == '#', "refused match writes"); }
            else { VCHECK(m == match && memcmp(match, ref + lm, rm - lm + 1) == 0 && match[rm - lm + 1] == 0, "match is not the text between the bookmarks"); VCHECK(match[U_TOKEN_SZ] == '#' && match[rm - lm + 2] == '#', "match written beyond its end"); } break; }
        case 8: { char e = (vb(&v) & 1) ? ref[pos] : (char) vb(&v); rc = u_lexer_expect_char(l, e); VCHECK((rc == 0) == (pos < n && ref[pos] == e), "expect at %zu: %d", pos, rc); if (rc == 0) pos++; else VCHECK(strlen(u_lexer_geterr(l)) < U_LEXER_ERR_SZ, "message not terminated"); break; }
        case 9: { char big[1200]; size_t k = vb(&v) * 4; memset(big, 'e', k); big[k] = 0; VCHECK(u_lexer_seterr(l, "%s", big) == 0, "seterr"); if (k >= U_LEXER_ERR_SZ) k = U_LEXER_ERR_SZ - 1; VCHECK(strlen(u_lexer_geterr(l)) == k && memcmp(u_lexer_geterr(l), big, k) == 0, "message is not the text, cut to the field"); break; }
        case 10: VCHECK(strcmp(u_lexer_lookahead(l), ref + pos) == 0, "lookahead"); break;
        default: VCHECK(u_lexer_eot(l) == (pos >= n), "eot");
        }
        VCHECK(u_lexer_pos(l) == pos, "at %zu, expected %zu", u_lexer_pos(l), pos);
        VCHECK(u_lexer_peek(l) == ref[pos], "peek at %zu", pos);
    }
    u_lexer_free(l); u_lexer_free(NULL); free(ref);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    return 0;
}
void v_driver_init (void) { }
