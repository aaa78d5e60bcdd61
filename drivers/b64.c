/* P05, P06: base64 against an independent codec, exact-size guarded buffers (ASan) */
#include "vdrv.h"
#ifndef MODE
#define MODE 5
#endif
static char dig (unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static int sx (int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static size_t ref_enc (const uint8_t *p, size_t n, char *t)
{
    size_t i, k = 0;
    for (i = 0; i < n; i += 3) {
        unsigned long w = (unsigned long) p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
        t[k++] = dig(w >> 18); t[k++] = dig(w >> 12 & 63); t[k++] = i + 1 < n ? dig(w >> 6 & 63) : '='; t[k++] = i + 2 < n ? dig(w & 63) : '=';
    }
    t[k] = 0;
    return k;
}
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 }; int op = vb(&v), rc; size_t n, m, L;
#if MODE == 5
    size_t k; int want; uint8_t *in; char *out, ref[2048];
    if (sz > 900) return 0;
    n = sz > 2 ? sz - 2 : 0; m = 4 * ((n + 2) / 3);
    L = (op & 3) == 0 ? m : (op & 3) == 1 ? m + 1 : (op & 3) == 2 ? m + (op >> 2) : (m ? vb(&v) % m : 0);
    in = malloc(n ? n : 1); memcpy(in, d + (sz > 2 ? 2 : 0), n);
    out = malloc(L ? L : 1); memset(out, 0x5a, L ? L : 1);
    ref_enc(in, n, ref);
    rc = u_b64_encode(in, n, out, L);
    vtrace("encode(%zu bytes, out %zu)=%d ", n, L, rc);
    want = n && L && L >= m;
    VCHECK((rc == 0) == want, "encoding %zu bytes into a buffer of %zu: %d", n, L, rc);
    if (rc == 0) {
        VCHECK(memcmp(out, ref, m) == 0, "text is '%.*s', expected '%s'", (int) m, out, ref);
        if (L > m) VCHECK(out[m] == 0, "not NUL terminated");
        for (k = m + 1; k < L; k++) VCHECK(out[k] == 0x5a, "wrote beyond the text");
    }
    free(in); free(out);
#else
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    char *in; uint8_t *out, ref[1024]; size_t osz, pad = 0, dl = 0, i; int valid = 1, bad = 0;
    if (sz > 900) return 0;
    n = sz > 3 ? sz - 3 : 0;
    in = malloc(n + 1024);
    if (op & 1) { memcpy(in, d + (sz > 3 ? 3 : 0), n); if (op & 2) for (i = 0; i < n; i++) in[i] = (in[i] & 0x80) ? '=' : al[in[i] & 63]; }
    else {
        char *t = malloc(2048); size_t k0 = n > 600 ? 600 : n; n = ref_enc(d + (sz > 3 ? 3 : 0), k0, t); memcpy(in, t, n); free(t);
        if ((op & 6) == 2 && n) in[vb(&v) % n] = vb(&v);
        if ((op & 6) == 4 && n) n -= vb(&v) % (n < 4 ? n : 4);
    }
    in = realloc(in, n ? n : 1);
    while (pad < 2 && pad < n && in[n - 1 - pad] == '=') pad++;
    if (n == 0 || n % 4) valid = 0;
    for (i = 0; i < n; i++) { int c = (unsigned char) in[i]; if (sx(c) < 0 && c != '=') bad = 1; if (sx(c) < 0 && i < n - pad) valid = 0; }
    if (valid) {
        for (i = 0; i < n; i += 4) {
            unsigned long w = 0; int j; for (j = 0; j < 4; j++) w = w << 6 | (in[i + j] == '=' ? 0 : (unsigned) sx((unsigned char) in[i + j]));
            ref[dl++] = w >> 16; if (in[i + 2] != '=') ref[dl++] = w >> 8; if (in[i + 3] != '=') ref[dl++] = w;
        }
        L = (op & 24) == 0 ? dl : (op & 24) == 8 ? dl + (op >> 5) : (op & 24) == 16 ? n : dl ? vb(&v) % dl : 0;
    } else L = (op & 24) == 0 ? 0 : (op & 24) == 8 ? (n / 4) * 3 : (op & 24) == 16 ? n : vb(&v);
    out = malloc(L ? L : 1); memset(out, 0x5a, L ? L : 1); osz = L;
    rc = u_b64_decode(in, n, out, &osz);
    vtrace("decode('%.*s' (%zu), out %zu)=%d -> %zu ", (int) n, in, n, L, rc, osz);
    if (valid) {
        VCHECK((rc == 0) == (L >= dl), "a base64 text of %zu bytes, buffer %zu: %d", dl, L, rc);
        if (rc == 0) { VCHECK(osz == dl, "length %zu, expected %zu", osz, dl); VCHECK(memcmp(out, ref, dl) == 0, "wrong bytes"); for (m = dl; m < L; m++) VCHECK(out[m] == 0x5a, "wrote beyond the data"); }
    }
    if (bad) VCHECK(rc != 0, "text with a character outside the alphabet accepted");
    if (n % 4) VCHECK(rc != 0, "incomplete group accepted");
    if (rc == 0) { VCHECK(osz <= L, "reported length exceeds the buffer"); for (i = 0; i < n; i++) if (in[i] == '=') VCHECK(i % 4 == 3 || (i % 4 == 2 && in[i + 1] == '='), "misplaced padding accepted"); }
    else VCHECK(osz == L, "a refusal changed the length");
    VCHECK(u_b64_decode(in, n, out, NULL) != 0, "missing length argument accepted");
    free(in); free(out);
#endif
    return 0;
}
void v_driver_init (void) { }
