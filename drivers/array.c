/* P08: a dynamic array of every element type against a reference table */
#include "vdrv.h"
typedef void *vp_t;
#define MAXI 3000
#define BIG (SIZE_MAX / 2)
/* scalar values are compared through their text, padding bytes do not count */
#define RUN(NAME, sfx, T, CT, WRONGSET, MK, EQ) \
static void run_##NAME (vin_t *v, size_t n0) \
{ \
    static CT ref[MAXI]; u_array_t *da = NULL; size_t cap = n0 ? n0 : U_ARRAY_NSLOTS_DFL, i, hi = cap; int steps = 0, rc; CT val; CT old; \
    memset(ref, 0, sizeof ref); \
    v_fail_at = -1; \
    rc = u_array_create(T, n0, &da); \
    VCHECK(rc == 0 && da, "create failed without reason"); \
    while (!vend(v) && steps++ < 40) { \
        int op = vb(v); \
        v_nalloc = v_failed = 0; v_fail_at = (op & 0x40) ? 0 : -1; \
        switch (op % 6) { \
        case 0: case 1: case 2: \
            i = (op & 0x80) ? v16(v) % MAXI : vb(v); val = MK(v64(v)); old = MK(77); vtrace("set[%zu] ", i); \
            rc = u_array_set_##sfx(da, i, val, (op & 8) ? NULL : &old); \
            VCHECK(rc == 0 || v_failed, "set of index %zu refused", i); \
            if (rc == 0) { if (!(op & 8)) VCHECK(EQ(old, ref[i]), "set of %zu: wrong previous value", i); ref[i] = val; if (i >= hi) hi = i + 1; } \
            break; \
        case 3: i = (op & 0x80) ? v16(v) % MAXI : vb(v); val = MK(99); \
            rc = u_array_get_##sfx(da, i, &val); vtrace("get[%zu]=%d ", i, rc); \
            VCHECK(rc == 0 || i >= hi, "get of index %zu refused, %zu is in range", i, hi); \
            if (rc == 0) VCHECK(EQ(val, ref[i]), "get of %zu: not what was stored", i); \
            break; \
        case 4: i = v16(v) % MAXI; rc = u_array_resize(da, i); vtrace("resize(%zu)=%d ", i, rc); \
            VCHECK(rc == 0 || v_failed, "resize to %zu refused", i); if (rc == 0 && i >= hi) hi = i + 1; \
            break; \
        default: v_fail_at = -1; \
            i = BIG + v64(v) % BIG; val = MK(5); \
            VCHECK(u_array_get_##sfx(da, i, &val) != 0, "get of index %zu accepted", i); \
            if (sizeof(CT) > 2) VCHECK(u_array_set_##sfx(da, i, val, NULL) != 0, "set of index %zu accepted", i); \
            if (sizeof(CT) > 2) VCHECK(u_array_resize(da, i) != 0, "resize to %zu accepted", i); \
            VCHECK(u_array_resize(da, SIZE_MAX) != 0, "resize to SIZE_MAX accepted"); \
            VCHECK((WRONGSET) != 0, "set of another type accepted"); \
            break; \
        } \
    } \
    v_fail_at = -1; \
    for (i = 0; i < hi && i < MAXI; i++) { val = MK(3); VCHECK(u_array_get_##sfx(da, i, &val) == 0 && EQ(val, ref[i]), "index %zu changed", i); } \
    u_array_free(da); \
}
#define MKI(x) (x)
#define MKF(x) ((double) (int64_t) (x) / 8)
#define MKC(x) (MKF(x) + (double) (int) (x) * 1.0i)
#define EQI(a, b) ((a) == (b))
static double wd; static int wi;
RUN(ch, char, U_ARRAY_TYPE_CHAR, char, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(uch, u_char, U_ARRAY_TYPE_U_CHAR, unsigned char, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(sh, short, U_ARRAY_TYPE_SHORT, short, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(ush, u_short, U_ARRAY_TYPE_U_SHORT, unsigned short, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(i, int, U_ARRAY_TYPE_INT, int, u_array_set_double(da, 0, 1, &wd), MKI, EQI)
RUN(ui, u_int, U_ARRAY_TYPE_U_INT, unsigned int, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(l, long, U_ARRAY_TYPE_LONG, long, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(ul, u_long, U_ARRAY_TYPE_U_LONG, unsigned long, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(ll, long_long, U_ARRAY_TYPE_LONG_LONG, long long, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(ull, u_long_long, U_ARRAY_TYPE_U_LONG_LONG, unsigned long long, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(im, intmax, U_ARRAY_TYPE_INTMAX, intmax_t, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(uim, u_intmax, U_ARRAY_TYPE_U_INTMAX, uintmax_t, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(b, bool, U_ARRAY_TYPE_BOOL, _Bool, u_array_set_int(da, 0, 1, &wi), MKI, EQI)
RUN(f, float, U_ARRAY_TYPE_FLOAT, float, u_array_set_int(da, 0, 1, &wi), MKF, EQI)
RUN(d, double, U_ARRAY_TYPE_DOUBLE, double, u_array_set_int(da, 0, 1, &wi), MKF, EQI)
RUN(ld, long_double, U_ARRAY_TYPE_LONG_DOUBLE, long double, u_array_set_int(da, 0, 1, &wi), MKF, EQI)
RUN(fc, float_complex, U_ARRAY_TYPE_FLOAT_COMPLEX, float _Complex, u_array_set_int(da, 0, 1, &wi), MKC, EQI)
RUN(dc, double_complex, U_ARRAY_TYPE_DOUBLE_COMPLEX, double _Complex, u_array_set_int(da, 0, 1, &wi), MKC, EQI)
RUN(ldc, long_double_complex, U_ARRAY_TYPE_LONG_DOUBLE_COMPLEX, long double _Complex, u_array_set_int(da, 0, 1, &wi), MKC, EQI)
static int pset (u_array_t *da, size_t i, void *val, void **old)
{
    int rc = 99; void *o = u_array_set_ptr(da, i, val, &rc);
    if (rc == 0 && old) *old = o;
    if (rc != 0) VCHECK(rc == -1 && o == NULL, "set_ptr: rc %d", rc);
    return rc;
}
static int pget (u_array_t *da, size_t i, void **val) { int rc = 99; *val = u_array_get_ptr(da, i, &rc); VCHECK(rc == 0 || (rc == -1 && !*val), "get_ptr: rc %d", rc); return rc; }
#define u_array_set_pp pset
#define u_array_get_pp pget
#define MKP(x) ((void *) (uintptr_t) (x))
RUN(p, pp, U_ARRAY_TYPE_PTR, vp_t, u_array_set_int(da, 0, 1, &wi), MKP, EQI)
static void (*const runs[])(vin_t *, size_t) = { run_ch, run_uch, run_sh, run_ush, run_i, run_ui, run_l, run_ul, run_ll, run_ull, run_im, run_uim, run_b, run_f, run_d, run_ld, run_fc, run_dc, run_ldc, run_p };
int v_run_case (const uint8_t *d, size_t sz)
{
    vin_t v = { d, sz, 0 };
    unsigned k = vb(&v), n0 = vb(&v); u_array_t *da = NULL;
    v_hooks_on();
    vtrace("type %u n0 %u ", k % 20, n0);
    runs[k % 20](&v, n0);
    VCHECK(v_live == 0, "%ld blocks leaked", v_live);
    VCHECK(u_array_create(n0 & 1 ? U_ARRAY_TYPE_UNSET : U_ARRAY_TYPE_MAX + 1, 3, &da) != 0, "invalid type accepted");
    v_nalloc = 0; v_fail_at = k % 2;
    VCHECK(u_array_create(U_ARRAY_TYPE_LONG, 4, &da) != 0, "create succeeded without memory");
    VCHECK(v_live == 0, "failed create leaked %ld blocks", v_live);
    return 0;
}
void v_driver_init (void) { }
