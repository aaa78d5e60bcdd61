"""Contracts for srcs/toolbox/b64.c, against RFC 4648 written down independently of the tables"""
from lvc.engine import *
from lvc import libc


def options(mod):
    return dict(models=libc.MODELS)


def u8(x):
    return If(x < 0, x + 256, x)


def digit(v):
    """the character of sextet v"""
    return If(v < 26, v + 65, If(v < 52, v - 26 + 97, If(v < 62, v - 52 + 48, If(v == 62, I(43), I(47)))))


def alpha(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), z3.And(c >= 48, c <= 57), c == 43, c == 47)


def sext(c):
    return If(z3.And(c >= 65, c <= 90), c - 65, If(z3.And(c >= 97, c <= 122), c - 97 + 26, If(z3.And(c >= 48, c <= 57), c - 48 + 52, If(c == 43, I(62), I(63)))))


SX = z3.Function('sextet', IntS, IntS)


def sx_def(S, A):
    S.add(forall(lambda c: SX(c) == sext(c), pats=lambda c: SX(c)))     # definition


def enc_char(src, f, n, k):
    """character k of the text of src[f..f+n)"""
    g, j = k / 4, k % 4
    b0 = u8(z3.Select(src, f + 3 * g))
    b1 = If(3 * g + 1 < n, u8(z3.Select(src, f + 3 * g + 1)), 0)
    b2 = If(3 * g + 2 < n, u8(z3.Select(src, f + 3 * g + 2)), 0)
    return If(j == 0, digit(b0 / 4), If(j == 1, digit((b0 % 4) * 16 + b1 / 16),
              If(j == 2, If(3 * g + 1 < n, digit((b1 % 16) * 4 + b2 / 64), I(61)),
                 If(3 * g + 2 < n, digit(b2 % 64), I(61)))))


def dec_byte(src, f, k, j=None):
    """byte k denoted by the text src[f..]"""
    g = k / 3
    s = [SX(z3.Select(src, f + 4 * g + i)) for i in range(4)]
    if j is not None:
        return [s[0] * 4 + s[1] / 16, (s[1] % 16) * 16 + s[2] / 4, (s[2] % 4) * 64 + s[3]][j]
    j = k % 3
    return If(j == 0, s[0] * 4 + s[1] / 16, If(j == 1, (s[1] % 16) * 16 + s[2] / 4, (s[2] % 4) * 64 + s[3]))


def inn(S, o):
    return S.eng.named(S, z3.simplify(S.inner('i8', o)))


def arg(S, p, n):
    return Or(p.null(), z3.And(S.alive(p.o), p.f >= 0, p.f + n <= S.sz(p.o)))


def contracts(mod):
    # ------------------------------------------------------------------ encode
    def e_pre(S, A):
        n, m = A.in_sz, A.out_sz
        return [n >= 0, n < 2**60, m >= 0, m < 2**62,
                arg(S, A['in'], n), arg(S, A.out, m), Or(A.out.null(), A['in'].o != A.out.o)]

    def args_ok(A):
        return z3.And(Not(A['in'].null()), A.in_sz > 0, Not(A.out.null()), A.out_sz > 0)

    def tlen(n):
        return 4 * ((n + 2) / 3)

    def e_post(S0, S, A, r):
        n, m, T = A.in_sz, A.out_sz, tlen(A.in_sz)
        c, c0, src = inn(S, A.out.o), inn(S0, A.out.o), inn(S0, A['in'].o)
        f = A.out.f
        return [('0 or ~0', Or(r == 0, r == -1)),
                ('succeeds exactly when the text fits', (r == 0) == z3.And(args_ok(A), m >= T)),
                ('the output is the base64 text of the input',
                 Implies(r == 0, forall(lambda k: Implies(z3.And(k >= f, k < f + T), z3.Select(c, k) == enc_char(src, A['in'].f, n, k - f)), pats=lambda k: z3.Select(c, k)))),
                ('NUL terminated if there is room', Implies(z3.And(r == 0, m > T), z3.Select(c, f + T) == 0)),
                ('nothing outside the output buffer is written',
                 forall(lambda k: Implies(Or(k < f, k >= f + m, z3.And(r == 0, k > f + T)), z3.Select(c, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c, k)))]

    def e_inv(SE, S, v, A):
        n, m = A.in_sz, A.out_sz
        c, c0, src = inn(S, A.out.o), inn(SE, A.out.o), inn(SE, A['in'].o)
        done = n - v.in_sz               # bytes consumed
        pos = v.pout.f - A.out.f
        f = A.out.f
        return [('only the output', others(SE, S, ('i8',), [A.out.o, v.buf.o])),
                ('cursors', z3.And(v['in'].o == A['in'].o, v['in'].f == A['in'].f + done, v.pout.o == A.out.o, done >= 0, done <= n,
                                   pos >= 0, pos % 4 == 0, v.out_sz == m - pos, v.out_sz >= 0, v.out.eq(A.out))),
                ('whole groups', Or(z3.And(v.in_sz > 0, 3 * pos == 4 * done), z3.And(v.in_sz == 0, pos == tlen(n)))),
                ('text so far', forall(lambda k: Implies(z3.And(k >= f, k < f + pos), z3.Select(c, k) == enc_char(src, A['in'].f, n, k - f)), pats=lambda k: z3.Select(c, k))),
                ('rest untouched', forall(lambda k: Implies(Or(k < f, k >= f + pos), z3.Select(c, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c, k)))]
    enc = Contract('u_b64_encode', e_pre, e_post, lambda S, A: [('obj', ['i8'], A.out.o)],
                   loops={0: LoopSpec(e_inv, measure=lambda S, v: v.in_sz)})

    # ------------------------------------------------------------------ decode
    def d_pre(S, A):
        n, z = A.in_sz, A.out_sz
        m = S.i64(z)
        return [n >= 0, n < 2**60, arg(S, A['in'], n), arg(S, A.out, 0), Or(A.out.null(), A['in'].o != A.out.o),
                Or(z.null(), z3.And(S.valid(z, 8), m >= 0, m < 2**62, arg(S, A.out, m), z.o != A.out.o, z.o != A['in'].o))]

    def d_args(S0, A):
        return z3.And(Not(A['in'].null()), A.in_sz > 0, Not(A.out.null()), Not(A.out_sz.null()))

    def padding(src, f, n):
        """number of pad characters at the end of a text of n characters"""
        return If(z3.Select(src, f + n - 1) == 61, If(z3.Select(src, f + n - 2) == 61, 2, 1), 0)

    def nopad(src, f, n):
        return forall(lambda k: Implies(z3.And(k >= f, k < f + n), z3.Select(src, k) != 61), pats=lambda k: z3.Select(src, k))

    def b64text(src, f, n):
        """src[f..f+n) is a base64 text: groups of four alphabet characters, the last one padded"""
        return [n % 4 == 0, n > 0, forall(lambda k: Implies(z3.And(k >= f, k < f + n - padding(src, f, n)), alpha(z3.Select(src, k))), pats=lambda k: z3.Select(src, k))]

    def d_post(S0, S, A, r):
        n = A.in_sz
        src, f = inn(S0, A['in'].o), A['in'].f
        m = S0.i64(A.out_sz)
        c, c0 = inn(S, A.out.o), inn(S0, A.out.o)
        L = 3 * (n / 4) - padding(src, f, n)
        g = A.out.f
        text = z3.And(d_args(S0, A), *b64text(src, f, n))
        return [('0 or ~0', Or(r == 0, r == -1)),
                ('missing arguments are refused', Implies(Not(d_args(S0, A)), r != 0)),
                ('a base64 text is accepted exactly when the output fits', Implies(text, (r == 0) == (m >= L))),
                ('length of the decoded text', Implies(z3.And(text, r == 0), S.i64(A.out_sz) == L)),
                ('the decoded bytes are the ones denoted',
                 Implies(z3.And(text, r == 0), forall(lambda k: Implies(z3.And(k >= g, k < g + L), u8(z3.Select(c, k)) == dec_byte(src, f, k - g)), pats=lambda k: z3.Select(c, k)))),
                ('characters outside the alphabet are refused',
                 Implies(r == 0, forall(lambda k: Implies(z3.And(k >= f, k < f + n), Or(alpha(z3.Select(src, k)), z3.Select(src, k) == 61)), pats=lambda k: z3.Select(src, k)))),
                ('incomplete groups are refused', Implies(r == 0, n % 4 == 0)),
                ('misplaced padding is refused', Implies(r == 0, forall(lambda k: Implies(z3.And(k >= f, k < f + n, z3.Select(src, k) == 61),
                                                         Or((k - f) % 4 == 3, z3.And((k - f) % 4 == 2, z3.Select(src, k + 1) == 61))), pats=lambda k: z3.Select(src, k)))),
                ('the reported length fits', Implies(r == 0, z3.And(S.i64(A.out_sz) >= 0, S.i64(A.out_sz) <= m))),
                ('a refusal leaves the length alone', Implies(z3.And(r != 0, Not(A.out_sz.null())), S.i64(A.out_sz) == m)),
                ('nothing outside the output buffer is written',
                 forall(lambda k: Implies(Or(k < g, k >= g + m, A.out_sz.null()), z3.Select(c, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c, k)))]

    def d_inv(SE, S, v, A):
        n, m = A.in_sz, SE.i64(A.out_sz)
        src, f = inn(SE, A['in'].o), A['in'].f
        c, c0 = inn(S, A.out.o), inn(SE, A.out.o)
        done = n - v.in_sz
        pos = v.pout.f - A.out.f
        g = A.out.f
        L = 3 * (n / 4) - padding(src, f, n)
        return [('only the output', others(SE, S, ('i8',), [A.out.o, v.buf.o])),
                ('cursors', z3.And(v['in'].o == A['in'].o, v['in'].f == f + done, v.pout.o == A.out.o, done >= 0, done <= n, pos >= 0, pos <= m,
                                   v.tot_sz == m - pos, done % 4 == 0, v.out_sz.eq(A.out_sz), v.out.eq(A.out))),
                ('the input so far is in the alphabet', forall(lambda k: Implies(z3.And(k >= f, k < f + done), Or(alpha(z3.Select(src, k)), z3.Select(src, k) == 61)), pats=lambda k: z3.Select(src, k))),
                ('padding so far is well placed', forall(lambda k: Implies(z3.And(k >= f, k < f + done, z3.Select(src, k) == 61),
                                                         Or((k - f) % 4 == 3, z3.And((k - f) % 4 == 2, z3.Select(src, k + 1) == 61))), pats=lambda k: z3.Select(src, k))),
                ('position', Implies(z3.And(*b64text(src, f, n)), pos == If(v.in_sz == 0, L, 3 * (done / 4)))),
                *[('byte %d of every group so far' % j, Implies(z3.And(*b64text(src, f, n)),
                   forall(lambda k: Implies(z3.And(k >= g, k < g + pos, (k - g) % 3 == j), u8(z3.Select(c, k)) == dec_byte(src, f, k - g, j)), pats=lambda k: z3.Select(c, k)))) for j in range(3)],
                ('rest untouched', forall(lambda k: Implies(Or(k < g, k >= g + pos), z3.Select(c, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c, k)))]
    dec = Contract('u_b64_decode', d_pre, d_post, lambda S, A: [('obj', ['i8'], A.out.o), ('cell', 'i64', A.out_sz)],
                   entry=sx_def, loops={0: LoopSpec(d_inv, measure=lambda S, v: v.in_sz)})
    return [enc, dec]
