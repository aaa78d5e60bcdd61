"""Contracts for srcs/toolbox/str.c"""
from lvc.engine import *
from lvc import libc

BIG = 2**56


def options(mod):
    return dict(models=libc.MODELS, extra_types=('i8',))


from .misc import trim_contract as _tc, blank


def trim_contract():
    return _tc(False)        # proved in the unit misc.c


def contracts(mod):
    F = mod.di_struct('u_string_s')
    D, SZ, LN, SH = F['data'], F['data_sz'], F['data_len'], F['shift_cnt']
    WHOLE = F['__size__']

    def data(S, s):
        return S.ptr(s, D)

    def sz(S, s):
        return S.i64(s, SZ)

    def ln(S, s):
        return S.i64(s, LN)

    def g(S):
        e = S.eng
        nc, nl = e.gptr('@null_cstr'), e.gptr('@null')
        return [S.ptr(nl).eq(nc), S.i8(nc) == 0, S.alive(nc.o), S.alive(nl.o), S.sz(nc.o) == 1]

    def cells(S, s):
        return S.inner('i8', data(S, s).o)

    def nonul(S, s):
        c, n = cells(S, s), ln(S, s)
        return forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c, k) != 0), pats=lambda k: z3.Select(c, k))

    def isnull(S, s):
        return data(S, s).eq(S.eng.gptr('@null_cstr'))

    def shape(S, s):
        d, z, n = data(S, s), sz(S, s), ln(S, s)
        return [S.heap(s, WHOLE), s.o > S.eng.NG, d.f == 0, n >= 0, n <= z, z >= 0, z < BIG, S.i64(s, SH) >= 0, S.i64(s, SH) <= 24,
                S.i8(Ptr(d.o, n)) == 0, S.alive(d.o),
                Or(z3.And(z == 0, isnull(S, s)), z3.And(z > 0, d.o > S.eng.NG, d.o != s.o, S.sz(d.o) == z + 1))]

    def wf(S, s):
        return g(S) + shape(S, s) + [nonul(S, s)]

    def wfl(S, s, cond=None):
        return [('string well formed after: #%d' % i, f if cond is None else Implies(cond, f)) for i, f in enumerate(wf(S, s))]

    def same_text(S0, S, s):
        c0, c1, n = cells(S0, s), cells(S, s), ln(S0, s)
        return z3.And(ln(S, s) == n, forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k)))

    def moved(S0, S, s, grown):
        """allocation state: the buffer may have been replaced by a new object"""
        d0, d1 = data(S0, s), data(S, s)
        base = If(isnull(S0, s), S0.live, z3.Store(S0.live, d0.o, False))
        return z3.And(Implies(Not(grown), z3.And(d1.eq(d0), S.live == S0.live, S.size == S0.size)),
                      Implies(grown, z3.And(Not(S0.alive(d1.o)), S.live == z3.Store(base, d1.o, True),
                                            S.size == z3.Store(S0.size, d1.o, sz(S, s) + 1))))

    def smods(S, A):
        return [('cell', 'p', A.s + D)] + [('cell', 'i64', A.s + o) for o in (SZ, LN, SH)] + [('obj', '*', If(isnull(S, A.s), A.s.o, data(S, A.s).o)), ('heap',)]

    # ------------------------------------------------------------ reserve
    def rs_post(S0, S, A, r):
        s = A.s
        ok = r == 0
        grown = And(ok, A.size > sz(S0, s))
        return [('0 or ~0', Or(ok, r == -1)), ('fails only for lack of memory', Implies(z3.And(Not(ok), A.size < 2**64 - 1), S.g['oom'])), ('enough room already: success', Implies(A.size <= sz(S0, s), ok)),
                ('capacity is what was asked for', sz(S, s) == If(grown, A.size, sz(S0, s))),
                ('content untouched', same_text(S0, S, s)), ('growth state untouched', S.i64(s, SH) == S0.i64(s, SH)),
                ('storage', moved(S0, S, s, grown))] + wfl(S, s)
    reserve = Contract('u_string_reserve', lambda S, A: wf(S, A.s), rs_post, lambda S, A: [('cell', 'p', A.s + D), ('cell', 'i64', A.s + SZ), ('heap',)])

    # ------------------------------------------------------------ append
    def src(S, A):
        b = A.buf
        c = S.inner('i8', b.o)
        return [A.len < BIG, A.len >= 0,
                Or(b.null(), A.len == 0, z3.And(S.valid(b, A.len), b.o != A.s.o, b.o != data(S, A.s).o)),
                Implies(Not(b.null()), forall(lambda k: Implies(z3.And(k >= b.f, k < b.f + A.len), z3.Select(c, k) != 0), pats=lambda k: z3.Select(c, k)))]

    def joined(S0, S, s, b, n, keep):
        """content = first `keep` old characters + the n characters at b"""
        c0, c1, cb = cells(S0, s), cells(S, s), S0.inner('i8', b.o)
        return z3.And(ln(S, s) == keep + n,
                      forall(lambda k: z3.And(Implies(z3.And(k >= 0, k < keep), z3.Select(c1, k) == z3.Select(c0, k)),
                                              Implies(z3.And(k >= keep, k < keep + n), z3.Select(c1, k) == z3.Select(cb, b.f + k - keep))),
                             pats=lambda k: z3.Select(c1, k)))

    def ap_loop(SE, S, v, A):
        return [('range', z3.And(v.nsz >= sz(SE, A.s), v.nsz < BIG + 2**58, v.min == ln(SE, A.s) + A.len + 1)),
                ('shift', z3.And(S.i64(A.s, SH) >= 0, S.i64(A.s, SH) <= 24)),
                ('bounded growth', Or(v.nsz == sz(SE, A.s), v.nsz <= v.min + 64 * 2**24)),
                ('args', z3.And(v.s.eq(A.s), v.buf.eq(A.buf), v.len == A.len)),
                ('rest', S.inner('i64', A.s.o) == z3.Store(SE.inner('i64', A.s.o), A.s.f + SH, S.i64(A.s, SH)))]

    def ap_post(clear):
        def post(S0, S, A, r):
            s, b = A.s, A.buf
            ok = r == 0
            keep = I(0) if clear else ln(S0, s)
            return [('0 or ~0', Or(ok, r == -1)), ('no source: refused', Implies(b.null(), Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(b.null())), S.g['oom'])),
                    ('content is the old content followed by the new', Implies(ok, joined(S0, S, s, b, A.len, keep))),
                    ('a failed call leaves the %s content' % ('empty' if clear else 'old'), Implies(Not(ok), same_text(S0, S, s) if not clear else ln(S, s) == 0)),
                    ('storage', Or(moved(S0, S, s, z3.BoolVal(False)), moved(S0, S, s, z3.BoolVal(True))))] + wfl(S, s)
        return post
    append = Contract('u_string_append', lambda S, A: wf(S, A.s) + src(S, A), ap_post(False), smods,
                      loops={0: LoopSpec(ap_loop, measure=lambda S, v: If(v.nsz <= v.min, v.min - v.nsz + 1, I(0)))})
    sset = Contract('u_string_set', lambda S, A: wf(S, A.s) + src(S, A), ap_post(True), smods)

    # ------------------------------------------------------------ formatted
    def vp_post(S0, S, A, r):
        s = A.s
        ok = r == 0
        n, T = S.g['tn'], S.g['tt']
        keep = If(A.clear != 0, I(0), ln(S0, s))
        c0, c1 = cells(S0, s), cells(S, s)
        return [('0 or ~0', Or(ok, r == -1)), ('no format: refused', Implies(A.fmt.null(), Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(A.fmt.null())), S.g['oom'])),
                ('content is the old content followed by the formatted text', Implies(ok, z3.And(
                    ln(S, s) == keep + n,
                    forall(lambda k: z3.And(Implies(z3.And(k >= 0, k < keep), z3.Select(c1, k) == z3.Select(c0, k)),
                                            Implies(z3.And(k >= keep, k < keep + n), z3.Select(c1, k) == z3.Select(T, k - keep))), pats=lambda k: z3.Select(c1, k))))),
                ('a failed call leaves a prefix-free old content', Implies(Not(ok), Or(
                    z3.And(ln(S, s) == keep, forall(lambda k: Implies(z3.And(k >= 0, k < keep), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k))),
                    A.fmt.null())))] + wfl(S, s)
    vprintf = Contract('u_string_do_vprintf', lambda S, A: wf(S, A.s), vp_post, smods, ghosts=libc.text_ghosts(),
                       entry=lambda S, A: S.add(S.g['tn'] >= 0, S.g['tn'] < 2**31))

    # ------------------------------------------------------------ the rest
    clear = Contract('u_string_clear', lambda S, A: wf(S, A.s),
                     lambda S0, S, A, r: [('success', r == 0), ('empty', ln(S, A.s) == 0), ('capacity kept', z3.And(sz(S, A.s) == sz(S0, A.s), data(S, A.s).eq(data(S0, A.s)), S.i64(A.s, SH) == S0.i64(A.s, SH)))] + wfl(S, A.s),
                     lambda S, A: [('cell', 'i64', A.s + LN), ('cell', 'i8', If_ptr(isnull(S, A.s), S.eng.gptr('@null_cstr'), Ptr(data(S, A.s).o, 0)))], inline=True)
    setlen = Contract('u_string_set_length', lambda S, A: wf(S, A.s),
                      lambda S0, S, A, r: [('only shortens', (r == 0) == (A.len <= ln(S0, A.s))), ('0 or ~0', Or(r == 0, r == -1)),
                                           ('prefix of that length', Implies(r == 0, z3.And(ln(S, A.s) == A.len, prefix(S0, S, A.s, A.len)))),
                                           ('refused: nothing changes', Implies(r != 0, same_text(S0, S, A.s)))] + wfl(S, A.s),
                      lambda S, A: [('cell', 'i64', A.s + LN), ('cell', 'i8', Ptr(data(S, A.s).o, A.len))])

    def prefix(S0, S, s, n):
        c0, c1 = cells(S0, s), cells(S, s)
        return forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k))
    slen = Contract('u_string_len', lambda S, A: wf(S, A.s), lambda S0, S, A, r: [('number of characters', r == ln(S0, A.s))], lambda S, A: [])
    sc = Contract('u_string_c', lambda S, A: wf(S, A.s), lambda S0, S, A, r: [('NUL terminated content', z3.And(r.eq(data(S0, A.s)), S.i8(r, ln(S0, A.s)) == 0, Not(r.null())))], lambda S, A: [])

    def cp_pre(S, A):
        return wf(S, A.dst) + shape(S, A.src) + [nonul(S, A.src), A.dst.o != A.src.o, data(S, A.src).o != A.dst.o, data(S, A.dst).o != A.src.o,
                                                Or(isnull(S, A.src), data(S, A.src).o != data(S, A.dst).o)]

    def cp_post(S0, S, A, r):
        A2 = ArgNS()
        A2.s, A2.buf, A2.len = A.dst, data(S0, A.src), ln(S0, A.src)
        return ap_post(True)(S0, S, A2, r)

    def cp_mods(S, A):
        A2 = ArgNS()
        A2.s = A.dst
        return smods(S, A2)
    copy = Contract('u_string_copy', cp_pre, cp_post, cp_mods)

    def cr_pre(S, A):
        b = A.buf
        c = S.inner('i8', b.o)
        return g(S) + [A.len < BIG, Or(A.ps.null(), z3.And(S.valid(A.ps, 8), A.ps.o > S.eng.NG)),
                       Or(b.null(), A.len == 0, z3.And(S.valid(b, A.len), b.o != A.ps.o)),
                       Implies(Not(b.null()), forall(lambda k: Implies(z3.And(k >= b.f, k < b.f + A.len), z3.Select(c, k) != 0), pats=lambda k: z3.Select(c, k)))]

    def cr_post(S0, S, A, r):
        s = S.ptr(A.ps)
        ok = r == 0
        c1, cb = cells(S, s), S0.inner('i8', A.buf.o)
        n = If(A.buf.null(), I(0), A.len)
        return [('0 or ~0', Or(ok, r == -1)), ('no result argument: refused', Implies(A.ps.null(), Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(A.ps.null())), S.g['oom'])),
                ('failure leaks nothing', Implies(Not(ok), S.live == S0.live)),
                ('a new object', Implies(ok, Not(S0.alive(s.o)))),
                ('initial content', Implies(ok, z3.And(ln(S, s) == n, forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(cb, A.buf.f + k)),
                                                                            pats=lambda k: z3.Select(c1, k)))))] + wfl(S, s, ok)
    create = Contract('u_string_create', cr_pre, cr_post, lambda S, A: [('cell', 'p', A.ps), ('heap',)])
    free = Contract('u_string_free', lambda S, A: g(S) + [Implies(Not(A.s.null()), z3.And(*shape(S, A.s)))],
                    lambda S0, S, A, r: [('success', r == 0), ('NULL is a no-op', Implies(A.s.null(), S.live == S0.live)),
                                         ('the object and its buffer, nothing else', Implies(Not(A.s.null()), S.live == z3.Store(
                                             If(isnull(S0, A.s), S0.live, z3.Store(S0.live, data(S0, A.s).o, False)), A.s.o, False)))],
                    lambda S, A: [('heap',), ('cell', 'p', A.s + D)])
    detach = Contract('u_string_detach_cstr', lambda S, A: wf(S, A.s),
                      lambda S0, S, A, r: [('buffer handed over, NULL when there is none', z3.And(If(isnull(S0, A.s), r.null(), r.eq(data(S0, A.s))))),
                                           ('only the handle is released', S.live == z3.Store(S0.live, A.s.o, False))],
                      lambda S, A: [('heap',)])

    def tr_post(S0, S, A, r):
        s = A.s
        a = S.g['ta']
        c0, c1 = cells(S0, s), cells(S, s)
        n = ln(S, s)
        return [('content is a substring of the old content', Implies(ln(S0, s) > 0, z3.And(a >= 0, a + n <= ln(S0, s), forall(
                    lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(c0, k + a)), pats=lambda k: z3.Select(c1, k))))),
                ('nothing but blanks goes', Implies(ln(S0, s) > 0, z3.And(
                    forall(lambda k: Implies(z3.And(k >= 0, k < a), blank(z3.Select(c0, k))), pats=lambda k: z3.Select(c0, k)),
                    forall(lambda k: Implies(z3.And(k >= a + n, k < ln(S0, s)), blank(z3.Select(c0, k))), pats=lambda k: z3.Select(c0, k))))),
                ('no blank left at the ends', Implies(n > 0, z3.And(Not(blank(z3.Select(c1, 0))), Not(blank(z3.Select(c1, n - 1)))))),
                ('success', r == 0), ('not longer', ln(S, s) <= ln(S0, s)), ('capacity kept', z3.And(sz(S, s) == sz(S0, s), data(S, s).eq(data(S0, s))))] + wfl(S, s)
    trim = Contract('u_string_trim', lambda S, A: wf(S, A.s), tr_post, ghosts=(('ta', IntS),),
                    mods=lambda S, A: [('ghost', 'ta'), ('cell', 'i64', A.s + LN), ('obj', '*', If(isnull(S, A.s), A.s.o, data(S, A.s).o))])
    return [reserve, append, sset, vprintf, clear, setlen, slen, sc, copy, create, free, detach, trim, trim_contract()]


def If_ptr(c, p, q):
    return Ptr(If(c, p.o, q.o), If(c, p.f, q.f))
