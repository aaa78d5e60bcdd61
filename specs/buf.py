"""Contracts for srcs/toolbox/buf.c"""
from lvc.engine import *
from lvc import libc

BIG = 2**56


def options(mod):
    return dict(models=libc.MODELS, extra_types=('i8',))


def contracts(mod):
    F = mod.di_struct('u_buf_s')
    D, SZ, LN, WHOLE = F['data'], F['size'], F['len'], F['__size__']

    def data(S, b):
        return S.ptr(b, D)

    def sz(S, b):
        return S.i64(b, SZ)

    def ln(S, b):
        return S.i64(b, LN)

    def cells(S, b):
        return S.inner('i8', data(S, b).o)

    def wf(S, b):
        d, z, n = data(S, b), sz(S, b), ln(S, b)
        return [S.heap(b, WHOLE), b.o > S.eng.NG, n >= 0, n <= z, z < 2**57,
                Or(z3.And(z == 0, d.null()), z3.And(d.f == 0, d.o > S.eng.NG, d.o != b.o, S.alive(d.o), S.sz(d.o) == z + 1))]

    def wfl(S, b, cond=None):
        return [('buffer well formed after: #%d' % i, f if cond is None else Implies(cond, f)) for i, f in enumerate(wf(S, b))]

    def keep(S0, S, b, n):
        c0, c1 = cells(S0, b), cells(S, b)
        return forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k))

    def same(S0, S, b):
        return z3.And(ln(S, b) == ln(S0, b), keep(S0, S, b, ln(S0, b)))

    def term(S, b):
        return S.i8(Ptr(data(S, b).o, ln(S, b))) == 0

    def moved(S0, S, b, grown):
        d0, d1 = data(S0, b), data(S, b)
        base = If(d0.null(), S0.live, z3.Store(S0.live, d0.o, False))
        return z3.And(Implies(Not(grown), z3.And(d1.eq(d0), S.live == S0.live, S.size == S0.size)),
                      Implies(grown, z3.And(Not(S0.alive(d1.o)), d1.o > S.eng.NG, S.live == z3.Store(base, d1.o, True),
                                            S.size == z3.Store(S0.size, d1.o, sz(S, b) + 1))))

    def storage(S0, S, b):
        d0, d1 = data(S0, b), data(S, b)
        base = If(d0.null(), S0.live, z3.Store(S0.live, d0.o, False))
        return ('at most the storage is replaced', If(d1.eq(d0), S.live == S0.live, z3.And(Not(S0.alive(d1.o)), S.live == z3.Store(base, d1.o, True))))

    def bmods(S, A):
        return [('cell', 'p', A.ubuf + D), ('cell', 'i64', A.ubuf + SZ), ('cell', 'i64', A.ubuf + LN), ('obj', '*', data(S, A.ubuf).o), ('heap',)]

    ret = ('0 or ~0', None)

    def r01(r):
        return ('0 or ~0', Or(r == 0, r == -1))

    def rs_post(S0, S, A, r):
        b = A.ubuf
        grown = And(r == 0, A.size > sz(S0, b))
        return [r01(r), ('enough room already: success', Implies(A.size <= sz(S0, b), r == 0)), ('fails only for lack of memory', Implies(z3.And(r != 0, A.size < 2**64 - 1), S.g['oom'])),
                ('capacity is what was asked for', sz(S, b) == If(grown, A.size, sz(S0, b))),
                ('content untouched', same(S0, S, b)), ('storage', moved(S0, S, b, grown)),
                ('last byte is NUL', Implies(grown, S.i8(Ptr(data(S, b).o, sz(S, b))) == 0))] + wfl(S, b)
    reserve = Contract('u_buf_reserve', lambda S, A: wf(S, A.ubuf), rs_post, lambda S, A: [('cell', 'p', A.ubuf + D), ('cell', 'i64', A.ubuf + SZ), ('heap',)])

    def src(S, A):
        return [A.size < BIG, ln(S, A.ubuf) < BIG, Or(A.data.null(), A.size == 0, z3.And(S.valid(A.data, A.size), A.data.o != A.ubuf.o, A.data.o != data(S, A.ubuf).o))]

    def ap_post(clear):
        def post(S0, S, A, r):
            b = A.ubuf
            ok = r == 0
            n0 = I(0) if clear else ln(S0, b)
            c0, c1, cd = cells(S0, b), cells(S, b), S0.inner('i8', A.data.o)
            return [r01(r), ('nothing to add: refused', Implies(Or(A.data.null(), A.size == 0), Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(A.data.null()), A.size > 0), S.g['oom'])),
                    ('content is the old content followed by the new', Implies(ok, z3.And(
                        ln(S, b) == n0 + A.size,
                        forall(lambda k: z3.And(Implies(z3.And(k >= 0, k < n0), z3.Select(c1, k) == z3.Select(c0, k)),
                                                Implies(z3.And(k >= n0, k < n0 + A.size), z3.Select(c1, k) == z3.Select(cd, A.data.f + k - n0))), pats=lambda k: z3.Select(c1, k))))),
                    ('NUL terminated', Implies(ok, term(S, b))),
                    ('a failed call keeps the content', Implies(Not(ok), same(S0, S, b) if not clear else Or(same(S0, S, b), ln(S, b) == 0))),
                    storage(S0, S, b)] + wfl(S, b)
        return post
    append = Contract('u_buf_append', lambda S, A: wf(S, A.ubuf) + src(S, A), ap_post(False), bmods)
    sset = Contract('u_buf_set', lambda S, A: wf(S, A.ubuf) + src(S, A), ap_post(True), bmods)

    def pf_post(S0, S, A, r):
        b = A.ubuf
        ok = r == 0
        n, T, n0 = S.g['tn'], S.g['tt'], ln(S0, b)
        c0, c1 = cells(S0, b), cells(S, b)
        return [r01(r), ('no format: refused', Implies(A.fmt.null(), Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(A.fmt.null()), n > 0), S.g['oom'])),
                ('content is the old content followed by the text', Implies(ok, z3.And(
                    ln(S, b) == n0 + n,
                    forall(lambda k: z3.And(Implies(z3.And(k >= 0, k < n0), z3.Select(c1, k) == z3.Select(c0, k)),
                                            Implies(z3.And(k >= n0, k < n0 + n), z3.Select(c1, k) == z3.Select(T, k - n0))), pats=lambda k: z3.Select(c1, k))))),
                ('NUL terminated', Implies(ok, term(S, b))),
                ('a failed call keeps the content', Implies(Not(ok), same(S0, S, b))), storage(S0, S, b)] + wfl(S, b)
    printf = Contract('u_buf_printf', lambda S, A: wf(S, A.ubuf) + [ln(S, A.ubuf) < BIG], pf_post, bmods, ghosts=libc.text_ghosts(),
                      entry=lambda S, A: S.add(S.g['tn'] >= 0, S.g['tn'] < 2**31))

    def ld_post(S0, S, A, r):
        b = A.ubuf
        ok = r == 0
        n, C = S.g['fz'], S.g['fc']
        c1 = cells(S, b)
        return [r01(r), ('content is exactly the file', Implies(ok, z3.And(ln(S, b) == n, forall(
                    lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(C, k)), pats=lambda k: z3.Select(c1, k))))),
                ('NUL terminated', Implies(And(ok, n > 0), term(S, b))), storage(S0, S, b)] + wfl(S, b)
    load = Contract('u_buf_load', lambda S, A: wf(S, A.ubuf), ld_post, bmods, ghosts=libc.file_ghosts())
    simple = []

    def q(fn, post, mods):
        simple.append(Contract(fn, lambda S, A: wf(S, A.ubuf), post, mods, inline=True))
    q('u_buf_clear', lambda S0, S, A, r: [('success', r == 0), ('empty', ln(S, A.ubuf) == 0), ('capacity kept', sz(S, A.ubuf) == sz(S0, A.ubuf))] + wfl(S, A.ubuf), lambda S, A: [('cell', 'i64', A.ubuf + LN)])
    q('u_buf_detach', lambda S0, S, A, r: [('success', r == 0), ('empty, without storage', z3.And(ln(S, A.ubuf) == 0, sz(S, A.ubuf) == 0, data(S, A.ubuf).null())),
                                           ('the memory stays with the caller', S.live == S0.live)] + wfl(S, A.ubuf),
      lambda S, A: [('cell', 'i64', A.ubuf + LN), ('cell', 'i64', A.ubuf + SZ), ('cell', 'p', A.ubuf + D)])
    q('u_buf_size', lambda S0, S, A, r: [('capacity', r == sz(S0, A.ubuf))], lambda S, A: [])
    q('u_buf_len', lambda S0, S, A, r: [('length', r == ln(S0, A.ubuf))], lambda S, A: [])
    q('u_buf_ptr', lambda S0, S, A, r: [('storage', r.eq(data(S0, A.ubuf)))], lambda S, A: [])
    shrink = Contract('u_buf_shrink', lambda S, A: wf(S, A.ubuf),
                      lambda S0, S, A, r: [r01(r), ('only shortens', (r == 0) == (A.newlen <= ln(S0, A.ubuf))),
                                           ('prefix of that length', ln(S, A.ubuf) == If(r == 0, A.newlen, ln(S0, A.ubuf)))] + wfl(S, A.ubuf),
                      lambda S, A: [('cell', 'i64', A.ubuf + LN)])
    free = Contract('u_buf_free', lambda S, A: wf(S, A.ubuf),
                    lambda S0, S, A, r: [('success', r == 0), ('the object and its storage, nothing else', S.live == z3.Store(
                        If(data(S0, A.ubuf).null(), S0.live, z3.Store(S0.live, data(S0, A.ubuf).o, False)), A.ubuf.o, False))],
                    lambda S, A: [('heap',), ('cell', 'p', A.ubuf + D)])
    create = Contract('u_buf_create', lambda S, A: [Or(A.pubuf.null(), z3.And(S.valid(A.pubuf, 8), A.pubuf.o > S.eng.NG))],
                      lambda S0, S, A, r: [r01(r), ('no result argument: refused', Implies(A.pubuf.null(), r != 0)), ('fails only for lack of memory', Implies(z3.And(r != 0, Not(A.pubuf.null())), S.g['oom'])), ('failure leaks nothing', Implies(r != 0, S.live == S0.live)),
                                           ('a new, empty buffer', Implies(r == 0, z3.And(Not(S0.alive(S.ptr(A.pubuf).o)), ln(S, S.ptr(A.pubuf)) == 0)))] + wfl(S, S.ptr(A.pubuf), r == 0),
                      lambda S, A: [('cell', 'p', A.pubuf), ('heap',)])
    return [reserve, append, sset, printf, load, shrink, free, create] + simple
