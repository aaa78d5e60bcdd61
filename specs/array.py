"""Contracts for srcs/toolbox/array.c"""
from lvc.engine import *

ESZ = [0, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 8, 8, 4, 8, 16, 8, 16, 32, 8]
MAXSZ = 2**64 - 1
# accessor suffix -> (type code, cell kinds with their offsets in a slot)
TY = {'bool': (1, [('i8', 0)]), 'char': (2, [('i8', 0)]), 'u_char': (3, [('i8', 0)]), 'short': (4, [('i16', 0)]), 'u_short': (5, [('i16', 0)]),
      'int': (6, [('i32', 0)]), 'u_int': (7, [('i32', 0)]), 'long': (8, [('i64', 0)]), 'u_long': (9, [('i64', 0)]),
      'long_long': (10, [('i64', 0)]), 'u_long_long': (11, [('i64', 0)]), 'intmax': (12, [('i64', 0)]), 'u_intmax': (13, [('i64', 0)]),
      'float': (14, [('f4', 0)]), 'double': (15, [('d', 0)]), 'long_double': (16, [('fx', 0)]),
      'float_complex': (17, [('f4', 0), ('f4', 4)]), 'double_complex': (18, [('d', 0), ('d', 8)]), 'long_double_complex': (19, [('fx', 0), ('fx', 16)]),
      'ptr': (20, [('po', 0), ('pf', 0)])}


def contracts(mod):
    F = mod.di_struct('u_array_s')
    NS, TP, BS, WHOLE = F['nslots'], F['type'], F['base'], F['__size__']

    def esz_is(t, k):
        return z3.Or([t == i for i in range(1, 21) if ESZ[i] == k])

    def scaled(n, t):
        e = n
        for k in (2, 4, 8, 16, 32):
            e = If(esz_is(t, k), k * n, e)
        return e

    def esz(t):
        return scaled(I(1), t)

    def ns(S, a):
        return S.i64(a, NS)

    def ty(S, a):
        return S.i32(a, TP)

    def base(S, a):
        return S.ptr(a, BS)

    def shape(S, a):
        b, n, t = base(S, a), ns(S, a), ty(S, a)
        return [S.heap(a, WHOLE), a.o > S.eng.NG, t >= 1, t <= 20, n >= 1, b.f == 0, b.o > S.eng.NG, b.o != a.o, S.alive(b.o),
                S.sz(b.o) == scaled(n, t), scaled(n, t) < 2**56]

    def shapel(S, a, c=None):
        return [('array well formed after: #%d' % i, f if c is None else Implies(c, f)) for i, f in enumerate(shape(S, a))]

    def inn(S, k, o):
        return S.eng.named(S, z3.simplify(S.inner(k, o)))

    def zeroed(S, o, lo, hi):
        out = []
        for t in sorted(S.M):
            c = inn(S, t, o)
            z = z3.RealVal(0) if t == 'd' else I(0)
            out.append(forall(lambda f: Implies(z3.And(f >= lo, f < hi), z3.Select(c, f) == z), pats=lambda f: z3.Select(c, f)))
        return z3.And(*out)

    def create_post(S0, S, A, r):
        ok = r == 0
        a = S.ptr(A.pda)
        bad = Or(A.pda.null(), A.t < 1, A.t > 20)
        want = If(A.nslots == 0, I(512), A.nslots)
        return [('0 or -1', Or(ok, r == -1)), ('bad arguments refused', Implies(bad, r == -1)), ('fails only for lack of memory', Implies(z3.And(r != 0, Not(bad)), S.g['oom'])),
                ('failure leaves no allocation and the result alone', Implies(Not(ok), z3.And(S.live == S0.live, Implies(S0.valid(A.pda, 8), S.ptr(A.pda).eq(S0.ptr(A.pda)))))),
                ('new object', Implies(ok, z3.And(Not(S0.alive(a.o)), Not(S0.alive(base(S, a).o)), ty(S, a) == A.t,
                                                  S.live == z3.Store(z3.Store(S0.live, a.o, True), base(S, a).o, True)))),
                ('as many slots as asked for', Implies(And(ok, scaled(want, A.t) <= MAXSZ), ns(S, a) == want)),
                ('slots start out zero', Implies(ok, zeroed(S, base(S, a).o, 0, scaled(ns(S, a), A.t))))] + shapel(S, a, ok)
    create = Contract('u_array_create', lambda S, A: [Or(A.pda.null(), S.valid(A.pda, 8))], create_post,
                      lambda S, A: [('cell', 'p', A.pda), ('heap',)])

    free = Contract('u_array_free', lambda S, A: [Or(A.da.null(), z3.And(S.heap(A.da, WHOLE), A.da.o > S.eng.NG,
                                                                         Or(base(S, A.da).null(), z3.And(base(S, A.da).f == 0, base(S, A.da).o > S.eng.NG, base(S, A.da).o != A.da.o, S.alive(base(S, A.da).o)))))],
                    lambda S0, S, A, r: [('object and slots released', S.live == If(A.da.null(), S0.live,
                                                                                     z3.Store(If(base(S0, A.da).null(), S0.live, z3.Store(S0.live, base(S0, A.da).o, False)), A.da.o, False)))],
                    lambda S, A: [('cell', 'p', A.da + BS), ('heap',)])

    def old_slots(S0, S, A, n, t, exc=None):
        """slots that were there keep their content (except byte range exc)"""
        out = []
        b0, b1 = base(S0, A.da).o, base(S, A.da).o
        for k in sorted(S.M):
            c0, c1 = S0.inner(k, b0), inn(S, k, b1)
            out.append(forall(lambda f: Implies(z3.And(f >= 0, f < scaled(n, t), *([Not(exc(f))] if exc else [])), z3.Select(c1, f) == z3.Select(c0, f)), pats=lambda f: z3.Select(c1, f)))
        return z3.And(*out)

    def storage(S0, S, A, grown):
        b0, b1 = base(S0, A.da), base(S, A.da)
        return z3.And(Implies(Not(grown), z3.And(b1.eq(b0), S.live == S0.live)),
                      Implies(grown, z3.And(b1.f == 0, Not(S0.alive(b1.o)), b1.o > S.eng.NG, S.live == z3.Store(z3.Store(S0.live, b0.o, False), b1.o, True))))

    def sizes(S0, S, c):
        return ('sizes of other objects', Implies(c, forall(lambda o: Implies(S0.alive(o), S.sz(o) == S0.sz(o)), pats=lambda o: S.sz(o))))

    def resize_post(S0, S, A, r):
        ok = r == 0
        a = A.da
        n0, t = ns(S0, a), ty(S0, a)
        grown = z3.And(ok, A.idx >= n0)
        return [('0 or -1', Or(ok, r == -1)), ('no array: refused', Implies(a.null(), r == -1)), ('fails only for lack of memory', Implies(z3.And(r != 0, a.ne(NULL), A.idx < 2**58), S.g['oom'])),
                ('index already there: nothing to do', Implies(z3.And(a.ne(NULL), A.idx < n0), ok)),
                ('array kept', Implies(a.ne(NULL), z3.And(ty(S, a) == t, If(grown, ns(S, a) > A.idx, ns(S, a) == n0), storage(S0, S, A, grown)))),
                sizes(S0, S, a.ne(NULL)),
                ('elements untouched when nothing is done', Implies(And(Not(grown), a.ne(NULL)), z3.And(*[S.inner(k, base(S0, a).o) == S0.inner(k, base(S0, a).o) for k in sorted(S.M)]))),
                ('elements kept', Implies(grown, old_slots(S0, S, A, n0, t))),
                ('new slots are zero', Implies(grown, zeroed(S, base(S, a).o, scaled(n0, t), scaled(ns(S, a), t))))] + shapel(S, a, a.ne(NULL))
    resize = Contract('u_array_resize', lambda S, A: [Or(A.da.null(), z3.And(*shape(S, A.da)))], resize_post,
                      lambda S, A: [('cell', 'i64', A.da + NS), ('cell', 'p', A.da + BS), ('obj', '*', base(S, A.da).o), ('heap',)])

    out = [create, free, resize]

    def out_ok(S, A, p, n):
        return Or(p.null(), z3.And(S.valid(p, n), p.o != A.da.o, Or(A.da.null(), p.o != base(S, A.da).o)))

    for nm, (code, cells) in TY.items():
        w = ESZ[code]
        if nm == 'ptr':
            continue

        def mk(nm=nm, code=code, cells=cells, w=w):
            def vals(S, A):
                if nm == 'float_complex':
                    return list(A[2])
                if nm == 'double_complex':
                    return [A[2], A[3]]
                if nm == 'long_double_complex':
                    return [z3.Select(S.inner('fx', A[2].o), A[2].f + o) for _, o in cells]
                if nm == 'bool':
                    return [If(A[2], I(1), I(0))]
                return [A[2]]

            def pold(A):
                return A[4 if nm == 'double_complex' else 3]

            def spre(S, A):
                p = pold(A)
                l = [Or(A[0].null(), z3.And(*shape(S, A[0]))), Or(p.null(), z3.And(S.valid(p, w), p.o > 0, p.o != A[0].o, Or(A[0].null(), p.o != base(S, A[0]).o)))]
                if nm == 'bool':
                    b = S.inner('i8', base(S, A[0]).o)
                    l.append(Implies(A[0].ne(NULL), forall(lambda f: z3.And(z3.Select(b, f) >= 0, z3.Select(b, f) <= 1), pats=lambda f: z3.Select(b, f))))
                if nm == 'long_double_complex':
                    v = A[2]
                    l += [S.valid(v, 32), v.o != A[0].o, v.o != p.o, Or(A[0].null(), v.o != base(S, A[0]).o)]
                return l

            def spost(S0, S, A, r):
                class B:
                    da, idx = A[0], A[1]
                a, i, p = A[0], A[1], pold(A)
                ok = r == 0
                n0, t = ns(S0, a), ty(S0, a)
                grown = z3.And(ok, i >= n0)
                b0, b1 = base(S0, a).o, base(S, a).o
                inr = lambda f: z3.And(f >= w * i, f < w * i + w)
                pr = lambda c: Implies(c, z3.And(*[z3.Select(S.inner(k, p.o), p.f + o) == If(i < n0, z3.Select(S0.inner(k, b0), w * i + o), z3.RealVal(0) if k == 'd' else I(0))
                                                  for k, o in cells]))
                kinds = sorted({k for k, _ in cells})
                olds_, zer = [], []
                for k in kinds:
                    c0, c1 = S0.inner(k, b0), inn(S, k, b1)
                    olds_.append(forall(lambda f: Implies(z3.And(f >= 0, f < w * n0, Not(inr(f))), z3.Select(c1, f) == z3.Select(c0, f)), pats=lambda f: z3.Select(c1, f)))
                    z = z3.RealVal(0) if k == 'd' else I(0)
                    zer.append(forall(lambda f: Implies(z3.And(f >= w * n0, f < w * ns(S, a), Not(inr(f))), z3.Select(c1, f) == z), pats=lambda f: z3.Select(c1, f)))
                return [('0 or -1', Or(ok, r == -1)), ('refused without an array of this type', Implies(Or(a.null(), t != code), r == -1)), ('fails only for lack of memory', Implies(z3.And(r != 0, a.ne(NULL), t == code, i < 2**58), S.g['oom'])),
                        ('index in range: success', Implies(z3.And(a.ne(NULL), t == code, i < n0), ok)),
                        ('array kept', Implies(a.ne(NULL), z3.And(ty(S, a) == t, If(grown, ns(S, a) > i, ns(S, a) == n0), storage(S0, S, B, grown)))),
                        sizes(S0, S, a.ne(NULL)),
                        ('slot holds the value', Implies(ok, z3.And(*[z3.Select(S.inner(k, b1), w * i + o) == v for (k, o), v in zip(cells, vals(S0, A))]))),
                        ('other slots keep their values', Implies(ok, z3.And(*olds_))),
                        ('slots that are new are zero', Implies(grown, z3.And(*zer))),
                        ('nothing changes on failure', Implies(And(Not(ok), a.ne(NULL)), z3.And(*[S.inner(k, b1) == S0.inner(k, b0) for k in kinds]))),
                        ('previous value reported', pr(z3.And(ok, p.ne(NULL)))),
                        ('result argument left alone on failure', Implies(And(Not(ok), p.ne(NULL)), z3.And(*[z3.Select(S.inner(k, p.o), p.f + o) == z3.Select(S0.inner(k, p.o), p.f + o) for k, o in cells])))] \
                    + shapel(S, a, a.ne(NULL))

            def gpost(S0, S, A, r):
                a, i, p = A.da, A.idx, A.pv
                ok = r == 0
                return [('0 or -1', Or(ok, r == -1)),
                        ('succeeds exactly for an index in range of an array of this type', ok == z3.And(a.ne(NULL), p.ne(NULL), ty(S0, a) == code, i < ns(S0, a))),
                        ('value of the slot', Implies(ok, z3.And(*[z3.Select(S.inner(k, p.o), p.f + o) == z3.Select(S0.inner(k, base(S0, a).o), w * i + o) for k, o in cells]))),
                        ('array untouched', Implies(And(ok, a.ne(NULL)), z3.And(*[S.inner(k, base(S0, a).o) == S0.inner(k, base(S0, a).o) for k in {k for k, _ in cells}]))),
                        ('result argument left alone on failure', Implies(And(Not(ok), p.ne(NULL)), z3.And(*[z3.Select(S.inner(k, p.o), p.f + o) == z3.Select(S0.inner(k, p.o), p.f + o) for k, o in cells])))] \
                    + shapel(S, a, a.ne(NULL))

            def gpre(S, A):
                l = [Or(A.da.null(), z3.And(*shape(S, A.da))), out_ok(S, A, A.pv, w)]
                if nm == 'bool':
                    b = S.inner('i8', base(S, A.da).o)
                    l.append(Implies(A.da.ne(NULL), forall(lambda f: z3.And(z3.Select(b, f) >= 0, z3.Select(b, f) <= 1), pats=lambda f: z3.Select(b, f))))
                return l
            ks = tuple({k for k, _ in cells})
            return [Contract('u_array_set_' + nm, spre, spost, lambda S, A: [('cell', 'i64', A[0] + NS), ('cell', 'p', A[0] + BS), ('obj', '*', base(S, A[0]).o), ('obj', ks, pold(A).o), ('heap',)]),
                    Contract('u_array_get_' + nm, gpre, gpost, lambda S, A: [('obj', ks, A.pv.o)])]
        out += mk()

    # pointers
    def rc_ok(S, A):
        return z3.And(S.valid(A.prc, 4), A.prc.o != A.da.o, Or(A.da.null(), A.prc.o != base(S, A.da).o))

    def ppre(S, A):
        return [Or(A.da.null(), z3.And(*shape(S, A.da))), Or(A.prc.null(), rc_ok(S, A))]

    def sp_post(S0, S, A, r):
        a, i = A.da, A.idx
        n0, t = ns(S0, a), ty(S0, a)
        b0, b1 = base(S0, a).o, base(S, a).o
        valid = z3.And(a.ne(NULL), t == 20)
        done = z3.And(valid, i < ns(S, a))      # an index beyond the end stays there exactly on failure
        rc = S.i32(A.prc)
        o = []
        for k in ('po', 'pf'):
            c0, c1 = S0.inner(k, b0), inn(S, k, b1)
            o.append(forall(lambda f: Implies(z3.And(f >= 0, f < 8 * n0, f != 8 * i, f % 8 == 0), z3.Select(c1, f) == z3.Select(c0, f)), pats=lambda f: z3.Select(c1, f)))
        return [('return code', Implies(A.prc.ne(NULL), rc == If(done, I(0), I(-1)))),
                ('refused without a pointer array', Implies(Not(valid), r.null())),
                ('array kept', Implies(a.ne(NULL), z3.And(ty(S, a) == t, Implies(i < n0, ns(S, a) == n0), Or(ns(S, a) == n0, ns(S, a) > i), storage(S0, S, A, ns(S, a) != n0)))),
                sizes(S0, S, a.ne(NULL)),
                ('previous value returned', r.eq(If_ptr(z3.And(done, i < n0), Ptr(z3.Select(S0.inner('po', b0), 8 * i), z3.Select(S0.inner('pf', b0), 8 * i)), NULL))),
                ('slot holds the value', Implies(done, z3.And(z3.Select(S.inner('po', b1), 8 * i) == A.v.o, z3.Select(S.inner('pf', b1), 8 * i) == A.v.f))),
                ('other slots keep their values', Implies(valid, z3.And(*o)))] + shapel(S, a, a.ne(NULL))
    out.append(Contract('u_array_set_ptr', ppre, sp_post, lambda S, A: [('cell', 'i64', A.da + NS), ('cell', 'p', A.da + BS), ('obj', '*', base(S, A.da).o), ('cell', 'i32', A.prc), ('heap',)]))

    def gp_post(S0, S, A, r):
        a, i = A.da, A.idx
        ok = z3.And(a.ne(NULL), ty(S0, a) == 20, i < ns(S0, a))
        b0 = base(S0, a).o
        return [('return code', Implies(A.prc.ne(NULL), S.i32(A.prc) == If(ok, I(0), I(-1)))),
                ('value of the slot', r.eq(If_ptr(ok, Ptr(z3.Select(S0.inner('po', b0), 8 * i), z3.Select(S0.inner('pf', b0), 8 * i)), NULL)))] + shapel(S, a, a.ne(NULL))
    out.append(Contract('u_array_get_ptr', ppre, gp_post, lambda S, A: [('cell', 'i32', A.prc)]))
    return out


def If_ptr(c, a, b):
    return Ptr(If(c, a.o, b.o), If(c, a.f, b.f))
