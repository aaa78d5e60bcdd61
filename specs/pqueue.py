"""Contracts for srcs/toolbox/pqueue.c"""
from lvc.engine import *

NMAX = 2**59


def contracts(mod):
    F = mod.di_struct('u_pq_s')
    IT = mod.di_struct('u_pq_item_s')
    SZ = IT['__size__']
    KO, VO = IT['key'], IT['val']
    NE, NI, Q = F['nelems'], F['nitems'], F['q']

    def keyf(S, q, i):
        return z3.Select(S.inner('d', q.o), z3.simplify(iv(SZ * i + KO)))

    def vo(S, q, i):
        return z3.Select(S.inner('po', q.o), z3.simplify(iv(SZ * i + VO)))

    def vf(S, q, i):
        return z3.Select(S.inner('pf', q.o), z3.simplify(iv(SZ * i + VO)))

    def heap_order(S, q, n, skip=None):
        inn = S.inner('d', q.o)

        def body(f):
            i = (f - KO) / SZ
            c = z3.And((f - KO) % SZ == 0, i >= 2, i <= n)
            if skip is not None:
                c = z3.And(c, skip(i))
            return Implies(c, z3.Select(inn, SZ * (i / 2) + KO) >= z3.Select(inn, f))
        return forall(body, pats=lambda f: z3.Select(inn, f))

    def grand(S, q, n, k):
        """children of k are below k's parent"""
        inn = S.inner('d', q.o)

        def body(f):
            i = (f - KO) / SZ
            c = z3.And((f - KO) % SZ == 0, i >= 2, i <= n, i / 2 == k, k >= 2)
            return Implies(c, z3.Select(inn, SZ * (k / 2) + KO) >= z3.Select(inn, f))
        return forall(body, pats=lambda f: z3.Select(inn, f))

    def perm(p, q, n):
        return z3.And(
            forall(lambda i: Implies(z3.And(i >= 1, i <= n), z3.And(p[i] >= 1, p[i] <= n, q[p[i]] == i)),
                   pats=lambda i: p[i]),
            forall(lambda i: Implies(z3.And(i >= 1, i <= n), z3.And(q[i] >= 1, q[i] <= n, p[q[i]] == i)),
                   pats=lambda i: q[i]))

    def moved(S0, S, q, q0, n, p):
        """item i of the new array is item p[i] of the old one"""
        return forall(lambda i: Implies(z3.And(i >= 1, i <= n),
                                        z3.And(keyf(S, q, i) == keyf(S0, q0, p[i]),
                                               vo(S, q, i) == vo(S0, q0, p[i]), vf(S, q, i) == vf(S0, q0, p[i]))),
                      pats=lambda i: p[i])

    GH = (('p', INNER), ('q', INNER))

    def ident(S, v=None, A=None):
        p = S.eng.fresh_arr('i64', False)
        S.add(forall(lambda i: p[i] == i, pats=lambda i: p[i]))
        S.g['p'] = p
        S.g['q'] = p

    def swap_ghost(S, a, b):
        p, q = S.g['p'], S.g['q']
        S.g['p'] = z3.Store(z3.Store(p, a, p[b]), b, p[a])
        S.g['q'] = z3.Store(z3.Store(q, p[a], b), p[b], a)

    # ------------------------------------------------------------ bubble_up
    def bu_inv(SE, S, v, A):
        k = v.k
        return [('range', z3.And(k >= 1, k <= A.k)),
                ('pi', v.pi.eq(A.pi)),
                ('heap', heap_order(S, A.pi, A.k, lambda i: i != k)),
                ('grand', grand(S, A.pi, A.k, k)),
                ('bijection', perm(S.g['p'], S.g['q'], A.k)),
                ('items permuted', moved(SE, S, A.pi, A.pi, A.k, S.g['p']))]

    bubble_up = Contract('bubble_up',
        pre=lambda S, A: [A.pi.f == 0, A.k >= 1, A.k < NMAX, S.alive(A.pi.o), A.pi.o > S.eng.NG,
                          S.sz(A.pi.o) >= SZ * (A.k + 1),
                          heap_order(S, A.pi, A.k, lambda i: i != A.k)],
        post=lambda S0, S, A, r: [('heap order restored', heap_order(S, A.pi, A.k)),
                                  ('bijection', perm(S.g['p'], S.g['q'], A.k)),
                                  ('nothing lost or duplicated', moved(S0, S, A.pi, A.pi, A.k, S.g['p'])),
                                  ('slots beyond k untouched', beyond(S0, S, A.pi, A.k))],
        mods=lambda S, A: [('obj', ('d', 'p'), A.pi.o), ('ghost', 'p'), ('ghost', 'q')],
        ghosts=GH,
        loops={0: LoopSpec(lambda SE, S, v, A: bu_inv(SE, S, v, A) +
                           [('beyond', beyond(SE, S, A.pi, A.k))],
                           measure=lambda S, v: v.k, ghost=ident,
                           step=lambda SH, S, vh, v, A: swap_ghost(S, vh.k, v.k))})

    def beyond(S0, S, q, n):
        out = []
        for t, off in (('d', KO), ('po', VO), ('pf', VO)):
            a, b = S0.inner(t, q.o), S.inner(t, q.o)
            out.append(forall(lambda f: Implies(z3.Or(f >= SZ * (n + 1), f < SZ), z3.Select(b, f) == z3.Select(a, f)),
                              pats=lambda f: z3.Select(b, f)))
        return z3.And(*out)

    # ---------------------------------------------------------- bubble_down
    def grand_dn(S, q, n, k):
        return grand(S, q, n, k)

    bubble_down = Contract('bubble_down',
        pre=lambda S, A: [A.pi.f == 0, A.k == 1, A.n >= 0, A.n < NMAX, S.alive(A.pi.o), A.pi.o > S.eng.NG,
                          S.sz(A.pi.o) >= SZ * (A.n + 1), S.sz(A.pi.o) >= 2 * SZ,
                          heap_order(S, A.pi, A.n, lambda i: i / 2 != 1)],
        post=lambda S0, S, A, r: [('heap order restored', heap_order(S, A.pi, A.n)),
                                  ('bijection', perm(S.g['p'], S.g['q'], A.n)),
                                  ('nothing lost or duplicated', moved(S0, S, A.pi, A.pi, A.n, S.g['p'])),
                                  ('slots beyond n untouched', beyond(S0, S, A.pi, A.n))],
        mods=lambda S, A: [('obj', ('d', 'p'), A.pi.o), ('ghost', 'p'), ('ghost', 'q')],
        ghosts=GH,
        loops={0: LoopSpec(lambda SE, S, v, A:
                           [('range', z3.And(v.k >= 1, z3.Or(v.k == 1, v.k <= A.n))),
                            ('args', z3.And(v.pi.eq(A.pi), v.n == A.n)),
                            ('heap', heap_order(S, A.pi, A.n, lambda i: i / 2 != v.k)),
                            ('grand', grand(S, A.pi, A.n, v.k)),
                            ('bijection', perm(S.g['p'], S.g['q'], A.n)),
                            ('items permuted', moved(SE, S, A.pi, A.pi, A.n, S.g['p'])),
                            ('beyond', beyond(SE, S, A.pi, A.n))],
                           measure=lambda S, v: NMAX * 2 - v.k, ghost=ident,
                           step=lambda SH, S, vh, v, A: swap_ghost(S, vh.k, v.k))})

    # ------------------------------------------------------ the public type
    def shape(S, pq):
        q = S.ptr(pq, Q)
        n, m = S.i64(pq, NE), S.i64(pq, NI)
        return [S.heap(pq, F['__size__']), q.f == 0, q.o > S.eng.NG, pq.o > S.eng.NG, q.o != pq.o, S.alive(q.o),
                m >= 2, m < NMAX, n >= 0, n <= m, S.sz(q.o) == SZ * (m + 1)]

    def wf(S, pq):
        return shape(S, pq) + [heap_order(S, S.ptr(pq, Q), S.i64(pq, NE))]

    def wfl(S, pq):
        return [('queue well formed after: #%d' % i, f) for i, f in enumerate(wf(S, pq))]

    def n_of(S, A):
        return S.i64(A.pq, NE)

    def push_post(S0, S, A, r):
        q0, q = S0.ptr(A.pq, Q), S.ptr(A.pq, Q)
        n, m = S0.i64(A.pq, NE), S0.i64(A.pq, NI)
        P, R = S.g['p'], S.g['q']
        full = n == m
        out = [('-2 exactly when the queue is full', (r == -2) == full),
               ('otherwise success', z3.Or(r == -2, r == 0)),
               ('capacity constant', S.i64(A.pq, NI) == m),
               ('one more element iff stored', S.i64(A.pq, NE) == If(full, n, n + 1)),
               ('new content is old content plus (key,val): bijection', Implies(r == 0, perm(P, R, n + 1))),
               ('new content is old content plus (key,val): items', Implies(r == 0, forall(
                   lambda i: Implies(z3.And(i >= 1, i <= n + 1), z3.If(
                       P[i] == n + 1,
                       z3.And(keyf(S, q, i) == A.key, vo(S, q, i) == A.val.o, vf(S, q, i) == A.val.f),
                       z3.And(keyf(S, q, i) == keyf(S0, q0, P[i]), vo(S, q, i) == vo(S0, q0, P[i]),
                              vf(S, q, i) == vf(S0, q0, P[i])))),
                   pats=lambda i: P[i]))),
               ('a refused push leaves the content alone', Implies(r == -2, z3.And(
                   *[S.inner(t, q0.o) == S0.inner(t, q0.o) for t in ('d', 'po', 'pf')])))]
        return out + wfl(S, A.pq)

    qobj = lambda S, A: S.ptr(A.pq, Q).o
    push = Contract('u_pq_push', pre=lambda S, A: wf(S, A.pq), post=push_post, ghosts=GH,
                    mods=lambda S, A: [('obj', '*', qobj(S, A)), ('cell', 'i64', A.pq + NE),
                                       ('ghost', 'p'), ('ghost', 'q')])

    def top_lemma(S, A):
        q = S.ptr(A.pq, Q)
        induct(S, 'the root of a heap is its maximum', 1, S.i64(A.pq, NE) + 1,
               lambda i: keyf(S, q, 1) >= keyf(S, q, i), pats=lambda i: keyf(S, q, i))

    def del_ghost(S0, S, A, r):
        # compose: swap(1,n) then bubble_down's permutation of [1,n-1]
        n = S0.i64(A.pq, NE)
        P, R = S.g['p'], S.g['q']
        P2, R2 = S.eng.fresh_arr('i64', False), S.eng.fresh_arr('i64', False)
        S.add(forall(lambda i: P2[i] == If(i == n, I(1), If(P[i] == 1, n, P[i])), pats=lambda i: P2[i]))
        S.add(forall(lambda i: R2[i] == If(i == 1, n, If(i == n, R[1], R[i])), pats=lambda i: R2[i]))
        S.g['p'], S.g['q'] = P2, R2

    def del_post(S0, S, A, r):
        q0, q = S0.ptr(A.pq, Q), S.ptr(A.pq, Q)
        n = S0.i64(A.pq, NE)
        P, R = S.g['p'], S.g['q']
        ne = n > 0
        haskey = Not(A.pkey.null())
        out = [('empty queue: NULL and nothing changes', Implies(Not(ne), z3.And(r.null(), S.i64(A.pq, NE) == 0))),
               ('one element fewer', S.i64(A.pq, NE) == If(ne, n - 1, n)),
               ('capacity constant', S.i64(A.pq, NI) == S0.i64(A.pq, NI)),
               ('evicted item is one of the old items (bijection)', Implies(ne, perm(P, R, n))),
               ('the rest is the rest', Implies(ne, forall(
                   lambda i: Implies(z3.And(i >= 1, i <= n - 1),
                                     z3.And(keyf(S, q, i) == keyf(S0, q0, P[i]),
                                            vo(S, q, i) == vo(S0, q0, P[i]), vf(S, q, i) == vf(S0, q0, P[i]))),
                   pats=lambda i: P[i]))),
               ('returned value belongs to the evicted item',
                Implies(ne, z3.And(r.o == vo(S0, q0, P[n]), r.f == vf(S0, q0, P[n])))),
               ('returned key belongs to the evicted item',
                Implies(z3.And(ne, haskey), S.dbl(A.pkey) == keyf(S0, q0, P[n]))),
               ('evicted key is a maximum', Implies(ne, forall(
                   lambda i: Implies(z3.And(i >= 1, i <= n), keyf(S0, q0, P[n]) >= keyf(S0, q0, i)),
                   pats=lambda i: keyf(S0, q0, i))))]
        return out + wfl(S, A.pq)

    def keyptr(S, A):
        q = S.ptr(A.pq, Q)
        return Or(A.pkey.null(), z3.And(S.valid(A.pkey, 8), A.pkey.o != q.o, A.pkey.o != A.pq.o))

    delmax = Contract('u_pq_delmax', pre=lambda S, A: wf(S, A.pq) + [keyptr(S, A)], post=del_post, ghosts=GH,
                      entry=top_lemma, ghost=del_ghost,
                      mods=lambda S, A: [('obj', ('d', 'p'), qobj(S, A)), ('cell', 'i64', A.pq + NE),
                                         ('cell', 'd', A.pkey), ('ghost', 'p'), ('ghost', 'q')])

    def peek_post(S0, S, A, r):
        q = S0.ptr(A.pq, Q)
        n = S0.i64(A.pq, NE)
        return [('value of the top item', r.eq(Ptr(vo(S0, q, 1), vf(S0, q, 1)))),
                ('key of the top item', Implies(Not(A.pkey.null()), S.dbl(A.pkey) == keyf(S0, q, 1))),
                ('top key is a maximum', forall(
                    lambda i: Implies(z3.And(i >= 1, i <= n), keyf(S0, q, 1) >= keyf(S0, q, i)),
                    pats=lambda i: keyf(S0, q, i)))] + wfl(S, A.pq)

    peek = Contract('u_pq_peekmax', pre=lambda S, A: wf(S, A.pq) + [keyptr(S, A)], post=peek_post,
                    entry=top_lemma, mods=lambda S, A: [('cell', 'd', A.pkey)])
    empty = Contract('u_pq_empty', pre=lambda S, A: wf(S, A.pq),
                     post=lambda S0, S, A, r: [('non-zero iff no element', (r != 0) == (n_of(S0, A) == 0))],
                     mods=lambda S, A: [])
    full = Contract('u_pq_full', pre=lambda S, A: wf(S, A.pq),
                    post=lambda S0, S, A, r: [('non-zero iff no room', (r != 0) == (n_of(S0, A) == S0.i64(A.pq, NI)))],
                    mods=lambda S, A: [])

    def create_post(S0, S, A, r):
        pq = S.ptr(A.ppq)
        return [('0 or ~0', Or(r == 0, r == -1)), ('too few slots refused', Implies(A.nitems < 2, r == -1)), ('fails only for lack of memory', Implies(z3.And(r != 0, A.nitems >= 2, A.nitems < 2**58, Not(A.ppq.null())), S.g['oom'])),
                ('empty queue of the requested capacity', Implies(r == 0, z3.And(
                    S.i64(pq, NE) == 0, S.i64(pq, NI) == A.nitems, *shape(S, pq)))),
                ('heap order', Implies(r == 0, heap_order(S, pq, I(0)))),
                ('a failed create leaks nothing', Implies(r != 0, S.live == S0.live)),
                ('objects that existed are untouched', Implies(r == 0, z3.And(
                    Not(S0.alive(pq.o)), Not(S0.alive(S.ptr(pq, Q).o)))))]
    create = Contract('u_pq_create',
                      pre=lambda S, A: [Or(A.ppq.null(), z3.And(S.valid(A.ppq, 8), A.ppq.o > S.eng.NG))],
                      post=create_post, mods=lambda S, A: [('cell', 'p', A.ppq), ('heap',)])
    free = Contract('u_pq_free',
                    pre=lambda S, A: [Or(A.pq.null(), z3.And(*shape(S, A.pq)),
                                         z3.And(S.heap(A.pq, F['__size__']), A.pq.o > S.eng.NG, S.ptr(A.pq, Q).null()))],
                    post=lambda S0, S, A, r: [
                        ('both blocks are released, nothing else', Implies(Not(A.pq.null()), S.live == z3.Store(
                            If(S0.ptr(A.pq, Q).null(), S0.live, z3.Store(S0.live, S0.ptr(A.pq, Q).o, False)),
                            A.pq.o, False))),
                        ('NULL is a no-op', Implies(A.pq.null(), S.live == S0.live))],
                    mods=lambda S, A: [('heap',)])
    return [bubble_up, bubble_down, push, delmax, peek, empty, full, create, free]
