"""Contracts for srcs/toolbox/list.c: the list is the finite sequence sq[0..count) of items
(ghost sq: position -> item, sp: item -> position), linked both ways, each holding one pointer"""
from lvc.engine import *


def contracts(mod):
    L = mod.di_struct('u_list_s')
    IT = mod.di_struct('u_list_item_s')
    CNT, LSZ = L['count'], L['__size__']
    VAL, ISZ = IT['ptr'], IT['__size__']
    H = L['head']
    FIRST, LAST, NEXT, PREV = H, H + 8, IT['np'], IT['np'] + 8
    GH = (('sq', INNER), ('sp', INNER))

    def cell(S, o, f):
        return Ptr(z3.Select(S.inner('po', o), f), z3.Select(S.inner('pf', o), f))

    def isnull(p):
        return z3.And(p.o == 0, p.f == 0)

    def is_(p, o, f):
        return z3.And(p.o == o, p.f == f)

    def linked(S, l, sq, sp, lo, n, prev0):
        """items lo..n-1 of sq are alive and linked; prev0 is what the first one's back link is"""
        def cond(k):
            return z3.And(k >= lo, k < n)

        def body(k):
            o = z3.Select(sq, k)
            return Implies(cond(k), z3.And(o > S.eng.NG, o != l.o, S.alive(o), S.sz(o) == ISZ, z3.Select(sp, o) == k))

        def nxt(k):
            nx = cell(S, z3.Select(sq, k), I(NEXT))
            return Implies(cond(k), z3.And(nx.f == 0, nx.o == If(k + 1 < n, z3.Select(sq, k + 1), I(0))))

        def prv(k):
            pv = cell(S, z3.Select(sq, k), I(PREV))
            return Implies(cond(k), If(k == lo, is_(pv, prev0.o, prev0.f), is_(pv, z3.Select(sq, k - 1), NEXT)))
        return z3.And(*[forall(f, pats=lambda k: z3.Select(sq, k)) for f in (body, nxt, prv)])

    def ends(S, l, sq, lo, n):
        fi, la = S.ptr(l, FIRST), S.ptr(l, LAST)
        return z3.And(fi.f == 0, fi.o == If(lo < n, z3.Select(sq, lo), I(0)),
                      If(lo < n, is_(la, z3.Select(sq, n - 1), NEXT), is_(la, l.o, FIRST)))

    def shape(S, l):
        return [S.heap(l, LSZ), l.o > S.eng.NG, S.i64(l, CNT) >= 0]

    def wf(S, l, g=None):
        sq, sp = (g or S.g)['sq'], (g or S.g)['sp']
        n = S.i64(l, CNT)
        return shape(S, l) + [ends(S, l, sq, I(0), n), linked(S, l, sq, sp, I(0), n, Ptr(l.o, I(FIRST)))]

    def wfl(S, l):
        return [('list well formed after #%d' % i, f) for i, f in enumerate(wf(S, l))]

    def val(S, sq, k):
        return cell(S, z3.Select(sq, k), I(VAL))

    def item(S0, l, o):
        """o is an item of the list"""
        k = z3.Select(S0.g['sp'], o)
        return z3.And(k >= 0, k < S0.i64(l, CNT), z3.Select(S0.g['sq'], k) == o)

    def outside(S0, S, l):
        """nothing but the list object, its items and new objects is touched"""
        out = []
        for t in ('po', 'pf'):
            out.append(('other objects untouched (%s)' % t, forall(
                lambda o: Implies(z3.And(S0.alive(o), o != l.o, Not(item(S0, l, o))), S.inner(t, o) == S0.inner(t, o)), pats=lambda o: S.inner(t, o))))
        return out

    def same_seq(S0, S, l):
        return [('the sequence is unchanged', z3.And(S.g['sq'] == S0.g['sq'], S.g['sp'] == S0.g['sp']))]

    MEM = lambda S, A: [('mem', ('p',)), ('obj', ('i64',), A.list.o), ('ghost', 'sq'), ('ghost', 'sp'), ('heap',)]

    # ---------------------------------------------------------------- insert
    def ins_post(S0, S, A, r, n=None, l=None):
        l = l or A.list
        p = A.ptr
        c = S0.i64(l, CNT)
        n = A.n if n is None else n
        sq, sq0 = S.g['sq'], S0.g['sq']
        return [('0 or ~0', z3.Or(r == 0, r == -1)),
                ('a position out of range is refused', Implies(n > c, r != 0)),
                ('fails only for lack of memory', Implies(z3.And(n <= c, r != 0), S.g['oom'])),
                ('one more item', S.i64(l, CNT) == c + If(r == 0, I(1), I(0))),
                ('items before the position keep theirs', forall(lambda k: Implies(z3.And(k >= 0, k < If(r == 0, n, c)),
                                                                                  val(S, sq, k).eq(val(S0, sq0, k))), pats=lambda k: z3.Select(sq, k))),
                ('the new item is at the position', Implies(r == 0, val(S, sq, n).eq(p))),
                ('items from the position on move up by one', Implies(r == 0, forall(lambda k: Implies(z3.And(k > n, k <= c), val(S, sq, k).eq(val(S0, sq0, k - 1))),
                                                                                     pats=lambda k: z3.Select(sq, k)))),
                ('items from the position on move up by one (from)', Implies(r == 0, forall(lambda k: Implies(z3.And(k >= n, k < c), z3.Select(sq, k + 1) == z3.Select(sq0, k)),
                                                                                     pats=lambda k: z3.Select(sq0, k)))),
                ('one object is allocated', If(r == 0, z3.And(Not(S0.alive(z3.Select(sq, n))), S.live == z3.Store(S0.live, z3.Select(sq, n), True)), S.live == S0.live)),
                ('object sizes', forall(lambda o: Implies(S0.alive(o), S.sz(o) == S0.sz(o)), pats=lambda o: S.sz(o))),
                ] + outside(S0, S, l) + wfl(S, l)

    def ins_ghost(S0, S, A, r):
        n, c = A.n, S0.i64(A.list, CNT)
        sq0, sp0 = S0.g['sq'], S0.g['sp']
        it = S.eng.new_item(S, S0, A.list, n, sq0, c)
        sq, sp = S.eng.fresh_arr('i64', False), S.eng.fresh_arr('i64', False)
        ok = S.eng.named(S, If(r == 0, I(1), I(0))) == 1
        S.add(Implies(Not(ok), z3.And(sq == sq0, sp == sp0)))
        S.add(Implies(ok, z3.And(
            forall(lambda k: z3.Select(sq, k) == If(k < n, z3.Select(sq0, k), If(k == n, it, z3.Select(sq0, k - 1))), pats=lambda k: z3.Select(sq, k)),
            forall(lambda o: z3.Select(sp, o) == If(o == it, n, If(z3.Select(sp0, o) >= n, z3.Select(sp0, o) + 1, z3.Select(sp0, o))), pats=lambda o: z3.Select(sp, o)))))
        S.g['sq'], S.g['sp'] = sq, sp

    def new_item(S, S0, l, n, sq0, c):
        """the object that is now at position n: what the predecessor's link leads to"""
        pv = z3.Select(sq0, n - 1)
        return S.eng.named(S, If(n == 0, S.ptr(l, FIRST).o, cell(S, pv, I(NEXT)).o))
    Engine.new_item = staticmethod(new_item)

    def pos_inv(SE, S, v, A, cur):
        n, c = A.n, SE.i64(A.list, CNT)
        k = n - v.n
        return [('position', z3.And(v.n >= 0, v.n <= n, k <= c)),
                ('the cursor is at that position', z3.And(cur.f == 0, cur.o == If(k < c, z3.Select(SE.g['sq'], k), I(0))))]

    insert = Contract('u_list_insert', lambda S, A: wf(S, A.list) + [A.n >= 0, S.i64(A.list, CNT) < 2**60], ins_post, MEM, ghosts=GH, ghost=ins_ghost,
                      loops={0: LoopSpec(lambda SE, S, v, A: pos_inv(SE, S, v, A, v.prev), measure=lambda S, v: v.n)})

    add = Contract('u_list_add', lambda S, A: wf(S, A.list) + [S.i64(A.list, CNT) < 2**60], lambda S0, S, A, r: ins_post(S0, S, A, r, n=S0.i64(A.list, CNT)), MEM, ghosts=GH)

    # -------------------------------------------------------------- lookups
    get_n = Contract('u_list_get_n', lambda S, A: wf(S, A.list) + [A.n >= 0],
                     lambda S0, S, A, r: [('the item at the position', Implies(A.n < S0.i64(A.list, CNT), r.eq(val(S0, S0.g['sq'], A.n)))),
                                          ('NULL beyond the end', Implies(A.n >= S0.i64(A.list, CNT), isnull(r)))],
                     lambda S, A: [], ghosts=GH,
                     loops={0: LoopSpec(lambda SE, S, v, A: pos_inv(SE, S, v, A, v.item), measure=lambda S, v: v.n)})
    count = Contract('u_list_count', lambda S, A: wf(S, A.list), lambda S0, S, A, r: [('the number of items', r == S0.i64(A.list, CNT))], lambda S, A: [], ghosts=GH)

    def it_ok(S, A):
        return [Or(isnull(A.it), z3.And(S.valid(A.it, 8), A.it.o != A.list.o, Not(item(S, A.list, A.it.o))))]

    def at(S, sq, k, n):
        """the iterator standing before position k"""
        return lambda p: z3.And(p.f == 0, p.o == If(k < n, z3.Select(sq, k), I(0)))

    def first_post(S0, S, A, r):
        n, sq = S0.i64(A.list, CNT), S0.g['sq']
        return [('the first item or NULL', If(n > 0, r.eq(val(S0, sq, I(0))), isnull(r))),
                ('the iterator stands before the second', Implies(Not(isnull(A.it)), at(S, sq, I(1), n)(S.ptr(A.it))))] + wfl(S, A.list) + same_seq(S0, S, A.list)
    first = Contract('u_list_first', lambda S, A: wf(S, A.list) + it_ok(S, A), first_post, lambda S, A: [('cell', 'p', A.it)], ghosts=GH)

    def next_post(S0, S, A, r):
        n, sq, k = S0.i64(A.list, CNT), S0.g['sq'], S0.g['k']
        return [('the item at the iterator or NULL', If(k < n, r.eq(val(S0, sq, k)), isnull(r))),
                ('the iterator moves on by one', at(S, sq, k + 1, n)(S.ptr(A.it)))] + wfl(S, A.list) + same_seq(S0, S, A.list)
    next_ = Contract('u_list_next', lambda S, A: wf(S, A.list) + it_ok(S, A) + [Not(isnull(A.it)), S.g['k'] >= 0, at(S, S.g['sq'], S.g['k'], S.i64(A.list, CNT))(S.ptr(A.it))],
                     next_post, lambda S, A: [('cell', 'p', A.it)], ghosts=GH + (('k', IntS),))

    # -------------------------------------------------------------- deletion
    def removed(S0, S, l, k, n):
        """position k is gone, its object freed"""
        sq, sq0 = S.g['sq'], S0.g['sq']
        it = z3.Select(sq0, k)
        return [('items before the position keep theirs', forall(lambda j: Implies(z3.And(j >= 0, j < k), z3.And(z3.Select(sq, j) == z3.Select(sq0, j), val(S, sq, j).eq(val(S0, sq0, j)))), pats=lambda j: z3.Select(sq, j))),
                ('items after it move down by one', forall(lambda j: Implies(z3.And(j >= k, j < n - 1), z3.And(z3.Select(sq, j) == z3.Select(sq0, j + 1), val(S, sq, j).eq(val(S0, sq0, j + 1)))), pats=lambda j: z3.Select(sq, j))),
                ('exactly the removed item is released', S.live == z3.Store(S0.live, it, False))]

    def rem_ghost(S, S0, k, ok):
        sq0, sp0 = S0.g['sq'], S0.g['sp']
        sq, sp = S.eng.fresh_arr('i64', False), S.eng.fresh_arr('i64', False)
        S.add(Implies(Not(ok), z3.And(sq == sq0, sp == sp0)))
        S.add(Implies(ok, z3.And(
            forall(lambda j: z3.Select(sq, j) == If(j < k, z3.Select(sq0, j), z3.Select(sq0, j + 1)), pats=lambda j: z3.Select(sq, j)),
            forall(lambda o: z3.Select(sp, o) == If(z3.Select(sp0, o) > k, z3.Select(sp0, o) - 1, If(z3.Select(sp0, o) == k, I(-1), z3.Select(sp0, o))), pats=lambda o: z3.Select(sp, o)),
            # the links of the neighbours are stated in terms of the old positions
            forall(lambda j: Implies(j >= 0, z3.Or(z3.Select(sq, j) == z3.Select(sq0, j), z3.Select(sq, j) == z3.Select(sq0, j + 1))), pats=lambda j: z3.Select(sq, j)))))
        S.g['sq'], S.g['sp'] = sq, sp

    def deln_post(S0, S, A, r):
        l = A.list
        n = S0.i64(l, CNT)
        bad = A.n >= n
        return [('refused exactly for positions out of range', (r != 0) == bad), ('0 or ~0', z3.Or(r == 0, r == -1)),
                ('refused: unchanged', Implies(bad, z3.And(S.live == S0.live, S.i64(l, CNT) == n, S.g['sq'] == S0.g['sq']))),
                ('one item less', Implies(r == 0, S.i64(l, CNT) == n - 1)),
                ('the removed pointer is handed back', Implies(z3.And(r == 0, Not(isnull(A.pptr))), S.ptr(A.pptr).eq(val(S0, S0.g['sq'], A.n)))),
                ] + [(a, Implies(r == 0, f)) for a, f in removed(S0, S, l, A.n, n)] + outside_but(S0, S, l, A.pptr) + wfl(S, l)

    def outside_but(S0, S, l, p):
        out = []
        for t in ('po', 'pf'):
            out.append(('other objects untouched (%s)' % t, forall(
                lambda o: Implies(z3.And(S0.alive(o), o != l.o, o != p.o, Not(item(S0, l, o))), S.inner(t, o) == S0.inner(t, o)), pats=lambda o: S.inner(t, o))))
        return out

    del_n = Contract('u_list_del_n', lambda S, A: wf(S, A.list) + [A.n >= 0, Or(isnull(A.pptr), z3.And(S.valid(A.pptr, 8), A.pptr.o != A.list.o, Not(item(S, A.list, A.pptr.o))))],
                     deln_post, MEM, ghosts=GH, ghost=lambda S0, S, A, r: rem_ghost(S, S0, A.n, S.eng.named(S, If(r == 0, I(1), I(0))) == 1),
                     loops={0: LoopSpec(lambda SE, S, v, A: pos_inv(SE, S, v, A, v.item), measure=lambda S, v: v.n)})

    def del_post(S0, S, A, r):
        l, p = A.list, A[1]
        n, k = S0.i64(l, CNT), S.g['k']
        sq0 = S0.g['sq']
        return [('0 or ~0', z3.Or(r == 0, r == -1)),
                ('the first item holding the pointer', Implies(r == 0, z3.And(k >= 0, k < n, val(S0, sq0, k).eq(p)))),
                ('no earlier one', forall(lambda j: Implies(z3.And(j >= 0, j < If(r == 0, k, n)), Not(val(S0, sq0, j).eq(p))), pats=lambda j: z3.Select(sq0, j))),
                ('not found: unchanged', Implies(r != 0, z3.And(S.live == S0.live, S.i64(l, CNT) == n, S.g['sq'] == sq0))),
                ('one item less', Implies(r == 0, S.i64(l, CNT) == n - 1))] + [(a, Implies(r == 0, f)) for a, f in removed(S0, S, l, k, n)] + outside(S0, S, l) + wfl(S, l)

    def kset(S, v, A):
        S.g['k'] = I(0)

    def kinc(SH, S, vh, v, A):
        S.g['k'] = SH.g['k'] + 1

    del_ = Contract('u_list_del', lambda S, A: wf(S, A.list), del_post, lambda S, A: MEM(S, A) + [('ghost', 'k')], ghosts=GH + (('k', IntS),),
                    ghost=lambda S0, S, A, r: rem_ghost(S, S0, S.g['k'], S.eng.named(S, If(r == 0, I(1), I(0))) == 1),
                    loops={0: LoopSpec(lambda SE, S, v, A: [
                        ('cursor', z3.And(S.g['k'] >= 0, S.g['k'] <= SE.i64(A.list, CNT), v.item.f == 0,
                                          v.item.o == If(S.g['k'] < SE.i64(A.list, CNT), z3.Select(SE.g['sq'], S.g['k']), I(0)))),
                        ('not found so far', forall(lambda j: Implies(z3.And(j >= 0, j < S.g['k']), Not(val(SE, SE.g['sq'], j).eq(A[1]))), pats=lambda j: z3.Select(SE.g['sq'], j)))],
                        measure=lambda S, v: S.i64(v.list, CNT) - S.g['k'], ghost=kset, step=kinc)})

    # -------------------------------------------------------------- clear, free, create
    def gone(S0, S, l, k, extra=None):
        """exactly the first k items (and extra) are released"""
        def dead(o):
            j = z3.Select(S0.g['sp'], o)
            c = z3.And(j >= 0, j < k, z3.Select(S0.g['sq'], j) == o)
            return z3.Or(c, o == extra) if extra is not None else c
        return forall(lambda o: S.alive(o) == z3.And(S0.alive(o), Not(dead(o))), pats=lambda o: S.alive(o))

    def clear_inv(SE, S, v, A):
        l = A.list
        n, k = SE.i64(l, CNT), S.g['k']
        return [('range', z3.And(k >= 0, k <= n)), ('args', v.list.eq(l)), ('count', S.i64(l, CNT) == n - k),
                ('list alive', z3.And(S.alive(l.o))),
                ('ends', ends(S, l, SE.g['sq'], k, n)), ('rest linked', linked(S, l, SE.g['sq'], SE.g['sp'], k, n, Ptr(l.o, I(FIRST)))),
                ('released so far', gone(SE, S, l, k))] + outside(SE, S, l)

    def clear_post(S0, S, A, r):
        l = A.list
        return [('0', r == 0), ('empty', S.i64(l, CNT) == 0), ('exactly the items are released', gone(S0, S, l, S0.i64(l, CNT)))] + outside(S0, S, l) + wfl(S, l)
    clear = Contract('u_list_clear', lambda S, A: wf(S, A.list), clear_post, lambda S, A: MEM(S, A) + [('ghost', 'k')], ghosts=GH + (('k', IntS),),
                     loops={0: LoopSpec(clear_inv, measure=lambda S, v: S.i64(v.list, CNT), ghost=kset, step=kinc)})
    free = Contract('u_list_free', lambda S, A: wf(S, A.list), lambda S0, S, A, r: [('list and items are released, nothing else', gone(S0, S, A.list, S0.i64(A.list, CNT), A.list.o))] + outside(S0, S, A.list),
                    lambda S, A: MEM(S, A) + [('ghost', 'k')], ghosts=GH + (('k', IntS),))

    def create_post(S0, S, A, r):
        l = S.ptr(A.plist)
        return [('0 or ~0', z3.Or(r == 0, r == -1)), ('failure allocates nothing', Implies(r != 0, S.live == S0.live)), ('fails only for lack of memory', Implies(r != 0, S.g['oom'])),
                ('a new object', Implies(r == 0, z3.And(Not(S0.alive(l.o)), S.live == z3.Store(S0.live, l.o, True)))),
                ('object sizes', forall(lambda o: Implies(S0.alive(o), S.sz(o) == S0.sz(o)), pats=lambda o: S.sz(o))),
                ('empty', Implies(r == 0, S.i64(l, CNT) == 0))] + [(a, Implies(r == 0, f)) for a, f in wfl(S, l)] + \
               [('other objects untouched ' + t, forall(lambda o: Implies(z3.And(S0.alive(o), o != A.plist.o), S.inner(t, o) == S0.inner(t, o)), pats=lambda o: S.inner(t, o))) for t in ('po', 'pf')]
    create = Contract('u_list_create', lambda S, A: [S.valid(A.plist, 8)], create_post,
                      lambda S, A: [('cell', 'p', A.plist), ('heap',), ('mem', ('p', 'i64'))], ghosts=GH)
    return [create, free, clear, add, insert, del_, del_n, count, get_n, first, next_]
