"""Contracts for srcs/toolbox/bst.c.

A tree holds the nodes o with own[o] = 1, each at a position pos[o] in (0,1) (ghost, real numbers);
C[x] counts the nodes at positions <= x.  The subtree whose top is o has the nodes between lo[o] and
hi[o].  RK(key) is the place of a key in the order the comparison function induces.  Functions that
work on a subtree get its bounds in the ghosts L and H, as an empty subtree has no node to ask."""
from lvc.engine import *
from lvc import libc
from lvc.ir import Unsupported

R = z3.RealSort()
REALA = z3.ArraySort(IntS, R)
CNT = z3.ArraySort(R, IntS)
RK = z3.Function('RK', IntS, IntS, IntS)
STRING, OPAQUE, PTRT = 0, 1, 2
LEFT, RIGHT = 0, 1
F = {}
B = {}
sel = z3.Select


def init(mod):
    F.update(mod.di_struct('u_bst_node_s'))
    B.update(mod.di_struct('u_bst_s'))


def cell(S, o, f):
    return Ptr(sel(S.inner('po', o), f), sel(S.inner('pf', o), f))


own = lambda S, o: sel(S.g['own'], o)
pos = lambda S, o: sel(S.g['pos'], o)
lo = lambda S, o: sel(S.g['lo'], o)
hi = lambda S, o: sel(S.g['hi'], o)
kv = lambda S, o: sel(S.g['kv'], o)
C = lambda S, x: sel(S.g['C'], x)
left = lambda S, o: cell(S, o, F['left'])
right = lambda S, o: cell(S, o, F['right'])
key = lambda S, o: cell(S, o, F['key'])
val = lambda S, o: cell(S, o, F['val'])
nelem = lambda S, o: sel(S.inner('i64', o), F['nelem'])
rank = lambda S, o: RK(key(S, o).o, key(S, o).f)
size = lambda S, p: If(p.null(), I(0), nelem(S, p.o))
field = lambda S, b, f: cell(S, b, B[f])
enum = lambda S, b, f: sel(S.inner('i32', b), B[f])
cmpf = lambda S, b: cell(S, b, B['cmp'])
GH = (('own', INNER), ('pos', REALA), ('lo', REALA), ('hi', REALA), ('C', CNT), ('kv', INNER), ('L', R), ('H', R), ('D', IntS), ('vis', IntS))


def inn(S, L=None, H=None):
    return lambda o: z3.And(own(S, o) == 1, *([] if L is None else [pos(S, o) > L, pos(S, o) < H]))


def each(S, f, L=None, H=None, at=None):
    i = inn(S, L, H)
    return forall(lambda o: Implies(i(o), f(o)), pats=(lambda o: at(S, o).o) if at else (lambda o: own(S, o)))


def pairs(S, f, L=None, H=None):
    i = inn(S, L, H)
    return forall(lambda p, q: Implies(z3.And(i(p), i(q)), f(p, q)), n=2, pats=lambda p, q: z3.MultiPattern(own(S, p), own(S, q)))


def all_(S):
    """whatever the shape of the tree"""
    return [('nodes', each(S, lambda o: z3.And(o > S.eng.NG, S.alive(o), S.sz(o) == F['__size__'], kv(S, o) == 0, pos(S, o) > 0, pos(S, o) < 1))),
            ('one node per position', pairs(S, lambda p, q: Implies(pos(S, p) == pos(S, q), p == q))),
            ('counted', pairs(S, lambda p, q: Implies(pos(S, p) < pos(S, q), C(S, pos(S, p)) < C(S, pos(S, q)))))]


def ordered(S):
    return ('in key order', pairs(S, lambda p, q: Implies(pos(S, p) < pos(S, q), rank(S, p) <= rank(S, q))))


def part(S, L, H):
    """the shape between L and H"""
    c = lambda x: C(S, x)
    l, r = (lambda o: left(S, o)), (lambda o: right(S, o))
    return [('bounds and counters', each(S, lambda o: z3.And(L <= lo(S, o), lo(S, o) < pos(S, o), pos(S, o) < hi(S, o), hi(S, o) <= H, nelem(S, o) == c(hi(S, o)) - c(lo(S, o)) - 1, nelem(S, o) < 2**64,
                                                             c(lo(S, o)) < c(pos(S, o)), c(pos(S, o)) < c(hi(S, o)), c(L) < c(pos(S, o)), c(pos(S, o)) < c(H)), L, H)),
            ('left children', each(S, lambda o: z3.And(l(o).f == 0, If(l(o).o == 0, c(pos(S, o)) == c(lo(S, o)) + 1, z3.And(own(S, l(o).o) == 1, lo(S, l(o).o) == lo(S, o), hi(S, l(o).o) == pos(S, o), pos(S, l(o).o) > lo(S, o), pos(S, l(o).o) < pos(S, o)))), L, H, left)),
            ('right children', each(S, lambda o: z3.And(r(o).f == 0, If(r(o).o == 0, c(hi(S, o)) == c(pos(S, o)) + 1, z3.And(own(S, r(o).o) == 1, lo(S, r(o).o) == pos(S, o), hi(S, r(o).o) == hi(S, o), pos(S, r(o).o) > pos(S, o), pos(S, r(o).o) < hi(S, o)))), L, H, right)),
            ('nested', pairs(S, lambda p, q: z3.And(Implies(z3.And(lo(S, p) < pos(S, q), pos(S, q) < pos(S, p)), z3.And(lo(S, q) >= lo(S, p), hi(S, q) <= pos(S, p))),
                                                    Implies(z3.And(pos(S, p) < pos(S, q), pos(S, q) < hi(S, p)), z3.And(lo(S, q) >= pos(S, p), hi(S, q) <= hi(S, p)))), L, H))]


def top(S, p, L, H):
    return [('the subtree', z3.And(p.f == 0, If(p.o == 0, Or(L >= H, C(S, H) == C(S, L) + 1), z3.And(own(S, p.o) == 1, lo(S, p.o) == L, hi(S, p.o) == H, pos(S, p.o) > L, pos(S, p.o) < H))))]


def kept(S0, S, *names):
    return ('unchanged: ' + ', '.join(names), z3.And(*[S.g[n] == S0.g[n] for n in names]))


def frame(S0, S, L, H, *new, kinds=('po', 'pf', 'i64')):
    """what is not of the subtree stays as it is"""
    i = inn(S0, L, H)
    out = lambda o: z3.And(Not(i(o)), *[o != n for n in new])
    return [('other objects keep their content (%s)' % k, forall(lambda o: Implies(out(o), S.inner(k, o) == S0.inner(k, o)), pats=lambda o: S.inner(k, o))) for k in kinds] + \
        [('other nodes keep their bounds', forall(lambda o: Implies(z3.And(own(S0, o) == 1, out(o)), z3.And(lo(S, o) == lo(S0, o), hi(S, o) == hi(S0, o))), pats=lambda o: own(S0, o)))]


def pairs_kept(S0, S, *new):
    return ('keys and values stay', forall(lambda o: Implies(Or(own(S0, o) == 1, *[o == n for n in new]), z3.And(key(S, o).eq(key(S0, o)), val(S, o).eq(val(S0, o)))), pats=lambda o: S.inner('po', o)))


def sizes(S0, S):
    return ('sizes of what was allocated', forall(lambda k: Implies(z3.And(S0.alive(k), S.alive(k)), S.sz(k) == S0.sz(k)), pats=lambda k: sel(S.size, k)))


def bst_ok(S, b):
    return [('the tree object', z3.And(b.f == 0, b.o > S.eng.NG, S.alive(b.o), S.sz(b.o) == B['__size__'], own(S, b.o) != 1, kv(S, b.o) == 0)), ('its comparison function', Not(cmpf(S, b.o).null())),
            ('copies are released', z3.And(*[z3.And(enum(S, b.o, k + 'type') >= 0, enum(S, b.o, k + 'type') <= 2, Implies(enum(S, b.o, k + 'type') != PTRT, Not(field(S, b.o, k + 'free').null()))) for k in ('key', 'val')]))]


def goes(S, b, o):
    """are key and value of node o released with it?"""
    return z3.And(Not(field(S, b, 'keyfree').null()), Not(key(S, o).null())), z3.And(Not(field(S, b, 'valfree').null()), Not(val(S, o).null()))


def owned(S, b):
    """key and value blocks belong to one node each if the tree releases them"""
    blk = lambda p, o: z3.And(p.f == 0, p.o > S.eng.NG, S.alive(p.o), kv(S, p.o) == o)
    k_, v_ = (lambda o: goes(S, b, o)[0]), (lambda o: goes(S, b, o)[1])
    return [('nodes own their keys and values', each(S, lambda o: z3.And(Implies(k_(o), blk(key(S, o), o)), Implies(v_(o), blk(val(S, o), o)), Implies(z3.And(k_(o), v_(o)), key(S, o).o != val(S, o).o)))),
            ('blocks that are owned exist', forall(lambda k: Implies(kv(S, k) != 0, z3.And(S.alive(k), own(S, kv(S, k)) == 1, Or(z3.And(k_(kv(S, k)), key(S, kv(S, k)).o == k), z3.And(v_(kv(S, k)), val(S, kv(S, k)).o == k)))), pats=lambda k: kv(S, k)))]


def tidy(S):
    for k in list(S.M):
        S.M[k] = named_map(S, k)
    for g in list(S.g):
        if g not in ('L', 'H') and has_ite(S.g[g]):
            S.g[g] = S.eng.named_g(S, S.g[g])
    if has_ite(S.live):
        S.live = S.eng.named_g(S, S.live)


def contracts(mod):
    init(mod)
    L_, H_ = (lambda S: S.g['L']), (lambda S: S.g['H'])

    def bounds(S, l, h):
        S.g['L'], S.g['H'] = l, h

    def entry(S, A):
        A.__dict__['S0'] = S.snap()

    def back(S0, S, A, r):
        tidy(S)
        bounds(S, S0.g['L'], S0.g['H'])

    def own_bounds(S, av, A):
        """the bounds of the node itself (an empty subtree needs none)"""
        n = av[0]
        bounds(S, If(n.null(), z3.RealVal(0), lo(S, n.o)), If(n.null(), z3.RealVal(0), hi(S, n.o)))

    def smaller(S, A):
        S.eng.ob(S, 'measure', 'the recursion gets smaller', z3.Or(L_(S) >= H_(S), C(S, H_(S)) - C(S, L_(S)) < C(A.S0, H_(A.S0)) - C(A.S0, L_(A.S0))))

    def sides(goes_left, node=lambda A: A.node):
        """the bounds of the child the function goes on with"""
        def f(S, av, A):
            p, l, h, c = pos(S, node(A).o), L_(A.S0), H_(A.S0), goes_left(A.S0, A)
            bounds(S, If(c, l, p), If(c, p, h))
            smaller(S, A)
        return f

    MEM = [('mem', ('p', 'i64')), ('ghost', 'lo'), ('ghost', 'hi'), ('ghost', 'L'), ('ghost', 'H')]
    SHAPE = ('own', 'pos', 'C', 'kv', 'L', 'H', 'D', 'vis')
    sub = lambda S, p: top(S, p, L_(S), H_(S)) + all_(S) + part(S, L_(S), H_(S))

    # ------------------------------------------------------------------ rotation
    def child(S, A):
        l = A.dir == RIGHT
        a, b = left(S, A.pivot.o), right(S, A.pivot.o)
        return Ptr(If(l, a.o, b.o), If(l, a.f, b.f))

    def rot_ghost(S0, S, A, r):
        p, c = A.pivot.o, S.eng.named(S, child(S0, A).o)
        tidy(S)
        nn = Not(A.pivot.null())
        q = pos(S0, c)
        l, h = L_(S0), H_(S0)
        S.g['lo'] = S.eng.named_g(S, If(nn, z3.Store(z3.Store(S0.g['lo'], c, l), p, If(A.dir == RIGHT, q, l)), S0.g['lo']))
        S.g['hi'] = S.eng.named_g(S, If(nn, z3.Store(z3.Store(S0.g['hi'], c, h), p, If(A.dir == RIGHT, h, q)), S0.g['hi']))
    rot = Contract('u_bst_rotate', lambda S, A: sub(S, A.pivot) + [('a direction', Or(A.dir == LEFT, A.dir == RIGHT)), ('a child to promote', Or(A.pivot.null(), Not(child(S, A).null())))],
                   lambda S0, S, A, r: [('the child is on top', If(A.pivot.null(), r.null(), r.eq(child(S0, A)))), kept(S0, S, *SHAPE), pairs_kept(S0, S)] + frame(S0, S, L_(S0), H_(S0)) + sub(S, r),
                   lambda S, A: MEM, ghosts=GH, ghost=rot_ghost)

    # ------------------------------------------------------------------ search
    def node_in(S, p, L, H):
        return z3.And(p.f == 0, inn(S, L, H)(p.o))

    def krank(A):
        return RK(A.key.o, A.key.f)
    nsearch = Contract('u_bst_node_search', lambda S, A: sub(S, A.node) + [ordered(S), ('arguments', z3.And(Not(A.cmp.null()), Not(A.key.null())))],
                       lambda S0, S, A, r: [('a node with that key', Implies(Not(r.null()), z3.And(node_in(S, r, L_(S0), H_(S0)), rank(S, r.o) == krank(A)))),
                                            ('none only if there is none', Implies(r.null(), each(S, lambda o: rank(S, o) != krank(A), L_(S0), H_(S0)))), kept(S0, S, *[g for g, _ in GH])],
                       lambda S, A: [('ghost', 'L'), ('ghost', 'H')], ghosts=GH, entry=entry, ghost=back, before={'u_bst_node_search': sides(lambda S, A: krank(A) < rank(S, A.node.o))})

    nth = lambda S, r, L, n: C(S, pos(S, r.o)) == C(S, L) + 1 + n
    inleft = lambda S, A: size(S, left(S, A.node.o)) > A.n
    fnth = Contract('u_bst_node_find_nth', lambda S, A: sub(S, A.node),
                    lambda S0, S, A, r: [('NULL exactly beyond the end', r.null() == (A.n >= size(S, A.node))), ('the node of that rank', Implies(Not(r.null()), z3.And(node_in(S, r, L_(S0), H_(S0)), nth(S, r, L_(S0), A.n)))), kept(S0, S, *[g for g, _ in GH])],
                    lambda S, A: [('ghost', 'L'), ('ghost', 'H')], ghosts=GH, entry=entry, ghost=back, before={'u_bst_node_find_nth': sides(inleft)})

    # --------------------------------------------------------------- promotion, balancing
    def outer(S, av, A):
        bounds(S, L_(A.S0), H_(A.S0))
    prom = Contract('u_bst_node_promote_nth', lambda S, A: sub(S, A.node) + [('a rank', A.n < size(S, A.node))],
                    lambda S0, S, A, r: [('the node of that rank', z3.And(node_in(S0, r, L_(S0), H_(S0)), nth(S0, r, L_(S0), A.n))), kept(S0, S, *SHAPE), pairs_kept(S0, S)] + frame(S0, S, L_(S0), H_(S0)) + sub(S, r),
                    lambda S, A: MEM, ghosts=GH, entry=entry, ghost=back, before={'u_bst_node_promote_nth': sides(inleft), 'u_bst_rotate': outer})

    def bal_rec(S, av, A):
        own_bounds(S, av, A)
        smaller(S, A)
    bal = Contract('u_bst_node_balance', lambda S, A: sub(S, A.node),
                   lambda S0, S, A, r: [('empty stays empty', r.null() == A.node.null()), kept(S0, S, *SHAPE), pairs_kept(S0, S)] + frame(S0, S, L_(S0), H_(S0)) + sub(S, r),
                   lambda S, A: MEM, ghosts=GH, entry=entry, ghost=back, before={'u_bst_node_balance': bal_rec, 'u_bst_node_promote_nth': outer})
    # ------------------------------------------------------------------ insertion
    def new_ok(S, n):
        return [('a new node', z3.And(n.f == 0, n.o > S.eng.NG, S.alive(n.o), S.sz(n.o) == F['__size__'], own(S, n.o) != 1, kv(S, n.o) == 0, left(S, n.o).null(), right(S, n.o).null(), nelem(S, n.o) == 1))]

    def fits(S, n, L, H):
        """the new node belongs between L and H: after all with keys not greater"""
        return ('its place is here', each(S, lambda o: z3.And(Implies(pos(S, o) <= L, rank(S, o) <= rank(S, n.o)), Implies(pos(S, o) >= H, rank(S, n.o) < rank(S, o)))))

    def around(S, L, H):
        return ('counted around', each(S, lambda o: z3.And(Implies(pos(S, o) <= L, C(S, pos(S, o)) <= C(S, L)), Implies(pos(S, o) >= H, C(S, pos(S, o)) >= C(S, H)))))

    def room(S):
        return ('room to count', each(S, lambda o: nelem(S, o) < 2**63, L_(S), H_(S)))

    def push_pre(S, A):
        n = A.newnode
        L, H = L_(S), H_(S)
        return bst_ok(S, A.bst) + [('bounds', z3.And(L >= 0, L < H, H <= 1)), ('not the tree object', n.o != A.bst.o)] + top(S, A.node, L, H) + all_(S) + part(S, L, H) + [ordered(S), around(S, L, H), room(S)] + new_ok(S, n) + [fits(S, n, L, H)]

    def counts(S0, S, p, d):
        """one node more (fewer) from p on"""
        return ('one pair counted %s' % ('more' if d > 0 else 'fewer'), forall(lambda x: Implies(x != p, C(S, x) == C(S0, x) + If(x > p, I(d), I(0))), sorts=(R,), pats=lambda x: C(S, x)))

    def insert(S, n, L, H, cond):
        """ghost code: the new node becomes the subtree between L and H"""
        p = (L + H) / 2
        nm = lambda t: S.eng.named_g(S, t)
        c = z3.FreshConst(CNT, 'C')
        c0 = S.g['C']
        S.add(forall(lambda x: sel(c, x) == If(z3.And(cond, x == p), sel(c0, L) + 1, sel(c0, x) + If(z3.And(cond, x > p), I(1), I(0))), sorts=(R,), pats=lambda x: sel(c, x)))
        S.g['C'] = c
        for g, v in (('own', I(1)), ('pos', p), ('lo', L), ('hi', H)):
            S.g[g] = nm(If(cond, z3.Store(S.g[g], n, v), S.g[g]))

    def inserted(S0, S, n, L, H):
        p = pos(S, n)
        return [('its position', z3.And(p > L, p < H)), ('the tree holds it too', S.g['own'] == z3.Store(S0.g['own'], n, I(1))), ('the others keep their positions', S.g['pos'] == z3.Store(S0.g['pos'], n, p)), counts(S0, S, p, 1),
                ('after those with keys not greater, before the others', each(S0, lambda o: If(pos(S0, o) < p, rank(S, o) <= rank(S, n), rank(S, n) < rank(S, o))))]

    def push_post(on_top=False):
        def f(S0, S, A, r):
            n, L, H = A.newnode.o, L_(S0), H_(S0)
            return ([('it is on top', r.eq(A.newnode))] if on_top else [('not empty', Not(r.null()))]) + inserted(S0, S, n, L, H) + [kept(S0, S, 'kv', 'L', 'H', 'D', 'vis'), pairs_kept(S0, S, n)] + frame(S0, S, L, H, n) + top(S, r, L, H) + \
                [('lemma: bounds', z3.And(C(S, L) == C(S0, L), C(S, H) == C(S0, H) + 1))] + all_(S) + part(S, L, H) + [ordered(S)]
        return f

    def push_ghost(S0, S, A, r):
        back(S0, S, A, r)
        insert(S, A.newnode.o, L_(S0), H_(S0), A.node.null())
    PM = lambda S, A: MEM + [('ghost', g) for g in ('own', 'pos', 'C')]
    less = lambda S, A: rank(S, A.newnode.o) < rank(S, A.node.o)

    def pusher(fn, on_top=False):
        return Contract(fn, push_pre, push_post(on_top), PM, ghosts=GH, entry=entry, ghost=push_ghost,
                        before={'u_bst_node_push_top': sides(less) if on_top else outer, 'u_bst_node_push': sides(less), 'u_bst_rotate': outer})
    ptop, push, prand = pusher('u_bst_node_push_top', True), pusher('u_bst_node_push'), pusher('u_bst_node_push_rand')
    # bottom insertion: nodes above the current one are counted already
    def above(o, SE, l, h):
        """the subtree of o has the one between l and h as a proper part"""
        return z3.And(lo(SE, o) <= l, h <= hi(SE, o), Or(lo(SE, o) < l, h < hi(SE, o)))

    def here(SE, v):
        """bounds of the place the loop has come to"""
        n, p = v.node, v.parent
        return n, p

    def bot_entry(S, A):
        entry(S, A)
        bounds(S, z3.RealVal(0), z3.RealVal(1))

    def bot_inv(SE, S, v, A):
        l, h = L_(S), H_(S)
        par = v.parent.o
        n, a, b = A.newnode.o, C(SE, l), C(SE, h)
        return [('bounds', z3.And(l >= 0, l < h, h <= 1))] + top(S, v.node, l, h) + \
            [('the node above', z3.And(v.parent.f == 0, If(par == 0, z3.And(l == 0, h == 1, Not(v.node.null())), z3.And(own(S, par) == 1, Or(z3.And(l == lo(S, par), h == pos(S, par), left(S, par).eq(v.node), rank(S, n) < rank(S, par)),
                                                                                      z3.And(l == pos(S, par), h == hi(S, par), right(S, par).eq(v.node), rank(S, par) <= rank(S, n)))))))] + \
            [fits(S, A.newnode, l, h), around(S, l, h), kept(SE, S, 'own', 'pos', 'lo', 'hi', 'C', 'kv'), ('links stay', z3.And(S.M['po'] == SE.M['po'], S.M['pf'] == SE.M['pf'])),
             ('nodes above are counted one more', each(S, lambda o: nelem(S, o) == nelem(SE, o) + If(above(o, SE, l, h), I(1), I(0)))),
             ('within', each(S, lambda o: z3.And(lo(S, o) >= l, hi(S, o) <= h, C(S, l) < C(S, pos(S, o)), C(S, pos(S, o)) < C(S, h)), l, h)),
             ('nodes above have a child this way', each(S, lambda o: Implies(above(o, SE, l, h), Or(o == par, z3.And(h <= pos(S, o), left(S, o).o != 0), z3.And(l >= pos(S, o), right(S, o).o != 0))))),
             ('not across', each(S, lambda o: Or(z3.And(pos(S, o) > l, pos(S, o) < h), z3.And(Or(lo(S, o) <= l, lo(S, o) >= h), Or(hi(S, o) >= h, hi(S, o) <= l)))))] + \
            [('other objects keep their content', forall(lambda o: Implies(own(SE, o) != 1, S.inner('i64', o) == SE.inner('i64', o)), pats=lambda o: S.inner('i64', o)))]

    def bot_step(SH, S, vh, v, A):
        n = vh.node.o
        p = pos(SH, n)
        c = rank(SH, A.newnode.o) < rank(SH, n)
        tidy(S)
        bounds(S, If(c, L_(SH), p), If(c, p, H_(SH)))

    def bot_ghost(S0, S, A, r):
        tidy(S)
        S.eng.ob(S, 'lemma', 'the place is empty', each(S, lambda o: Or(pos(S, o) <= L_(S), pos(S, o) >= H_(S))))
        insert(S, A.newnode.o, L_(S), H_(S), z3.BoolVal(True))
        bounds(S, S0.g['L'], S0.g['H'])

    def bot_pre(S, A):
        A.__dict__['node'] = cell(S, A.bst.o, B['root'])
        return [('the whole tree', z3.And(L_(S) == 0, H_(S) == 1))] + push_pre(S, A)
    pbot = Contract('u_bst_node_push_bottom', bot_pre, push_post(), PM, ghosts=GH, entry=bot_entry, ghost=bot_ghost, loops={0: LoopSpec(bot_inv, step=bot_step, measure=lambda S, v: C(S, S.g['H']) - C(S, S.g['L']))})
    # ------------------------------------------------------------------ release of a node
    def blocks(S0, b, o):
        """what goes when node o goes"""
        fk, fv = goes(S0, b, o)
        k, v = key(S0, o).o, val(S0, o).o
        return fk, fv, k, v

    def rel_pre(S, A):
        n, b = A.node, A.bst
        fk, fv, k, v = blocks(S, b.o, n.o)
        blk = lambda p: z3.And(p.f == 0, p.o > S.eng.NG, S.alive(p.o), p.o != n.o, p.o != b.o)
        return [('the tree object', z3.And(b.f == 0, b.o > S.eng.NG, S.alive(b.o), S.sz(b.o) == B['__size__'])), ('a node', Or(n.null(), z3.And(n.f == 0, n.o > S.eng.NG, S.alive(n.o), S.sz(n.o) == F['__size__'], n.o != b.o)))] + \
            [(l, Implies(Not(n.null()), f)) for l, f in (('its key', Implies(fk, blk(key(S, n.o)))), ('its value', Implies(fv, blk(val(S, n.o)))), ('not the same', Implies(z3.And(fk, fv), k != v)))]

    def dead(S0, b, *nodes):
        """is block k one of the nodes or what they own?"""
        def f(k):
            out = []
            for n in nodes:
                fk, fv, kk, v = blocks(S0, b, n)
                out.append(z3.And(n != 0, Or(k == n, z3.And(fk, k == kk), z3.And(fv, k == v))))
            return Or(*out)
        return f

    def gone(S0, S, b, *nodes):
        d = dead(S0, b, *nodes)
        return ('the node and what it owns are released, nothing else', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), Not(d(k))), pats=lambda k: sel(S.live, k)))

    def kv_left(S0, b, n):
        fk, fv, k, v = blocks(S0, b, n)
        t = S0.g['kv']
        t = If(z3.And(n != 0, fk), z3.Store(t, k, I(0)), t)
        return If(z3.And(n != 0, fv), z3.Store(t, v, I(0)), t)

    def rel_ghost(S0, S, A, r):
        S.g['kv'] = S.eng.named_g(S, kv_left(S0, A.bst.o, A.node.o))
    rel = Contract('u_bst_node_do_free', rel_pre, lambda S0, S, A, r: [gone(S0, S, A.bst.o, A.node.o), sizes(S0, S), ('they belong to no node any more', S.g['kv'] == kv_left(S0, A.bst.o, A.node.o)), kept(S0, S, *[g for g, _ in GH if g != 'kv'])],
                   lambda S, A: [('heap',), ('ghost', 'kv')], ghosts=GH, ghost=rel_ghost)

    # ------------------------------------------------------------------ deletion
    def join_pre(S, A):
        D, L, H = S.g['D'], L_(S), H_(S)
        p = pos(S, D)
        return [('the node that leaves', z3.And(own(S, D) == 1, L < p, p < H)), around(S, L, H), ('bounds', z3.And(C(S, L) < C(S, p), C(S, p) < C(S, H), C(S, H) - C(S, L) <= 2**64))] + [(l + ', left', f) for l, f in top(S, A.l, L, p)] + [(l + ', right', f) for l, f in top(S, A.r, p, H)] + all_(S) + \
            [(l + ', left', f) for l, f in part(S, L, p)] + [(l + ', right', f) for l, f in part(S, p, H)]

    def join_ghost(S0, S, A, r):
        back(S0, S, A, r)
        D, L, H = S0.g['D'], L_(S0), H_(S0)
        p = S.eng.named(S, pos(S0, D))
        q = S.eng.named(S, If(A.r.null(), H, pos(S0, r.o)))
        say = lambda l, f: S.eng.ob(S, 'lemma', l, Implies(Not(A.r.null()), f))
        say('the next position', C(S, q) == C(S, p) + 1)
        say('the new top is the first of the right subtree', each(S, lambda o: Or(o == r.o, z3.And(pos(S, o) > q, lo(S, o) >= q)), p, H))
        lo0, hi0, c0 = S.g['lo'], S.g['hi'], S.g['C']
        c, l, h = z3.FreshConst(CNT, 'C'), z3.FreshConst(REALA, 'lo'), z3.FreshConst(REALA, 'hi')
        S.add(forall(lambda x: sel(c, x) == sel(c0, x) - If(x > p, I(1), I(0)), sorts=(R,), pats=lambda x: sel(c, x)),
              forall(lambda o: sel(h, o) == If(z3.And(own(S0, o) == 1, pos(S0, o) > L, pos(S0, o) < p, sel(hi0, o) == p), q, sel(hi0, o)), pats=lambda o: sel(h, o)),
              forall(lambda o: sel(l, o) == If(z3.And(Not(A.r.null()), o == r.o), L, sel(lo0, o)), pats=lambda o: sel(l, o)))
        S.g['C'], S.g['lo'], S.g['hi'] = c, l, h
        S.g['own'] = S.eng.named_g(S, z3.Store(S0.g['own'], D, I(0)))

    def taken(S0, S, D):
        return [('the tree holds it no more', S.g['own'] == z3.Store(S0.g['own'], D, I(0))), counts(S0, S, pos(S0, D), -1), ('the others keep their positions', S.g['pos'] == S0.g['pos'])]
    def right_bounds(S, av, A):
        bounds(S, pos(A.S0, A.S0.g['D']), H_(A.S0))
    join = Contract('u_bst_node_join_lr', join_pre, lambda S0, S, A, r: taken(S0, S, S0.g['D']) + [kept(S0, S, 'kv', 'L', 'H', 'D', 'vis'), pairs_kept(S0, S)] + frame(S0, S, L_(S0), H_(S0)) + [('the node itself stays', z3.And(*[S.inner(k, S0.g['D']) == S0.inner(k, S0.g['D']) for k in ('po', 'pf', 'i64')]))] + sub(S, r),
                    lambda S, A: PM(S, A) + [('ghost', 'D')], ghosts=GH, entry=entry, ghost=join_ghost, before={'u_bst_node_promote_nth': right_bounds})

    def del_pre(S, A):
        f = A.pfound
        L, H = L_(S), H_(S)
        return bst_ok(S, A.bst) + sub(S, A.node) + [ordered(S), around(S, L, H), ('bounds', z3.And(L >= 0, L < H, H <= 1))] + owned(S, A.bst.o) + [('the result', z3.And(f.o > S.eng.NG, S.valid(f, 4), own(S, f.o) != 1, kv(S, f.o) == 0, f.o != A.bst.o, S.i32(f) == 0)), ('a key', Not(A.key.null()))]

    def del_ghost(S0, S, A, r):
        back(S0, S, A, r)

    def del_join(S, av, A):
        S.g['D'] = A.node.o
        bounds(S, L_(A.S0), H_(A.S0))

    def deleted(S0, S, A, b, r, f, L, H, kr):
        D = S.g['D']
        nm = [z3.And(own(S0, D) == 1, L < pos(S0, D), pos(S0, D) < H), rank(S0, D) == kr]
        dd = dead(S0, b, D)
        return [('found or not', Or(f == 0, f == 1)), ('it was a node with that key', Implies(f == 1, z3.And(*nm))), ('none only if there is none', Implies(f == 0, each(S0, lambda o: rank(S0, o) != kr, L, H))),
                ('exactly that node leaves', S.g['own'] == If(f == 1, z3.Store(S0.g['own'], D, I(0)), S0.g['own'])), ('the others keep their positions', S.g['pos'] == S0.g['pos']),
                ('one pair counted fewer', forall(lambda x: Implies(Or(f == 0, x != pos(S0, D)), C(S, x) == C(S0, x) - If(z3.And(f == 1, x > pos(S0, D)), I(1), I(0))), sorts=(R,), pats=lambda x: C(S, x))),
                ('it is released with what it owns, nothing else', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), Or(f == 0, Not(dd(k)))), pats=lambda k: sel(S.live, k))), sizes(S0, S),
                ('keys and values stay', forall(lambda o: Implies(z3.And(own(S0, o) == 1, Or(f == 0, o != D)), z3.And(key(S, o).eq(key(S0, o)), val(S, o).eq(val(S0, o)))), pats=lambda o: S.inner('po', o))),
                ('what they own stays theirs', S.g['kv'] == If(f == 1, kv_left(S0, b, D), S0.g['kv']))]
    dele = Contract('u_bst_node_delete', del_pre, lambda S0, S, A, r: deleted(S0, S, A, A.bst.o, r, S.i32(A.pfound), L_(S0), H_(S0), krank(A)) + [kept(S0, S, 'L', 'H', 'vis')] + frame(S0, S, L_(S0), H_(S0)) + sub(S, r) + [ordered(S)] + owned(S, A.bst.o),
                    lambda S, A: PM(S, A) + [('ghost', 'D'), ('ghost', 'kv'), ('heap',), ('cell', 'i32', A.pfound)], ghosts=GH, entry=entry, ghost=del_ghost,
                    before={'u_bst_node_delete': sides(lambda S, A: krank(A) < rank(S, A.node.o)), 'u_bst_node_join_lr': del_join})

    # ------------------------------------------------------------------ traversal, release of all
    def each_rec(S, av, A):
        own_bounds(S, av, A)
        smaller(S, A)
    fe = Contract('u_bst_node_foreach', lambda S, A: sub(S, A.node) + [('at the first', Or(A.node.null(), S.g['vis'] == C(S, L_(S)))), ('a function', Not(A.cb.null()))],
                  lambda S0, S, A, r: [('each node once, in order', Implies(Not(A.node.null()), S.g['vis'] == C(S, H_(S0)) - 1)), ('none if there is none', Implies(A.node.null(), S.g['vis'] == S0.g['vis'])), kept(S0, S, *[g for g, _ in GH if g != 'vis'])],
                  lambda S, A: [('ghost', g) for g in ('L', 'H', 'vis')], ghosts=GH, entry=entry, ghost=back, before={'u_bst_node_foreach': lambda S, av, A: (own_bounds(S, av, A), smaller(S, A))})
    # ------------------------------------------------------------------ all nodes at once
    def all_gone(S0, S, i, *more):
        return [('the nodes and what they own are released, nothing else', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), Not(i(k)), Not(i(kv(S0, k))), *[k != m for m in more]), pats=lambda k: sel(S.live, k))), sizes(S0, S)]

    def nfree_ghost(S0, S, A, r):
        back(S0, S, A, r)
        S.g['own'] = S.eng.named_g(S, If(A.node.null(), S.g['own'], z3.Store(S.g['own'], A.node.o, I(0))))

    def nfree_post(S0, S, A, r):
        i = inn(S0, L_(S0), H_(S0))
        i = (lambda j: lambda o: z3.And(Not(A.node.null()), j(o)))(i)
        return all_gone(S0, S, i) + [('they are no nodes any more', forall(lambda o: own(S, o) == If(i(o), I(0), own(S0, o)), pats=lambda o: own(S, o))), ('their blocks are not owned any more', forall(lambda k: kv(S, k) == If(i(kv(S0, k)), I(0), kv(S0, k)), pats=lambda k: kv(S, k))),
                                       kept(S0, S, *[g for g, _ in GH if g not in ('kv', 'own')])]
    both = lambda S, av, A: (bounds(S, If(av[1].null(), z3.RealVal(0), lo(S, av[1].o)), If(av[1].null(), z3.RealVal(0), hi(S, av[1].o))), smaller(S, A))
    tree_obj = lambda S, b: bst_ok(S, b)[:1]
    nfree = Contract('u_bst_node_free', lambda S, A: tree_obj(S, A.bst) + sub(S, A.node) + owned(S, A.bst.o), nfree_post,
                     lambda S, A: [('heap',)] + [('ghost', g) for g in ('L', 'H', 'kv', 'own')], ghosts=GH, entry=entry, ghost=nfree_ghost, before={'u_bst_node_free': both})

    # ------------------------------------------------------------------ new nodes
    def given(S0, S, b, p, src, k):
        """what a node holds for the key (value) src it was given"""
        t = enum(S0, b, k + 'type')
        n = sel(S0.inner('i64', b), B[k + 'size'])
        own_ = z3.And(t != PTRT, Not(src.null()))
        copy = z3.And(p.f == 0, p.o > S.eng.NG, Not(S0.alive(p.o)), S.alive(p.o))
        same = lambda m: forall(lambda i: Implies(z3.And(i >= 0, m(i)), sel(S.inner('i8', p.o), i) == sel(S0.inner('i8', src.o), src.f + i)), pats=lambda i: sel(S.inner('i8', p.o), i))
        return [(k + ' by reference', Implies(t == PTRT, p.eq(src))), ('no ' + k, Implies(z3.And(t != PTRT, src.null()), p.null())), (k + ' is a copy', Implies(own_, copy)),
                (k + ' is the same string', Implies(z3.And(own_, t == STRING), z3.And(same(lambda i: i < S.sz(p.o)), S.sz(p.o) >= 1, S.i8(Ptr(p.o, S.sz(p.o) - 1)) == 0))), (k + ' is the same block', Implies(z3.And(own_, t == OPAQUE), z3.And(S.sz(p.o) == n, same(lambda i: i < n))))]

    def given_pre(S, A):
        b = A.bst.o
        out = []
        for k, p in (('key', A.key), ('val', A.val)):
            t = enum(S, b, k + 'type')
            n = sel(S.inner('i64', b), B[k + 'size'])
            out += [('%s to copy' % k, Implies(z3.And(Not(p.null()), t == OPAQUE), z3.And(n > 0, n < 2**56, S.valid(p, n)))), ('%s to copy, a string' % k, Implies(z3.And(Not(p.null()), t == STRING), libc_str(S, p))),
                    ('%s to take over' % k, Implies(z3.And(Not(p.null()), t == PTRT, Not(field(S, b, k + 'free').null())), z3.And(p.f == 0, p.o > S.eng.NG, S.alive(p.o), own(S, p.o) != 1, kv(S, p.o) == 0, p.o != b)))]
        return out + [('a key', Not(A.key.null())), ('not key and value', Implies(z3.And(enum(S, b, 'keytype') == PTRT, enum(S, b, 'valtype') == PTRT, Not(A.val.null())), A.key.o != A.val.o))]

    def libc_str(S, p):
        return z3.And(p.o > S.eng.NG, S.alive(p.o), p.f >= 0, p.f < S.sz(p.o), exists(lambda j: z3.And(j >= p.f, j < S.sz(p.o), sel(S.inner('i8', p.o), j) == 0)))

    def kv_new(S, kv0, b, n):
        fk, fv = goes(S, b, n)
        t = If(fk, z3.Store(kv0, key(S, n).o, n), kv0)
        return If(fv, z3.Store(t, val(S, n).o, n), t)

    def new_post(S0, S, A, r):
        b = A.bst.o
        n = S.ptr(A.pnode)
        ok = r == 0
        k, v = key(S, n.o), val(S, n.o)
        cp = lambda f, src: z3.And(enum(S0, b, f + 'type') != PTRT, Not(src.null()))
        return [('0 or ~0', Or(ok, r == -1)), ('fails only for lack of memory', Implies(Not(ok), S.g['oom'])), ('failure changes nothing', Implies(Not(ok), z3.And(S.live == S0.live, S.g['kv'] == S0.g['kv'])))] + \
            [(l, Implies(ok, f)) for l, f in [('a new node', z3.And(n.f == 0, n.o > S.eng.NG, Not(S0.alive(n.o)), S.sz(n.o) == F['__size__'], left(S, n.o).null(), right(S, n.o).null(), nelem(S, n.o) == 1))] + given(S0, S, b, k, A.key, 'key') + given(S0, S, b, v, A.val, 'val') +
             [('nothing else is allocated', forall(lambda o: S.alive(o) == Or(S0.alive(o), o == n.o, z3.And(cp('key', A.key), o == k.o), z3.And(cp('val', A.val), o == v.o)), pats=lambda o: sel(S.live, o))), ('different blocks', z3.And(Implies(goes(S, b, n.o)[0], k.o != n.o), Implies(goes(S, b, n.o)[1], v.o != n.o), Or(Not(z3.And(*goes(S, b, n.o))), k.o != v.o))),
              ('it owns its key and value', S.g['kv'] == kv_new(S, S0.g['kv'], b, n.o))]] + [sizes(S0, S), kept(S0, S, *[g for g, _ in GH if g != 'kv'])]

    def new_ghost(S0, S, A, r):
        tidy(S)
        n = S.eng.named(S, S.ptr(A.pnode).o)
        S.g['kv'] = S.eng.named_g(S, If(r == 0, kv_new(S, S0.g['kv'], A.bst.o, n), S0.g['kv']))
    nnew = Contract('u_bst_node_new', lambda S, A: bst_ok(S, A.bst) + given_pre(S, A) + [('the result', z3.And(S.valid(A.pnode, 8), A.pnode.o > S.eng.NG, A.pnode.o != A.bst.o))], new_post,
                    lambda S, A: [('heap',), ('cell', 'p', A.pnode), ('ghost', 'kv')], ghosts=GH, ghost=new_ghost)
    # ------------------------------------------------------------------ the interface
    Z, O = z3.RealVal(0), z3.RealVal(1)
    root = lambda S, b: cell(S, b, B['root'])

    def tree(S, b):
        return bst_ok(S, b) + top(S, root(S, b.o), Z, O) + all_(S) + part(S, Z, O) + [ordered(S)] + owned(S, b.o) + [('counted from 0', C(S, Z) == 0)]

    def opt(S, A, *more):
        """a tree, or NULL"""
        return [(l, Implies(Not(A.bst.null()), f)) for l, f in tree(S, A.bst) + list(more)]

    whole = lambda S, av, A: bounds(S, Z, O)
    total = lambda S: C(S, O) - 1
    allg = [g for g, _ in GH]
    nb = lambda A: A.bst.null()

    def back2(S0, S, A, r):
        tidy(S)
        bounds(S, S0.g['L'], S0.g['H'])
    LH = [('ghost', 'L'), ('ghost', 'H')]
    RO = dict(ghosts=GH, ghost=back2)
    search = Contract('u_bst_search', opt, lambda S0, S, A, r: [('nothing without tree or key', Implies(Or(nb(A), A.key.null()), r.null())), ('a node with that key', Implies(Not(r.null()), z3.And(r.f == 0, own(S, r.o) == 1, rank(S, r.o) == krank(A)))),
                                                                ('NULL only if no node has that key', Implies(z3.And(Not(nb(A)), Not(A.key.null()), r.null()), each(S, lambda o: rank(S, o) != krank(A)))), kept(S0, S, *allg)],
                      lambda S, A: LH, before={'u_bst_node_search': whole}, **RO)
    find = Contract('u_bst_find_nth', opt, lambda S0, S, A, r: [('NULL exactly beyond the end', r.null() == Or(nb(A), A.n >= total(S))), ('the node of that rank', Implies(Not(r.null()), z3.And(r.f == 0, own(S, r.o) == 1, C(S, pos(S, r.o)) == A.n + 1))), kept(S0, S, *allg)],
                    lambda S, A: LH, before={'u_bst_node_find_nth': whole}, **RO)
    count = Contract('u_bst_count', lambda S, A: opt(S, A, ('a number that can be told', total(S) < 2**63)), lambda S0, S, A, r: [('the number of pairs', If(nb(A), r == 2**64 - 1, r == total(S)))], lambda S, A: [], ghosts=GH)
    empty = Contract('u_bst_empty', opt, lambda S0, S, A, r: [('is there no pair?', If(nb(A), r == 1, z3.And(Or(r == 0, r == 1), (r == 1) == (total(S) == 0))))], lambda S, A: [], ghosts=GH)
    empty.inline = True
    fe0 = Contract('u_bst_foreach', lambda S, A: opt(S, A, ('none visited yet', S.g['vis'] == 0)), lambda S0, S, A, r: [('refuses exactly without tree or function', (r == 0) == Not(Or(nb(A), A.cb.null()))), ('every pair once, in order', Implies(r == 0, S.g['vis'] == total(S))), kept(S0, S, *[g for g in allg if g != 'vis'])],
                    lambda S, A: LH + [('ghost', 'vis')], before={'u_bst_node_foreach': whole}, **RO)

    def same_bst(S0, S, b):
        return [('the tree object keeps the rest', z3.And(*[field(S, b, f).eq(field(S0, b, f)) for f in ('cmp', 'keyfree', 'valfree')], S.inner('i32', b) == S0.inner('i32', b)))]

    def outside(S0, S, A, *new):
        return [('what is not the tree\'s stays as it is (%s)' % k, forall(lambda o: Implies(z3.And(S0.alive(o), S.alive(o), own(S0, o) != 1, o != A.bst.o), S.inner(k, o) == S0.inner(k, o)), pats=lambda o: S.inner(k, o))) for k in ('po', 'pf', 'i64')]
    balance = Contract('u_bst_balance', opt, lambda S0, S, A, r: [('refuses exactly without tree', (r == 0) == Not(nb(A))), kept(S0, S, 'own', 'pos', 'C', 'kv', 'L', 'H'), pairs_kept(S0, S)] + outside(S0, S, A) + opt(S, A),
                       lambda S, A: MEM, before={'u_bst_node_balance': whole}, **RO)

    def got(S, av, A):
        S.g['D'] = av[-1].o
        bounds(S, Z, O)

    def upush_post(S0, S, A, r):
        ok = r == 0
        n, b = S.g['D'], A.bst.o
        fresh_ = lambda o: z3.And(S.alive(o), Not(S0.alive(o)))
        cp = lambda f, src: z3.And(enum(S0, b, f + 'type') != PTRT, Not(src.null()))
        return [('0 or ~0', Or(ok, r == -1)), ('fails only without tree or key, or for lack of memory', Implies(Not(ok), Or(nb(A), A.key.null(), S.g['oom'])))] + \
            [(l, Implies(ok, f)) for l, f in [('a tree and a key', z3.And(Not(nb(A)), Not(A.key.null()))), ('one pair more', z3.And(S.g['own'] == z3.Store(S0.g['own'], n, I(1)), fresh_(n), n != 0)), ('one counted more', total(S) == total(S0) + 1),
                ('after those with keys not greater', each(S0, lambda o: z3.And(o != n, pos(S, o) == pos(S0, o), If(pos(S, o) < pos(S, n), rank(S, o) <= rank(S, n), rank(S, n) < rank(S, o))))),
                ('nothing else is allocated', forall(lambda o: S.alive(o) == Or(S0.alive(o), o == n, z3.And(cp('key', A.key), o == key(S, n).o), z3.And(cp('val', A.val), o == val(S, n).o)), pats=lambda o: sel(S.live, o)))] + given(S0, S, b, key(S, n), A.key, 'key') + given(S0, S, b, val(S, n), A.val, 'val')] + \
            [('failure changes nothing', Implies(Not(ok), z3.And(S.live == S0.live, *[S.g[g] == S0.g[g] for g in ('own', 'pos', 'C', 'kv', 'lo', 'hi')], *[S.inner(k, A.bst.o) == S0.inner(k, A.bst.o) for k in ('po', 'pf')])))] + \
            [kept(S0, S, 'L', 'H')] + [(l, Implies(Not(nb(A)), f)) for l, f in [pairs_kept(S0, S)]] + outside(S0, S, A) + opt(S, A)
    upush = Contract('u_bst_push', lambda S, A: opt(S, A, ('room to count', each(S, lambda o: nelem(S, o) < 2**63))) + [(l, Implies(z3.And(Not(nb(A)), Not(A.key.null())), f)) for l, f in given_pre(S, A)], upush_post,
                     lambda S, A: [('heap',)] + MEM + [('ghost', g) for g in ('own', 'pos', 'C', 'kv', 'D')], before={f: got for f in ('u_bst_node_push_rand', 'u_bst_node_push_top', 'u_bst_node_push_bottom')}, **RO)

    def udel_post(S0, S, A, r):
        L, H = Z, O
        D, b = S.g['D'], A.bst.o
        ok = r == 0
        none = Or(nb(A), A.key.null())
        return [('0 or ~0', Or(ok, r == -1)), ('nothing without tree or key', Implies(none, z3.And(r == -1, S.live == S0.live, *[S.g[g] == S0.g[g] for g in allg])))] + \
            [(l, Implies(Not(none), f)) for l, f in deleted(S0, S, A, b, r, If(ok, I(1), I(0)), Z, O, krank(A)) + [('one counted fewer', total(S) == total(S0) - If(ok, I(1), I(0)))]] + outside(S0, S, A) + opt(S, A)
    udel = Contract('u_bst_delete', opt, udel_post, lambda S, A: [('heap',)] + MEM + [('ghost', g) for g in ('own', 'pos', 'C', 'kv', 'D')], before={'u_bst_node_delete': whole}, **RO)
    ufree = Contract('u_bst_free', opt, lambda S0, S, A, r: [(l, Implies(Not(nb(A)), f)) for l, f in all_gone(S0, S, inn(S0), A.bst.o)] + [('or nothing', Implies(nb(A), S.live == S0.live))], lambda S, A: [('heap',)] + LH + [('ghost', g) for g in ('kv', 'own')],
                     before={'u_bst_node_free': whole}, **RO)

    # ------------------------------------------------------------------ creation, attributes
    def unew_post(S0, S, A, r):
        b = S.ptr(A.pbst)
        ok = r == 0
        return [('0 or ~0', Or(ok, r == -1)), ('fails only without result, or for lack of memory', Implies(Not(ok), z3.And(Or(A.pbst.null(), S.g['oom']), S.live == S0.live)))] + \
            [(l, Implies(ok, f)) for l, f in [('a new object', z3.And(b.f == 0, b.o > S.eng.NG, Not(S0.alive(b.o)), S.sz(b.o) == B['__size__'], S.live == z3.Store(S0.live, b.o, True))), ('without nodes', root(S, b.o).null()), ('with its comparison', Not(cmpf(S, b.o).null())),
                                              ('keys are strings, copied and released', z3.And(enum(S, b.o, 'keytype') == STRING, Not(field(S, b.o, 'keyfree').null()))), ('values are the caller\'s', z3.And(enum(S, b.o, 'valtype') == PTRT, field(S, b.o, 'valfree').null())), ('options', enum(S, b.o, 'opts') == A.opts)]]
    unew = Contract('u_bst_new', lambda S, A: [('result', Or(A.pbst.null(), z3.And(S.valid(A.pbst, 8), A.pbst.o > S.eng.NG)))], unew_post, lambda S, A: [('heap',), ('cell', 'p', A.pbst)], ghosts=())

    only = lambda S, A: [(l, Implies(Not(nb(A)), f)) for l, f in bst_ok(S, A.bst)]

    def attr(fn, k):
        T, N = (lambda A: A[1]), (lambda A: A[2])
        def post(S0, S, A, r):
            b = A.bst.o
            bad = Or(nb(A), z3.And(T(A) == OPAQUE, N(A) == 0))
            fr, fr0 = field(S, b, k + 'free'), field(S0, b, k + 'free')
            g = S.eng.gptr('@u_bst_genfree')
            return [('refused exactly without tree or size', If(bad, r == -1, r == 0))] + [(l, Implies(r == 0, f)) for l, f in [('the attributes', z3.And(enum(S, b, k + 'type') == T(A), sel(S.inner('i64', b), B[k + 'size']) == N(A))),
                    ('copies are released, pointers are not, unless asked for', If(T(A) != PTRT, fr.eq(g), If(fr0.eq(g), fr.null(), fr.eq(fr0))))]] + only(S, A)
        return Contract(fn, lambda S, A: only(S, A) + [('a type', z3.And(T(A) >= 0, T(A) <= 2))], post, lambda S, A: [('cell', 'i32', Ptr(A.bst.o, I(B[k + 'type']))), ('cell', 'i64', Ptr(A.bst.o, I(B[k + 'size']))), ('cell', 'p', Ptr(A.bst.o, I(B[k + 'free'])))], ghosts=GH)

    def fun(fn, k):
        return Contract(fn, only, lambda S0, S, A, r: [('refused exactly without tree or function', If(Or(nb(A), A.f.null()), r == -1, r == 0)), ('the function', Implies(r == 0, field(S, A.bst.o, k).eq(A.f)))] + only(S, A), lambda S, A: [('cell', 'p', Ptr(A.bst.o, I(B[k])))], ghosts=GH)
    node_arg = lambda S, A: [('a node', Or(A.node.null(), z3.And(A.node.f == 0, A.node.o > S.eng.NG, S.alive(A.node.o), S.sz(A.node.o) == F['__size__'])))]
    get = lambda fn, f: Contract(fn, node_arg, lambda S0, S, A, r: [('what the node holds', If(A.node.null(), r.null(), r.eq(f(S, A.node.o))))], lambda S, A: [])
    ncount = Contract('u_bst_node_count', node_arg, lambda S0, S, A, r: [('the size of the subtree', r == If(A.node.null(), I(2**64 - 1), nelem(S, A.node.o)))], lambda S, A: [])
    return [rot, nsearch, fnth, prom, bal, ptop, push, prand, pbot, rel, join, dele, fe, nfree, nnew, search, find, count, empty, fe0, balance, upush, udel, ufree, unew, attr('u_bst_set_keyattr', 'key'), attr('u_bst_set_valattr', 'val'),
            fun('u_bst_set_cmp', 'cmp'), fun('u_bst_set_keyfree', 'keyfree'), fun('u_bst_set_valfree', 'valfree'), get('u_bst_node_key', key), get('u_bst_node_val', val), ncount]


def options(mod):
    M = dict(libc.MODELS)

    def rand(eng, st, av, x):
        r = eng.fresh_of(st, x.ty, 'rand')
        st.add(r >= 0)
        return r
    M['rand'] = rand
    M['getpid'] = lambda eng, st, av, x: eng.fresh_of(st, x.ty, 'pid')
    M['srand'] = lambda eng, st, av, x: None

    def ind(eng, st, p, av, x):
        A = eng.cur_args
        f = A.__dict__.get('cmp') if eng.cur == 'u_bst_node_search' else None
        if len(av) == 2 and x.ty[0] == 'int':
            if f is None:
                f = cmpf(st, A.bst.o)
            eng.ob(st, 'requires', 'the comparison function of the tree', p.eq(f))
            r = eng.fresh_of(st, x.ty, 'cmp')
            a, b = RK(av[0].o, av[0].f), RK(av[1].o, av[1].f)
            st.add((r > 0) == (a > b))
            st.add((r < 0) == (a < b))
            return r
        if eng.cur == 'u_bst_node_do_free':
            n, b = A.node.o, A.bst.o
            eng.ob(st, 'requires', 'a release function gets what it is for', Or(z3.And(p.eq(field(st, b, 'keyfree')), av[0].eq(key(st, n))), z3.And(p.eq(field(st, b, 'valfree')), av[0].eq(val(st, n)))))
            eng.ob(st, 'requires', 'a block that exists', z3.And(av[0].f == 0, st.alive(av[0].o)))
            st.live = z3.Store(st.live, av[0].o, False)
            return None
        if eng.cur == 'u_bst_node_foreach':
            o = av[0].o
            eng.ob(st, 'requires', 'the function of the caller, with its argument', z3.And(p.eq(A.cb), av[1].eq(A.cb_args)))
            eng.ob(st, 'requires', 'the next node in order', z3.And(av[0].f == 0, own(st, o) == 1, C(st, pos(st, o)) == st.g['vis'] + 1))
            st.g['vis'] = st.g['vis'] + 1
            return None
        raise Unsupported('indirect call')
    return dict(models=M, indirect=ind, extra_types=('i8', 'i32', 'i64', 'po', 'pf'))
