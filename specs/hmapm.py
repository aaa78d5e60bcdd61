"""Contracts for srcs/toolbox/hmap.c, part two: the map (the discard queue is in hmap.py).

A map m with table B of n buckets holds the elements o with own[o] = m (ghost), each in the bucket at
byte slot[o] of B.  RANK(key) is the place of a key in the order the comparison function induces;
BUK(rank, n) the bucket the hash function names.  CARD(own, m): how many elements m holds."""
from lvc.engine import *
from lvc import libc
from lvc.ir import Unsupported
from . import hmap as H
from .hmap import W, RANK, cell, isp, own, qown, aux, opts, opt, policy, ops, shape, kept, sizes, mem_outside, cells_kept

BUK = z3.Function('BUK', z3.IntSort(), z3.IntSort(), z3.IntSort())
CARD = z3.Function('CARD', INNER, z3.IntSort(), z3.IntSort())
CHAIN, LINEAR = 0, 1
PUSH = []
OWNS, NOOVER, STRONG = 1, 2, 4


def slot(S, o):
    return z3.Select(S.g['slot'], o)


def table(S, m):
    return cell(S, m, W.H['hmap'])


def fld(S, m, f):
    return z3.Select(S.inner('i64', m), W.H[f])


def n_(S, m):
    return fld(S, m, 'size')


def count(S, m):
    return fld(S, m, 'sz')


def kind(S, m):
    return opt(S, m, 'type')


def head(S, m, k):
    return cell(S, table(S, m).o, k)


def nxt(S, o):
    return cell(S, o, W.ON)


def prv(S, o):
    return cell(S, o, W.OP)


def key(S, o):
    return cell(S, o, W.O['key'])


def rank(S, o):
    k = key(S, o)
    return RANK(k.o, k.f)


def has(o, bit):
    return z3.Extract(0, 0, o) == 1


def isin(S, m):
    return lambda o: own(S, o) == m


def po(S):
    return lambda o: own(S, o)


def po2(S):
    return lambda p, q: z3.MultiPattern(own(S, p), own(S, q))


def bucket(S, m, r):
    """byte offset of the bucket a key of rank r starts from"""
    return 8 * BUK(r, n_(S, m))


def buk_ok(S, m):
    n = n_(S, m)
    return ('the hash function names a bucket', forall(lambda r: z3.And(BUK(r, n) >= 0, BUK(r, n) < n), pats=lambda r: BUK(r, n)))


def onway(a, k, b):
    """k is on the way from a to b, going up and around"""
    return If(a <= b, z3.And(a <= k, k <= b), Or(a <= k, k <= b))


def every(S, m, f, at=None):
    return forall(lambda o: Implies(own(S, o) == m, f(o)), pats=(lambda o: at(S, o).o) if at else po(S))


def table_ok(S, m):
    B, n = table(S, m), n_(S, m)
    return [('the table', z3.And(B.f == 0, B.o > S.eng.NG, S.alive(B.o), n > 0, n < 2**48, S.sz(B.o) == 8 * n, B.o != m, B.o != opts(S, m).o, own(S, B.o) == 0, qown(S, B.o) == 0, aux(S, B.o) == 0)),
            ('the map object has one role', z3.And(own(S, m) == 0, qown(S, m) == 0, aux(S, m) == 0, own(S, opts(S, m).o) == 0, qown(S, opts(S, m).o) == 0, aux(S, opts(S, m).o) == 0)),
            ('its functions', z3.And(*[Not(cell(S, opts(S, m).o, W.T[f]).null()) for f in ('f_comp', 'f_hash')])),
            ('its kind', Or(kind(S, m) == CHAIN, kind(S, m) == LINEAR))]


def lists(S, m, hole=None):
    """the buckets and their elements"""
    B, n = table(S, m), n_(S, m)
    A_ = lambda f: every(S, m, f)
    hd = lambda k: head(S, m, k)
    inn = lambda o: own(S, o) == m
    AA = lambda f: forall(lambda p, q: Implies(z3.And(inn(p), inn(q)), f(p, q)), n=2, pats=po2(S))
    inr = lambda k: z3.And(k >= 0, k < 8 * n, k % 8 == 0)
    return [('elements', A_(lambda o: z3.And(o > S.eng.NG, S.alive(o), S.sz(o) == W.OSZ, o != m, o != B.o, o != opts(S, m).o, qown(S, o) == 0, aux(S, o) == 0, inr(slot(S, o))))),
            ('buckets', forall(lambda k: Implies(inr(k), z3.And(hd(k).f == 0, Or(hd(k).o == 0, z3.And(inn(hd(k).o), slot(S, hd(k).o) == k, isp(prv(S, hd(k).o), B.o, k))))), pats=lambda k: hd(k).o)),
            ('next elements', every(S, m, lambda o: z3.And(nxt(S, o).f == 0, Or(nxt(S, o).o == 0, z3.And(inn(nxt(S, o).o), slot(S, nxt(S, o).o) == slot(S, o), isp(prv(S, nxt(S, o).o), o, W.ON), rank(S, nxt(S, o).o) > rank(S, o)))), nxt)),
            ('previous elements', every(S, m, lambda o: Or(z3.And(isp(prv(S, o), B.o, slot(S, o)), hd(slot(S, o)).o == o), z3.And(prv(S, o).f == W.ON, inn(prv(S, o).o), slot(S, prv(S, o).o) == slot(S, o), isp(nxt(S, prv(S, o).o), o))), prv)),
            ('a bucket starts with its least key', A_(lambda o: z3.And(hd(slot(S, o)).o != 0, rank(S, hd(slot(S, o)).o) <= rank(S, o)))),
            ('bucket order', forall(lambda p, q: Implies(z3.And(inn(p), inn(q), slot(S, p) == slot(S, q), rank(S, p) > rank(S, q)), z3.And(nxt(S, q).o != 0, rank(S, p) >= rank(S, nxt(S, q).o))), n=2, pats=lambda p, q: z3.MultiPattern(own(S, p), nxt(S, q).o))),
            ('each key once', AA(lambda p, q: Implies(rank(S, p) == rank(S, q), p == q)))]


def places(S, m):
    """elements are where a search finds them"""
    return [('chains: in the bucket of its key', Implies(kind(S, m) == CHAIN, every(S, m, lambda o: slot(S, o) == bucket(S, m, rank(S, o))))),
            ('probing: one element per bucket', Implies(kind(S, m) == LINEAR, every(S, m, lambda o: nxt(S, o).null()))),
            ('probing: no empty bucket on the way to an element', Implies(kind(S, m) == LINEAR, forall(lambda o, k: Implies(z3.And(own(S, o) == m, k >= 0, k < 8 * n_(S, m), k % 8 == 0, onway(bucket(S, m, rank(S, o)), k, slot(S, o))), head(S, m, k).o != 0),
                                                                               n=2, pats=lambda o, k: z3.MultiPattern(own(S, o), head(S, m, k).o))))]


def map_ok(S, m):
    return shape(S, m) + table_ok(S, m) + [buk_ok(S, m)] + lists(S, m) + places(S, m)


def outside(S, m, p):
    """a cell of the caller's: not within the map"""
    return z3.And(p.o != m, p.o != opts(S, m).o, p.o != table(S, m).o, own(S, p.o) == 0, qown(S, p.o) == 0, aux(S, p.o) == 0)


def bit(x, k):
    return (x / (1 << k)) % 2 == 1


def owns(S, m):
    return bit(opt(S, m, 'options'), 0)


def data_ok(S, m, o):
    """key and value blocks belong to the element when the map owns them"""
    k, v = key(S, o), cell(S, o, W.O['val'])
    blk = lambda p, t: Implies(opt(S, m, t) != 0, z3.And(p.f == 0, p.o > S.eng.NG, S.alive(p.o), aux(S, p.o) == o, p.o != o))
    both = Implies(z3.And(opt(S, m, 'key_type') != 0, opt(S, m, 'val_type') != 0), k.o != v.o)
    return Implies(owns(S, m), z3.And(blk(k, 'key_type'), blk(v, 'val_type'), both))


def freed_block(S, m, o):
    """which blocks go with the element"""
    k, v = key(S, o), cell(S, o, W.O['val'])
    own_ = cell(S, opts(S, m).o, W.T['f_free']).null()
    return k, v, z3.And(own_, opt(S, m, 'key_type') != 0), z3.And(own_, opt(S, m, 'val_type') != 0)


def aux_left(S, m, o):
    k, v, _, _ = freed_block(S, m, o)
    a = S.g['aux']
    a = If(z3.And(owns(S, m), opt(S, m, 'key_type') != 0), z3.Store(a, k.o, I(0)), a)
    return If(z3.And(owns(S, m), opt(S, m, 'val_type') != 0), z3.Store(a, v.o, I(0)), a)


def released(S0, S, m, o):
    k, v, fk, fv = freed_block(S0, m, o)
    return [('the element and what it owns are released, nothing else', forall(lambda b: S.alive(b) == z3.And(S0.alive(b), b != o, Not(z3.And(fk, b == k.o)), Not(z3.And(fv, b == v.o))), pats=lambda b: z3.Select(S.live, b))),
            ('its key and value belong to no element any more', S.g['aux'] == aux_left(S0, m, o))]


def flags(S, m):
    return ('flags', z3.And(opt(S, m, 'options') >= 0, opt(S, m, 'options') < 8, *[z3.And(opt(S, m, t) >= 0, opt(S, m, t) <= 2) for t in ('key_type', 'val_type')]))


def pqe(S, o):
    return cell(S, o, W.O['pqe'])


def uses(S, o):
    return H.count(S, pqe(S, o).o)


def at_front(S0, S, m, o):
    """o comes before all other elements in the queue; those are as they were"""
    x = pqe(S, o).o
    return z3.And(H.first(S, m).o == x, forall(lambda q: Implies(z3.And(qown(S, q) == m, q != x), z3.And(H.pos(S, x) < H.pos(S, q), H.pos(S, q) == H.pos(S0, q))), pats=H.pq(S)))


def linked(S, m):
    """every element has its node in the discard queue, and the other way round"""
    x = lambda o: pqe(S, o)
    return [('each element has its node', Implies(policy(S, m) != H.NONE, every(S, m, lambda o: z3.And(x(o).f == 0, qown(S, x(o).o) == m, isp(H.ho(S, x(o).o), o)), pqe))),
            ('each node has its element', forall(lambda q: Implies(qown(S, q) == m, z3.And(policy(S, m) != H.NONE, own(S, H.ho(S, q).o) == m, isp(pqe(S, H.ho(S, q).o), q))), pats=lambda q: H.ho(S, q).o)),
            ('no policy: no nodes', Implies(policy(S, m) == H.NONE, every(S, m, lambda o: x(o).null())))]


def card(S, m):
    """the count is the number of elements"""
    return ('the count', z3.And(count(S, m) == CARD(S.g['own'], m), CARD(S.g['own'], m) >= 0))


def without(S, m, e):
    """what CARD means when e leaves"""
    o = S.g['own']
    S.add(Implies(z3.Select(o, e) == m, z3.And(CARD(z3.Store(o, e, I(0)), m) == CARD(o, m) - 1, CARD(o, m) >= 1)))


def with_(S, m, e):
    o = S.g['own']
    S.add(Implies(z3.Select(o, e) != m, CARD(z3.Store(o, e, m), m) == CARD(o, m) + 1))


def the(S, m, k):
    """an element with key k, if there is one"""
    e = z3.FreshConst(z3.IntSort(), 'the')
    S.add(Or(z3.And(own(S, e) == m, rank(S, e) == k), every(S, m, lambda o: rank(S, o) != k)))
    return e


def whole(S, m, lemmas=()):
    B = table(S, m)
    return map_ok(S, m) + H.queue(S, m) + list(lemmas) + linked(S, m) + [('elements own their data', every(S, m, lambda o: data_ok(S, m, o))), flags(S, m),
            card(S, m), ('the table has no role', z3.And(own(S, B.o) == 0, qown(S, B.o) == 0, aux(S, B.o) == 0))] + H.ghosts_ok(S)


def tidy(S):
    """names for what the branches merged into if-then-else (not allowed in patterns)"""
    for k in list(S.M):
        S.M[k] = named_map(S, k)
    for g in list(S.g):
        if has_ite(S.g[g]):
            S.g[g] = S.eng.named_g(S, S.g[g])
    if has_ite(S.live):
        S.live = S.eng.named_g(S, S.live)


def contracts(mod):
    W.init(mod)
    G = (('own', INNER), ('slot', INNER), ('qown', INNER), ('aux', INNER), ('pos', H.REALA))
    GG = G + (('gone', z3.IntSort()),)
    qs = H.contracts(mod)
    # the push method of the policy in force: what __queue_push, __queue_push_count, __queue_push_cmp have in common,
    # and what each adds under its policy
    X = H.METHOD
    pc = [c for c in qs if c.fn == '__queue_push_count'][0]

    def args(A):
        A.__dict__.setdefault('data', A[2])
        return A

    def any_pre(S, A):
        A = args(A)
        p = policy(S, A.hmap.o)
        return X['pre']('data')(S, A) + [p != H.NONE, Implies(p == H.LFU, X['uses'](S, A)), Implies(p == H.CUSTOM, pqe(S, A.obj.o).null())]

    def any_more(S0, S, A, ok, x):
        p = policy(S0, A.hmap.o)
        c = X['counted'](S0, S, A, ok, x)
        d = H.data(S, x).o
        return [(l, Implies(Or(p == H.FIFO, p == H.LRU), f)) for l, f in X['front'](S0, S, A, ok, x)] + [(c[0][0], Implies(p == H.LFU, c[0][1]))] + \
            mem_outside(S0, S, lambda o: Or(Not(ok), p != H.LFU, o != d), ('i32',))
    PUSH[:] = [Contract('__queue_push', any_pre, lambda S0, S, A, r: X['post'](any_more)(S0, S, args(A), r), pc.mods, ghosts=G)]
    bucket_c = Contract('__bucket', lambda S, A: shape(S, A.hmap.o) + [A.hmap.f == 0, n_(S, A.hmap.o) > 0, buk_ok(S, A.hmap.o)],
                        lambda S0, S, A, r: [('the bucket of the key', r == BUK(RANK(A.key.o, A.key.f), n_(S0, A.hmap.o)))], lambda S, A: [])
    bucket_c.assumed = True

    def get_pre(S, A):
        m = A.hmap.o
        return [A.hmap.f == 0] + map_ok(S, m) + [('the result cell is the caller\'s', outside(S, m, A.o)), ('arguments', z3.And(Not(A.key.null()), Not(A.o.null()), S.valid(A.o, 8)))]

    def found(S, m, r, e):
        return z3.And(e.f == 0, own(S, e.o) == m, rank(S, e.o) == r)

    def chain_inv(SE, S, v, A):
        m, o = A.hmap.o, v.obj
        r = RANK(A.key.o, A.key.f)
        return [('in the bucket', Or(o.null(), z3.And(o.f == 0, own(S, o.o) == m, slot(S, o.o) == bucket(S, m, r)))),
                ('those passed have other keys', every(S, m, lambda q: Implies(z3.And(slot(S, q) == bucket(S, m, r), Or(o.null(), rank(S, q) < rank(S, o.o))), rank(S, q) != r)))]

    def dist(S, m, b, q):
        return If(slot(S, q) >= b, slot(S, q) - b, slot(S, q) - b + 8 * n_(S, m))

    def probe_inv(SE, S, v, A):
        m, i, h, x = A.hmap.o, v.i, v.hash, v.x
        r = RANK(A.key.o, A.key.f)
        n = n_(S, m)
        b = BUK(r, n)
        return [('so many buckets', z3.And(i >= 0, i <= n, h == If(b + i < n, b + i, b + i - n), h < n)), ('at that bucket', isp(x, table(S, m).o, 8 * h)),
                ('those passed have other keys', every(S, m, lambda q: Implies(dist(S, m, 8 * b, q) < 8 * i, rank(S, q) != r)))]

    def get_post(S0, S, A, r):
        m = A.hmap.o
        k = RANK(A.key.o, A.key.f)
        e = cell(S, A.o.o, A.o.f)
        return [('0 or failure', Or(r == 0, r == 2)), ('found: the element with that key', Implies(r == 0, found(S0, m, k, e))),
                ('not found: no element has that key', Implies(r != 0, every(S0, m, lambda o: rank(S0, o) != k)))]
    get = Contract('__get', get_pre, get_post, lambda S, A: [('cell', 'p', A.o)], ghosts=G,
                   loops={0: LoopSpec(chain_inv), 1: LoopSpec(probe_inv, measure=lambda S, v: n_(S, v.hmap.o) - v.i)})

    # ------------------------------------------------------------- linear probing: closing the hole a deletion leaves
    def keeps(S0, S, m):
        """elements keep what they hold"""
        return ('elements keep key, value and node', forall(lambda o: Implies(own(S0, o) != 0, cells_kept(S0, S, o, [W.O['key'], W.O['val'], W.O['pqe'], W.O['hmap']])), pats=lambda o: S.inner('po', o)))

    def links_only(S0, S, m):
        B = table(S0, m).o
        return [keeps(S0, S, m)] + mem_outside(S0, S, lambda o: z3.And(o != B, own(S0, o) != m))

    def holed(S, m, hole, i=None):
        """like places(), with an empty bucket at hole; elements before i have been dealt with"""
        b = lambda o: bucket(S, m, rank(S, o))
        w = [k for k in places(S, m)][1]
        late = lambda o: z3.BoolVal(True) if i is None else Not(onway(hole, slot(S, o), i - 8))
        return [w, ('an empty bucket', head(S, m, hole).o == 0),
                ('no other empty bucket on the way to an element', forall(lambda o, k: Implies(z3.And(own(S, o) == m, k >= 0, k < 8 * n_(S, m), k % 8 == 0, onway(b(o), k, slot(S, o))), Or(head(S, m, k).o != 0, z3.And(k == hole, late(o)))),
                                                                          n=2, pats=lambda o, k: z3.MultiPattern(own(S, o), head(S, m, k).o)))]

    def fill_pre(S, A):
        m = A.hmap.o
        return [A.hmap.f == 0] + shape(S, m) + table_ok(S, m) + [buk_ok(S, m)] + lists(S, m) + \
            [('linear probing', kind(S, m) == LINEAR), ('the hole', z3.And(A.hole >= 0, A.hole < n_(S, m)))] + holed(S, m, 8 * A.hole)

    def fill_inv(SE, S, v, A):
        m, i, h = A.hmap.o, v.i, v.hole
        n = n_(S, m)
        return [('in the table', z3.And(i >= 0, i < n, h >= 0, h < n)), ('the map object', z3.And(n == n_(SE, m), table(S, m).eq(table(SE, m)), opts(S, m).eq(opts(SE, m))))] + \
            lists(S, m) + holed(S, m, 8 * h, 8 * i) + \
            [('dealt with: occupied', forall(lambda k: Implies(z3.And(k >= 0, k < 8 * n, k % 8 == 0, k != 8 * h, onway(8 * h, k, If(i == 0, 8 * (n - 1), 8 * (i - 1)))), head(S, m, k).o != 0), pats=lambda k: head(S, m, k).o))] + links_only(SE, S, m)

    def fill_step(SH, S, vh, v, A):
        m = A.hmap.o
        e = head(SH, m, 8 * vh.i).o
        S.g['slot'] = S.eng.named_g(S, If(v.hole == vh.hole, SH.g['slot'], z3.Store(SH.g['slot'], e, 8 * vh.hole)))

    def fill_post(S0, S, A, r):
        m = A.hmap.o
        return [kept(S0, S, 'own', 'qown', 'aux', 'pos')] + shape(S, m) + table_ok(S, m) + lists(S, m) + places(S, m) + links_only(S0, S, m)
    fill = Contract('__linear_fill', fill_pre, fill_post, lambda S, A: [('mem', 'p'), ('ghost', 'slot')], ghosts=G, loops={0: LoopSpec(fill_inv, step=fill_step)})

    # ------------------------------------------------------------- what an element owns
    def free_pre(S, A):
        m, o = A.hmap.o, A.obj.o
        return [A.hmap.f == 0, A.obj.f == 0] + shape(S, m) + [owns(S, m), flags(S, m), table_ok(S, m)[1], ('an element on its own', z3.And(o > S.eng.NG, S.alive(o), S.sz(o) == W.OSZ, o != m, o != opts(S, m).o, own(S, o) == 0, qown(S, o) == 0, aux(S, o) == 0)), ('its key and value are its own', data_ok(S, m, o))] + H.ghosts_ok(S)

    def free_ghost(S0, S, A, r):
        S.g['aux'] = S.eng.named_g(S, aux_left(S0, A.hmap.o, A.obj.o))

    def free_post(S0, S, A, r):
        return released(S0, S, A.hmap.o, A.obj.o) + H.ghosts_ok(S) + [sizes(S0, S)]
    ofree = Contract('__o_free', free_pre, free_post, lambda S, A: [('heap',), ('ghost', 'aux')], ghosts=G, ghost=free_ghost)

    # ------------------------------------------------------------- lookup
    def ugett_pre(S, A):
        m = A.hmap.o
        return [A.hmap.f == 0] + whole(S, m) + [('arguments', z3.And(Not(A.key.null()), Not(A.obj.null()), S.valid(A.obj, 8))), ('the result cell is the caller\'s', outside(S, m, A.obj))] + \
            [('room for one more use', Implies(policy(S, m) == H.LFU, every(S, m, lambda o: H.count(S, cell(S, o, W.O['pqe']).o) < 2**31 - 1)))]

    def unchanged(S0, S, m):
        """the map holds what it held"""
        return [kept(S0, S, 'own', 'slot'), ('its options', opts(S, m).eq(opts(S0, m))), ('keys and values', forall(lambda o: Implies(own(S0, o) == m, cells_kept(S0, S, o, [W.O['key'], W.O['val']])), pats=lambda o: S.inner('po', o)))]

    def uget_post(S0, S, A, r):
        m = A.hmap.o
        k = RANK(A.key.o, A.key.f)
        e = cell(S, A.obj.o, A.obj.f)
        return [('0 or failure', Or(r == 0, r == 2)), ('found: the element with that key', Implies(r == 0, found(S0, m, k, e))),
                ('not found: none has that key', Implies(r != 0, every(S0, m, lambda o: rank(S0, o) != k))), ('a result or NULL', Implies(r != 0, e.null())),
                ('only policies that count lookups reorder', Implies(Or(r != 0, policy(S0, m) == H.NONE, policy(S0, m) == H.FIFO, policy(S0, m) == H.CUSTOM), z3.And(S.g['pos'] == S0.g['pos']))),
                ('least recently used: the element moves to the front', Implies(z3.And(r == 0, policy(S0, m) == H.LRU), at_front(S0, S, m, e.o))),
                ('least frequently used: one use more', Implies(z3.And(r == 0, policy(S0, m) == H.LFU), uses(S, e.o) == uses(S0, e.o) + 1)),
                kept(S0, S, 'own', 'slot', 'qown', 'aux')] + unchanged(S0, S, m) + [('lemma: elements keep their links', forall(lambda o: Implies(own(S0, o) == m, z3.And(nxt(S, o).eq(nxt(S0, o)), prv(S, o).eq(prv(S0, o)))), pats=lambda o: S.inner('po', o)))] + whole(S, m, [('lemma: nodes keep their elements', forall(lambda q: Implies(qown(S0, q) == m, isp(H.ho(S, q), H.ho(S0, q).o)), pats=H.pq(S0))), ('lemma: elements keep their nodes', forall(lambda o: Implies(own(S0, o) == m, pqe(S, o).eq(pqe(S0, o))), pats=po(S0))),
                            ('lemma: the data types are as they were', z3.And(*[opt(S, m, t) == opt(S0, m, t) for t in ('options', 'key_type', 'val_type')])), ('lemma: elements keep their data', forall(lambda o: Implies(own(S0, o) == m, data_ok(S0, m, o)), pats=po(S0))),
                            ('lemma: the same blocks exist', forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o)))])
    uget = Contract('u_hmap_get', ugett_pre, uget_post, lambda S, A: [('cell', 'p', A.obj), ('mem', ('p', 'i32', 'i64')), ('heap',)] + [('ghost', g) for g in ('qown', 'pos', 'aux')], ghosts=G)

    # ------------------------------------------------------------- deletion
    def leaves(S, m, e):
        """ghost code: e is not an element any more"""
        without(S, m, e)
        S.g['own'] = S.eng.named_g(S, If(own(S, e) == m, z3.Store(S.g['own'], e, I(0)), S.g['own']))

    def say(S, label, f):
        S.eng.ob(S, 'lemma', label, f)

    def still(S0, S, m):
        """the objects of the map are there, the options are the same"""
        t, B = opts(S0, m).o, table(S0, m).o
        say(S, 'the map object keeps its table and options', z3.And(cells_kept(S0, S, m, [W.H['opts'], W.H['hmap'], W.PC + W.P['push'], W.PC + W.P['pop']]), n_(S, m) == n_(S0, m), ops(S, m) == ops(S0, m)))
        say(S, 'the options are as they were', z3.And(*[S.inner(k, t) == S0.inner(k, t) for k in ('po', 'pf', 'i32')]))
        say(S, 'the objects of the map are there', z3.And(*[z3.And(S.alive(o), S.sz(o) == S0.sz(o)) for o in (m, t, B)]))
        say(S, 'the objects of the map have no role', z3.And(*[z3.And(own(S, o) == 0, qown(S, o) == 0, aux(S, o) == 0) for o in (m, t, B)]))

    def taken(S0, S, m, e):
        say(S, 'the element that leaves', z3.And(own(S0, e) == m, S.alive(e), S.sz(e) == W.OSZ, cells_kept(S0, S, e, [W.O['key'], W.O['val']]), qown(S, e) == 0, aux(S, e) == 0, e != opts(S0, m).o, e != table(S0, m).o, e != m))
        say(S, 'the others keep key, value and node', forall(lambda o: Implies(z3.And(own(S0, o) == m, o != e), z3.And(o != table(S0, m).o, S.alive(o), cells_kept(S0, S, o, [W.O['key'], W.O['val'], W.O['pqe']]))), pats=po(S0)))

    def del_fill(S, av, A):
        A.__dict__['_fill'] = True
        del_out(S, av, A)
        A.__dict__['_fill'] = False

    def del_out(S, av, A):
        A.__dict__.setdefault('_fill', False)
        tidy(S)
        still(A.S0, S, A.hmap.o)
        m, e = A.hmap.o, S.g['gone']
        if A._fill:
            say(S, 'the hole is its bucket', 8 * av[1] == slot(A.S0, e))
            say(S, 'probing: its bucket is empty now', head(S, m, slot(A.S0, e)).o == 0)
            say(S, 'the other buckets are as they were', forall(lambda k: Implies(k != slot(A.S0, e), head(S, m, k).o == head(A.S0, m, k).o), pats=lambda k: head(S, m, k).o))
        taken(A.S0, S, A.hmap.o, S.g['gone'])
        leaves(S, A.hmap.o, S.g['gone'])

    def udel_pre(S, A):
        m = A.hmap.o
        return [A.hmap.f == 0] + whole(S, m) + [('arguments', z3.And(Not(A.key.null()), Or(A.obj.null(), z3.And(S.valid(A.obj, 8), outside(S, m, A.obj)))))]

    def udel_entry(S, A):
        S.g['gone'] = the(S, A.hmap.o, RANK(A.key.o, A.key.f))
        m, e = A.hmap.o, S.g['gone']
        h = head(S, m, slot(S, e)).o
        say(S, 'probing: the element is alone in its bucket', Implies(z3.And(own(S, e) == m, kind(S, m) == LINEAR), z3.And(nxt(S, e).null(), isp(prv(S, e), table(S, m).o, slot(S, e)), h == e, slot(S, e) >= 0, slot(S, e) < 8 * n_(S, m), slot(S, e) % 8 == 0)))
        A.__dict__['S0'] = S.snap()

    def udel_ghost(S0, S, A, r):
        tidy(S)
        still(S0, S, A.hmap.o)
        m = A.hmap.o
        e = S.g['gone']
        without(S0, m, e)
        ok = r == 0
        S.g['own'] = S.eng.named_g(S, If(ok, z3.Store(S0.g['own'], e, I(0)), S0.g['own']))

    def gone_blocks(S0, m, e):
        """the blocks released with element e: its queue node with its use count, and (owned data) itself, key and value"""
        x = pqe(S0, e).o
        d = H.data(S0, x).o
        k, v, fk, fv = freed_block(S0, m, e)
        o = owns(S0, m)
        return lambda b: Or(z3.And(x != 0, Or(b == x, z3.And(b == d, d != 0))), z3.And(o, Or(b == e, z3.And(fk, b == k.o), z3.And(fv, b == v.o))))

    def took(S0, S, m, e):
        """exactly e has left"""
        x = pqe(S0, e).o
        return [('one element fewer', z3.And(own(S0, e) == m, S.g['own'] == z3.Store(S0.g['own'], e, I(0)))), ('one counted fewer', count(S, m) == count(S0, m) - 1),
                ('it has left the queue', S.g['qown'] == If(x != 0, z3.Store(S0.g['qown'], x, I(0)), S0.g['qown'])), kept(S0, S, 'pos'),
                ('it is released with what it owns and its node, nothing else', forall(lambda b: S.alive(b) == z3.And(S0.alive(b), Not(gone_blocks(S0, m, e)(b))), pats=lambda b: z3.Select(S.live, b))), sizes(S0, S),
                ('the others keep key, value and node', forall(lambda o: Implies(z3.And(own(S0, o) == m, o != e), cells_kept(S0, S, o, [W.O['key'], W.O['val'], W.O['pqe']])), pats=lambda o: S.inner('po', o))),
                ('nodes keep their elements', forall(lambda q: Implies(z3.And(qown(S0, q) == m, q != x), cells_kept(S0, S, q, [W.Q['ho'], W.Q['data']])), pats=lambda q: S.inner('po', q)))]

    def far(S0, S, m, *cells):
        """what is not the map's stays as it is"""
        return mem_outside(S0, S, lambda o: z3.And(o != m, o != table(S0, m).o, own(S0, o) != m, qown(S0, o) != m, *[o != c for c in cells]))

    def same_map(S0, S, m):
        return [('the map object keeps its table and options', z3.And(cells_kept(S0, S, m, [W.H['opts'], W.H['hmap']]), n_(S, m) == n_(S0, m)))]

    def udel_post(S0, S, A, r):
        m = A.hmap.o
        k = RANK(A.key.o, A.key.f)
        e = S.g['gone']
        ok = r == 0
        given = cell(S, A.obj.o, A.obj.f)
        return [('0 or failure', Or(ok, r == 2)), ('fails exactly when no element has that key', Implies(Not(ok), every(S0, m, lambda o: rank(S0, o) != k))),
                ('takes the element with that key', Implies(ok, z3.And(own(S0, e) == m, rank(S0, e) == k))),
                ('hands it out if the user owns the data', Implies(Not(A.obj.null()), If(z3.And(ok, Not(owns(S0, m))), isp(given, e), given.null()))),
                ('what it hands out keeps key and value', Implies(z3.And(ok, Not(owns(S0, m))), z3.And(cells_kept(S0, S, e, [W.O['key'], W.O['val']]), pqe(S, e).null())))] + \
            [(l, Implies(ok, f)) for l, f in took(S0, S, m, e)] + [('or nothing changes', Implies(Not(ok), z3.And(*[S.g[g] == S0.g[g] for g in ('own', 'slot', 'qown', 'pos', 'aux')], S.live == S0.live, count(S, m) == count(S0, m))))] + \
            same_map(S0, S, m) + far(S0, S, m, A.obj.o) + whole(S, m)
    udel = Contract('u_hmap_del', udel_pre, udel_post, lambda S, A: [('cell', 'p', A.obj), ('mem', ('p',)), ('obj', ('i64',), A.hmap.o), ('heap',)] + [('ghost', g) for g, _ in GG], ghosts=GG, ghost=udel_ghost, entry=udel_entry,
                    before={'__linear_fill': del_fill, '__o_free': del_out})

    return qs + [bucket_c, get, fill, ofree, uget, udel]


def options(mod):
    M = dict(libc.MODELS)

    def ind(eng, st, p, av, x):
        m = eng.cur_args['hmap'].o
        f = lambda n: cell(st, opts(st, m).o, W.T[n])
        if eng.cur in ('__get', 'u_hmap_put'):
            eng.ob(st, 'requires', 'the comparison function of the map', p.eq(f('f_comp')))
            r = eng.fresh_of(st, x.ty, 'cmp')
            a, b = RANK(av[0].o, av[0].f), RANK(av[1].o, av[1].f)
            st.add((r > 0) == (a > b))
            st.add((r < 0) == (a < b))
            return r
        if eng.cur == '__o_free':
            o = eng.cur_args['obj'].o
            k, v = cell(st, o, W.O['key']), cell(st, o, W.O['val'])
            for n, a in (('f_free', Ptr(o, I(0))), ('f_key_free', k), ('f_val_free', v)):
                if eng.implied(st, p.eq(f(n))):
                    eng.ob(st, 'requires', 'the release function gets what it is for (%s)' % n, av[0].eq(a))
                    return None
        if eng.cur in ('u_hmap_get', 'u_hmap_put', '__o_overwrite'):
            eng.ob(st, 'requires', 'the method of the policy', z3.And(p.eq(cell(st, m, W.PC + W.P['push'])), policy(st, m) != H.NONE))
            return eng.apply_contract(st, PUSH[0], av, x)
        raise Unsupported('indirect call')
    return dict(models=M, indirect=ind, extra_types=('i32', 'i64', 'p'))
