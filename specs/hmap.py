"""Contracts for srcs/toolbox/hmap.c.

A map m owns the elements o with own[o] = m (ghost), each in bucket slot[o]; a bucket is a list
ordered by RANK(key), the order the comparison function induces.  The discard queue of m holds the
nodes q with qown[q] = m at positions pos[q] (ghost, real numbers: only their order counts).
aux[k] = o: the block k (key, value, use count) belongs to the element or queue node o."""
from lvc.engine import *
from lvc import libc
from lvc.ir import Unsupported

REALA = z3.ArraySort(z3.IntSort(), z3.RealSort())
RANK = z3.Function('RANK', z3.IntSort(), z3.IntSort(), z3.IntSort())     # of the key a pointer denotes
PRIO = z3.Function('PRIO', z3.IntSort(), z3.IntSort(), z3.IntSort())     # of the value (custom policy)
NONE, FIFO, LRU, LFU, CUSTOM = range(5)
METHOD = {}      # what the contracts of the push methods are made of (used where a method is called through its pointer)


class W:
    """field offsets and the invariants"""
    @staticmethod
    def init(mod):
        W.H, W.O, W.Q, W.P, W.T = (mod.di_struct(n) for n in ('u_hmap_s', 'u_hmap_o_s', 'u_hmap_q_s', 'u_hmap_pcy_s', 'u_hmap_opts_s'))
        W.HSZ, W.OSZ, W.QSZ, W.TSZ = (x['__size__'] for x in (W.H, W.O, W.Q, W.T))
        W.PC = W.H['pcy']
        W.QF, W.QL = W.PC + W.P['queue'], W.PC + W.P['queue'] + 8
        W.QN, W.QP = W.Q['next'], W.Q['next'] + 8
        W.ON, W.OP = W.O['next'], W.O['next'] + 8
        W.OPS = W.PC + W.P['ops']


def cell(S, o, f):
    return Ptr(z3.Select(S.inner('po', o), f), z3.Select(S.inner('pf', o), f))


def isp(p, o, f=0):
    return z3.And(p.o == o, p.f == f)


def own(S, o):
    return z3.Select(S.g['own'], o)


def qown(S, o):
    return z3.Select(S.g['qown'], o)


def aux(S, o):
    return z3.Select(S.g['aux'], o)


def pos(S, o):
    return z3.Select(S.g['pos'], o)


def opts(S, m):
    return cell(S, m, W.H['opts'])


def opt(S, m, f, t='i32'):
    return z3.Select(S.inner(t, opts(S, m).o), W.T[f])


def policy(S, m):
    return opt(S, m, 'policy')


def ops(S, m):
    return z3.Select(S.inner('i32', m), W.OPS)


def shape(S, m):
    """the map object itself, its options and its policy"""
    t = opts(S, m)
    p = policy(S, m)
    g = S.eng.gptr

    def fn(f, n):
        return cell(S, m, W.PC + W.P[f]).eq(g('@' + n))
    return [('map object', z3.And(m > S.eng.NG, S.alive(m), S.sz(m) == W.HSZ)),
            ('options', z3.And(t.f == 0, t.o > S.eng.NG, t.o != m, S.alive(t.o), S.sz(t.o) == W.TSZ)),
            ('policy', z3.And(p >= 0, p <= 4,
                              Implies(p == NONE, ops(S, m) == 0),
                              Implies(p == FIFO, z3.And(fn('push', '__queue_push'), fn('pop', '__queue_pop_back'), ops(S, m) == 1)),
                              Implies(p == LRU, z3.And(fn('push', '__queue_push'), fn('pop', '__queue_pop_back'), ops(S, m) == 3)),
                              Implies(p == LFU, z3.And(fn('push', '__queue_push_count'), fn('pop', '__queue_pop_front'), ops(S, m) == 3)),
                              Implies(p == CUSTOM, z3.And(Not(cell(S, t.o, W.T['f_pcy_cmp']).null()), fn('push', '__queue_push_cmp'), fn('pop', '__queue_pop_back'), ops(S, m) == 1))))]


def first(S, m):
    return cell(S, m, W.QF)


def last(S, m):
    return cell(S, m, W.QL)


def qnext(S, q):
    return cell(S, q, W.QN)


def qprev(S, q):
    return cell(S, q, W.QP)


def ho(S, q):
    return cell(S, q, W.Q['ho'])


def data(S, q):
    return cell(S, q, W.Q['data'])


def count(S, q):
    return z3.Select(S.inner('i32', data(S, q).o), 0)


def prio(S, q):
    v = cell(S, ho(S, q).o, W.O['val'])
    return PRIO(v.o, v.f)


def pq(S):
    return lambda q: z3.Select(S.g['qown'], q)


def pq2(S):
    return lambda p, q: z3.MultiPattern(z3.Select(S.g['qown'], p), z3.Select(S.g['qown'], q))


def queue(S, m, sorted_=True, skip=None):
    """the discard queue"""
    F, L = first(S, m), last(S, m)
    isin = lambda q: qown(S, q) == m
    A_ = lambda b: forall(lambda q: Implies(isin(q), b(q)), pats=pq(S))
    AA = lambda b: forall(lambda p, q: Implies(z3.And(isin(p), isin(q)), b(p, q)), n=2, pats=pq2(S))
    out = [('queue ends', z3.And(F.f == 0, If(F.o == 0, isp(L, m, W.QF), z3.And(isin(F.o), isp(qprev(S, F.o), m, W.QF), L.f == W.QN, isin(L.o), isp(qnext(S, L.o), 0))))),
           ('queue nodes', A_(lambda q: z3.And(q > S.eng.NG, q != m, q != opts(S, m).o, S.alive(q), S.sz(q) == W.QSZ, own(S, q) == 0, aux(S, q) == 0))),
           ('queue: what they stand for', A_(lambda q: z3.And(ho(S, q).f == 0, ho(S, q).o > S.eng.NG, S.alive(ho(S, q).o), S.sz(ho(S, q).o) == W.OSZ, ho(S, q).o != m, ho(S, q).o != opts(S, m).o, qown(S, ho(S, q).o) == 0))),
           ('queue: forward links', A_(lambda q: z3.And(qnext(S, q).f == 0, If(qnext(S, q).o == 0, q == L.o, z3.And(isin(qnext(S, q).o), isp(qprev(S, qnext(S, q).o), q, W.QN), pos(S, qnext(S, q).o) > pos(S, q)))))),
           ('queue: back links', A_(lambda q: Or(z3.And(isp(qprev(S, q), m, W.QF), F.o == q), z3.And(qprev(S, q).f == W.QN, isin(qprev(S, q).o), qnext(S, qprev(S, q).o).o == q)))),
           ('queue: neighbours', AA(lambda p, q: Implies(pos(S, p) > pos(S, q), z3.And(qnext(S, q).o != 0, pos(S, p) >= pos(S, qnext(S, q).o))))),
           ('queue: positions', AA(lambda p, q: Implies(pos(S, p) == pos(S, q), p == q))),
           ('queue: first and last', A_(lambda q: z3.And(F.o != 0, pos(S, F.o) <= pos(S, q), pos(S, L.o) >= pos(S, q))))]
    out += [('queue: use counts', A_(lambda q: If(policy(S, m) == LFU, z3.And(data(S, q).f == 0, data(S, q).o > S.eng.NG, S.alive(data(S, q).o), S.sz(data(S, q).o) == 4, aux(S, data(S, q).o) == q, count(S, q) >= 0), data(S, q).null())))]
    if sorted_:
        out += [('queue: least used first', AA(lambda p, q: Implies(z3.And(policy(S, m) == LFU, pos(S, p) <= pos(S, q)), count(S, p) <= count(S, q)))),
                ('queue: least important last', AA(lambda p, q: Implies(z3.And(policy(S, m) == CUSTOM, pos(S, p) <= pos(S, q)), prio(S, p) >= prio(S, q))))]
    return out


def ghosts_ok(S):
    """what is not allocated has no role"""
    return [('dead blocks have no role', forall(lambda k: Implies(Not(S.alive(k)), z3.And(own(S, k) == 0, qown(S, k) == 0, aux(S, k) == 0)), pats=lambda k: z3.Select(S.live, k))),
            ('one role per block', forall(lambda k: Implies(aux(S, k) != 0, z3.And(own(S, k) == 0, qown(S, k) == 0)), pats=lambda k: aux(S, k)))]


def kept(S0, S, *names):
    return ('unchanged: ' + ', '.join(names), z3.And(*[S.g[n] == S0.g[n] for n in names]))


def sizes(S0, S):
    return ('sizes of what was allocated', forall(lambda k: Implies(S0.alive(k), S.sz(k) == S0.sz(k)), pats=lambda k: z3.Select(S.size, k)))


def mem_outside(S0, S, keep, kinds=('po', 'pf')):
    """objects for which keep(o) holds are as they were"""
    return [('other objects keep their content (%s)' % k, forall(lambda o: Implies(z3.And(S0.alive(o), keep(o)), S.inner(k, o) == S0.inner(k, o)), pats=lambda o: S.inner(k, o))) for k in kinds]


def cells_kept(S0, S, o, offs):
    return z3.And(*[cell(S, o, f).eq(cell(S0, o, f)) for f in offs])


def queue_frame(S0, S, m, ob=None):
    """only the links of the queue, its ends, and the element's reference to its node change"""
    keep = lambda o: z3.And(o != m, qown(S0, o) != m, *([] if ob is None else [o != ob]))
    out = mem_outside(S0, S, keep)
    out.append(('rest of the map object', z3.And(cells_kept(S0, S, m, [W.H['opts'], W.PC + W.P['pop'], W.PC + W.P['push'], W.H['hmap']]))))
    if ob is not None:
        out.append(('rest of the element', cells_kept(S0, S, ob, [W.O['key'], W.O['val'], W.ON, W.OP, W.O['hmap']])))
    out.append(('other queues', forall(lambda q: Implies(qown(S0, q) != m, z3.And(Or(qown(S, q) == qown(S0, q), z3.And(qown(S, q) == m, Not(S0.alive(q)))))), pats=lambda q: z3.Select(S.g['qown'], q))))
    return out


def contracts(mod):
    W.init(mod)
    G = (('own', INNER), ('slot', INNER), ('qown', INNER), ('aux', INNER), ('pos', REALA))
    QG = [('ghost', n) for n in ('qown', 'pos', 'aux')]

    def gpos(S, S0, m, x):
        """position of node x as its links show it"""
        nx, pv = qnext(S, x), qprev(S, x)
        p0 = S0.g['pos']
        pn, pp = z3.Select(p0, nx.o), z3.Select(p0, pv.o)
        return If(nx.o == 0, If(isp(pv, m, W.QF), z3.RealVal(0), pp + 1), If(isp(pv, m, W.QF), pn - 1, (pn + pp) / 2))

    # ------------------------------------------------------------ queue nodes
    def frees(S0, S, *objs):
        """exactly these blocks (0: none) are released"""
        return ('exactly that is released', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), *[Or(k != o, o == 0) for o in objs]), pats=lambda k: z3.Select(S.live, k)))

    def news(S0, S, r, objs, label='nothing else stays allocated'):
        return (label, forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(r, Or(*[k == o for o in objs]))), pats=lambda k: z3.Select(S.live, k)))

    qnew = Contract('__q_o_new', lambda S, A: [z3.And(A.ho.f == 0, A.ho.o > S.eng.NG, S.alive(A.ho.o))],
                    lambda S0, S, A, r: [('a new node for the element', Implies(Not(r.null()), z3.And(r.f == 0, r.o > S.eng.NG, Not(S0.alive(r.o)), S.sz(r.o) == W.QSZ, isp(ho(S, r.o), A.ho.o), data(S, r.o).null()))),
                                         ('or none, for lack of memory', Implies(r.null(), S.g['oom'])), news(S0, S, Not(r.null()), [r.o]), sizes(S0, S)] + mem_outside(S0, S, lambda o: z3.BoolVal(True), S.M.keys()),
                    lambda S, A: [('heap',), ('mem', '*')])

    qfree = Contract('__q_o_free', lambda S, A: [z3.And(A.qo.f == 0, A.qo.o > S.eng.NG, S.alive(A.qo.o), S.sz(A.qo.o) == W.QSZ, Or(data(S, A.qo.o).null(), z3.And(data(S, A.qo.o).f == 0, data(S, A.qo.o).o > S.eng.NG, S.alive(data(S, A.qo.o).o), data(S, A.qo.o).o != A.qo.o)))],
                     lambda S0, S, A, r: [frees(S0, S, A.qo.o, data(S0, A.qo.o).o), sizes(S0, S)], lambda S, A: [('heap',)])

    # ------------------------------------------------------------------ push
    def push_pre(arg):
        def f(S, A):
            m, o, d = A.hmap.o, A.obj.o, A[arg]
            x = cell(S, o, W.O['pqe'])
            return [A.hmap.f == 0, A.obj.f == 0] + shape(S, m) + queue(S, m) + ghosts_ok(S) + \
                [o > S.eng.NG, S.alive(o), S.sz(o) == W.OSZ, o != m, o != opts(S, m).o, qown(S, o) == 0, aux(S, o) == 0, isp(d, o, W.O['pqe']),
                 Or(x.null(), z3.And(x.f == 0, qown(S, x.o) == m, isp(ho(S, x.o), o)))]
        return f

    def push_ghost(S0, S, A, r):
        m, o = A.hmap.o, A.obj.o
        x = S.eng.named(S, cell(S, o, W.O['pqe']).o)
        ok = r == 0
        p = S.eng.named(S, gpos(S, S0, m, x))
        d = S.eng.named(S, data(S, x).o)
        S.g['qown'] = S.eng.named_g(S, If(ok, z3.Store(S0.g['qown'], x, m), S0.g['qown']))
        S.g['pos'] = S.eng.named_g(S, If(ok, z3.Store(S0.g['pos'], x, p), S0.g['pos']))
        S.g['aux'] = S.eng.named_g(S, If(z3.And(ok, d != 0), z3.Store(S0.g['aux'], d, x), S0.g['aux']))

    def push_post(more):
        def f(S0, S, A, r):
            m, o = A.hmap.o, A.obj.o
            x0, x = cell(S0, o, W.O['pqe']), cell(S, o, W.O['pqe'])
            ok = r == 0
            d = data(S, x.o).o
            return [('0 or failure', Or(ok, r == 2)), ('fails only for lack of memory', Implies(Not(ok), z3.And(x0.null(), S.g['oom']))),
                    ('the element has a node', Implies(ok, z3.And(x.f == 0, qown(S, x.o) == m, isp(ho(S, x.o), o)))),
                    ('its own one, or a new one', Implies(ok, If(x0.null(), Not(S0.alive(x.o)), x.eq(x0)))), ('or none', Implies(Not(ok), x.null())),
                    ('the queue holds that node and those it held', S.g['qown'] == If(ok, z3.Store(S0.g['qown'], x.o, m), S0.g['qown'])),
                    kept(S0, S, 'own', 'slot'), ('the others keep their order', z3.And(S.g['pos'] == If(ok, z3.Store(S0.g['pos'], x.o, pos(S, x.o)), S0.g['pos']))),
                    ('use counts belong to nodes', S.g['aux'] == If(z3.And(ok, d != 0), z3.Store(S0.g['aux'], d, x.o), S0.g['aux'])),
                    ('a new use count belongs to a new node', Implies(z3.And(ok, d != 0), If(x0.null(), Not(S0.alive(d)), aux(S0, d) == x.o))),
                    ('nothing else is allocated', forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(ok, x0.null(), Or(k == x.o, z3.And(k == d, d != 0)))), pats=lambda k: z3.Select(S.live, k))), sizes(S0, S),
                    ('nodes keep their elements', forall(lambda q: Implies(qown(S0, q) == m, cells_kept(S0, S, q, [W.Q['ho'], W.Q['data']])), pats=lambda q: S.inner('po', q)))] + \
                more(S0, S, A, ok, x.o) + mem_outside(S0, S, lambda o: z3.BoolVal(True), ('i64',)) + queue_frame(S0, S, m, o) + shape(S, m) + queue(S, m) + ghosts_ok(S)
        return f

    front = lambda S0, S, A, ok, x: [('the node is the first', Implies(ok, first(S, A.hmap.o).o == x)),
                                     ('before all others', Implies(ok, forall(lambda q: Implies(z3.And(qown(S, q) == A.hmap.o, q != x), pos(S, x) < pos(S, q)), pats=pq(S))))]
    PM = lambda S, A: [('heap',), ('mem', ('p', 'i64'))] + QG
    push = Contract('__queue_push', lambda S, A: push_pre('data')(S, A) + [Or(policy(S, A.hmap.o) == FIFO, policy(S, A.hmap.o) == LRU)], push_post(front), PM, ghosts=G, ghost=push_ghost)

    # --------------------------------------------------- push, least frequently used
    def uses(S, A):
        x = cell(S, A.obj.o, W.O['pqe'])
        return Or(x.null(), count(S, x.o) < 2**31 - 1)

    def counted(S0, S, A, ok, x):
        m = A.hmap.o
        x0 = cell(S0, A.obj.o, W.O['pqe'])
        d = data(S, x).o
        c0 = count(S0, x0.o)
        return [('a new element has no use yet, else one more', Implies(ok, count(S, x) == If(x0.null(), I(0), c0 + 1)))] + \
            mem_outside(S0, S, lambda o: Or(Not(ok), o != d), ('i32',))

    def count_inv(SE, S, v, A):
        m, x, q = A.hmap.o, cell(S, A.obj.o, W.O['pqe']).o, v.q
        return [('at a node of the queue', Or(q.null(), z3.And(q.f == 0, qown(S, q.o) == m, pos(S, q.o) > pos(S, x)))),
                ('nodes passed are used less', forall(lambda y: Implies(z3.And(qown(S, y) == m, pos(S, y) > pos(S, x), Or(q.null(), pos(S, y) < pos(S, q.o))), count(S, y) <= count(S, x)), pats=pq(S)))]

    pushc = Contract('__queue_push_count', lambda S, A: push_pre('counts')(S, A) + [policy(S, A.hmap.o) == LFU, uses(S, A)], push_post(counted),
                     lambda S, A: [('heap',), ('mem', ('p', 'i64', 'i32'))] + QG, ghosts=G, ghost=push_ghost, loops={0: LoopSpec(count_inv)})

    # -------------------------------------------------------- push, custom priority
    def cmp_inv(SE, S, v, A):
        m, o, q = A.hmap.o, A.obj.o, v.q
        w = cell(S, o, W.O['val'])
        return [('at a node of the queue', Or(q.null(), z3.And(q.f == 0, qown(S, q.o) == m))),
                ('nodes passed are at least as important', forall(lambda y: Implies(z3.And(qown(S, y) == m, Or(q.null(), pos(S, y) < pos(S, q.o))), prio(S, y) >= PRIO(w.o, w.f)), pats=pq(S)))]
    pushp = Contract('__queue_push_cmp', lambda S, A: push_pre('data')(S, A) + [policy(S, A.hmap.o) == CUSTOM, cell(S, A.obj.o, W.O['pqe']).null()], push_post(lambda *a: []), PM, ghosts=G, ghost=push_ghost, loops={0: LoopSpec(cmp_inv)})

    # ---------------------------------------------------------------- delete
    def del_pre(S, A):
        m, o = A.hmap.o, A.obj.o
        x = cell(S, o, W.O['pqe'])
        return [A.hmap.f == 0, A.obj.f == 0] + shape(S, m) + queue(S, m) + ghosts_ok(S) + \
            [o > S.eng.NG, S.alive(o), S.sz(o) == W.OSZ, o != m, o != opts(S, m).o, qown(S, o) == 0, aux(S, o) == 0, x.f == 0, qown(S, x.o) == m]

    def del_ghost(S0, S, A, r):
        x, d = qdel_of(S0, A)
        S.g['qown'] = z3.Store(S0.g['qown'], x, I(0))
        S.g['aux'] = S.eng.named_g(S, z3.Store(S0.g['aux'], d, I(0)))

    def qdel_of(S0, A):
        x = cell(S0, A.obj.o, W.O['pqe']).o
        return x, data(S0, x).o

    def del_post(S0, S, A, r):
        m, o = A.hmap.o, A.obj.o
        x, d = qdel_of(S0, A)
        return [('0', r == 0), ('the element has no node any more', cell(S, o, W.O['pqe']).null()), ('the node left the queue', S.g['qown'] == z3.Store(S0.g['qown'], x, I(0))),
                ('its use count with it', S.g['aux'] == z3.Store(S0.g['aux'], d, I(0))), kept(S0, S, 'pos', 'own', 'slot'), frees(S0, S, x, d), sizes(S0, S),
                ('nodes keep their elements', forall(lambda q: Implies(z3.And(qown(S0, q) == m, q != x), cells_kept(S0, S, q, [W.Q['ho'], W.Q['data']])), pats=lambda q: S.inner('po', q)))] + \
            queue_frame(S0, S, m, o)[:-1] + shape(S, m) + queue(S, m) + ghosts_ok(S)
    qdel = Contract('__queue_del', del_pre, del_post, lambda S, A: [('heap',), ('mem', ('p',)), ('ghost', 'qown'), ('ghost', 'aux')], ghosts=G, ghost=del_ghost)

    METHOD.update(pre=push_pre, post=push_post, front=front, counted=counted, uses=uses)
    return [qnew, qfree, push, pushc, pushp, qdel]


def options(mod):
    M = dict(libc.MODELS)

    def ind(eng, st, p, av, x):
        """the user's functions: a comparison orders the keys (the values, for the policy)"""
        t = cell(st, eng.cur_args['hmap'].o, W.H['opts']).o
        f = lambda n: cell(st, t, W.T[n])
        if eng.cur == '__queue_push_cmp':
            eng.ob(st, 'requires', 'the comparison function of the policy', p.eq(f('f_pcy_cmp')))
            r = eng.fresh_of(st, x.ty, 'cmp')
            a, b = PRIO(av[0].o, av[0].f), PRIO(av[1].o, av[1].f)
            st.add((r > 0) == (a > b))
            st.add((r < 0) == (a < b))
            return r
        raise Unsupported('indirect call')
    return dict(models=M, indirect=ind, extra_types=('i32', 'i64', 'p'))
