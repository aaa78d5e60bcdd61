"""Contracts for srcs/toolbox/json.c: the matchers, used as a validator (no tree), against the
grammar of RFC 4627 over the text TXT (specs/jlex.py).  X(p) is where the phrase X that starts at p
ends, or -1.  The grammar functions are unfolded by hand at the positions a function visits."""
from lvc.engine import *
from lvc import libc, ir
from specs import jlex
from specs.tailq import TQ, cell, isp
from specs.jlex import TXT, NTXT, WS, T, space, ws_def, defs, JL

F1 = lambda n: z3.Function(n, IntS, IntS)
DIG, SB, VAL, EL, ML = F1('DIG'), F1('SB'), F1('VAL'), F1('EL'), F1('ML')


def digit(c):
    return z3.And(c >= 48, c <= 57)


def xdigit(c):
    return Or(digit(c), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def is_(p, ch):
    return T(p) == ord(ch)


def any_(p, s):
    return Or(*[is_(p, c) for c in s])


def dig_def(p):
    """end of the digits from p on"""
    return DIG(p) == If(digit(T(p)), DIG(p + 1), p)


def INT(p):
    a = If(is_(p, '-'), p + 1, p)
    return If(is_(a, '0'), a + 1, If(digit(T(a)), DIG(a), I(-1)))


def FRAC(p):
    return If(z3.And(is_(p, '.'), digit(T(p + 1))), DIG(p + 1), I(-1))


def EXP(p):
    a = If(any_(p + 1, '+-'), p + 2, p + 1)
    return If(z3.And(any_(p, 'eE'), digit(T(a))), DIG(a), I(-1))


def NUM(p):
    i = INT(p)
    f = If(is_(i, '.'), FRAC(i), i)
    e = If(any_(f, 'eE'), EXP(f), f)
    return If(i == -1, I(-1), If(f == -1, I(-1), e))


def hex4(p):
    """four hex digits from p on"""
    return z3.And(*[xdigit(T(p + i)) for i in range(4)])


def sb_def(q):
    """the quote that ends the string whose characters go on at q"""
    esc = If(is_(q + 1, 'u'), If(hex4(q + 2), SB(q + 6), I(-1)), If(any_(q + 1, '"\\/bfnrt'), SB(q + 2), I(-1)))
    return SB(q) == If(is_(q, '"'), q, If(is_(q, '\\'), esc, If(z3.And(T(q) >= 0, T(q) < 32), I(-1), SB(q + 1))))


def STR(p):
    return If(z3.And(is_(p, '"'), SB(p + 1) != -1), SB(p + 1) + 1, I(-1))


def SEQ(p, word):
    return If(z3.And(*[is_(p + i, c) for i, c in enumerate(word)]), p + len(word), I(-1))


def val_def(p):
    return VAL(p) == If(is_(p, '"'), STR(p), If(Or(is_(p, '-'), digit(T(p))), NUM(p), If(is_(p, '{'), ML(p), If(is_(p, '['), EL(p),
        If(is_(p, 't'), SEQ(p, 'true'), If(is_(p, 'f'), SEQ(p, 'false'), If(is_(p, 'n'), SEQ(p, 'null'), I(-1))))))))


def more(v, rest, close):
    """after an element that ends at v: a comma and more, or the closing bracket"""
    w = WS(v)
    return If(v == -1, I(-1), If(is_(w, ','), rest(w), If(is_(w, close), w + 1, I(-1))))


def el_def(w):
    """what follows in an array at its opening bracket or at a comma (a trailing comma is tolerated)"""
    q = WS(w + 1)
    return EL(w) == If(is_(q, ']'), q + 1, more(VAL(q), EL, ']'))


def PAIR(q):
    c = WS(STR(q))
    return If(Or(STR(q) == -1, Not(is_(c, ':'))), I(-1), VAL(WS(c + 1)))


def ml_def(w):
    q = WS(w + 1)
    return ML(w) == If(is_(q, '}'), q + 1, more(PAIR(q), ML, '}'))


UNDER = z3.Function('UNDER', IntS, IntS, z3.BoolSort())       # k is x or one of its descendants


def sizes(S0, S):
    return ('sizes of what was allocated', forall(lambda k: Implies(S0.alive(k), S.sz(k) == S0.sz(k)), pats=lambda k: z3.Select(S.size, k)))


LEX = []


def layout():
    if not LEX:
        from vf import build
        LEX.append(ir.parse(build.emit_ir('toolbox/lexer')))
    return LEX[0]


def contracts(mod):
    lay = layout()
    X = JL(lay)
    lex = jlex.contracts(lay, lay)
    for c in lex:
        c.assumed = True        # proved in the lexer's own unit, by the same text
    P = lambda S, A: X.pos(S, A[0])
    W = lambda S, A: X.wf(S, A[0]) + defs(S, ws_def(NTXT), val_def(NTXT))
    notree = lambda S, A: W(S, A) + [('no tree is built', A[1].null())]
    MV = lambda S, A: X.cells(A[0], X.POS) + [('obj', ('i8',), A[0].o), ('ghost', 'vrc')]
    MVB = lambda S, A: [('obj', ('i8', 'i64'), A[0].o), ('ghost', 'vrc')]
    G = libc.text_ghosts() + (('vrc', IntS),)
    inT = lambda p: z3.And(p >= 0, p <= NTXT)

    def unfold(*fs):
        return lambda S, A: [S.add(f(P(S, A))) for f in fs]

    def only_cursor(S, SE, A):
        return S.inner('i64', A[0].o) == z3.Store(SE.inner('i64', A[0].o), A[0].f + X.POS, P(S, A))

    # ------------------------------------------------------------------ numbers
    def leaf(f):
        """ends where the phrase ends, fails exactly if there is none"""
        def post(S0, S, A, r):
            e = f(P(S0, A))
            return [('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly on the phrase', (r == 0) == (e != -1)), ('up to its end', Implies(r == 0, z3.And(P(S, A) == e, P(S, A) > P(S0, A))))] + W(S, A)
        return post

    def digits(p0):
        """the loop has passed digits (p0: and is at one); the character at the cursor has been read"""
        def inv(SE, S, v, A):
            return [('cursor', z3.And(P(S, A) >= P(SE, A), P(S, A) <= NTXT)), ('only the cursor moves', only_cursor(S, SE, A))] + ([('at a digit', digit(S.i8(v.c)))] if p0 else []) + [ ('the current character', S.i8(v.c) == T(P(S, A))), ('digits so far', DIG(P(SE, A)) == DIG(P(S, A)))] + W(S, A) + defs(S, dig_def(P(S, A)), dig_def(P(S, A) + 1))
        return LoopSpec(inv, measure=lambda S, v: NTXT - X.pos(S, v.jl))
    mint = Contract('u_json_match_int', W, leaf(INT), MV, loops={0: digits(True)}, ghosts=G, entry=lambda S, A: [S.add(dig_def(P(S, A) + i)) for i in (0, 1)])
    mfrac = Contract('u_json_match_frac', W, leaf(FRAC), MV, loops={0: digits(None)}, ghosts=G, entry=lambda S, A: [S.add(dig_def(P(S, A) + i)) for i in (1,)])
    mexp = Contract('u_json_match_exp', W, leaf(EXP), MV, loops={0: digits(None)}, ghosts=G, entry=lambda S, A: [S.add(dig_def(P(S, A) + i)) for i in (1, 2)])
    mnum = Contract('u_json_match_number', notree, leaf(NUM), MVB, ghosts=G)

    # ------------------------------------------------------------------ strings
    def uni_post(S0, S, A, r):
        p = P(S0, A)
        return [('0 or ~0', Or(r == 0, r == -1)), ('four hex digits follow', (r == 0) == hex4(p + 1)), ('at the last of them', Implies(r == 0, P(S, A) == p + 4))] + W(S, A)
    muni = Contract('u_json_match_escaped_unicode', lambda S, A: W(S, A) + [('at the u', is_(P(S, A), 'u'))], uni_post, MV, ghosts=G)

    def str_inv(SE, S, v, A):
        p0, p = P(SE, A), P(S, A)
        return [('cursor', z3.And(p >= p0, p <= NTXT)), ('the rest of the string', Or(z3.And(S.i8(v.c) == T(p), SB(p0) == SB(p)), z3.And(S.i8(v.c) == ord('u'), xdigit(T(p)), SB(p0) == SB(p + 1)))),
                ('bookmark', X.lm(S, A[0]) == X.lm(SE, A[0]))] + W(S, A) + defs(S, sb_def(p), sb_def(p + 1))
    str_post = lambda S0, S, A, r: leaf(STR)(S0, S, A, r) + [('the match is what is between the quotes, and the second of them', Implies(r == 0, z3.And(X.lm(S, A[0]) == P(S0, A) + 1, X.rm(S, A[0]) == P(S, A) - 1)))]
    mstr = Contract('u_json_match_string', notree, str_post, MVB, ghosts=G, loops={0: LoopSpec(str_inv, measure=lambda S, v: 2 * (NTXT - X.pos(S, v.jl)) + If(S.i8(v.c) == T(X.pos(S, v.jl)), I(1), I(0)))})

    # ---------------------------------------------------------------- the rest
    def node(f, bare=True):
        """... possibly with the white space after it; if bare, may fail if the text ends there"""
        def post(S0, S, A, r):
            e = f(P(S0, A))
            p = P(S, A)
            return [('0 or ~0', Or(r == 0, r == -1)), ('only on the phrase', Implies(r == 0, e != -1)), ('up to its end, or the next character', Implies(r == 0, z3.And(Or(p == e, z3.And(p == WS(e), WS(p) == p, Not(space(T(p))))), p > P(S0, A)))),
                    ('refuses only what is none' + (', or ends the text' if bare else ''), Implies(r != 0, Or(e == -1, WS(e) == NTXT) if bare else e == -1))] + W(S, A)
        return post

    word = {'n': 'null', 't': 'true', 'f': 'false'}

    def seq(fn):
        w = word[fn[13]]
        return Contract(fn, notree, node(lambda p: SEQ(p, w)), MV, ghosts=G, entry=lambda S, A: [S.add(ws_def(P(S, A) + len(w)))])
    seqs = [seq('u_json_match_' + n) for n in ('null', 'true', 'false')]

    def array_inv(f, fdef, el):
        def inv(SE, S, v, A):
            p = P(S, A)
            return [('cursor', z3.And(p >= P(SE, A), p < NTXT)), ('the rest', f(P(SE, A)) == f(p)), ('at a bracket or comma', z3.And(T(p) != 0, Not(space(T(p)))))] + W(S, A) + defs(S, fdef(p), val_def(WS(p + 1)), ws_def(p + 1), ws_def(el(WS(p + 1))), ws_def(el(WS(p + 1)) + 1))
        return inv
    marr = Contract('u_json_match_array', lambda S, A: notree(S, A) + [('at the bracket', is_(P(S, A), '['))], node(EL, False), MVB, ghosts=G, entry=unfold(el_def), loops={0: LoopSpec(array_inv(EL, el_def, VAL), measure=lambda S, v: NTXT - X.pos(S, v.jl))})
    mobj = Contract('u_json_match_object', lambda S, A: notree(S, A) + [('at the bracket', is_(P(S, A), '{'))], node(ML, False), MVB, ghosts=G, entry=unfold(ml_def), loops={0: LoopSpec(array_inv(ML, ml_def, PAIR), measure=lambda S, v: NTXT - X.pos(S, v.jl))})
    mpair = Contract('u_json_match_pair', notree, node(PAIR), MVB, ghosts=G, entry=unfold(lambda p: ws_def(STR(p)), lambda p: ws_def(STR(p) + 1), lambda p: ws_def(WS(STR(p)) + 1)))
    mval = Contract('u_json_match_value', notree, node(VAL), MVB, ghosts=G, entry=unfold(val_def))
    # -------------------------------------------------------------------- trees
    jfree = Contract('u_json_free', lambda S, A: [], lambda S0, S, A, r: [
        ('the node and what is under it are released, nothing else', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), Or(A[0].null(), Not(UNDER(k, A[0].o)))), pats=lambda k: z3.Select(S.live, k))), sizes(S0, S)], lambda S, A: [('heap',)])
    jfree.assumed = True

    J = mod.di_struct('u_json_s')
    JSZ = J['__size__']
    Q = TQ(J['children'], J['siblings'], JSZ)
    UNK, STRT, NUMT, OBJT, ARRT, TT, FT, NT = range(8)
    typ = lambda S, o: z3.Select(S.inner('i32', o), J['type'])
    cnt32 = lambda S, o: z3.Select(S.inner('i32', o), J['count'])
    cont = lambda S, o: Or(typ(S, o) == OBJT, typ(S, o) == ARRT)
    jmap = lambda S, o: cell(S, o, J['map'])
    parent = lambda S, o: cell(S, o, J['parent'])
    NG_ = lambda S, p: z3.And(p.f == 0, p.o > S.eng.NG, S.alive(p.o), S.sz(p.o) == JSZ)
    u32 = lambda x: If(x < 0, x + 2**32, x)

    def jnode(S, p, name='node'):
        return [(name, Or(p.null(), NG_(S, p)))]

    def counted(S, h):
        return ('array count', Implies(typ(S, h) == ARRT, u32(cnt32(S, h)) == Q.cnt(S, h)))

    def ifs(c, fs):
        return [(l, Implies(c, f)) for l, f in fs]

    def refuse(S0, S, A, r, ok):
        return [('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly when it can', (r == 0) == ok)]
    same = lambda S0, S, *g: z3.And(*[S.g[n] == S0.g[n] for n in g])

    # add: the child becomes the last one
    add_ok = lambda S, A: z3.And(Not(A.head.null()), Not(A.jo.null()), cont(S, A.head.o), jmap(S, A.head.o).null())

    def add_pre(S, A):
        h, x = A.head.o, A.jo.o
        return jnode(S, A.head) + jnode(S, A.jo) + ifs(Not(A.head.null()), Q.inv(S, h) + [counted(S, h), ('room', Q.cnt(S, h) < 2**32 - 1)]) + \
            [('a node without parent', Or(A.jo.null(), z3.And(Q.par(S, x) == 0, x != h)))]

    def clean(S):
        for k in ('po', 'pf', 'i32'):
            S.M[k] = named_map(S, k)

    def add_ghost(S0, S, A, r):
        h, x, ok = A.head.o, A.jo.o, r == 0
        n = Q.cnt(S0, h)
        clean(S)
        nm = lambda t: S.eng.named_g(S, t)
        S.g['par'] = nm(If(ok, z3.Store(S0.g['par'], x, h), S0.g['par']))
        S.g['idx'] = nm(If(ok, z3.Store(S0.g['idx'], x, n), S0.g['idx']))
        S.g['cnt'] = nm(If(ok, z3.Store(S0.g['cnt'], h, n + 1), S0.g['cnt']))

    def add_post(S0, S, A, r):
        h, x, ok = A.head.o, A.jo.o, r == 0
        n = Q.cnt(S0, h)
        return refuse(S0, S, A, r, add_ok(S0, A)) + ifs(ok, [('one child more, the last', z3.And(S.g['par'] == z3.Store(S0.g['par'], x, h), S.g['idx'] == z3.Store(S0.g['idx'], x, n), S.g['cnt'] == z3.Store(S0.g['cnt'], h, n + 1))),
                ('it knows its parent', isp(parent(S, x), h)), counted(S, h)] + Q.inv(S, h) + Q.frame(S0, S, h, x) + [('other counts and types', forall(lambda o: Implies(o != h, S.inner('i32', o) == S0.inner('i32', o)), pats=lambda o: S.inner('i32', o))),
                ('type', typ(S, h) == typ(S0, h)), ('parents', forall(lambda o: Implies(o != x, parent(S, o).eq(parent(S0, o))), pats=lambda o: S.inner('po', o)))]) + \
            ifs(Not(ok), [('refusal changes nothing', z3.And(same(S0, S, 'par', 'idx', 'cnt'), *[S.M[k] == S0.M[k] for k in ('po', 'pf', 'i32')]))])
    TM = lambda S, A: [('mem', ('p', 'i32'))] + [('ghost', g) for g in ('par', 'idx', 'cnt')]
    add = Contract('u_json_add', add_pre, add_post, TM, ghosts=Q.ghosts, ghost=add_ghost)

    # remove: the child leaves, those after it move up; it and what is under it are released
    rm_ok = lambda S, A: z3.And(Not(A.jo.null()), jmap(S, A.jo.o).null())

    def rm_pre(S, A):
        x = A.jo.o
        p = parent(S, x)
        up = lambda k: UNDER(k, x) == Or(k == x, z3.And(Q.par(S, k) != 0, UNDER(Q.par(S, k), x)))
        return jnode(S, A.jo) + [('its parent', Or(A.jo.null(), z3.And(p.f == 0, Q.par(S, x) == p.o))), ('what is under it', forall(up, pats=lambda k: Q.par(S, k))),
                ('no cycle', Or(A.jo.null(), p.o == 0, z3.And(Not(UNDER(p.o, x)), p.o != x, *[f for _, f in jnode(S, p)])))] + ifs(z3.And(Not(A.jo.null()), p.o != 0), Q.inv(S, p.o) + [counted(S, p.o)])

    def rm_ghost(S0, S, A, r):
        x, ok = A.jo.o, r == 0
        clean(S)
        p = parent(S0, x).o
        nm = lambda t: S.eng.named_g(S, t)
        ix = nm(S0.g['idx'])
        new = z3.FreshConst(ix.sort(), 'idx')
        S.add(forall(lambda k: z3.Select(new, k) == If(z3.And(ok, p != 0, Q.par(S0, k) == p, Q.idx(S0, k) > Q.idx(S0, x)), Q.idx(S0, k) - 1, Q.idx(S0, k)), pats=lambda k: z3.Select(new, k)))
        S.g['idx'] = new
        S.g['par'] = nm(If(ok, z3.Store(S0.g['par'], x, I(0)), S0.g['par']))
        S.g['cnt'] = nm(If(z3.And(ok, p != 0), z3.Store(S0.g['cnt'], p, Q.cnt(S0, p) - 1), S0.g['cnt']))

    def rm_post(S0, S, A, r):
        x, ok = A.jo.o, r == 0
        p = parent(S0, x).o
        return refuse(S0, S, A, r, rm_ok(S0, A)) + ifs(ok, [('it has left', z3.And(S.g['par'] == z3.Store(S0.g['par'], x, I(0)))), ('one child fewer', S.g['cnt'] == If(p != 0, z3.Store(S0.g['cnt'], p, Q.cnt(S0, p) - 1), S0.g['cnt'])),
                ('those after it move up', forall(lambda k: Q.idx(S, k) == If(z3.And(p != 0, Q.par(S0, k) == p, Q.idx(S0, k) > Q.idx(S0, x)), Q.idx(S0, k) - 1, Q.idx(S0, k)), pats=lambda k: Q.idx(S, k))),
                ('it and what is under it are released, nothing else', forall(lambda k: S.alive(k) == z3.And(S0.alive(k), Not(UNDER(k, x))), pats=lambda k: z3.Select(S.live, k))), sizes(S0, S)]) + \
            ifs(z3.And(ok, p != 0), Q.inv(S, p) + [counted(S, p)] + Q.frame(S0, S, p, x) + [('other counts and types', forall(lambda o: Implies(o != p, S.inner('i32', o) == S0.inner('i32', o)), pats=lambda o: S.inner('i32', o)))]) + \
            ifs(Not(ok), [('refusal changes nothing', z3.And(same(S0, S, 'par', 'cnt'), S.live == S0.live, *[S.M[k] == S0.M[k] for k in ('po', 'pf', 'i32')]))])
    remove = Contract('u_json_remove', rm_pre, rm_post, lambda S, A: TM(S, A) + [('heap',)], ghosts=Q.ghosts, ghost=rm_ghost)

    # positional access
    def tree_pre(S, A):
        h = A.jo.o
        return jnode(S, A.jo) + ifs(Not(A.jo.null()), Q.inv(S, h) + [counted(S, h), ('count', Q.cnt(S, h) < 2**32)])

    def nth_post(S0, S, A, r):
        h = A.jo.o
        n = u32(A.n)
        has = z3.And(Not(A.jo.null()), typ(S0, h) == ARRT, n < Q.cnt(S0, h))
        return [('NULL exactly beyond the end', r.null() == Not(has)), ('the element at that position', Implies(has, z3.And(r.f == 0, Q.par(S0, r.o) == h, Q.idx(S0, r.o) == n)))]
    back_inv = lambda SE, S, v, A: [('an element', z3.And(v.elem.f == 0, v.elem.o != 0, Q.par(S, v.elem.o) == A.jo.o)), ('so far from the wanted one', Q.idx(S, v.elem.o) == u32(v.n) + u32(v.r))]
    forw_inv = lambda SE, S, v, A: [('an element', z3.And(v.elem.f == 0, v.elem.o != 0, Q.par(S, v.elem.o) == A.jo.o)), ('so far from the wanted one', Q.idx(S, v.elem.o) + u32(v.n) == u32(A.n))]
    nth = Contract('u_json_array_get_nth', lambda S, A: tree_pre(S, A) + [('no index', Or(A.jo.null(), jmap(S, A.jo.o).null()))], nth_post, lambda S, A: [], ghosts=Q.ghosts,
                   loops={0: LoopSpec(back_inv, measure=lambda S, v: u32(v.r)), 1: LoopSpec(forw_inv, measure=lambda S, v: u32(v.n))})
    acount = Contract('u_json_array_count', tree_pre, lambda S0, S, A, r: [('the number of elements', u32(r) == If(z3.And(Not(A.jo.null()), typ(S0, A.jo.o) == ARRT), Q.cnt(S0, A.jo.o), I(0)))], lambda S, A: [], ghosts=Q.ghosts)

    def end_post(which):
        def f(S0, S, A, r):
            h = A.jo.o
            has = z3.And(Not(A.jo.null()), cont(S0, h), Q.cnt(S0, h) > 0)
            return [('NULL exactly if there is none', r.null() == Not(has)), ('that child', Implies(has, z3.And(r.f == 0, Q.par(S0, r.o) == h, Q.idx(S0, r.o) == which(Q.cnt(S0, h)))))]
        return f
    chf = Contract('u_json_child_first', tree_pre, end_post(lambda n: 0), lambda S, A: [], ghosts=Q.ghosts)
    chl = Contract('u_json_child_last', tree_pre, end_post(lambda n: n - 1), lambda S, A: [], ghosts=Q.ghosts)

    # iteration
    def it_pre(S, A):
        c = S.ptr(A.it)
        h = S.eng.named(S, Q.par(S, c.o))
        return [('iterator', Or(A.it.null(), z3.And(S.valid(A.it, 8), A.it.o > S.eng.NG))), ('at a child, or done', Or(A.it.null(), c.null(), z3.And(c.f == 0, c.o > S.eng.NG, h > S.eng.NG, S.alive(h), S.sz(h) == JSZ, A.it.o != h, Q.par(S, A.it.o) == 0)))] + \
            ifs(z3.And(Not(A.it.null()), Not(c.null())), Q.inv(S, h))

    def it_post(step, stop):
        def f(S0, S, A, r):
            c, c2 = S0.ptr(A.it), S.ptr(A.it)
            h = Q.par(S0, c.o)
            more_ = Not(stop(Q.idx(S0, c.o), Q.cnt(S0, h)))
            return [('the child under the cursor', If(A.it.null(), r.null(), r.eq(c))), ('then its neighbour', Implies(z3.And(Not(A.it.null()), Not(c.null())), If(more_, z3.And(c2.f == 0, Q.par(S0, c2.o) == h, Q.idx(S0, c2.o) == step(Q.idx(S0, c.o))), c2.null()))),
                    ('at the end it stays', Implies(z3.And(Not(A.it.null()), c.null()), c2.null()))]
        return f
    itn = Contract('u_json_it_next', it_pre, it_post(lambda i: i + 1, lambda i, n: i == n - 1), lambda S, A: [('cell', 'p', A.it)], ghosts=Q.ghosts)
    itp = Contract('u_json_it_prev', it_pre, it_post(lambda i: i - 1, lambda i, n: i == 0), lambda S, A: [('cell', 'p', A.it)], ghosts=Q.ghosts)

    # nodes
    def new_post(S0, S, A, r):
        j = S.ptr(A.pjo)
        ok = r == 0
        i32 = lambda f: z3.Select(S.inner('i32', j.o), J[f])
        return [('0 or ~0', Or(r == 0, r == -1)), ('fails only for lack of memory', Implies(z3.And(Not(ok), Not(A.pjo.null())), S.g['oom'])), ('failure leaves nothing allocated', Implies(Not(ok), S.live == S0.live))] + \
            ifs(ok, [('a new node', z3.And(j.f == 0, j.o > S.eng.NG, Not(S0.alive(j.o)), S.sz(j.o) == JSZ, S.live == z3.Store(S0.live, j.o, True))), ('of no type, without name, value, parent', z3.And(i32('type') == UNK, i32('count') == 0, i32('depth') == 0, parent(S, j.o).null(), jmap(S, j.o).null(), *[S.i8(Ptr(j.o, J[f])) == 0 for f in ('key', 'val', 'fqn')])),
                     ('without children', z3.And(Q.first(S, j.o).null(), isp(Q.last(S, j.o), j.o, Q.F)))])
    jnew = Contract('u_json_new', lambda S, A: [('result', Or(A.pjo.null(), z3.And(S.valid(A.pjo, 8), A.pjo.o > S.eng.NG)))], new_post, lambda S, A: [('heap',), ('cell', 'p', A.pjo)])
    set_ok = lambda S, A: z3.And(Not(A.jo.null()), jmap(S, A.jo.o).null(), A.type >= 0, A.type <= 7)
    setty = Contract('u_json_set_type', lambda S, A: jnode(S, A.jo), lambda S0, S, A, r: refuse(S0, S, A, r, set_ok(S0, A)) + [('the type, or none changes', If(r == 0, typ(S, A.jo.o) == A.type, S.M['i32'] == S0.M['i32']))], lambda S, A: [('cell', 'i32', Ptr(A.jo.o, I(J['type'])))])
    gbool = Contract('u_json_get_bool', lambda S, A: jnode(S, A.jo) + [('result', Or(A.pb.null(), z3.And(S.valid(A.pb, 1), A.pb.o > S.eng.NG)))],
                     lambda S0, S, A, r: refuse(S0, S, A, r, z3.And(Not(A.jo.null()), Not(A.pb.null()), Or(typ(S0, A.jo.o) == TT, typ(S0, A.jo.o) == FT))) + [('the boolean', Implies(r == 0, S.i8(A.pb) == If(typ(S0, A.jo.o) == TT, I(1), I(0)))), ('else none', Implies(r != 0, S.M['i8'] == S0.M['i8']))], lambda S, A: [('cell', 'i8', A.pb)])
    tree = [add, remove, nth, acount, chf, chl, itn, itp, jnew, setty, gbool]

    # --------------------------------------------------------------- whole texts
    q0 = WS(I(0))
    doc = If(is_(q0, '{'), ML(q0) != -1, z3.And(is_(q0, '['), EL(q0) != -1))
    cpy = Contract('u_strlcpy', lambda S, A: [('destination', S.valid(A[0], A[2]))], lambda S0, S, A, r: [], lambda S, A: [('obj', ('i8',), A[0].o)])
    cpy.assumed = True
    parse = Contract('u_json_do_parse', lambda S, A: [('a text', z3.And(A.json.o > S.eng.NG, S.valid(A.json, 1))), ('no tree is built', A.pjo.null()), ('room for the message', Or(A.status.null(), z3.And(S.valid(A.status, 512), A.status.o > S.eng.NG)))],
                     lambda S0, S, A, r: [('0 or ~0', Or(r == 0, r == -1)), ('accepts nothing but JSON texts', Implies(r == 0, doc)), ('refuses only what is none, or for lack of memory', Implies(r != 0, Or(Not(doc), S.g['oom']))),
                                          ('of the argument', Implies(r == 0, forall(lambda k: Implies(z3.And(k >= 0, k <= NTXT), T(k) == S0.i8(A.json + k)), pats=lambda k: T(k)))),
                                          ('nothing stays allocated, nothing is released', forall(lambda k: S.alive(k) == S0.alive(k), pats=lambda k: z3.Select(S.live, k)))],
                     lambda S, A: [('heap',), ('mem', '*'), ('ghost', 'vrc')], ghosts=G, entry=lambda S, A: defs(S, ws_def(I(0)), ws_def(I(1)), ws_def(NTXT), ml_def(q0), el_def(q0)))
    return lex + tree + [cpy, jfree, parse, mint, mfrac, mexp, mnum, muni, mstr] + seqs + [marr, mobj, mpair, mval]


def options(mod):
    M = dict(libc.MODELS)
    M['u_use_unused_args'] = lambda eng, st, av, x: None if x.ty[0] == 'void' else eng.fresh_of(st, x.ty)
    return dict(models=M, extra_types=('i8', 'i32', 'i64', 'p'), skip_types=())
