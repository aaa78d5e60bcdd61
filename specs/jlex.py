"""The lexer as its users see it: contracts over the text TXT[0..NTXT] (NUL terminated), proved of
srcs/toolbox/lexer.c here and used for calls in json.c.  WS(p): the first position from p on that
is not white space."""
from lvc.engine import *
from lvc import libc

TXT = z3.Const('TXT', INNER)
NTXT = z3.Int('NTXT')
WS = z3.Function('WS', IntS, IntS)


def T(k):
    return z3.Select(TXT, k)


def space(c):
    return Or(c == 32, z3.And(c >= 9, c <= 13))


def ws_def(p):
    """WS at p, unfolded once"""
    return WS(p) == If(space(T(p)), WS(p + 1), p)


def nonul():
    return forall(lambda k: Implies(z3.And(k >= 0, k < NTXT), T(k) != 0), pats=lambda k: T(k))


TOK = 128


class JL:
    def __init__(self, lmod):
        F = lmod.di_struct('u_lexer_s')
        self.SZ = F['__size__']
        self.S_, self.SLEN, self.POS, self.LM, self.RM, self.ERR = F['s'], F['slen'], F['pos'], F['lmatch'], F['rmatch'], F['err']

    def s(self, S, l): return S.ptr(l, self.S_)
    def pos(self, S, l): return S.i64(l, self.POS)
    def lm(self, S, l): return S.i64(l, self.LM)
    def rm(self, S, l): return S.i64(l, self.RM)

    def wf(self, S, l):
        s = self.s(S, l)
        n = S.i64(l, self.SLEN)
        b = lambda x: z3.And(x >= 0, x <= n)
        return [('lexer', z3.And(l.f == 0, l.o > S.eng.NG, S.alive(l.o), S.sz(l.o) == self.SZ)),
                ('text', z3.And(s.f == 0, s.o > S.eng.NG, s.o != l.o, S.alive(s.o), S.sz(s.o) >= n + 1, n == NTXT, n >= 0, n < 2**62, T(n) == 0)),
                ('text content', S.inner('i8', s.o) == TXT),
                ('cursor', b(self.pos(S, l))), ('bookmarks', z3.And(b(self.lm(S, l)), b(self.rm(S, l))))]

    def cells(self, l, *fs):
        return [('cell', 'i64', Ptr(l.o, l.f + f)) for f in fs]


def contracts(mod, layout=None):
    X = JL(layout or mod)
    P = lambda S, A: X.pos(S, A[0])

    def pb_ok(S, A):
        return [('where the character goes', Or(A[1].null(), z3.And(S.valid(A[1], 1), A[1].o > S.eng.NG, A[1].o != A[0].o, A[1].o != X.s(S, A[0]).o)))]

    def out_char(S0, S, A, ok):
        return [('the character is copied out', Implies(z3.And(ok, Not(A[1].null())), S.i8(A[1]) == T(P(S, A)))),
                ('or none', Implies(z3.And(Not(ok), Not(A[1].null())), S.i8(A[1]) == S0.i8(A[1])))]
    mv = lambda S, A: X.cells(A[0], X.POS) + [('cell', 'i8', A[1])]
    W = lambda S, A: X.wf(S, A[0])

    nextc = Contract('u_lexer_next', lambda S, A: W(S, A) + pb_ok(S, A), lambda S0, S, A, r: [
        ('0 or -1', Or(r == 0, r == -1)), ('fails exactly at the end', (r != 0) == (P(S0, A) >= NTXT)), ('one character', P(S, A) == If(r == 0, P(S0, A) + 1, P(S0, A)))] + out_char(S0, S, A, r == 0) + W(S, A), mv)
    skipc = Contract('u_lexer_skip', lambda S, A: W(S, A) + pb_ok(S, A), lambda S0, S, A, r: [
        ('0 or -1', Or(r == 0, r == -1)), ('fails exactly when nothing follows', (r != 0) == (P(S0, A) + 1 >= NTXT)),
        ('one character and the white space after it', Implies(r == 0, z3.And(P(S, A) == WS(P(S0, A) + 1), P(S, A) > P(S0, A), Not(space(T(P(S, A)))), WS(P(S, A)) == P(S, A)))),
        ('the end otherwise', Implies(r != 0, P(S, A) == NTXT))] + out_char(S0, S, A, r == 0) + W(S, A), mv)
    eat = Contract('u_lexer_eat_ws', W, lambda S0, S, A, r: [
        ('0 or -1', Or(r == 0, r == -1)), ('fails exactly at the end', (r != 0) == (P(S0, A) >= NTXT)),
        ('the white space', If(r == 0, z3.And(P(S, A) == WS(P(S0, A)), P(S, A) >= P(S0, A), Not(space(T(P(S, A)))), WS(P(S, A)) == P(S, A)), P(S, A) == P(S0, A)))] + W(S, A), lambda S, A: X.cells(A[0], X.POS),
        loops={0: LoopSpec(lambda SE, S, v, A: [
            ('cursor', z3.And(v.l.eq(A.l), P(S, A) >= P(SE, A), P(S, A) <= NTXT, P(SE, A) < NTXT)),
            ('only the cursor moves', S.inner('i64', A.l.o) == z3.Store(SE.inner('i64', A.l.o), A.l.f + X.POS, P(S, A))),
            ('white space so far', WS(P(SE, A)) == WS(P(S, A)))] + defs(S, ws_def(P(S, A))),
            measure=lambda S, v: NTXT - X.pos(S, v.l))})
    eot = Contract('u_lexer_eot', W, lambda S0, S, A, r: [('true exactly at the end', z3.And((r != 0) == (P(S0, A) == NTXT), Or(r == 0, r == 1)))], lambda S, A: [])
    peek = Contract('u_lexer_peek', W, lambda S0, S, A, r: [('the character under the cursor', r == T(P(S0, A)))], lambda S, A: [])
    posc = Contract('u_lexer_pos', W, lambda S0, S, A, r: [('the position', r == P(S0, A))], lambda S, A: [])
    look = Contract('u_lexer_lookahead', W, lambda S0, S, A, r: [('the rest of the text', z3.And(r.o == X.s(S0, A[0]).o, r.f == P(S0, A)))], lambda S, A: [])
    lm = Contract('u_lexer_record_lmatch', W, lambda S0, S, A, r: [('bookmark at the cursor', X.lm(S, A[0]) == P(S0, A))] + W(S, A), lambda S, A: X.cells(A[0], X.LM))
    rm = Contract('u_lexer_record_rmatch', W, lambda S0, S, A, r: [('bookmark at the cursor', X.rm(S, A[0]) == P(S0, A))] + W(S, A), lambda S, A: X.cells(A[0], X.RM))
    seterr = Contract('u_lexer_seterr', lambda S, A: W(S, A) + [('format', Not(A[1].null()))], lambda S0, S, A, r: [('0', r == 0)] + W(S, A), lambda S, A: [('obj', ('i8',), A[0].o), ('ghost', 'vrc')], ghosts=libc.text_ghosts() + (('vrc', IntS),))
    # TXT names the text of the one lexer a function makes: a copy of its argument
    def new_post(S0, S, A, r):
        l = S.ptr(A[1])
        ok = r == 0
        s = X.s(S, l)
        return [('0 or ~0', Or(r == 0, r == -1)), ('fails only for lack of memory', Implies(Not(ok), S.g['oom'])), ('failure leaves nothing allocated', Implies(Not(ok), z3.And(S.live == S0.live, l.eq(S0.ptr(A[1]))))),
                ('two new objects', Implies(ok, z3.And(Not(S0.alive(l.o)), Not(S0.alive(s.o)), S.live == z3.Store(z3.Store(S0.live, l.o, True), s.o, True)))),
                ('at the start', Implies(ok, P_(S, l) == 0)), ('the text is the argument', Implies(ok, forall(lambda k: Implies(z3.And(k >= 0, k <= NTXT), T(k) == S0.i8(A[0] + k)), pats=lambda k: T(k)))),
                ('the argument is the text', Implies(ok, forall(lambda k: Implies(z3.And(k >= A[0].f, k <= A[0].f + NTXT), z3.Select(S0.inner('i8', A[0].o), k) == T(k - A[0].f)), pats=lambda k: z3.Select(S0.inner('i8', A[0].o), k)))),
                ('up to its NUL', Implies(ok, nonul())),
                ('sizes of what was allocated', forall(lambda k: Implies(S0.alive(k), S.sz(k) == S0.sz(k)), pats=lambda k: z3.Select(S.size, k))),
                ('content of what was allocated', z3.And(*[forall(lambda o: Implies(z3.And(S0.alive(o), o != A[1].o), S.inner(k, o) == S0.inner(k, o)), pats=lambda o: S.inner(k, o)) for k in S.M]))] + \
            [(a, Implies(ok, f)) for a, f in X.wf(S, l)]
    P_ = X.pos
    new = Contract('u_lexer_new', lambda S, A: [('where the lexer goes', z3.And(S.valid(A[1], 8), A[1].o != A[0].o))], new_post, lambda S, A: [('cell', 'p', A[1]), ('heap',), ('mem', '*')])
    new.assumed = True      # lexer:u_lexer_new, with a name for the text
    geterr = Contract('u_lexer_geterr', W, lambda S0, S, A, r: [('the message field', z3.And(r.o == A[0].o, r.f == A[0].f + X.ERR))], lambda S, A: [])

    def gm_post(S0, S, A, r):
        a, b, m = X.lm(S0, A[0]), X.rm(S0, A[0]), A[1]
        c0, c1 = S0.inner('i8', m.o), S.inner('i8', m.o)
        n = b - a + 1
        ok = z3.And(Not(m.null()), b >= a, n < TOK)
        return [('NULL exactly if there is no match that fits', If(ok, r.eq(m), r.null())), ('terminated', Implies(ok, z3.Select(c1, m.f + n) == 0)),
                ('the text between the bookmarks', Implies(ok, forall(lambda k: Implies(z3.And(k >= m.f, k < m.f + n), z3.Select(c1, k) == T(k - m.f + a)), pats=lambda k: z3.Select(c1, k)))),
                ('nothing is written on failure', Implies(Not(ok), z3.And(*[S.inner(t, m.o) == S0.inner(t, m.o) for t in S.M]))),
                ('nothing else is written', z3.And(*[outside(S0, S, t, m) for t in S.M]))] + W(S, A)
    get_match = Contract('u_lexer_get_match', lambda S, A: W(S, A) + [('room for a token', Or(A[1].null(), z3.And(S.valid(A[1], TOK), A[1].o > S.eng.NG, A[1].o != A[0].o, A[1].o != X.s(S, A[0]).o)))],
                         gm_post, lambda S, A: [('obj', '*', A[1].o)])
    expect = Contract('u_lexer_expect_char', W, lambda S0, S, A, r: [
        ('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly if the character is under the cursor', (r == 0) == z3.And(T(P(S0, A)) == A[1], P(S0, A) < NTXT)), ('consumes it', P(S, A) == If(r == 0, P(S0, A) + 1, P(S0, A)))] + W(S, A),
        lambda S, A: X.cells(A[0], X.POS) + [('obj', ('i8',), A[0].o), ('ghost', 'vrc')], ghosts=libc.text_ghosts() + (('vrc', IntS),))

    def free_pre(S, A):
        l = A[0]
        t = X.s(S, l)
        return [('a lexer or NULL', Or(l.null(), z3.And(l.f == 0, S.alive(l.o), S.sz(l.o) == X.SZ, l.o > S.eng.NG, t.f == 0, t.o > S.eng.NG, S.alive(t.o), t.o != l.o)))]
    free = Contract('u_lexer_free', free_pre, lambda S0, S, A, r: [
        ('exactly the lexer and its text are released', S.live == If(A[0].null(), S0.live, z3.Store(z3.Store(S0.live, X.s(S0, A[0]).o, False), A[0].o, False))),
        ('sizes of what was allocated', forall(lambda k: S.sz(k) == S0.sz(k), pats=lambda k: z3.Select(S.size, k)))], lambda S, A: [('heap',)])
    return [new, free, geterr, nextc, skipc, eat, eot, peek, posc, look, lm, rm, seterr, get_match, expect]


def outside(S0, S, t, m):
    c0, c1 = S0.inner(t, m.o), S.inner(t, m.o)
    return forall(lambda k: Implies(Or(k < m.f, k >= m.f + TOK), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k))


def defs(S, *fs):
    """definitions of specification functions, unfolded where needed: facts, not obligations"""
    for f in fs:
        S.add(f)
    return []


def options(mod):
    from specs import lexer
    return lexer.options(mod)
