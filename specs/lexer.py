"""Contracts for srcs/toolbox/lexer.c.  The lexer is (text, pos, lmatch, rmatch): text is the
string handed over, slen its length, 0 <= pos <= slen."""
from lvc.engine import *
from lvc import libc


def m_vsn(eng, st, av, x):
    outs = libc.m_vsnprintf(eng, st, av, x)
    for s, r in outs:
        s.g['vrc'] = r
    return outs


def options(mod):
    M = dict(libc.MODELS)
    M['vsnprintf'] = m_vsn
    return dict(models=M)


def space(c):
    return Or(c == 32, z3.And(c >= 9, c <= 13))


def isstr(S, p):
    return z3.And(S.valid(p, 1), exists(lambda k: z3.And(k >= p.f, k < S.sz(p.o), S.i8(Ptr(p.o, k)) == 0)))


class LX:
    """the lexer object, seen from any translation unit"""

    def __init__(self, mod):
        F = mod.di_struct('u_lexer_s')
        self.F = F
        self.SZ = F['__size__']
        self.S_, self.SLEN, self.POS, self.LM, self.RM, self.ERR = F['s'], F['slen'], F['pos'], F['lmatch'], F['rmatch'], F['err']
        self.ERRSZ = self.SZ - self.ERR
        self.TOK = 128

    def s(self, S, l): return S.ptr(l, self.S_)
    def pos(self, S, l): return S.i64(l, self.POS)
    def slen(self, S, l): return S.i64(l, self.SLEN)
    def lm(self, S, l): return S.i64(l, self.LM)
    def rm(self, S, l): return S.i64(l, self.RM)
    def text(self, S, l): return S.inner('i8', self.s(S, l).o)
    def ch(self, S, l, k): return z3.Select(self.text(S, l), k)

    def wf(self, S, l):
        s = self.s(S, l)
        return [S.heap(l, self.SZ), l.o > S.eng.NG, s.f == 0, s.o > S.eng.NG, s.o != l.o, S.alive(s.o),
                self.slen(S, l) >= 0, self.slen(S, l) < 2**62, S.sz(s.o) >= self.slen(S, l) + 1,
                self.ch(S, l, self.slen(S, l)) == 0, self.pos(S, l) >= 0, self.pos(S, l) <= self.slen(S, l),
                self.lm(S, l) >= 0, self.lm(S, l) <= self.slen(S, l), self.rm(S, l) >= 0, self.rm(S, l) <= self.slen(S, l)]

    def wfl(self, S, l):
        return [('lexer well formed after #%d' % i, f) for i, f in enumerate(self.wf(S, l))]

    def cur(self, l):
        return [('cell', 'i64', Ptr(l.o, l.f + self.POS))]


def contracts(mod):
    X = LX(mod)
    Y = lambda S, A: A.l

    def pre(S, A):
        return X.wf(S, A.l)

    def unch(S0, S, l):
        return []

    # ---- next character that is not white space, from position p on (ghost q)
    def skipped(S0, l, p, q):
        c = X.text(S0, l)
        return z3.And(q >= p, q <= X.slen(S0, l), Not(space(z3.Select(c, q))),
                      forall(lambda k: Implies(z3.And(k >= p, k < q), space(z3.Select(c, k))), pats=lambda k: z3.Select(c, k)))

    def out_char(S0, S, A, ok):
        pb = A.pb
        new = X.ch(S0, A.l, X.pos(S, A.l))
        return [('the accepted character is copied out', Implies(z3.And(ok, Not(pb.null())), S.i8(pb) == new)),
                ('nothing is copied out on failure', Implies(z3.And(Not(ok), Not(pb.null())), S.i8(pb) == S0.i8(pb)))]

    def pb_ok(S, A):
        return [Or(A.pb.null(), z3.And(S.valid(A.pb, 1), A.pb.o != A.l.o, A.pb.o != X.s(S, A.l).o))]

    def next_post(S0, S, A, r):
        p, n = X.pos(S0, A.l), X.slen(S0, A.l)
        return [('0 or -1', Or(r == 0, r == -1)), ('fails exactly at the end of the text', (r != 0) == (p >= n)),
                ('consumes exactly one character', X.pos(S, A.l) == If(r == 0, p + 1, p))] + out_char(S0, S, A, r == 0) + X.wfl(S, A.l)

    def skip_post(S0, S, A, r):
        p, n, p1 = X.pos(S0, A.l), X.slen(S0, A.l), X.pos(S, A.l)
        return [('0 or -1', Or(r == 0, r == -1)), ('fails exactly when no character follows', (r != 0) == (p + 1 >= n)),
                ('consumes one character and exactly the white space after it', Implies(r == 0, skipped(S0, A.l, p + 1, p1))),
                ('at the end of the text', Implies(r != 0, p1 == If(p >= n, p, n)))] + out_char(S0, S, A, r == 0) + X.wfl(S, A.l)

    def ws_post(S0, S, A, r):
        p, n, p1 = X.pos(S0, A.l), X.slen(S0, A.l), X.pos(S, A.l)
        return [('0 or -1', Or(r == 0, r == -1)), ('fails exactly at the end of the text', (r != 0) == (p >= n)),
                ('consumes exactly the white space', Implies(r == 0, skipped(S0, A.l, p, p1))),
                ('failure does not move', Implies(r != 0, p1 == p))] + X.wfl(S, A.l)

    ws_loop = {0: LoopSpec(lambda SE, S, v, A: [
        ('cursor', z3.And(v.l.eq(A.l), X.pos(S, A.l) >= X.pos(SE, A.l), X.pos(S, A.l) <= X.slen(SE, A.l), X.pos(SE, A.l) < X.slen(SE, A.l))),
        ('only the cursor moves', S.inner('i64', A.l.o) == z3.Store(SE.inner('i64', A.l.o), A.l.f + X.POS, X.pos(S, A.l))),
        ('white space so far', forall(lambda k: Implies(z3.And(k >= X.pos(SE, A.l), k < X.pos(S, A.l)), space(z3.Select(X.text(SE, A.l), k))), pats=lambda k: z3.Select(X.text(SE, A.l), k)))],
        measure=lambda S, v: X.slen(S, v.l) - X.pos(S, v.l))}
    eat_ws = Contract('u_lexer_eat_ws', pre, ws_post, lambda S, A: X.cur(A.l), loops=ws_loop)
    mv = lambda S, A: X.cur(A.l) + [('cell', 'i8', A.pb)]
    nextc = Contract('u_lexer_next', lambda S, A: pre(S, A) + pb_ok(S, A), next_post, mv)
    skipc = Contract('u_lexer_skip', lambda S, A: pre(S, A) + pb_ok(S, A), skip_post, mv)
    eot = Contract('u_lexer_eot', pre, lambda S0, S, A, r: [('true exactly at the end', z3.And((r != 0) == (X.pos(S0, A.l) == X.slen(S0, A.l)), Or(r == 0, r == 1)))], lambda S, A: [])
    peek = Contract('u_lexer_peek', pre, lambda S0, S, A, r: [('the character under the cursor', r == X.ch(S0, A.l, X.pos(S0, A.l)))], lambda S, A: [])
    posc = Contract('u_lexer_pos', pre, lambda S0, S, A, r: [('the position', r == X.pos(S0, A.l))], lambda S, A: [])
    look = Contract('u_lexer_lookahead', pre, lambda S0, S, A, r: [('the rest of the text', z3.And(r.o == X.s(S0, A.l).o, r.f == X.pos(S0, A.l)))], lambda S, A: [])
    lm = Contract('u_lexer_record_lmatch', pre, lambda S0, S, A, r: [('bookmark at the cursor', X.lm(S, A.l) == X.pos(S0, A.l))] + X.wfl(S, A.l), lambda S, A: [('cell', 'i64', Ptr(A.l.o, A.l.f + X.LM))])
    rm = Contract('u_lexer_record_rmatch', pre, lambda S0, S, A, r: [('bookmark at the cursor', X.rm(S, A.l) == X.pos(S0, A.l))] + X.wfl(S, A.l), lambda S, A: [('cell', 'i64', Ptr(A.l.o, A.l.f + X.RM))])

    def gm_post(S0, S, A, r):
        a, b = X.lm(S0, A.l), X.rm(S0, A.l)
        m = A.match
        c0, c1 = X.text(S0, A.l), S.inner('i8', m.o)
        n = b - a + 1
        ok = z3.And(Not(m.null()), b >= a, n < X.TOK)
        return [('NULL exactly if there is no match that fits', If(ok, r.eq(m), r.null())),
                ('the text between the bookmarks', Implies(ok, forall(lambda k: Implies(z3.And(k >= m.f, k < m.f + n), z3.Select(c1, k) == z3.Select(c0, k - m.f + a)), pats=lambda k: z3.Select(c1, k)))),
                ('terminated', Implies(ok, z3.Select(c1, m.f + n) == 0)),
                ('nothing else is written', forall(lambda k: Implies(Or(Not(ok), k < m.f, k > m.f + n), z3.Select(c1, k) == z3.Select(S0.inner('i8', m.o), k)), pats=lambda k: z3.Select(c1, k)))]
    get_match = Contract('u_lexer_get_match', lambda S, A: pre(S, A) + [Or(A.match.null(), z3.And(S.valid(A.match, X.TOK), A.match.o != A.l.o, A.match.o != X.s(S, A.l).o))],
                         gm_post, lambda S, A: [('obj', '*', A.match.o)])

    TG = libc.text_ghosts() + (('vrc', IntS),)

    def err_ok(S0, S, l, on):
        """the message is the formatted text, cut at the end of the field"""
        c = S.inner('i8', l.o)
        n, T = S.g['tn'], S.g['tt']
        good = z3.And(on, S.g['vrc'] >= 0)
        m = If(n < X.ERRSZ, n, X.ERRSZ - 1)
        e0 = l.f + X.ERR
        return [('the message is the formatted text as far as it fits', Implies(good, forall(lambda k: Implies(z3.And(k >= e0, k < e0 + m), z3.Select(c, k) == z3.Select(T, k - e0)), pats=lambda k: z3.Select(c, k)))),
                ('the message is terminated', Implies(good, z3.Select(c, e0 + m) == 0)),
                ('nothing but the message is written', forall(lambda k: Implies(Or(k < e0, k >= e0 + X.ERRSZ), z3.Select(c, k) == z3.Select(S0.inner('i8', l.o), k)), pats=lambda k: z3.Select(c, k)))]
    seterr = Contract('u_lexer_seterr', lambda S, A: pre(S, A) + [Not(A.fmt.null())], lambda S0, S, A, r: [('0', r == 0)] + err_ok(S0, S, A.l, z3.BoolVal(True)) + X.wfl(S, A.l),
                      lambda S, A: [('obj', ('i8',), A.l.o), ('ghost', 'vrc')], ghosts=TG)
    geterr = Contract('u_lexer_geterr', pre, lambda S0, S, A, r: [('the message field', z3.And(r.o == A.l.o, r.f == A.l.f + X.ERR))], lambda S, A: [])

    def ec_post(S0, S, A, r):
        p = X.pos(S0, A.l)
        hit = z3.And(X.ch(S0, A.l, p) == A.expected, p < X.slen(S0, A.l))
        return [('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly if the character is under the cursor', (r == 0) == hit),
                ('consumes it', X.pos(S, A.l) == If(r == 0, p + 1, p))] + X.wfl(S, A.l)
    expect = Contract('u_lexer_expect_char', pre, ec_post, lambda S, A: X.cur(A.l) + [('obj', ('i8',), A.l.o), ('ghost', 'vrc')], ghosts=TG)

    def new_post(S0, S, A, r):
        l = S.ptr(A.pl)
        s = X.s(S, l)
        ok = r == 0
        return [('0 or ~0', Or(r == 0, r == -1)),
                ('fails only for lack of memory', Implies(Not(ok), S.g['oom'])),
                ('failure leaves nothing allocated', Implies(Not(ok), z3.And(S.live == S0.live, l.eq(S0.ptr(A.pl))))),
                ('two new objects', Implies(ok, z3.And(Not(S0.alive(l.o)), Not(S0.alive(s.o)), S.live == z3.Store(z3.Store(S0.live, l.o, True), s.o, True)))),
                ('at the start', Implies(ok, z3.And(X.pos(S, l) == 0, X.lm(S, l) == 0, X.rm(S, l) == 0, S.i8(Ptr(l.o, X.ERR)) == 0))),
                ('the whole text', Implies(ok, z3.And(forall(lambda k: Implies(z3.And(k >= 0, k < X.slen(S, l)), z3.And(z3.Select(X.text(S, l), k) == S0.i8(Ptr(A.s.o, A.s.f + k)), z3.Select(X.text(S, l), k) != 0)),
                                                            pats=lambda k: z3.Select(X.text(S, l), k)), S0.i8(Ptr(A.s.o, A.s.f + X.slen(S, l))) == 0)))] + \
            [(a, Implies(ok, f)) for a, f in X.wfl(S, l)]
    new = Contract('u_lexer_new', lambda S, A: [isstr(S, A.s), S.valid(A.pl, 8), A.pl.o != A.s.o, S.sz(A.s.o) < 2**62], new_post,
                   lambda S, A: [('cell', 'p', A.pl), ('heap',), ('mem', '*')])
    def free_pre(S, A):
        l = A[0]
        t = X.s(S, l)
        return [Or(l.null(), z3.And(S.heap(l, X.SZ), l.o > S.eng.NG)),
                Or(l.null(), t.null(), z3.And(t.f == 0, t.o > S.eng.NG, S.alive(t.o), t.o != l.o))]
    free = Contract('u_lexer_free', free_pre,
                    lambda S0, S, A, r: [('exactly the lexer and its text are released',
                                          S.live == If(A[0].null(), S0.live, If(X.s(S0, A[0]).null(), z3.Store(S0.live, A[0].o, False),
                                                                                z3.Store(z3.Store(S0.live, A[0].o, False), X.s(S0, A[0]).o, False))))],
                    lambda S, A: [('heap',)])
    return [new, free, nextc, skipc, eat_ws, eot, peek, posc, look, lm, rm, get_match, seterr, geterr, expect]
