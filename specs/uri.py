"""Contracts for srcs/toolbox/uri.c against RFC 3986 over the text TXT (specs/jlex.py).  For each
class of characters a function gives the first position from p on whose character is not in it.  A
field of the URI object holds the text between two positions."""
from lvc.engine import *
from lvc import libc, ir
from lvc.engine import m_strlen, has_ite
from specs import jlex
from specs.jlex import TXT, NTXT, T, defs, JL, TOK

F1 = lambda n: z3.Function(n, IntS, IntS)
STRMAX = 4096


def is_(p, s):
    return Or(*[T(p) == ord(c) for c in s])


def alpha(p):
    return Or(z3.And(T(p) >= 65, T(p) <= 90), z3.And(T(p) >= 97, T(p) <= 122))


def digit(p):
    return z3.And(T(p) >= 48, T(p) <= 57)


def xdigit(p):
    return Or(digit(p), z3.And(T(p) >= 65, T(p) <= 70), z3.And(T(p) >= 97, T(p) <= 102))


def alnum(p):
    return Or(alpha(p), digit(p))


# RFC 3986, Appendix A.  The two digits of an escape are themselves in the class.
def ups(p):
    """unreserved / pct-encoded / sub-delims"""
    return Or(alnum(p), is_(p, "-._~!$&'()*+,;="), z3.And(is_(p, '%'), xdigit(p + 1), xdigit(p + 2)))


def uic(p):
    return Or(ups(p), is_(p, ':'))


def pchar(p):
    return Or(ups(p), is_(p, ':@'))


def qfc(p):
    return Or(pchar(p), is_(p, '/?'))


def schc(p):
    return Or(alnum(p), is_(p, '+-.'))


def portc(p):
    return Or(alnum(p), is_(p, '_-.'))


def v4c(p):
    return Or(digit(p), is_(p, '.'))


def notdelim(p):
    return Not(Or(is_(p, '@/?#'), T(p) == 0))


SCH, UI, RN, V4, PC, QF, POE, AT = [F1(n) for n in ('SCH', 'UI', 'RN', 'V4', 'PC', 'QF', 'POE', 'AT')]
CLS = ((SCH, schc), (UI, uic), (RN, ups), (V4, v4c), (PC, pchar), (QF, qfc), (POE, portc), (AT, notdelim))
ABE = F1('ABE')


def cdef(F, p):
    c = dict(CLS)[F]
    return F(p) == If(c(p), F(p + 1), p)


def abe_def(p):
    """*( "/" segment )"""
    return ABE(p) == If(is_(p, '/'), ABE(PC(p + 1)), p)


# where the parts of an authority that starts at a end
def host_of(a):
    """(userinfo?, start, end of the host, what follows it, bracketed?)"""
    has = is_(AT(a), '@')
    h = If(has, UI(a) + 1, a)
    lit = z3.And(Not(ups(h)), is_(h, '['))
    return has, h, lit


def tidy(S):
    """names for what the branches merged into if-then-else (not allowed in patterns)"""
    for k in list(S.M):
        S.M[k] = named_map(S, k)


LEX = []


def layout():
    if not LEX:
        from vf import build
        LEX.append(ir.parse(build.emit_ir('toolbox/lexer')))
    return LEX[0]


FIELDS = ('scheme', 'userinfo', 'user', 'pwd', 'authority', 'host', 'port', 'path', 'query', 'fragment')


def contracts(mod):
    lay = layout()
    X = JL(lay)
    lex = jlex.contracts(lay, lay)
    for c in lex:
        c.assumed = True        # proved in the lexer's own unit, by the same text
    U = mod.di_struct('u_uri_s')
    USZ = U['__size__']
    P = lambda S, A: X.pos(S, A[0])
    G = libc.text_ghosts() + (('vrc', IntS),)
    W = lambda S, A: X.wf(S, A[0]) + [('no NUL inside', jlex.nonul())]

    def uri(S, A, u=None):
        u = A[1] if u is None else u
        return [('a URI object', z3.And(u.f == 0, u.o > S.eng.NG, S.alive(u.o), S.sz(u.o) == USZ, u.o != A[0].o, u.o != X.s(S, A[0]).o))]
    WU = lambda S, A: W(S, A) + uri(S, A)
    only_l = lambda S, A: X.cells(A[0], X.POS) + [('obj', ('i8',), A[0].o), ('ghost', 'vrc')]
    MB = lambda S, A: [('obj', ('i8', 'i64'), A[0].o), ('ghost', 'vrc')]
    MU = lambda S, A: MB(S, A) + [('obj', '*', A[1].o)]
    ok01 = lambda r: ('0 or ~0', Or(r == 0, r == -1))

    def flags(S, u): return S.i32(u, U['flags'])
    def opts(S, u): return S.i32(u, U['opts'])

    def text(S, u, fld, a, b, on=True):
        """the field holds TXT[a..b)"""
        tidy(S)
        c = S.inner('i8', u.o)
        m = u.f + U[fld]
        return [(fld + ': ends', Implies(on, z3.And(b >= a, b - a < TOK, z3.Select(c, m + b - a) == 0))),
                (fld + ': text', Implies(on, forall(lambda k: Implies(z3.And(k >= m, k < m + b - a), z3.Select(c, k) == T(k - m + a)), pats=lambda k: z3.Select(c, k))))]

    def kept(S0, S, u, *flds):
        """nothing but these fields changes"""
        c0, c1 = S0.inner('i8', u.o), S.inner('i8', u.o)
        return ('no other field changes', forall(lambda k: Implies(z3.And(*[Or(k < u.f + U[f], k >= u.f + U[f] + TOK) for f in flds]), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k)))

    def same_flags(S0, S, u):
        return ('the flags stay', flags(S, u) == flags(S0, u))

    def same_opts(S0, S, u):
        return ('the options stay', opts(S, u) == opts(S0, u))

    def only_cursor(S, SE, A):
        return S.inner('i64', A[0].o) == z3.Store(SE.inner('i64', A[0].o), A[0].f + X.POS, P(S, A))

    def unfold(*fs):
        return lambda S, A: [S.add(f(P(S, A))) for f in fs]

    def nb(p0, p):
        return ('no closing bracket before', Implies(p > p0, Not(is_(p - 1, ']'))))

    # ------------------------------------------------------------------ one character
    def test(fn, cls):
        return Contract(fn, W, lambda S0, S, A, r: [('exactly on that class', (r != 0) == cls(P(S0, A)))], lambda S, A: [])
    tests = [test('u_uri_query_first', lambda p: is_(p, '?')), test('u_uri_fragment_first', lambda p: is_(p, '#')), test('u_uri_port_first', lambda p: is_(p, ':')),
             test('u_uri_path_first', lambda p: Or(is_(p, '/'), pchar(p))), test('u_uri_ipliteral_first', lambda p: is_(p, '[')), test('u_uri_regname_first', ups),
             test('u_uri_match_ups', ups), test('u_uri_match_pchar', pchar), test('u_uri_match_pchar_minus_at_sign', uic),
             test('u_uri_pct_encoded_first', lambda p: z3.And(is_(p, '%'), xdigit(p + 1), xdigit(p + 2))),
             test('u_uri_ipv4address_first', lambda p: z3.And(digit(p), Or(is_(V4(p), ':/?#'), T(V4(p)) == 0)))]
    colon = Contract('u_uri_expect_colon', W, lambda S0, S, A, r: [ok01(r), ('succeeds exactly on a colon', (r == 0) == is_(P(S0, A), ':')), ('past it', Implies(r == 0, P(S, A) == P(S0, A) + 1))] + W(S, A), only_l, ghosts=G)

    # ------------------------------------------------------------------ runs of characters
    def run(F, first=False, more=(), cvar=False):
        """the cursor has passed characters of the class (first: and is at one); cvar: c is the one under it"""
        cls = dict(CLS)[F]

        def inv(SE, S, v, A):
            p0, p = P(SE, A), P(S, A)
            return [('cursor', z3.And(p >= p0, p <= NTXT)), ('only the cursor moves', only_cursor(S, SE, A))] + ([('at one more', cls(p))] if first else []) + \
                ([('the current character', S.i8(v.c) == T(p))] if cvar else []) + [('one run', z3.And(*[F_(p0) == F_(p) for F_ in (F,) + tuple(more)])), nb(p0, p)] + W(S, A) + defs(S, *[cdef(F_, p + i) for i in (0, 1) for F_ in (F,) + tuple(more)])
        return LoopSpec(inv, measure=lambda S, v: NTXT - X.pos(S, v.l))

    def past(fn, cond, end, loops, entry=(), pre=None, name='the phrase'):
        return Contract(fn, pre or W, lambda S0, S, A, r: [ok01(r), ('succeeds exactly on ' + name, (r == 0) == cond(P(S0, A))), ('up to its end', Implies(r == 0, P(S, A) == end(P(S0, A)))), ('forward', P(S, A) >= P(S0, A)), nb(P(S0, A), P(S, A))] + W(S, A),
                        lambda S, A: only_l(S, A), loops=loops, ghosts=G, entry=unfold(*entry))
    regname = past('u_uri_parse_regname', lambda p: z3.BoolVal(True), RN, {0: run(RN, True)}, [lambda p: cdef(RN, p)], pre=lambda S, A: W(S, A) + [('at a reg-name', ups(P(S, A)))], name='a reg-name')
    v4 = past('u_uri_parse_ipv4address', lambda p: z3.BoolVal(True), RN, {0: run(V4, True, more=(RN,))}, [lambda p: cdef(V4, p), lambda p: cdef(RN, p), lambda p: cdef(RN, V4(p))],
              pre=lambda S, A: W(S, A) + [('at an address', z3.And(digit(P(S, A)), Or(is_(V4(P(S, A)), ':/?#'), T(V4(P(S, A))) == 0)))], name='an address')
    segnz = past('u_uri_expect_segment_nz', pchar, PC, {0: run(PC, True)}, [lambda p: cdef(PC, p)], name='a segment')

    def seg_inv(SE, S, v, A):
        p0, p = P(SE, A), P(S, A)
        return [('cursor', z3.And(p >= p0, p < NTXT)), ('only the cursor moves', only_cursor(S, SE, A)), ('at the start or at one more', Or(p == p0, pchar(p))), ('one run', Implies(p != p0, PC(p0 + 1) == PC(p))), nb(p0, p)] + W(S, A) + defs(S, cdef(PC, p), cdef(PC, p + 1))
    seg = Contract('u_uri_expect_segment', lambda S, A: W(S, A) + [('at a slash', is_(P(S, A), '/'))], lambda S0, S, A, r: [('0', r == 0), ('past the segment', P(S, A) == PC(P(S0, A) + 1)), ('forward', P(S, A) > P(S0, A)), nb(P(S0, A), P(S, A))] + W(S, A),
                   only_l, loops={0: LoopSpec(seg_inv, measure=lambda S, v: NTXT - X.pos(S, v.l))}, ghosts=G, entry=unfold(lambda p: cdef(PC, p + 1)))

    def abe_inv(SE, S, v, A):
        p0, p = P(SE, A), P(S, A)
        return [('cursor', z3.And(p >= p0, p <= NTXT, is_(p, '/'))), ('only the cursor moves', only_cursor(S, SE, A)), ('one path', ABE(p0) == ABE(p)), nb(p0, p)
                ] + W(S, A) + defs(S, abe_def(p), abe_def(PC(p + 1)))
    abe = Contract('u_uri_expect_path_abempty', W, lambda S0, S, A, r: [('0', r == 0), ('up to its end', P(S, A) == ABE(P(S0, A))), ('forward', P(S, A) >= P(S0, A)), nb(P(S0, A), P(S, A))] + W(S, A), only_l,
                   loops={0: LoopSpec(abe_inv, measure=lambda S, v: NTXT - X.pos(S, v.l))}, ghosts=G, entry=unfold(abe_def))
    lit = Contract('u_uri_parse_ipliteral', W, lambda S0, S, A, r: [ok01(r), ('succeeds exactly on an IP literal', (r == 0) == z3.And(is_(P(S0, A), '['), is_(PC(P(S0, A) + 1), ']'))),
                   ('past the bracket', Implies(r == 0, z3.And(P(S, A) == PC(P(S0, A) + 1) + 1, P(S, A) > P(S0, A) + 1))), ('bookmark after the bracket', Implies(r == 0, X.lm(S, A[0]) == P(S0, A) + 1))] + W(S, A),
                   lambda S, A: X.cells(A[0], X.POS, X.LM) + [('obj', ('i8',), A[0].o), ('ghost', 'vrc')], loops={0: run(PC, cvar=True)}, ghosts=G, entry=unfold(lambda p: cdef(PC, p + 1)))

    # ------------------------------------------------------------------ fields
    def cut(a, b):
        """a greedy match loses a closing bracket"""
        return If(z3.And(b > a, is_(b - 1, ']')), b - 1, b)

    def adj_text(S, m, a, b, on):
        tidy(S)
        c = S.inner('i8', m.o)
        return [('terminated', Implies(on, z3.Select(c, m.f + b - a) == 0)), ('the text', Implies(on, forall(lambda k: Implies(z3.And(k >= m.f, k < m.f + b - a), z3.Select(c, k) == T(k - m.f + a)), pats=lambda k: z3.Select(c, k))))]

    def adj_post(S0, S, A, r):
        a, b, m = X.lm(S0, A[0]), X.rm(S0, A[0]), A[1]
        ok = b - a + 1 < TOK
        return [ok01(r), ('succeeds exactly if it fits', (r == 0) == ok)] + adj_text(S, m, a, cut(a, b), ok) + \
            [('nothing else is written', z3.And(*[jlex.outside(S0, S, t, m) for t in S.M]))] + W(S, A)
    adj = Contract('u_uri_adjust_greedy_match', lambda S, A: W(S, A) + [('room for a token', z3.And(S.valid(A[1], TOK), A[1].o > S.eng.NG, A[1].o != A[0].o, A[1].o != X.s(S, A[0]).o)), ('bookmarks', z3.And(X.rm(S, A[0]) == P(S, A), X.lm(S, A[0]) <= X.rm(S, A[0])))],
                   adj_post, lambda S, A: [('obj', '*', A[1].o)], ghosts=G)

    def field(fn, fld, cond, a, b, end, loops={}, entry=(), cutoff=None):
        """on the phrase: the field gets its text if it fits"""
        def post(S0, S, A, r):
            p = P(S0, A)
            fits = b(p) - a(p) + 1 < TOK
            okc = z3.And(cond(p), fits)
            return [ok01(r), ('succeeds exactly on the phrase if it fits', (r == 0) == okc), ('up to its end', Implies(r == 0, z3.And(P(S, A) == end(p), P(S, A) >= p)))] + text(S, A[1], fld, a(p), b(p), r == 0) + \
                [kept(S0, S, A[1], fld), same_flags(S0, S, A[1]), same_opts(S0, S, A[1])] + W(S, A)
        return Contract(fn, WU, post, MU, loops=loops, ghosts=G, entry=unfold(*entry))

    def sch_post(S0, S, A, r):
        p = P(S0, A)
        e = SCH(p)
        return [ok01(r), ('succeeds exactly on a scheme that fits', (r == 0) == z3.And(alpha(p), e - p + 1 < TOK)), ('up to its end', Implies(r == 0, z3.And(P(S, A) == e, e > p)))] + \
            text(S, A[1], 'scheme', p, e, z3.And(r == 0, e < NTXT)) + [kept(S0, S, A[1], 'scheme'), same_flags(S0, S, A[1]), same_opts(S0, S, A[1])] + W(S, A)
    scheme = Contract('u_uri_parse_scheme', WU, sch_post, MU, loops={0: run(SCH, True)}, ghosts=G, entry=unfold(lambda p: cdef(SCH, p)))
    PT = lambda p: If(is_(p + 1, '*'), p + 2, POE(p + 1))
    port = field('u_uri_parse_port', 'port', lambda p: is_(p, ':'), lambda p: p + 1, PT, PT, loops={0: run(POE, cvar=True)}, entry=[lambda p: cdef(POE, p + 1)])
    query = field('u_uri_parse_query', 'query', lambda p: is_(p, '?'), lambda p: p + 1, lambda p: QF(p + 1), lambda p: QF(p + 1), loops={0: run(QF, cvar=True)}, entry=[lambda p: cdef(QF, p + 1)])
    abempty = field('u_uri_parse_abempty', 'path', lambda p: z3.BoolVal(True), lambda p: p, ABE, ABE, entry=[abe_def])

    def frag_post(S0, S, A, r):
        p = P(S0, A)
        e = QF(p + 1)
        return [ok01(r), ('succeeds exactly on a fragment that fits', (r == 0) == z3.And(is_(p, '#'), e - p < TOK)), ('up to its end', Implies(r == 0, z3.And(P(S, A) == e, e > p)))] + \
            text(S, A[1], 'fragment', p + 1, e, z3.And(r == 0, e == NTXT)) + [kept(S0, S, A[1], 'fragment'), same_flags(S0, S, A[1]), same_opts(S0, S, A[1])] + W(S, A)
    frag = Contract('u_uri_parse_fragment', WU, frag_post, MU, loops={0: run(QF, cvar=True)}, ghosts=G, entry=unfold(lambda p: cdef(QF, p + 1)))
    SEG0 = lambda p: If(is_(p, '/'), p + 1, p)
    path = field('u_uri_parse_path', 'path', lambda p: pchar(SEG0(p)), lambda p: p, lambda p: ABE(PC(SEG0(p))), lambda p: ABE(PC(SEG0(p))), entry=[lambda p: cdef(PC, SEG0(p)), lambda p: abe_def(PC(SEG0(p)))])

    # host
    def host_parts(h):
        l = z3.And(Not(ups(h)), is_(h, '['))
        ip = z3.And(digit(h), Or(is_(V4(h), ':/?#'), T(V4(h)) == 0))
        return l, ip, If(l, h + 1, h), If(l, PC(h + 1), RN(h)), If(l, PC(h + 1) + 1, RN(h))

    def bits(f, l, ip):
        """the address flags, from a state where none was set"""
        return f == If(l, I(3), If(ip, I(1), I(0)))

    def host_ok(h):
        l, ip, a, b, e = host_parts(h)
        return z3.And(Implies(l, is_(PC(h + 1), ']')), e - a + 1 < TOK)

    def host_post(S0, S, A, r):
        p = P(S0, A)
        l, ip, a, b, e = host_parts(p)
        return [ok01(r), ('succeeds exactly on a host that fits', (r == 0) == host_ok(p)), ('up to its end', Implies(r == 0, z3.And(P(S, A) == e, e >= p)))] + text(S, A[1], 'host', a, b, r == 0) + \
            [kept(S0, S, A[1], 'host'), ('the kind of host', Implies(r == 0, bits(flags(S, A[1]), l, ip))), same_opts(S0, S, A[1])] + W(S, A)
    noflags = lambda S, A: [('no flag yet', flags(S, A[1]) == 0)]
    host = Contract('u_uri_parse_host', lambda S, A: WU(S, A) + noflags(S, A), host_post, MU, ghosts=G, entry=unfold(lambda p: cdef(RN, p), lambda p: cdef(PC, p + 1)))

    # ------------------------------------------------------------------ user information
    def at_(u, fld): return u.f + U[fld]

    def keptc(S0, S, u, *conds):
        """no field changes but those under their conditions"""
        tidy(S)
        c0, c1 = S0.inner('i8', u.o), S.inner('i8', u.o)
        return ('no other field changes', forall(lambda k: Implies(z3.And(*[Or(k < u.f + U[f], k >= u.f + U[f] + TOK, Not(c)) for f, c in conds]), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k)))

    def rng(c, lo, hi, f):
        return forall(lambda k: Implies(z3.And(k >= lo, k < hi), f(k, z3.Select(c, k))), pats=lambda k: z3.Select(c, k))

    TRUE = z3.BoolVal(True)
    obj = lambda S, u: ('a URI object', z3.And(u.f == 0, u.o > S.eng.NG, S.alive(u.o), S.sz(u.o) == USZ))

    def cup_pre(S, A):
        u, n = A[0], S.g['ul']
        c, b = S.inner('i8', u.o), at_(A[0], 'userinfo')
        return [obj(S, u), ('user information that fits', z3.And(n >= 0, n < TOK - 1, z3.Select(c, b + n) == 0)), ('no bracket in it, no NUL', rng(c, b, b + n, lambda k, x: z3.And(x != 0, x != ord(']'))))]

    def cup_post(S0, S, A, r):
        u = A[0]
        tidy(S)
        c0, c1 = S0.inner('i8', u.o), S.inner('i8', u.o)
        b, w, d = [at_(u, f) for f in ('userinfo', 'user', 'pwd')]
        uc, n = S.g['uc'], S.g['ul']
        col = z3.Select(c0, b + uc) == ord(':')
        ok = r == 0
        return [ok01(r), ('the length stays', n == S0.g['ul']), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('fails only on an empty one or for lack of memory', Implies(Not(ok), Or(n == 0, S.g['oom']))), ('an empty one is refused', Implies(n == 0, Not(ok))),
                ('failure changes nothing', Implies(Not(ok), c1 == c0)), ('the colon or the end', Implies(ok, z3.And(uc >= 0, uc <= n, Or(uc == n, col)))),
                ('user: ends', Implies(ok, z3.Select(c1, w + uc) == 0)), ('pwd: ends', Implies(z3.And(ok, uc < n), z3.Select(c1, d + n - uc - 1) == 0)), same_flags(S0, S, u), same_opts(S0, S, u),
                ('the first colon', Implies(ok, rng(c0, b, b + uc, lambda k, x: x != ord(':')))),
                ('user: text', Implies(ok, rng(c1, w, w + uc, lambda k, x: x == z3.Select(c0, k - w + b)))),
                ('pwd: text', Implies(z3.And(ok, uc < n), rng(c1, d, d + n - uc - 1, lambda k, x: x == z3.Select(c0, k - d + b + uc + 1)))),
                keptc(S0, S, u, ('user', TRUE), ('pwd', z3.And(ok, uc < n))),
                ('nothing stays allocated, nothing is released', forall(lambda k: S.alive(k) == S0.alive(k), pats=lambda k: z3.Select(S.live, k)))]

    def cup_inv(which):
        def inv(SE, S, v, A):
            l0, l = SE.ptr(v.l), S.ptr(v.l)
            p0, p = X.pos(SE, l0), X.pos(S, l)
            return [('the same lexer', l.eq(l0)), ('cursor', z3.And(p >= p0, p <= NTXT)), ('only the cursor moves', S.inner('i64', l.o) == z3.Store(SE.inner('i64', l.o), l.f + X.POS, p))] + X.wf(S, l) + \
                ([('no colon so far', forall(lambda k: Implies(z3.And(k >= 0, k < p), T(k) != ord(':')), pats=lambda k: T(k)))] if which == 0 else [])
        return inv

    def cup_leave(SH, S, vh, v, A):
        S.g['uc'] = S.eng.named_g(S, X.pos(S, S.ptr(v.l)))
    def before_lm(S, av, A):
        c, b, n = S.inner('i8', A[0].o), at_(A[0], 'userinfo'), S.g['ul']
        S.eng.ob(S, 'lemma', 'the copy ends', z3.And(T(NTXT) == z3.Select(c, b + NTXT), Implies(n <= NTXT, T(n) == z3.Select(c, b + n))))
        S.eng.ob(S, 'lemma', 'the copy has the length', NTXT == n)
    cup = Contract('u_uri_crumble_user_password', cup_pre, cup_post, lambda S, A: [('obj', '*', A[0].o), ('ghost', 'oom'), ('ghost', 'vrc')],
                   loops={0: LoopSpec(cup_inv(0), measure=lambda S, v: NTXT - X.pos(S, S.ptr(v.l)), leave=cup_leave), 1: LoopSpec(cup_inv(1), measure=lambda S, v: NTXT - X.pos(S, S.ptr(v.l)))},
                   ghosts=G + (('ul', IntS), ('uc', IntS)), before={'u_lexer_record_lmatch': before_lm})

    nosplit = lambda S, u: opts(S, u) % 2 == 1

    def split(S, u, a, e, on):
        """user and password are the parts of TXT[a..e) before and after its first colon, or for lack of memory what they were"""
        c, m = S.inner('i8', u.o), a + S.g['uc']
        on = z3.And(on, Not(S.g['oom']))
        return [('user information: split at a colon or the end', Implies(on, z3.And(m >= a, m <= e, Or(m == e, is_(m, ':'))))), ('user information: at the first colon', Implies(on, forall(lambda k: Implies(z3.And(k >= a, k < m), T(k) != ord(':')), pats=lambda k: T(k))))] + \
            text(S, u, 'user', a, m, on) + text(S, u, 'pwd', m + 1, e, z3.And(on, m < e))

    def ui_post(S0, S, A, r):
        p, u = P(S0, A), A[1]
        e = UI(p)
        dosplit = z3.And(r == 0, Not(nosplit(S0, u)), e > p)
        return [ok01(r), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('succeeds exactly on user information that fits', (r == 0) == z3.And(is_(e, '@'), e - p + 1 < TOK)), ('past the @', Implies(r == 0, z3.And(P(S, A) == e + 1, e >= p)))] + \
            text(S, u, 'userinfo', p, e, r == 0) + split(S, u, p, e, dosplit) + [keptc(S0, S, u, ('userinfo', TRUE), ('user', dosplit), ('pwd', z3.And(dosplit, Or(S.g['oom'], p + S.g['uc'] < e)))), same_flags(S0, S, u), same_opts(S0, S, u), LIVE(S0, S)] + W(S, A)
    LIVE = lambda S0, S: ('nothing stays allocated, nothing is released', forall(lambda k: S.alive(k) == S0.alive(k), pats=lambda k: z3.Select(S.live, k)))

    def ui_loop():
        r0 = run(UI)

        def inv(SE, S, v, A):
            p0, p = P(SE, A), P(S, A)
            return r0.inv(SE, S, v, A) + [('no bracket, no NUL so far', forall(lambda k: Implies(z3.And(k >= p0, k < p), z3.And(T(k) != ord(']'), T(k) != 0)), pats=lambda k: T(k)))]
        return LoopSpec(inv, measure=lambda S, v: NTXT - X.pos(S, v.l))

    def before_cup(S, av, A):
        p = S.eng.named(S, X.lm(S, A[0]))
        S.g['ul'] = S.eng.named_g(S, P(S, A) - p)
        tidy(S)
        c, b = S.inner('i8', A[1].o), at_(A[1], 'userinfo')
        S.eng.ob(S, 'lemma', 'the field against the text', forall(lambda k: Implies(z3.And(k >= p, k < p + S.g['ul']), z3.Select(c, b + k - p) == T(k)), pats=lambda k: T(k)))
    MUO = lambda S, A: MU(S, A) + [('ghost', 'oom')]
    GU = G + (('ul', IntS), ('uc', IntS))
    userinfo = Contract('u_uri_parse_userinfo', WU, ui_post, MUO, loops={0: ui_loop()}, ghosts=GU, entry=unfold(lambda p: cdef(UI, p)), before={'u_uri_crumble_user_password': before_cup})

    # ------------------------------------------------------------------ authority, hierarchical part
    def auth(S, p):
        n = lambda x: S.eng.named(S, x)
        a = p + 2
        has = is_(AT(a), '@')
        h = n(If(has, UI(a) + 1, a))
        l, ip, hs, hb, he = host_parts(h)
        hs, hb, he = n(hs), n(hb), n(he)
        prt = is_(he, ':')
        pe = n(PT(he))
        pp = n(If(prt, pe, he))
        fits = z3.And(Implies(has, z3.And(is_(UI(a), '@'), UI(a) - a + 1 < TOK)), host_ok(h), Implies(prt, pe - (he + 1) + 1 < TOK), ABE(pp) - pp + 1 < TOK)
        return dict(a=a, has=has, h=h, l=l, ip=ip, hs=hs, hb=hb, he=he, port=prt, pe=pe, pp=pp, end=ABE(pp), fits=fits)

    def auth_fields(S0, S, u, D, on):
        dosplit = z3.And(on, D['has'], Not(nosplit(S0, u)), UI(D['a']) > D['a'])
        return text(S, u, 'userinfo', D['a'], UI(D['a']), z3.And(on, D['has'])) + split(S, u, D['a'], UI(D['a']), dosplit) + text(S, u, 'host', D['hs'], D['hb'], on) + \
            text(S, u, 'port', D['he'] + 1, D['pe'], z3.And(on, D['port'])) + text(S, u, 'path', D['pp'], D['end'], on) + [('the kind of host', Implies(on, bits(flags(S, u), D['l'], D['ip'])))]

    def auth_changes(S0, S, u, D):
        dosplit = z3.And(D['has'], Not(nosplit(S0, u)), UI(D['a']) > D['a'])
        return [('userinfo', D['has']), ('user', dosplit), ('pwd', z3.And(dosplit, Or(S.g['oom'], D['a'] + S.g['uc'] < UI(D['a'])))), ('host', TRUE), ('port', D['port']), ('path', TRUE)]

    def auth_post(S0, S, A, r):
        p, u = P(S0, A), A[1]
        D = auth(S, p)
        return [ok01(r), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('succeeds exactly on an authority whose parts fit', (r == 0) == z3.And(is_(p, '/'), is_(p + 1, '/'), D['fits'])), ('up to the end of the path', Implies(r == 0, z3.And(P(S, A) == D['end'], P(S, A) > p)))] + \
            auth_fields(S0, S, u, D, r == 0) + [keptc(S0, S, u, *[(f, Or(r != 0, c) if f in ('userinfo', 'user', 'pwd', 'port') else c) for f, c in auth_changes(S0, S, u, D)]), same_opts(S0, S, u), LIVE(S0, S)] + W(S, A)
    WUF = lambda S, A: WU(S, A) + noflags(S, A)
    authority = Contract('u_uri_parse_authority', WUF, auth_post, MUO, ghosts=GU)

    def hier(S, p):
        D = auth(S, p)
        D['isa'] = z3.And(is_(p, '/'), is_(p + 1, '/'))
        D['isp'] = z3.And(Not(D['isa']), Or(is_(p, '/'), pchar(p)))
        pend = S.eng.named(S, ABE(PC(SEG0(p))))
        D['pend'] = pend
        D['ok'] = If(D['isa'], D['fits'], Implies(D['isp'], z3.And(pchar(SEG0(p)), pend - p + 1 < TOK)))
        D['z'] = S.eng.named(S, If(D['isa'], D['end'], If(D['isp'], pend, p)))
        D['ps'] = S.eng.named(S, If(D['isa'], D['pp'], p))
        return D

    def hier_post(S0, S, A, r):
        p, u = P(S0, A), A[1]
        D = hier(S, p)
        on = r == 0
        ina = z3.And(on, D['isa'])
        ch = [(f, Or(r != 0, z3.And(D['isa'], c)) if f != 'path' else c) for f, c in auth_changes(S0, S, u, D)]
        return [ok01(r), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('succeeds exactly on a hierarchical part that fits', on == D['ok']), ('up to its end', Implies(on, z3.And(P(S, A) == D['z'], D['z'] >= p)))] + \
            auth_fields(S0, S, u, D, ina) + text(S, u, 'path', D['ps'], D['z'], on) + [('no kind of host', Implies(z3.And(on, Not(D['isa'])), flags(S, u) == 0)), keptc(S0, S, u, *ch), same_opts(S0, S, u), LIVE(S0, S)] + W(S, A)
    hierp = Contract('u_uri_parse_hier_part', WUF, hier_post, MUO, ghosts=GU)

    # ------------------------------------------------------------------ the object
    BIG = 2**62
    isstr = lambda S, p: z3.And(S.valid(p, 1), S.sz(p.o) < BIG, exists(lambda k: z3.And(k >= p.f, k < S.sz(p.o), S.i8(Ptr(p.o, k)) == 0)))
    OKU = lambda S, u: ('a URI object or NULL', Or(u.null(), z3.And(u.f == 0, u.o > S.eng.NG, S.alive(u.o), S.sz(u.o) == USZ)))

    def getter(f):
        return Contract('u_uri_get_' + f, lambda S, A: [OKU(S, A[0])], lambda S0, S, A, r: [('the field', If(A[0].null(), r.null(), r.eq(A[0] + U[f])))], lambda S, A: [])

    def setter(f):
        def post(S0, S, A, r):
            u, v, n = A[0], A[1], S.g['sl']
            good = z3.And(Not(u.null()), Not(v.null()))
            ok = z3.And(good, n < TOK)
            tidy(S)
            c0, c1, s = S0.inner('i8', u.o), S.inner('i8', u.o), S0.inner('i8', v.o)
            m = at_(u, f)
            return [ok01(r), ('succeeds exactly if it fits', (r == 0) == ok), ('ends', Implies(ok, z3.Select(c1, m + n) == 0)), ('nothing without arguments', Implies(Not(good), c1 == c0)),
                    ('text', Implies(ok, rng(c1, m, m + n, lambda k, x: x == z3.Select(s, k - m + v.f)))), Implies(good, kept(S0, S, u, f)[1])]

        def entry(S, A):
            S.add(Implies(Not(A[1].null()), z3.And(str_at(S, A[1], S.g['sl']), A[1].f + S.g['sl'] < S.sz(A[1].o))))
        c = Contract('u_uri_set_' + f, lambda S, A: [OKU(S, A[0]), ('a string or NULL, elsewhere', Or(A[1].null(), z3.And(isstr(S, A[1]), A[1].o != A[0].o)))], post, lambda S, A: [('obj', ('i8',), A[0].o)], ghosts=(('sl', IntS),), entry=entry)
        c.inline = f == 'path'
        return c
    gflags = Contract('u_uri_get_flags', lambda S, A: [obj(S, A[0])], lambda S0, S, A, r: [('the flags', r == flags(S0, A[0]))], lambda S, A: [])
    free = Contract('u_uri_free', lambda S, A: [OKU(S, A[0])], lambda S0, S, A, r: [('exactly the object is released', S.live == If(A[0].null(), S0.live, z3.Store(S0.live, A[0].o, False))), ('sizes', S.size == S0.size)], lambda S, A: [('heap',)])

    pp_ok = lambda S, p: ('where the object goes', z3.And(S.valid(p, 8), p.o > S.eng.NG))

    def empty(S, u, *flds):
        return z3.And(*[S.i8(Ptr(u.o, u.f + U[f])) == 0 for f in flds])

    def oldsame(S0, S, *objs):
        """what was allocated keeps its size and content"""
        tidy(S)
        return [('sizes of what was allocated', forall(lambda k: Implies(S0.alive(k), S.sz(k) == S0.sz(k)), pats=lambda k: z3.Select(S.size, k)))]

    def new_post(S0, S, A, r):
        u = S.ptr(A[1])
        ok = r == 0
        return [ok01(r), ('fails only for lack of memory', Implies(Not(ok), S.g['oom'])), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('failure leaves nothing allocated', Implies(Not(ok), S.live == S0.live)),
                ('a new object', Implies(ok, z3.And(u.f == 0, u.o > S.eng.NG, Not(S0.alive(u.o)), S.sz(u.o) == USZ, S.live == z3.Store(S0.live, u.o, True)))),
                ('with these options, no flags', Implies(ok, z3.And(opts(S, u) == A[0], flags(S, u) == 0))), ('its fields are empty', Implies(ok, empty(S, u, *[f for f in FIELDS if f != 'path']))), ('its path is /', Implies(ok, z3.And(S.i8(Ptr(u.o, u.f + U['path'])) == ord('/'), S.i8(Ptr(u.o, u.f + U['path'] + 1)) == 0))),
                ('nothing on failure', Implies(Not(ok), u.eq(S0.ptr(A[1]))))] + oldsame(S0, S)
    unew = Contract('u_uri_new', lambda S, A: [pp_ok(S, A[1])], new_post, lambda S, A: [('heap',), ('cell', 'p', A[1])])

    # ------------------------------------------------------------------ whole URIs
    def whole(S, frag_ok=True):
        n = lambda x: S.eng.named(S, x)
        s = SCH(I(0))
        q = n(s + 1)
        D = hier(S, q)
        z = D['z']
        hasq = is_(z, '?')
        z2 = n(If(hasq, QF(z + 1), z))
        hasf = is_(z2, '#')
        z3_ = n(If(hasf, QF(z2 + 1), z2))
        D.update(s=s, q=q, hasq=hasq, z2=z2, hasf=hasf, end=z3_)
        D['all'] = z3.And(alpha(I(0)), s >= 1, s + 1 < TOK, is_(s, ':'), D['ok'], Implies(hasq, z2 - (z + 1) + 1 < TOK), Implies(hasf, z3_ - z2 < TOK), z3_ == NTXT)
        return D

    def whole_fields(S0, S, u, D, on, o):
        ina = z3.And(on, D['isa'])
        has = z3.And(ina, D['has'])
        ue = UI(D['a'])
        dosplit = z3.And(has, Not(o % 2 == 1), ue > D['a'])
        e = lambda f: S.i8(Ptr(u.o, u.f + U[f])) == 0
        return text(S, u, 'scheme', I(0), D['s'], on) + text(S, u, 'userinfo', D['a'], ue, has) + split(S, u, D['a'], ue, dosplit) + text(S, u, 'host', D['hs'], D['hb'], ina) + text(S, u, 'port', D['he'] + 1, D['pe'], z3.And(ina, D['port'])) + \
            text(S, u, 'path', D['ps'], D['z'], on) + text(S, u, 'query', D['z'] + 1, D['z2'], z3.And(on, D['hasq'])) + text(S, u, 'fragment', D['z2'] + 1, D['end'], z3.And(on, D['hasf'])) + \
            [('parts that are absent are empty', Implies(on, z3.And(Implies(Not(has), z3.And(e('userinfo'), e('user'), e('pwd'))), Implies(z3.And(dosplit, Not(S.g['oom']), D['a'] + S.g['uc'] == ue), e('pwd')), Implies(Not(ina), e('host')), Implies(Not(z3.And(ina, D['port'])), e('port')), Implies(Not(D['hasq']), e('query')), Implies(Not(D['hasf']), e('fragment')), e('authority')))),
             ('the kind of host', Implies(on, If(D['isa'], bits(flags(S, u), D['l'], D['ip']), flags(S, u) == 0)))]

    def obj_post(S0, S, u, u0, ok):
        return [('a new object', Implies(ok, z3.And(u.f == 0, u.o > S.eng.NG, Not(S0.alive(u.o)), S.sz(u.o) == USZ, S.alive(u.o)))), ('nothing on failure', Implies(Not(ok), u.eq(u0))),
                ('nothing else stays allocated, nothing is released', forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(ok, k == u.o)), pats=lambda k: z3.Select(S.live, k)))]

    def parser_post(S0, S, A, r):
        u = S.ptr(A[2])
        D = whole(S)
        ok = r == 0
        return [ok01(r), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('accepts only URIs whose parts fit', Implies(ok, D['all'])), ('refuses only what is none, or for lack of memory', Implies(Not(ok), Or(Not(D['all']), S.g['oom'])))] + \
            obj_post(S0, S, u, S0.ptr(A[2]), ok) + whole_fields(S0, S, u, D, ok, A[1]) + oldsame(S0, S) + W(S, A)
    parser = Contract('u_uri_parser', lambda S, A: W(S, A) + [pp_ok(S, A[2]), ('elsewhere', z3.And(A[2].o != A[0].o, A[2].o != X.s(S, A[0]).o)), ('at the start', P(S, A) == 0)], parser_post,
                      lambda S, A: [('heap',), ('cell', 'p', A[2]), ('ghost', 'vrc')] + MB(S, A)[:1], ghosts=GU)

    def crumble_post(S0, S, A, r):
        u = S.ptr(A[2])
        D = whole(S)
        ok = r == 0
        s0 = S0.inner('i8', A[0].o)
        return [ok01(r), ('memory', Implies(S0.g['oom'], S.g['oom'])), ('accepts only URIs whose parts fit', Implies(ok, D['all'])), ('refuses only what is none, or for lack of memory', Implies(Not(ok), Or(Not(D['all']), S.g['oom'])))] + \
            obj_post(S0, S, u, S0.ptr(A[2]), ok) + whole_fields(S0, S, u, D, ok, A[1]) + oldsame(S0, S) + [('of the argument', Implies(ok, forall(lambda k: Implies(z3.And(k >= 0, k <= NTXT), T(k) == z3.Select(s0, A[0].f + k)), pats=lambda k: T(k)))), ('up to its NUL', Implies(ok, jlex.nonul()))]
    crumble = Contract('u_uri_crumble', lambda S, A: [('a text', isstr(S, A[0])), pp_ok(S, A[2]), ('elsewhere', A[2].o != A[0].o)], crumble_post, lambda S, A: [('heap',), ('cell', 'p', A[2]), ('ghost', 'vrc')], ghosts=GU)

    def isabs_post(S0, S, A, r):
        D = whole(S)
        return [('absolute exactly if it is a URI without fragment text, memory permitting', Implies(Not(A[0].null()), z3.And(Or(r == 0, r == 1), Implies(r == 1, z3.And(D['all'], Or(Not(D['hasf']), D['end'] == D['z2'] + 1))), Implies(r == 0, Or(S.g['oom'], Not(D['all']), z3.And(D['hasf'], D['end'] > D['z2'] + 1)))))),
                ('-1 without one', Implies(A[0].null(), r == -1)), LIVE(S0, S)]
    isabs = Contract('u_uri_is_absolute', lambda S, A: [('a text or NULL', Or(A[0].null(), isstr(S, A[0])))], isabs_post, lambda S, A: [('heap',), ('ghost', 'vrc')], ghosts=GU)

    # ------------------------------------------------------------------ assembling
    LN = ['l_' + f for f in FIELDS]
    GK = tuple((l, IntS) for l in LN) + (('l_s', IntS),)
    ln = lambda S, f: S.g['l_' + f]

    def kpre(S, A):
        u, s = A[0], A[1]
        c, d = S.inner('i8', u.o), S.inner('i8', s.o)
        return [obj(S, u), ('room', z3.And(S.valid(s, STRMAX), s.o != u.o, s.o > S.eng.NG))] + \
            [(f + ' is a string', exists(lambda k: z3.And(k >= at_(u, f), k < at_(u, f) + TOK, z3.Select(c, k) == 0))) for f in FIELDS]

    def colon_in(S, u):
        c, m = S.inner('i8', u.o), at_(u, 'host')
        return exists(lambda k: z3.And(k >= m, k < m + ln(S, 'host'), z3.Select(c, k) == ord(':')))
    lits = lambda f: (f / 2) % 2 == 1

    def pieces_auth(S0, S, u):
        L = lambda f: ln(S0, f)
        ui = L('userinfo') > 0
        us = z3.And(Not(ui), L('user') > 0)
        pw = z3.And(us, L('pwd') > 0)
        lt = lits(flags(S, u))
        pt = L('port') > 0
        return [(TRUE, '//'), (ui, ('userinfo',)), (ui, '@'), (us, ('user',)), (pw, ':'), (pw, ('pwd',)), (us, '@'), (lt, '['), (TRUE, ('host',)), (lt, ']'), (pt, ':'), (pt, ('port',))]

    def layout_(S0, S, u, o, pieces, tag):
        """positions of the pieces from o on"""
        out = []
        for i, (c, w) in enumerate(pieces):
            n = ln(S0, w[0]) if isinstance(w, tuple) else I(len(w))
            out.append((c, w, o, n))
            o = S.eng.named(S, If(c, o + n, o))
        return out, o

    def placed(S0, S, u, s, lay_, on):
        tidy(S)
        c0, d = S0.inner('i8', u.o), S.inner('i8', s.o)
        out = []
        for i, (c, w, o, n) in enumerate(lay_):
            c = z3.And(on, c)
            if isinstance(w, tuple):
                m = at_(u, w[0])
                out.append(('piece %d: %s' % (i, w[0]), Implies(c, rng(d, s.f + o, s.f + o + n, lambda k, x, o=o, m=m: x == z3.Select(c0, k - s.f - o + m)))))
            else:
                out.append(('piece %d: %s' % (i, w), Implies(c, z3.And(*[z3.Select(d, s.f + o + j) == ord(ch) for j, ch in enumerate(w)]))))
        return out

    def within(S0, S, s):
        tidy(S)
        a, b = S0.inner('i8', s.o), S.inner('i8', s.o)
        return ('nothing beyond the buffer changes', forall(lambda k: Implies(Or(k < s.f, k >= s.f + STRMAX), z3.Select(b, k) == z3.Select(a, k)), pats=lambda k: z3.Select(b, k)))

    def lens_stay(S0, S):
        return ('lengths', z3.And(*[S.g[l] == S0.g[l] for l in LN]))

    def ka_post(S0, S, A, r):
        u, s = A[0], A[1]
        tidy(S)
        o0 = S0.g['l_s']
        lay_, end = layout_(S0, S, u, o0, pieces_auth(S0, S, u), 'a')
        ok = r == 0
        d0, d = S0.inner('i8', s.o), S.inner('i8', s.o)
        return [ok01(r), ('succeeds exactly if there is a host and the text fits', ok == z3.And(ln(S0, 'host') > 0, end < STRMAX)), ('ends', Implies(ok, z3.And(S.g['l_s'] == end, z3.Select(d, s.f + end) == 0))), ('no NUL before', Implies(ok, rng(d, s.f, s.f + end, lambda k, x: x != 0))), lens_stay(S0, S), ('options', same_opts(S0, S, u)[1]),
                ('bracketed if flagged or if there is a colon in it', Implies(ln(S0, 'host') > 0, lits(flags(S, u)) == Or(lits(flags(S0, u)), colon_in(S0, u)))), ('no other flag', z3.And(flags(S, u) % 2 == flags(S0, u) % 2, flags(S, u) / 4 == flags(S0, u) / 4)),
                ('what was there stays', Implies(ok, rng(d, s.f, s.f + o0, lambda k, x: x == z3.Select(d0, k))))] + placed(S0, S, u, s, lay_, ok) + [within(S0, S, s)]

    def ka_pre(S, A):
        u, s = A[0], A[1]
        c, d = S.inner('i8', u.o), S.inner('i8', s.o)
        return kpre(S, A)[:2] + [('lengths of the fields', z3.And(*[z3.And(ln(S, f) >= 0, ln(S, f) < TOK, z3.Select(c, at_(u, f) + ln(S, f)) == 0) for f in FIELDS]))] + [('length of ' + f, rng(c, at_(u, f), at_(u, f) + ln(S, f), lambda k, x: x != 0)) for f in FIELDS] + \
            [('a string so far', z3.And(S.g['l_s'] >= 0, S.g['l_s'] < STRMAX, z3.Select(d, s.f + S.g['l_s']) == 0)), ('of that length', rng(d, s.f, s.f + S.g['l_s'], lambda k, x: x != 0))]
    MK = lambda S, A: [('obj', ('i8',), A[1].o), ('obj', ('i32',), A[0].o), ('ghost', 'l_s')]
    ka = Contract('u_uri_knead_authority', ka_pre, ka_post, MK, ghosts=GK)

    def knead_post(S0, S, A, r):
        u, s = A[0], A[1]
        tidy(S)
        L = lambda f: ln(S0, f)
        nn = z3.And(Not(u.null()), Not(s.null()))
        au = L('authority') > 0
        pcs = [(L('scheme') > 0, ('scheme',)), (L('scheme') > 0, ':'), (au, '//'), (au, ('authority',))] + [(z3.And(Not(au), c), w) for c, w in pieces_auth(S0, S, u)] + \
            [(TRUE, ('path',)), (L('query') > 0, '?'), (L('query') > 0, ('query',)), (L('fragment') > 0, '#'), (L('fragment') > 0, ('fragment',))]
        lay_, end = layout_(S0, S, u, I(0), pcs, 'k')
        ok = r == 0
        d = S.inner('i8', s.o)
        return [ok01(r), ('refused without arguments', Implies(Not(nn), Not(ok))), ('succeeds exactly if there is an authority or a host, and the text fits', Implies(nn, ok == z3.And(Or(au, L('host') > 0), end < STRMAX))), ('ends', Implies(ok, z3.Select(d, s.f + end) == 0)), ('options', Implies(nn, same_opts(S0, S, u)[1])),
                ('bracketed if flagged or if there is a colon in it', Implies(z3.And(nn, Not(au), ok), lits(flags(S, u)) == Or(lits(flags(S0, u)), colon_in(S0, u))))] + placed(S0, S, u, s, lay_, ok) + [(within(S0, S, s)[0], Implies(nn, within(S0, S, s)[1]))]

    def or_null(fs, A):
        return [(l, Or(A[0].null(), A[1].null(), f)) for l, f in fs]
    knead = Contract('u_uri_knead', lambda S, A: or_null(kpre(S, A), A), knead_post, MK, ghosts=GK, entry=lambda S, A: kn_entry(S, A))

    def kn_entry(S, A):
        S.g['l_s'] = I(0)
        u = A[0]
        c = S.inner('i8', u.o)
        on = z3.And(Not(u.null()), Not(A[1].null()))
        for f in FIELDS:
            n, m = ln(S, f), at_(u, f)
            S.add(Implies(on, z3.And(n >= 0, n < TOK, z3.Select(c, m + n) == 0)), Implies(on, rng(c, m, m + n, lambda k, x: x != 0)))

    return lex + tests + [colon, regname, v4, segnz, seg, abe, lit, adj, scheme, port, query, abempty, frag, path, host, cup, userinfo, authority, hierp] + \
        [getter(f) for f in FIELDS] + [setter(f) for f in FIELDS] + [gflags, free, unew, parser, crumble, isabs, ka, knead]


def m_u_strlcat(eng, st, av, x):
    """misc:u_strlcat, whose contract this restates for calls"""
    d, s, size = av
    k = conc(size)
    if k is None or k <= 0:
        raise Unsupported('u_strlcat of an unknown size')
    eng.ob(st, 'requires', 'u_strlcat: destination range', st.valid(d, size))
    eng.ob(st, 'requires', 'u_strlcat: other objects', d.o != s.o)
    eng.assumed.add('u_strlcpy, u_strlcat: their contracts (misc), restated')
    if 'l_s' in st.g:       # the length is known
        D = st.g['l_s']
        if has_ite(D):
            D = eng.named_g(st, D)
        arr = st.inner('i8', d.o)
        eng.ob(st, 'lemma', 'the length of the text so far', z3.And(D >= 0, z3.Select(arr, d.f + D) == 0))
        eng.ob(st, 'lemma', 'no NUL in the text so far', forall(lambda k: Implies(z3.And(k >= d.f, k < d.f + D), z3.Select(arr, k) != 0), pats=lambda k: z3.Select(arr, k)))
    else:
        D = m_strlen(eng, st, [d], x)
    b = eng.cstring(s)
    if b is not None:
        b = b.split(b'\0')[0]
        n = I(len(b))
    else:
        n = m_strlen_f(eng, st, [s], x)
    src, old = st.inner('i8', s.o), st.inner('i8', d.o)
    s0 = st.copy()
    out = []
    for q, ok in ((s0, False), (st, True)):
        q.add(D + n < size if ok else D + n >= size)
        new = eng.fresh_arr('i8', False)
        q.add(forall(lambda f: Implies(Or(f < d.f, f >= d.f + size), z3.Select(new, f) == z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
        if ok:
            q.add(z3.Select(new, d.f + D + n) == 0)
            if b is not None:
                for i, c in enumerate(b):
                    q.add(z3.Select(new, d.f + D + i) == c)
            else:
                q.add(forall(lambda f: Implies(z3.And(f >= d.f + D, f < d.f + D + n), z3.Select(new, f) == z3.Select(src, f - d.f - D + s.f)), pats=lambda f: z3.Select(new, f)))
            q.add(forall(lambda f: Implies(z3.And(f >= d.f, f < d.f + D), z3.Select(new, f) == z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
            if 'l_s' in q.g:
                q.g['l_s'] = eng.named_g(q, D + n)
        else:
            e = eng.fresh('cut')
            q.add(e >= 0, z3.Or(e < size, D >= size), Implies(D < size, z3.Select(new, d.f + e) == 0))
        eng.set_inner(q, 'i8', d.o, new)
        out.append((q, I(0) if ok else I(-1)))
    return out


def m_strlen_f(eng, st, av, x):
    """strlen of a field whose length has a name"""
    p = av[0]
    if 'l_scheme' in st.g:
        k = conc(z3.simplify(p.f - eng.cur_args[0].f))
        U = eng.mod.di_struct('u_uri_s')
        f = [f for f in FIELDS if U[f] == k]
        if f:
            n, arr = st.g['l_' + f[0]], st.inner('i8', p.o)
            eng.ob(st, 'lemma', 'the length of ' + f[0], z3.And(p.o == eng.cur_args[0].o, n >= 0, n < TOK, z3.Select(arr, p.f + n) == 0))
            eng.ob(st, 'lemma', 'no NUL in ' + f[0], forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + n), z3.Select(arr, k) != 0), pats=lambda k: z3.Select(arr, k)))
            return n
    return m_strlen(eng, st, av, x)


def m_u_strlcpy(eng, st, av, x):
    """misc:u_strlcpy, whose contract this restates for calls"""
    d, s, size = av
    k = conc(size)
    if k is None or k <= 0:
        raise Unsupported('u_strlcpy of an unknown size')
    eng.ob(st, 'requires', 'u_strlcpy: destination range', st.valid(d, size))
    eng.ob(st, 'requires', 'u_strlcpy: other objects', d.o != s.o)
    eng.assumed.add('u_strlcpy, u_strlcat: their contracts (misc), restated')
    b = eng.cstring(s)
    if b is not None:
        b = b.split(b'\0')[0]
        if len(b) >= k:
            raise Unsupported('u_strlcpy of a long literal')
        for i, c in enumerate(b + b'\0'):
            eng.put(st, 'i8', d + i, I(c))
        return I(0)
    n = m_strlen(eng, st, [s], x)
    src, old = st.inner('i8', s.o), st.inner('i8', d.o)
    s0 = st.copy()
    out = []
    for q, ok in ((s0, False), (st, True)):
        q.add(n < size if ok else n >= size)
        new = eng.fresh_arr('i8', False)
        q.add(forall(lambda f: Implies(Or(f < d.f, f >= d.f + size), z3.Select(new, f) == z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
        if ok:
            q.add(z3.Select(new, d.f + n) == 0, forall(lambda f: Implies(z3.And(f >= d.f, f < d.f + n), z3.Select(new, f) == z3.Select(src, f - d.f + s.f)), pats=lambda f: z3.Select(new, f)))
        else:
            e = eng.fresh('cut')
            q.add(e >= 0, e < size, z3.Select(new, d.f + e) == 0)
        eng.set_inner(q, 'i8', d.o, new)
        out.append((q, I(0) if ok else I(-1)))
    return out


def m_strspn(eng, st, av, x):
    b = eng.cstring(av[1])
    eng.ob(st, 'memory', 'strspn: over the text', st.inner('i8', av[0].o) == TXT)
    eng.ob(st, 'memory', 'strspn: a string', z3.And(st.valid(av[0], 1), av[0].f <= NTXT, T(NTXT) == 0, st.sz(av[0].o) > NTXT))
    if b is None or b.split(b'\0')[0] != b'0123456789.':
        raise Unsupported('strspn with another set')
    n = eng.named(st, V4(av[0].f) - av[0].f)
    st.add(n >= 0, av[0].f + n <= NTXT)
    eng.assumed.add('strspn over the text: the run of those characters, which a NUL ends')
    return n


def m_strpbrk(eng, st, av, x):
    b = eng.cstring(av[1])
    eng.ob(st, 'memory', 'strpbrk: over the text', st.inner('i8', av[0].o) == TXT)
    eng.ob(st, 'memory', 'strpbrk: a string', z3.And(st.valid(av[0], 1), av[0].f <= NTXT, T(NTXT) == 0, st.sz(av[0].o) > NTXT))
    if b is None or b.split(b'\0')[0] != b'@/?#':
        raise Unsupported('strpbrk with another set')
    eng.assumed.add('strpbrk over the text: the first of those characters, or NULL at the NUL')
    q = eng.named(st, AT(av[0].f))
    st.add(q >= av[0].f, q <= NTXT, Or(is_(q, '@/?#'), T(q) == 0))
    s0 = st.copy()
    s0.add(T(q) == 0)
    st.add(T(q) != 0)
    return [(s0, NULL), (st, Ptr(av[0].o, q))]


def m_strchr(eng, st, av, x):
    """in a literal: the first occurrence (of NUL: the end)"""
    b = eng.cstring(av[0])
    if b is None:
        return m_strchr_any(eng, st, av, x)
    b = b.split(b'\0')[0]
    c = av[1]
    r = I(-1)
    for i, ch in reversed(list(enumerate(b + b'\0'))):
        r = If(c == ch, I(i), r)
    i = eng.named(st, r)
    s0 = st.copy()
    s0.add(i == -1)
    st.add(i >= 0)
    return [(s0, NULL), (st, av[0] + i)]


def m_strchr_any(eng, st, av, x):
    p, c = av
    eng.ob(st, 'memory', 'strchr: a string', z3.And(st.valid(p, 1), exists(lambda k: z3.And(k >= p.f, k < st.sz(p.o), st.i8(Ptr(p.o, k)) == 0))))
    arr = st.inner('i8', p.o)
    q = eng.fresh('strchr')
    s0 = st.copy()
    n = eng.fresh('strlen')
    st.add(q >= p.f, q < st.sz(p.o), z3.Select(arr, q) == c, forall(lambda k: Implies(z3.And(k >= p.f, k < q), z3.And(z3.Select(arr, k) != 0, z3.Select(arr, k) != c)), pats=lambda k: z3.Select(arr, k)))
    s0.add(n >= p.f, n < st.sz(p.o), z3.Select(arr, n) == 0, c != 0, forall(lambda k: Implies(z3.And(k >= p.f, k < n), z3.And(z3.Select(arr, k) != 0, z3.Select(arr, k) != c)), pats=lambda k: z3.Select(arr, k)))
    return [(s0, NULL), (st, Ptr(p.o, q))]


def m_strncmp(eng, st, av, x):
    """with a literal, over its length: equal exactly if the text goes on with it"""
    p, q, n = av
    b = eng.cstring(q)
    k = conc(n)
    if b is None or k is None or k > b.index(0):
        raise Unsupported('strncmp of this kind')
    eng.ob(st, 'memory', 'strncmp: over the text', st.inner('i8', p.o) == TXT)
    eng.ob(st, 'memory', 'strncmp: a string', z3.And(st.valid(p, 1), p.f <= NTXT, T(NTXT) == 0, st.sz(p.o) > NTXT))
    r = eng.fresh_of(st, ('int', 32), 'strncmp')
    st.add((r == 0) == z3.And(*[T(p.f + i) == b[i] for i in range(k)]))
    return r


def options(mod):
    M = dict(libc.MODELS)
    M['u_use_unused_args'] = lambda eng, st, av, x: None if x.ty[0] == 'void' else eng.fresh_of(st, x.ty)
    M.update(strlen=m_strlen_f, u_strlcat=m_u_strlcat, u_strlcpy=m_u_strlcpy, strspn=m_strspn, strpbrk=m_strpbrk, strchr=m_strchr, strncmp=m_strncmp)
    return dict(models=M, extra_types=('i8', 'i32', 'i64', 'p'), skip_types=())
