"""Contracts for srcs/toolbox/misc.c"""
from lvc.engine import *
from lvc import libc

BIG = 2**56
EINTR, ERANGE, EINVAL = 4, 34, 22
BA = z3.ArraySort(IntS, z3.BoolSort())


# ---------------------------------------------------------------- models
def m_strsep(eng, st, av, x):
    """strsep(&p, delim): ghost log of the non-empty fields: tc of them, [sa[j], en[j]);
    dl is the set of delimiter characters"""
    pp, d = av
    eng.ob(st, 'memory', 'strsep: result argument', st.valid(pp, 8))
    p = eng.load(st, ('ptr',), pp)
    outs = []
    if eng.feasible(st, p.null()):
        s0 = st.copy()
        s0.add(p.null())
        s0.g['fin'] = I(1)
        outs.append((s0, NULL))
    st.add(Not(p.null()))
    dl = st.g['dl']
    eng.ob(st, 'memory', 'strsep: argument is a NUL-terminated string',
           z3.And(st.valid(p, 1), exists(lambda k: z3.And(k >= p.f, k < st.sz(p.o), st.i8(Ptr(p.o, k)) == 0))))
    e = eng.fresh('fend')
    c = st.inner('i8', p.o)
    st.add(e >= p.f, e < st.sz(p.o),
           forall(lambda k: Implies(z3.And(k >= p.f, k < e), z3.And(z3.Select(c, k) != 0, Not(z3.Select(dl, z3.Select(c, k))))), pats=lambda k: z3.Select(c, k)))
    last = z3.Select(c, e) == 0
    st.add(Or(last, z3.Select(dl, z3.Select(c, e))))
    tc = st.g['tc']
    ne = e > p.f
    cov = z3.Const('cov!%d' % next(eng.cnt), INNER)
    cov0 = st.g['cov']
    st.add(forall(lambda k: z3.Select(cov, k) == If(z3.And(k >= p.f, k < e), tc, z3.Select(cov0, k)), pats=lambda k: z3.Select(cov, k)))
    st.g['cov'] = cov
    st.g['sa'] = If(ne, z3.Store(st.g['sa'], tc, p.f), st.g['sa'])
    st.g['en'] = If(ne, z3.Store(st.g['en'], tc, e), st.g['en'])
    for n in ('sa', 'en'):
        st.g[n] = eng.named(st, st.g[n])
    st.g['tc'] = eng.named(st, If(ne, tc + 1, tc))
    s1 = st.copy()
    st.add(last)
    eng.store(st, ('ptr',), pp, NULL, check=False)
    outs.append((st, p))
    s1.add(Not(last))
    eng.store(s1, ('int', 8), Ptr(p.o, e), I(0))
    eng.store(s1, ('ptr',), pp, Ptr(p.o, e + 1), check=False)
    outs.append((s1, p))
    return outs


TOK = (('dl', BA), ('tc', IntS), ('sa', INNER), ('en', INNER), ('cov', INNER), ('fin', IntS))


def m_strto(lo, hi, zero_ok=True):
    """strtol family: ghosts nd (there is a numeral), nv (its value)"""
    def m(eng, st, av, x):
        p, ep = av[0], av[1]
        eng.ob(st, 'memory', 'strto*: result argument', Or(ep.null(), st.valid(ep, 8)))
        nd, nv = st.g['nd'], st.g['nv']
        err = eng.gptr('@__errno_location')
        outs = []
        s0 = st.copy()          # no numeral: 0, *endptr = nptr, errno unchanged or EINVAL
        s0.add(nd == 0)
        s0.add(Not(ep.null()))
        eng.store(s0, ('ptr',), ep, p)
        v = eng.fresh('eno')
        s0.add(Or(v == EINVAL, v == s0.i32(err)))
        eng.put(s0, 'i32', err, v)
        outs.append((s0, z3.RealVal(0) if lo is None else I(0)))
        q = eng.fresh('endoff')
        st.add(nd != 0, q > p.f)
        eng.store(st, ('ptr',), ep, Ptr(p.o, q))
        if lo is None:
            s1 = st.copy()
            s1.add(st.g['nr'] != 0)
            r = z3.Real('rng!%d' % next(eng.cnt))
            eng.put(s1, 'i32', err, I(ERANGE))
            outs.append((s1, r))
            st.add(st.g['nr'] == 0)
            outs.append((st, nv))
            return outs
        ml = -hi if lo == 0 else lo      # unsigned: a minus sign negates modulo
        for cond, val in ((nv > hi, I(hi)), (nv < ml, I(hi if lo == 0 else lo))):
            s1 = st.copy()
            s1.add(cond)
            eng.put(s1, 'i32', err, I(ERANGE))
            outs.append((s1, val))
        st.add(nv >= ml, nv <= hi)
        outs.append((st, nv))
        eng.assumed.add('strtol/strtoumax/strtod: C99 result, endptr and errno')
        return outs
    return m


def wrapped(m):
    def f(eng, st, av, x):
        outs = m(eng, st, av, x)
        return [(s, v if z3.is_real(v) else eng.wrap(s, v, 64)) for s, v in outs]
    return f


def m_strlcpy(eng, st, av, x):
    d, s, size = av
    n = m_strlen(eng, st, [s], x)
    eng.ob(st, 'memory', 'strlcpy: destination range', Or(size == 0, st.valid(d, size)))
    eng.ob(st, 'memory', 'strlcpy: no overlap', Or(size == 0, d.o != s.o))
    src, old = st.inner('i8', s.o), st.inner('i8', d.o)
    new = eng.fresh_arr('i8', False)
    m = If(n < size, n, size - 1)
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(size > 0, f >= d.f, f < d.f + m), z3.Select(src, f - d.f + s.f),
                                                    If(z3.And(size > 0, f == d.f + m), I(0), z3.Select(old, f))), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', d.o, new)
    return n


def m_strlcat(eng, st, av, x):
    d, s, size = av
    dn = m_strlen(eng, st, [d], x)
    n = m_strlen(eng, st, [s], x)
    outs = []
    s0 = st.copy()
    s0.add(dn >= size)
    outs.append((s0, size + n))
    st.add(dn < size)
    eng.ob(st, 'memory', 'strlcat: destination range', st.valid(d, size))
    eng.ob(st, 'memory', 'strlcat: no overlap', d.o != s.o)
    src, old = st.inner('i8', s.o), st.inner('i8', d.o)
    new = eng.fresh_arr('i8', False)
    m = If(n < size - dn, n, size - dn - 1)
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(f >= d.f + dn, f < d.f + dn + m), z3.Select(src, f - d.f - dn + s.f),
                                                    If(f == d.f + dn + m, I(0), z3.Select(old, f))), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', d.o, new)
    outs.append((st, dn + n))
    return outs


def m_fwrite(eng, st, av, x):
    """fwrite(p, n, 1, fp): the item or an error; ghost wn/wc the bytes handed to the stream"""
    p, n, cnt, fp = av
    eng.ob(st, 'memory', 'fwrite: open stream', z3.And(fp.o > eng.NG, st.alive(fp.o)))
    eng.ob(st, 'memory', 'fwrite: source range', Or(n * cnt == 0, st.valid(p, n)))
    eng.ob(st, 'requires', 'fwrite: one item', cnt == 1)
    s0 = st.copy()
    st.add(n > 0)
    wn, wc = st.g['wn'], st.g['wc']
    new = z3.Const('wc!%d' % next(eng.cnt), INNER)
    src = st.inner('i8', p.o)
    st.add(forall(lambda k: z3.Select(new, k) == If(z3.And(k >= wn, k < wn + n), z3.Select(src, k - wn + p.f), z3.Select(wc, k)), pats=lambda k: z3.Select(new, k)))
    st.g['wc'] = new
    st.g['wn'] = wn + n
    return [(s0, I(0)), (st, I(1))]


def m_fopen_w(eng, st, av, x):
    s0 = st.copy()
    mode = eng.cstring(av[1])
    fp = eng.alloc(st, I(216), name='FILE')
    if 'wn' in st.g:
        eng.ob(st, 'requires', 'the file is opened for writing from scratch', z3.BoolVal(mode is not None and mode.split(b'\0')[0].rstrip(b'b') == b'w'))
        st.g['wn'] = I(0)
        st.g['wd'] = I(0)
    return [(s0, NULL), (st, fp)]


def m_fclose_w(eng, st, av, x):
    fp = av[0]
    eng.ob(st, 'memory', 'fclose: open stream', z3.And(fp.o > eng.NG, fp.f == 0, st.alive(fp.o)))
    st.live = z3.Store(st.live, fp.o, False)
    if 'wd' not in st.g:
        return eng.fresh_of(st, ('int', 32), 'fclose')
    s0 = st.copy()
    st.g['wd'] = I(1)
    return [(s0, I(-1)), (st, I(0))]


def m_fileno(eng, st, av, x):
    eng.ob(st, 'memory', 'fileno: open stream', z3.And(av[0].o > eng.NG, st.alive(av[0].o)))
    return I(7)


def io_call(eng, st, p, av, x):
    """the transfer function: any prefix of what it is asked for, or 0 (end of file), or -1 with
    errno; ghosts: done = bytes so far, stm = the bytes of the stream, last = how the last call ended"""
    sd, b, n = av
    A = eng.cur_args
    done = st.g['done']
    eng.ob(st, 'requires', 'transfer continues where the last one ended', z3.And(b.o == A.buf.o, b.f == A.buf.f + done))
    eng.ob(st, 'requires', 'transfer asks for the bytes still missing', z3.And(n > 0, n == A.l - done))
    eng.ob(st, 'requires', 'transfer is on the given descriptor', sd == A.sd)
    eng.ob(st, 'requires', 'no transfer after an end of file or an error', Or(st.g['last'] == 0, st.g['last'] == 3))
    err = eng.gptr('@__errno_location')
    outs = []
    s = st.copy()           # interrupted
    eng.put(s, 'i32', err, I(EINTR))
    s.g['last'] = I(3)
    outs.append((s, I(2**64 - 1)))
    s = st.copy()           # error
    v = eng.fresh('eno')
    s.add(v > 0, v < 200, v != EINTR)
    eng.put(s, 'i32', err, v)
    s.g['last'] = I(2)
    outs.append((s, I(2**64 - 1)))
    s = st.copy()
    s.g['last'] = I(1)
    outs.append((s, I(0)))
    r = eng.fresh('xfer')
    st.add(r >= 1, r <= n)
    old = st.inner('i8', b.o)
    new = eng.fresh_arr('i8', False)
    T = st.g['stm']
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(f >= b.f, f < b.f + r), z3.Select(T, f - A.buf.f), z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', b.o, new)
    st.g['done'] = done + r
    st.g['last'] = I(0)
    outs.append((st, r))
    return outs


def options(mod):
    M = dict(libc.MODELS)
    M.update(__isoc23_strtol=wrapped(m_strto(-2**63, 2**63 - 1)), __isoc23_strtoumax=wrapped(m_strto(0, 2**64 - 1)), strsep=m_strsep, strtol=wrapped(m_strto(-2**63, 2**63 - 1)), strtoll=wrapped(m_strto(-2**63, 2**63 - 1)),
             strtoumax=wrapped(m_strto(0, 2**64 - 1)), strtod=m_strto(None, None), strlcpy=m_strlcpy, strlcat=m_strlcat,
             fopen=m_fopen_w, fclose=m_fclose_w, fwrite=m_fwrite, fileno=m_fileno, fstat=libc.m_stat)
    return dict(models=M, extra_types=('i8', 'i16', 'i32', 'i64', 'p'), indirect=io_call)


def blank(c):
    return Or(c == 32, c == 9)


def isstr(S, p):
    return z3.And(S.valid(p, 1), exists(lambda k: z3.And(k >= p.f, k < S.sz(p.o), S.i8(Ptr(p.o, k)) == 0)))


def trim_contract(main=True):
    """u_trim: exactly the leading and trailing blanks go, in place.  Ghosts: n0 old length, ta/tb the
    part that stays"""
    def post(S0, S, A, r):
        p = A[0]
        e = S.eng
        n0, a, b = [e.fresh(x) for x in ('trim0', 'trima', 'trimb')] if 'tn0' not in S.g else [S.g[x] for x in ('tn0', 'ta', 'tb')]
        c0, c1 = S0.inner('i8', p.o), S.inner('i8', p.o)
        if 'ta' in S.g and 'tn0' not in S.g:
            S.g['ta'] = a
        nn = Not(p.null())
        body = [('length before', z3.And(str_at(S0, p, n0), p.f + n0 < S0.sz(p.o))),
                ('part that stays', z3.And(a >= 0, a <= b, b <= n0)),
                ('leading blanks go', forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + a), blank(z3.Select(c0, k))), pats=lambda k: z3.Select(c0, k))),
                ('trailing blanks go', forall(lambda k: Implies(z3.And(k >= p.f + b, k < p.f + n0), blank(z3.Select(c0, k))), pats=lambda k: z3.Select(c0, k))),
                ('nothing but blanks goes', Implies(a < b, z3.And(Not(blank(z3.Select(c0, p.f + a))), Not(blank(z3.Select(c0, p.f + b - 1)))))),
                ('the rest is kept', forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + b - a), z3.Select(c1, k) == z3.Select(c0, k + a)), pats=lambda k: z3.Select(c1, k))),
                ('terminated', z3.Select(c1, p.f + b - a) == 0),
                ('nothing outside the string changes', forall(lambda k: Implies(Or(k < p.f, k > p.f + n0), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k)))]
        return [(l, Implies(nn, f)) for l, f in body]

    def entry(S, A):
        S.g['tn0'] = S.eng.fresh('n0')
        S.add(Implies(Not(A.s.null()), z3.And(str_at(S, A.s, S.g['tn0']), A.s.f + S.g['tn0'] < S.sz(A.s.o))))

    def inv_tail(SE, S, v, A):
        n0 = S.g['tn0']
        c = SE.inner('i8', A.s.o)
        return [('range', z3.And(v.p.o == A.s.o, v.s.eq(A.s), v.p.f >= A.s.f - 1, v.p.f < A.s.f + n0)),
                ('tail', forall(lambda k: Implies(z3.And(k > v.p.f, k < A.s.f + n0), blank(z3.Select(c, k))), pats=lambda k: z3.Select(c, k)))]

    def inv_head(SE, S, v, A):
        c = SE.inner('i8', A.s.o)
        return [('range', z3.And(v.p.o == A.s.o, v.s.eq(A.s), v.p.f >= A.s.f, v.p.f <= A.s.f + S.g['tn0'])),
                ('head', forall(lambda k: Implies(z3.And(k >= A.s.f, k < v.p.f), z3.And(z3.Select(c, k) != 0, blank(z3.Select(c, k)))), pats=lambda k: z3.Select(c, k)))]

    def leave1(SH, S, vh, v, A):
        S.g['tb'] = v.p.f + 1 - A.s.f

    def leave2(SH, S, vh, v, A):
        S.g['ta'] = v.p.f - A.s.f
        S.g['tb'] = S.eng.named(S, If(S.g['tb'] < S.g['ta'], S.g['ta'], S.g['tb']))

    def gh(S0, S, A, r):
        S.add
    c = Contract('u_trim', lambda S, A: [Or(A[0].null(), isstr(S, A[0]))], post, lambda S, A: [('obj', '*', A[0].o)],
                 loops={0: LoopSpec(inv_tail, measure=lambda S, v: v.p.f - v.s.f + 1, leave=leave1),
                        1: LoopSpec(inv_head, measure=lambda S, v: v.s.f + S.g['tn0'] - v.p.f, leave=leave2)},
                 ghosts=(('tn0', IntS), ('ta', IntS), ('tb', IntS)), entry=entry)
    if not main:
        c.assumed = True
    return c


def contracts(mod):
    # ------------------------------------------------------------ duplicates
    def dup_post(len_of):
        def post(S0, S, A, r):
            n = len_of(S, A)
            L = S.g['sl']
            ok = Not(r.null())
            c1, c0 = S.inner('i8', r.o), S0.inner('i8', A.s.o)
            return [('more than there is: refused', Implies(n > L, Not(ok))), ('fails only for lack of memory', Implies(z3.And(Not(ok), n <= L), S.g['oom'])),
                    ('a new block of exactly that size', Implies(ok, z3.And(r.f == 0, Not(S0.alive(r.o)), S.live == z3.Store(S0.live, r.o, True), S.sz(r.o) == n + 1))),
                    ('the characters', Implies(ok, forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c1, k) == z3.Select(c0, A.s.f + k)), pats=lambda k: z3.Select(c1, k)))),
                    ('terminated', Implies(ok, z3.Select(c1, n) == 0)),
                    ('failure allocates nothing', Implies(Not(ok), S.live == S0.live))]
        return post

    def sl_entry(p):
        def entry(S, A):
            q = A[p]
            S.g['sl'] = S.eng.fresh('sl')
            S.add(str_at(S, q, S.g['sl']), q.f + S.g['sl'] < S.sz(q.o), S.sz(q.o) < BIG)
        return entry
    strndup = Contract('u_strndup', lambda S, A: [isstr(S, A.s), A.len < BIG], dup_post(lambda S, A: A.len), lambda S, A: [('heap',)], ghosts=(('sl', IntS),), entry=sl_entry(0))
    strndup.inline = True
    strdup = Contract('u_strdup', lambda S, A: [isstr(S, A.s)], dup_post(lambda S, A: S.g['sl']), lambda S, A: [('heap',)], ghosts=(('sl', IntS),), entry=sl_entry(0))
    strdup.inline = True

    def md_post(S0, S, A, r):
        ok = Not(r.null())
        c1, c0 = S.inner('i8', r.o), S0.inner('i8', A.src.o)
        return [('fails only for lack of memory', Implies(Not(ok), S.g['oom'])), ('a new block of exactly that size', Implies(ok, z3.And(r.f == 0, Not(S0.alive(r.o)), S.live == z3.Store(S0.live, r.o, True), S.sz(r.o) == A.size))),
                ('equal bytes', Implies(ok, forall(lambda k: Implies(z3.And(k >= 0, k < A.size), z3.Select(c1, k) == z3.Select(c0, A.src.f + k)), pats=lambda k: z3.Select(c1, k)))),
                ('failure allocates nothing', Implies(Not(ok), S.live == S0.live))]
    memdup = Contract('u_memdup', lambda S, A: [A.size < BIG, Or(A.size == 0, S.valid(A.src, A.size))], md_post, lambda S, A: [('heap',)])

    # ------------------------------------------------------------ bounded copies
    def lc_pre(S, A):
        return [isstr(S, A.src), Or(A.size == 0, S.valid(A.dst, A.size)), A.dst.o != A.src.o, A.size < BIG]

    def term(S, p, size):
        c = S.inner('i8', p.o)
        return Implies(size > 0, exists(lambda k: z3.And(k >= p.f, k < p.f + size, z3.Select(c, k) == 0)))

    def only(S0, S, p, size):
        c0, c1 = S0.inner('i8', p.o), S.inner('i8', p.o)
        return Implies(size > 0, forall(lambda k: Implies(Or(k < p.f, k >= p.f + size), z3.Select(c1, k) == z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k)))

    def lc_post(cat):
        def post(S0, S, A, r):
            L = S.g['sl']
            D = S.g['dl0'] if cat else I(0)
            c0, c1, cs = S0.inner('i8', A.dst.o), S.inner('i8', A.dst.o), S0.inner('i8', A.src.o)
            d, s = A.dst, A.src
            return [('0 or ~0', Or(r == 0, r == -1)), ('success exactly when the text fits', (r == 0) == (D + L < A.size)),
                    ('text', Implies(r == 0, z3.And(z3.Select(c1, d.f + D + L) == 0, forall(
                        lambda k: z3.And(Implies(z3.And(k >= d.f, k < d.f + D), z3.Select(c1, k) == z3.Select(c0, k)),
                                         Implies(z3.And(k >= d.f + D, k < d.f + D + L), z3.Select(c1, k) == z3.Select(cs, k - d.f - D + s.f))), pats=lambda k: z3.Select(c1, k))))),
                    ('nothing beyond the buffer changes', only(S0, S, d, A.size)),
                    ('terminated', term(S, d, A.size) if not cat else Implies(D < A.size, term(S, d, A.size)))]
        return post
    strlcpy = Contract('u_strlcpy', lc_pre, lc_post(False), lambda S, A: [('obj', ('i8',), A.dst.o)], ghosts=(('sl', IntS),), entry=sl_entry(1))

    def cat_entry(S, A):
        sl_entry(1)(S, A)
        S.g['dl0'] = S.eng.fresh('dl0')
        S.add(str_at(S, A.dst, S.g['dl0']), A.dst.f + S.g['dl0'] < S.sz(A.dst.o), S.sz(A.dst.o) < BIG)
    strlcat = Contract('u_strlcat', lambda S, A: lc_pre(S, A) + [isstr(S, A.dst)], lc_post(True), lambda S, A: [('obj', ('i8',), A.dst.o)], ghosts=(('sl', IntS), ('dl0', IntS)), entry=cat_entry)

    def sn_post(S0, S, A, r):
        n, T = S.g['tn'], S.g['tt']
        p = A.str
        c1 = S.inner('i8', p.o)
        return [('0 or ~0', Or(r == 0, r == -1)), ('success only when the text fits', Implies(r == 0, n < A.size)),
                ('the text', Implies(r == 0, z3.And(z3.Select(c1, p.f + n) == 0, forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + n), z3.Select(c1, k) == z3.Select(T, k - p.f)), pats=lambda k: z3.Select(c1, k))))),
                ('nothing beyond the buffer changes', only(S0, S, p, A.size))]
    snprintf = Contract('u_snprintf', lambda S, A: [Or(A.size == 0, S.valid(A.str, A.size)), A.size < BIG], sn_post, lambda S, A: [('obj', ('i8',), A.str.o)], ghosts=libc.text_ghosts(),
                        entry=lambda S, A: S.add(S.g['tn'] >= 0, S.g['tn'] < 2**31))

    # ------------------------------------------------------------ path
    def keep(T, sep, k):
        return Or(k == 0, Not(z3.And(z3.Select(T, k) == sep, z3.Select(T, k - 1) == sep)))

    def coll(S, p, T, n, sep, i, ln):
        """positions above i are the kept ones, counted from the end by g (inverse h)"""
        g, h = S.g['g'], S.g['h']
        c = S.inner('i8', p.o)
        D = ln - i - 1
        return [('characters', forall(lambda d: Implies(z3.And(d >= 0, d <= D), z3.And(
                    z3.Select(c, p.f + ln - d) == If(g[d] == n, I(0), z3.Select(T, g[d])), g[d] > i, g[d] <= n, Or(g[d] == n, keep(T, sep, g[d])), z3.Select(h, g[d]) == d)), pats=lambda d: g[d])),
                ('order', forall(lambda d: Implies(z3.And(d >= 1, d <= D), g[d] < g[d - 1]), pats=lambda d: g[d])),
                ('every kept one', forall(lambda k: Implies(z3.And(k > i, k <= n, Or(k == n, keep(T, sep, k))), z3.And(h[k] >= 0, h[k] <= D, g[h[k]] == k)), pats=lambda k: h[k]))]

    def pa_inv(SE, S, v, A):
        T, n = S.g['tt'], S.g['tn']
        c, cE = S.inner('i8', A.buf.o), SE.inner('i8', A.buf.o)
        p = A.buf
        return [('range', z3.And(v.i >= 0, v.i <= v.len, v.len <= n, v.buf.eq(p), v.sep == A.sep, n < A.sz, Implies(v.i == v.len, n == v.len))),
                ('front untouched', forall(lambda k: Implies(z3.And(k >= p.f, k <= p.f + v.i), z3.Select(c, k) == If(k == p.f + n, I(0), z3.Select(T, k - p.f))), pats=lambda k: z3.Select(c, k))),
                ('outside untouched', forall(lambda k: Implies(Or(k < p.f, k >= p.f + A.sz), z3.Select(c, k) == z3.Select(cE, k)), pats=lambda k: z3.Select(c, k)))] + coll(S, p, T, n, A.sep, v.i, v.len)

    def pa_step(SH, S, vh, v, A):
        kept = vh.len == v.len
        d = vh.len - vh.i
        S.g['g'] = S.eng.named(S, If(kept, z3.Store(S.g['g'], d, vh.i), S.g['g']))
        S.g['h'] = S.eng.named(S, If(kept, z3.Store(S.g['h'], vh.i, d), S.g['h']))

    def pa_leave(SH, S, vh, v, A):
        S.g['pl'] = v.len
        S.g['g'] = z3.Store(S.g['g'], v.len, I(0))
        S.g['h'] = z3.Store(S.g['h'], 0, v.len)

    def pa_post(S0, S, A, r):
        n, T, L = S.g['tn'], S.g['tt'], S.g['pl']
        p = A.buf
        c = S.inner('i8', p.o)
        g = S.g['g']
        return [('0 or ~0', Or(r == 0, r == -1)), ('success only when the text fits', Implies(r == 0, n < A.sz)),
                ('terminated', Implies(r == 0, z3.And(L >= 0, L <= n, z3.Select(c, p.f + L) == 0))),
                ('ends match', Implies(r == 0, z3.And(g[0] == n, g[L] == 0)))] + \
            [('collapsed: ' + l, Implies(r == 0, f)) for l, f in coll(S, p, T, n, A.sep, I(-1), L)] + [('nothing beyond the buffer changes', only(S0, S, p, A.sz))]
    path = Contract('u_path_snprintf', lambda S, A: [Or(A.sz == 0, S.valid(A.buf, A.sz)), A.sz < BIG], pa_post, lambda S, A: [('obj', '*', A.buf.o)],
                    loops={0: LoopSpec(pa_inv, measure=lambda S, v: v.i, step=pa_step, leave=pa_leave)},
                    ghosts=libc.text_ghosts() + (('g', INNER), ('h', INNER), ('pl', IntS)), entry=lambda S, A: S.add(S.g['tn'] >= 0, S.g['tn'] < 2**31 - 1))

    # ------------------------------------------------------------ numbers
    def errno(S):
        return S.i32(S.eng.gptr('@__errno_location'))

    NUM = (('nd', IntS), ('nv', IntS))

    def num(fn, arg, t, lo, hi, get):
        def pre(S, A):
            return [Or(A.nptr.null(), isstr(S, A.nptr)), Or(A[1].null(), z3.And(S.valid(A[1], 8 if t == 'i64' else 4), A[1].o > S.eng.NG))]

        def post(S0, S, A, r):
            nd, nv = S.g['nd'], S.g['nv']
            fit = z3.And(nd != 0, nv >= lo, nv <= hi)
            here = z3.And(Not(A.nptr.null()), Not(A[1].null()))
            val = nv if t != 'i64' else If(nv < 0, nv + 2**64, nv)
            return [('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly when a numeral that fits is there', Implies(here, (r == 0) == fit)),
                    ('no argument: refused', Implies(Not(here), r != 0)),
                    ('exactly its value', Implies(r == 0, get(S, A[1]) == val)), ('failure leaves the result alone', Implies(z3.And(r != 0, here), get(S, A[1]) == get(S0, A[1]))),
                    ('errno preserved', errno(S) == errno(S0))]
        return Contract(fn, pre, post, lambda S, A: [('cell', t, A[1])], ghosts=NUM, inline=True)
    atol = num('u_atol', 'pl', 'i64', -2**63, 2**63 - 1, lambda S, p: S.i64(p))
    atoi = num('u_atoi', 'pi', 'i32', -2**31, 2**31 - 1, lambda S, p: S.i32(p))
    atoi.pre_ = atoi.pre
    atoi.pre = lambda S, A: atoi.pre_(S, A) + [Not(A[1].null())]
    atou = num('u_atoumax', 'pumax', 'i64', -2**64 + 1, 2**64 - 1, lambda S, p: S.i64(p))

    def af_post(S0, S, A, r):
        here = z3.And(Not(A.nptr.null()), Not(A.pd.null()))
        return [('0 or ~0', Or(r == 0, r == -1)), ('succeeds exactly when a representable numeral is there', Implies(here, (r == 0) == z3.And(S.g['nd'] != 0, S.g['nr'] == 0))),
                ('no argument: refused', Implies(Not(here), r != 0)),
                ('exactly its value', Implies(r == 0, S.dbl(A.pd) == S.g['nv'])), ('failure leaves the result alone', Implies(z3.And(r != 0, here), S.dbl(A.pd) == S0.dbl(A.pd))),
                ('errno preserved', errno(S) == errno(S0))]
    atof = Contract('u_atof', lambda S, A: [Or(A.nptr.null(), isstr(S, A.nptr)), Or(A.pd.null(), z3.And(S.valid(A.pd, 8), A.pd.o > S.eng.NG))], af_post,
                    lambda S, A: [('cell', 'd', A.pd)], ghosts=(('nd', IntS), ('nv', z3.RealSort()), ('nr', IntS)))

    # ------------------------------------------------------------ fields
    def fields(S, o, orig, base, cur, n):
        """everything before cur has been split: log sa/en/cov; orig = the text before the call"""
        sa, en, cov, tc, dl = [S.g[x] for x in ('sa', 'en', 'cov', 'tc', 'dl')]
        c = S.inner('i8', o)
        return [('text kept, delimiters of the fields cut', forall(lambda k: Implies(z3.And(k >= base, k <= base + n), Or(z3.Select(c, k) == z3.Select(orig, k), z3.And(
                    k < cur, z3.Select(c, k) == 0, z3.Select(dl, z3.Select(orig, k))))), pats=lambda k: z3.Select(c, k))),
                ('rest untouched', forall(lambda k: Implies(z3.And(k >= cur, k <= base + n), z3.Select(c, k) == z3.Select(orig, k)), pats=lambda k: z3.Select(c, k))),
                ('fields are non-empty and closed', forall(lambda j: Implies(z3.And(j >= 0, j < tc), z3.And(sa[j] >= base, sa[j] < en[j], en[j] < cur, z3.Select(c, en[j]) == 0)), pats=lambda j: [sa[j], en[j]])),
                ('fields in order', forall(lambda j: Implies(z3.And(j >= 1, j < tc), sa[j] > en[j - 1]), pats=lambda j: [sa[j], en[j]])),
                ('every other character is in a field', forall(lambda k: Implies(z3.And(k >= base, k < cur, k < base + n, Not(z3.Select(dl, z3.Select(orig, k)))),
                                                       z3.And(cov[k] >= 0, cov[k] < tc, sa[cov[k]] <= k, k < en[cov[k]])), pats=lambda k: cov[k]))]

    def cursor(S, pp, o, end):
        p = S.ptr(pp)
        return If(p.null(), end + 1, p.f), Or(p.null(), z3.And(p.o == o))

    def tk_pre(S, A):
        return [Or(A.wlist.null(), isstr(S, A.wlist)), Or(A.delim.null(), isstr(S, A.delim)), A.tokv_sz < 2**50,
                Or(A.tokv.null(), z3.And(S.valid(A.tokv, 8 * A.tokv_sz), A.tokv.o != A.wlist.o))]

    def tk_entry(S, A):
        S.g['sl'] = S.eng.fresh('sl')
        S.g['orig'] = S.inner('i8', A[0].o)
        S.g['tc'] = I(0)
        S.g['fin'] = I(0)
        S.add(Implies(Not(A[0].null()), z3.And(str_at(S, A[0], S.g['sl']), A[0].f + S.g['sl'] < S.sz(A[0].o), S.sz(A[0].o) < BIG)))
        d = S.g['dl']
        S.add(Not(z3.Select(d, 0)))

    def slots(S, tv, tc, o, sa):
        a, b = S.inner('po', tv.o), S.inner('pf', tv.o)
        return forall(lambda j: Implies(z3.And(j >= 0, j < tc), z3.And(z3.Select(a, tv.f + 8 * j) == o, z3.Select(b, tv.f + 8 * j) == sa[j])), pats=lambda j: sa[j])

    def tk_inv(SE, S, v, A):
        w = S.ptr(v.wlist)
        n = S.g['sl']
        base = A.wlist.f
        cur = If(w.null(), base + n + 1, w.f)
        cur = S.eng.named(S, cur)
        tc = S.g['tc']
        return [('only the text', others(SE, S, ('i8',), [A.wlist.o, v.wlist.o])), ('only the vector', others(SE, S, ('p',), [A.tokv.o, v.wlist.o])), ('range', z3.And(tc >= 0, tc <= A.tokv_sz - 1, v.ap.o == A.tokv.o, v.ap.f == A.tokv.f + 8 * tc, v.tokv.eq(A.tokv), v.tokv_sz == A.tokv_sz, S.g['fin'] == 0)),
                ('cursor', z3.And(cur >= base, cur <= base + n + 1, Or(w.null(), z3.And(w.o == A.wlist.o, w.f <= base + n)))),
                ('slots', slots(S, A.tokv, tc, A.wlist.o, S.g['sa']))] + fields(S, A.wlist.o, S.g['orig'], base, cur, n)

    def tk_leave(SH, S, vh, v, A):
        w = S.ptr(v.wlist)
        S.g['cur'] = S.eng.named(S, If(w.null(), A.wlist.f + S.g['sl'] + 1, w.f))

    def tk_post(S0, S, A, r):
        here = z3.And(Not(A.wlist.null()), Not(A.delim.null()), Not(A.tokv.null()), A.tokv_sz > 0)
        tc = S.g['tc']
        ok = r == 0
        p = Ptr(A.tokv.o, A.tokv.f + 8 * tc)
        return [('refused only without arguments', ok == here), ('0 or ~0', Or(ok, r == -1)),
                ('as many as there are or fit', Implies(ok, z3.And(tc >= 0, tc <= A.tokv_sz - 1, Or(S.g['fin'] == 1, tc == A.tokv_sz - 1)))),
                ('whole text split unless the vector is full', Implies(z3.And(ok, tc < A.tokv_sz - 1), S.g['cur'] == A.wlist.f + S.g['sl'] + 1)),
                ('terminator', Implies(ok, S.ptr(p).null())),
                ('slots', Implies(ok, slots(S, A.tokv, tc, A.wlist.o, S.g['sa'])))] + \
            [(l, Implies(ok, f)) for l, f in fields(S, A.wlist.o, S.g['orig'], A.wlist.f, S.g['cur'], S.g['sl'])]
    TG = TOK + (('sl', IntS), ('orig', INNER), ('cur', IntS))
    tokenize = Contract('u_tokenize', tk_pre, tk_post, lambda S, A: [('obj', ('p',), A.tokv.o), ('obj', ('i8',), A.wlist.o)],
                        loops={0: LoopSpec(tk_inv, leave=tk_leave)}, ghosts=TG, entry=tk_entry)

    # u_strtok
    def st_pre(S, A):
        return [Or(A.s.null(), isstr(S, A.s)), Or(A.delim.null(), isstr(S, A.delim)),
                Or(A.ptv.null(), z3.And(S.valid(A.ptv, 8), A.ptv.o > S.eng.NG)), Or(A.pnelems.null(), z3.And(S.valid(A.pnelems, 8), A.pnelems.o > S.eng.NG)),
                Or(A.ptv.null(), A.ptv.o != A.pnelems.o)]

    def st_core(SE, S, v, A):
        n = S.g['sl']
        sd = v.sdup
        w = S.ptr(v.p)
        tc = S.g['tc']
        cur = S.eng.named(S, If(w.null(), n + 1, w.f))
        orig = S.g['od']
        c0 = S.inner('i8', A.s.o)
        S0 = S.eng.S0
        lv = S0.live
        return [('copy', z3.And(sd.f == 0, Not(S0.alive(sd.o)), S.alive(sd.o), S.sz(sd.o) == n + 1, sd.o != v.tv.o, sd.o > S.eng.NG)),
                ('count', z3.And(v.nelems == tc, tc >= 0, tc <= n + 1, S.g['fin'] == 0, v.delim.eq(A.delim), v.ptv.eq(A.ptv), v.pnelems.eq(A.pnelems))),
                ('fewer fields than characters', tc <= cur), ('end of text', z3.Select(S.inner('i8', sd.o), n) == 0),
                ('cursor', z3.And(cur >= 0, cur <= n + 1, Or(w.null(), z3.And(w.o == sd.o, w.f <= n)))),
                ('slot pointer', z3.And(v.ap.o == v.tv.o, v.ap.f == v.tv.f + 8 * tc, v.tv.f == 0)),
                ('slots', slots(S, v.tv, tc, sd.o, S.g['sa'])),
                ('source', forall(lambda k: Implies(z3.And(k >= 0, k <= n), z3.Select(orig, k) == z3.Select(c0, A.s.f + k)), pats=lambda k: z3.Select(orig, k)))] + \
            fields(S, sd.o, orig, I(0), cur, n) + olds(S0, S)

    def st_outer(SE, S, v, A):
        S0 = S.eng.S0
        tc = S.g['tc']
        return st_core(SE, S, v, A) + [
            ('room', z3.And(v.tv_slots > tc + 1, v.tv_slots <= tc + 11, Implies(v.tv.null(), tc == 0))),
            ('allocations', S.live == If(v.tv.null(), SE.live, z3.Store(SE.live, v.tv.o, True))),
            ('sizes', forall(lambda o: Implies(SE.alive(o), S.sz(o) == SE.sz(o)), pats=lambda o: z3.Select(S.size, o))),
            ('vector', Or(v.tv.null(), z3.And(S.alive(v.tv.o), v.tv.o > S.eng.NG, Not(S0.alive(v.tv.o)), Not(SE.alive(v.tv.o)), S.sz(v.tv.o) >= 8 * tc)))]

    def st_inner(SE, S, v, A):
        S0 = S.eng.S0
        tc = S.g['tc']
        return st_core(SE, S, v, A) + [
            ('room', z3.And(v.tv_slots > tc + 1, v.tv_slots <= v.nelems + 11 + S.g['sl'])),
            ('slots kept', z3.And(v.tv.eq(SEV(SE, 'tv')), v.tv_slots == SEV(SE, 'slots')) if False else z3.BoolVal(True)),
            ('vector', z3.And(S.alive(v.tv.o), v.tv.o > S.eng.NG, Not(S0.alive(v.tv.o)), S.sz(v.tv.o) == 8 * v.tv_slots))]

    def SEslots(SE, v):
        return v.tv_slots

    def st_ghost(S, v, A):
        if 'odset' not in S.g:
            S.g['od'] = S.inner('i8', v.sdup.o)
            S.g['odset'] = I(1)
            S.eng.S0 = getattr(S.eng, 'S0', None)

    def st_entry(S, A):
        tk_entry(S, A)
        S.eng.S0 = S.snap()
        S.add(S.g['tc'] == 0)

    def st_leave(SH, S, vh, v, A):
        w = S.ptr(v.p)
        S.g['sdo'] = v.sdup.o
        S.g['cur'] = S.eng.named(S, If(w.null(), S.g['sl'] + 1, w.f))

    def st_post(S0, S, A, r):
        ok = r == 0
        tv = S.ptr(A.ptv)
        tc = S.g['tc']
        n = S.g['sl']
        sd = S.ptr(Ptr(tv.o, tv.f + 8 * tc))
        return [('0 or ~0', Or(ok, r == -1)),
                ('the whole text is split', Implies(ok, S.g['cur'] == n + 1)),
                ('count', Implies(ok, S.i64(A.pnelems) == tc)),
                ('vector and copy are new', Implies(ok, z3.And(Not(S0.alive(tv.o)), Not(S0.alive(sd.o)), S.alive(tv.o), S.alive(sd.o), sd.f == 0, tv.f == 0))),
                ('slots', Implies(ok, slots(S, tv, tc, sd.o, S.g['sa']))),
                ('failure leaks nothing', Implies(Not(ok), forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o))))] + \
            [(l, Implies(ok, f)) for l, f in fields(S, sd.o, S.g['od'], I(0), S.g['cur'], n)]
    strtok = Contract('u_strtok', st_pre, st_post, lambda S, A: [('cell', 'p', A.ptv), ('cell', 'i64', A.pnelems), ('heap',)],
                      loops={0: LoopSpec(st_outer, ghost=st_ghost), 1: LoopSpec(st_inner, leave=st_leave)},
                      ghosts=TG + (('od', INNER), ('sdo', IntS)), entry=st_entry)

    # ------------------------------------------------------------ complete I/O
    IO = (('done', IntS), ('last', IntS), ('stm', INNER))

    def io_pre(S, A):
        out = [A.l < 2**62, Or(A.l == 0, z3.And(S.valid(A.buf, A.l), A.buf.o > S.eng.NG))]
        for p, z in ((A.n, 8), (A.eof, 4)):
            out.append(Or(p.null(), z3.And(S.valid(p, z), p.o > S.eng.NG, Or(A.l == 0, p.o != A.buf.o))))
        return out + [Or(A.n.null(), A.n.o != A.eof.o), Not(A.f.null())]

    def io_entry(S, A):
        S.g['done'] = I(0)
        S.g['last'] = I(0)

    def io_data(S0, S, A):
        c0, c1 = S0.inner('i8', A.buf.o), S.inner('i8', A.buf.o)
        T, b = S.g['stm'], A.buf
        return forall(lambda k: z3.Select(c1, k) == If(z3.And(k >= b.f, k < b.f + S.g['done']), z3.Select(T, k - b.f), z3.Select(c0, k)), pats=lambda k: z3.Select(c1, k))

    def io_inv(SE, S, v, A):
        d = S.g['done']
        out = [('progress', z3.And(d >= 0, d <= A.l, v.nleft == A.l - d, v.p.o == A.buf.o, v.p.f == A.buf.f + d)),
               ('arguments', z3.And(v.f.eq(A.f), v.sd == A.sd, v.n.eq(A.n), v.eof.eq(A.eof), v.l == A.l)),
               ('no end or error so far', Or(S.g['last'] == 0, S.g['last'] == 3)), ('bytes', io_data(SE, S, A)),
               ('only the buffer', others(SE, S, ('i8',), [A.buf.o])),
               ('only errno', S.inner('i32', ep(S).o) == z3.Store(SE.inner('i32', ep(S).o), 0, S.i32(ep(S))))]
        return out

    def ep(S):
        return S.eng.gptr('@__errno_location')

    def io_post(S0, S, A, r):
        d, last = S.g['done'], S.g['last']
        return [('0 or ~0', Or(r == 0, r == -1)), ('success exactly when all bytes were transferred', (r == 0) == (d == A.l)), ('count range', z3.And(d >= 0, d <= A.l)),
                ('stops only at the full count, end of file or an error', Or(d == A.l, last == 1, last == 2)),
                ('count reported', Implies(Not(A.n.null()), S.i64(A.n) == d)),
                ('end of file reported exactly', Implies(Not(A.eof.null()), S.i32(A.eof) == If(last == 1, I(1), I(0)))),
                ('end of file means not all', Implies(last == 1, d < A.l)), ('bytes in order, each once', io_data(S0, S, A))]

    def io_mods(S, A):
        return [('obj', ('i8',), A.buf.o), ('cell', 'i64', A.n), ('cell', 'i32', A.eof), ('cell', 'i32', S.eng.gptr('@__errno_location'))] + [('ghost', g) for g in ('done', 'last')]
    io = Contract('u_io', io_pre, io_post, io_mods, loops={0: LoopSpec(io_inv)}, ghosts=IO, entry=io_entry)

    def rw_post(fn):
        def post(S0, S, A, r):
            d, last = S.g['done'], S.g['last']
            B = ArgNS()
            B.buf = A.buf
            full = d == A.size
            val = If(full, A.size, If(last == 1, d, I(2**64 - 1))) if fn == 'u_read' else If(full, A.size, I(2**64 - 1))
            return [('result is the count, or -1', r == val), ('stops only at the full count, end of file or an error', Or(full, last == 1, last == 2)),
                    ('bytes in order, each once', Implies(A.size > 0, io_data(S0, S, B)))]
        return post

    def rw(fn):
        return Contract(fn, lambda S, A: [A.size < 2**62, Or(A.size == 0, z3.And(S.valid(A.buf, A.size), A.buf.o > S.eng.NG))], rw_post(fn),
                        lambda S, A: [('obj', ('i8',), A.buf.o), ('cell', 'i32', S.eng.gptr('@__errno_location'))] + [('ghost', g) for g in ('done', 'last')], ghosts=IO)

    # ------------------------------------------------------------ whole files
    def du_post(S0, S, A, r):
        wc, wn = S.g['wc'], S.g['wn']
        c = S0.inner('i8', A.data.o)
        return [('0 or ~0', Or(r == 0, r == -1)), ('success: everything written and the stream closed without error', Implies(r == 0, z3.And(wn == A.sz, S.g['wd'] == 1))),
                ('the bytes', Implies(r == 0, forall(lambda k: Implies(z3.And(k >= 0, k < A.sz), z3.Select(wc, k) == z3.Select(c, A.data.f + k)), pats=lambda k: z3.Select(wc, k)))),
                ('no stream left open', forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o)))]
    dump = Contract('u_data_dump', lambda S, A: [Or(A.sz == 0, S.valid(A.data, A.sz)), A.sz < BIG, isstr(S, A.file)], du_post, lambda S, A: [('heap',)],
                    ghosts=(('wn', IntS), ('wc', INNER), ('wd', IntS)))

    def lf_post(S0, S, A, r):
        b = S.ptr(A.pbuf)
        n, C = S.g['fz'], S.g['fc']
        c = S.inner('i8', b.o)
        return [('0 or ~0', Or(r == 0, r == -1)), ('larger than the limit: refused', Implies(z3.And(A.sz_max > 0, n > A.sz_max), r != 0)),
                ('a new block and its size', Implies(r == 0, z3.And(S.i64(A.psz) == n, b.f == 0, Not(S0.alive(b.o)), S.sz(b.o) >= n))),
                ('the content', Implies(r == 0, forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(c, k) == z3.Select(C, k)), pats=lambda k: z3.Select(c, k)))),
                ('nothing else stays allocated or open', forall(lambda o: S.alive(o) == Or(S0.alive(o), z3.And(r == 0, o == b.o)), pats=lambda o: z3.Select(S.live, o)))]
    load = Contract('u_load_file', lambda S, A: [Or(A.path.null(), isstr(S, A.path)), Or(A.pbuf.null(), z3.And(S.valid(A.pbuf, 8), A.pbuf.o > S.eng.NG)),
                                                Or(A.psz.null(), z3.And(S.valid(A.psz, 8), A.psz.o > S.eng.NG)), Or(A.pbuf.null(), A.pbuf.o != A.psz.o)], lf_post,
                    lambda S, A: [('heap',), ('cell', 'p', A.pbuf), ('cell', 'i64', A.psz)], ghosts=libc.file_ghosts())
    return [trim_contract(), strndup, strdup, memdup, strlcpy, strlcat, snprintf, path, atol, atoi, atou, atof, tokenize, strtok, io, rw('u_read'), rw('u_write'), dump, load]
