"""Contracts for srcs/toolbox/pwd.c.  The password file is a sequence of nl lines LINE(i), LEN(i)
characters before the newline; FLD(i) is the number of its fields.  Ghosts: ln lines read since
the resource was opened, opn open resources, tkl/tko/tkn line, block and number of the fields
u_strtok split last, dso/dsf source of each duplicated string, su the search text was built
from the user, PFX(i): line i begins with the search text, EQ(i): its name field is the user."""
from lvc.engine import *
from lvc import libc

LINE = z3.Function('LINE', IntS, INNER)
LEN = z3.Function('LEN', IntS, IntS)
PFX = z3.Function('PFX', IntS, z3.BoolSort())
FLD = z3.Function('FLD', IntS, IntS)
EQ = z3.Function('EQ', IntS, z3.BoolSort())
MAXLN = 256


def isstr(S, p):
    return z3.And(S.valid(p, 1), p.o > S.eng.NG, exists(lambda k: z3.And(k >= p.f, k < S.sz(p.o), S.i8(Ptr(p.o, k)) == 0)))


def fch(i):
    return z3.Select(LINE(i), 0)


class ANS:
    def __init__(self, **k):
        self.__dict__.update(k)


class PW:
    def __init__(self, mod):
        F = mod.di_struct('u_pwd_s')
        self.F, self.SZ = F, F['__size__']
        self.USZ = F['hash_len'] - F['res_uri']
        R = mod.di_struct('u_pwd_rec_s')
        self.R, self.RSZ = R, R['__size__']

    def p(self, S, a, n): return S.ptr(a, self.F[n])
    def rp(self, S, a, n): return S.ptr(a, self.R[n])
    def mem(self, S, a): return S.i32(a, self.F['in_memory'])


def cs(eng, p):
    s = eng.cstring(p)
    return None if s is None else s.split(b'\0')[0]


def make(mod):
    W = PW(mod)

    def pwd_of(eng, st):
        A = eng.cur_args
        return A['pwd'] if hasattr(A, 'pwd') else None

    def ind(eng, st, p, av, x):
        A = eng.cur_args
        w = A['pwd']
        fld = {n: z3.simplify(W.p(st, w, n).o) for n in ('cb_open', 'cb_load', 'cb_close', 'cb_notify', 'cb_hash')}

        def is_(n):
            return eng.implied(st, p.eq(W.p(st, w, n)))
        uri = Ptr(w.o, w.f + W.F['res_uri'])
        if len(av) == 2 and is_('cb_open'):
            eng.ob(st, 'requires', 'the resource opened is the one configured', av[0].eq(uri))
            eng.ob(st, 'requires', 'the handle goes where it is kept', av[1].eq(Ptr(w.o, w.f + W.F['res_handler'])))
            s0 = st.copy()
            s0.g['oom'] = z3.BoolVal(True)
            rc = eng.fresh_of(s0, ('int', 32), 'openrc')
            s0.add(rc != 0)
            h = Ptr(eng.fresh('handle'), I(0))
            st.add(h.o != 0)
            eng.put(st, 'p', av[1], h)
            st.g['hd'], st.g['opn'], st.g['ln'] = h.o, st.g['opn'] + 1, I(0)
            st.add(st.g['nl'] >= 0, st.g['nl'] < 2**60)
            return [(s0, rc), (st, I(0))]
        if len(av) == 3 and is_('cb_load'):
            b, n, h = av
            eng.ob(st, 'requires', 'reading the open resource', z3.And(h.o == st.g['hd'], h.f == 0, st.g['opn'] == 1))
            eng.ob(st, 'memory', 'line buffer', z3.And(n > 0, st.valid(b, n)))
            s0 = st.copy()
            s0.add(s0.g['ln'] == s0.g['nl'])
            i = st.g['ln']
            st.add(i < st.g['nl'])
            new, old = eng.fresh_arr('i8', False), st.inner('i8', b.o)
            L, Z = LINE(i), eng.fresh('linelen')
            st.add(LEN(i) >= 0, LEN(i) < n, Z >= LEN(i), Z < n, Or(z3.Select(L, LEN(i)) == 10, z3.Select(L, LEN(i)) == 0), z3.Select(L, Z) == 0,
                   forall(lambda k: Implies(z3.And(k >= 0, k < LEN(i)), z3.And(z3.Select(L, k) != 0, z3.Select(L, k) != 10)), pats=lambda k: z3.Select(L, k)),
                   forall(lambda k: z3.Select(new, k) == If(z3.And(k >= b.f, k <= b.f + Z), z3.Select(L, k - b.f), z3.Select(old, k)), pats=lambda k: z3.Select(new, k)),
                   z3.Select(new, b.f) == z3.Select(L, 0))
            eng.set_inner(st, 'i8', b.o, new)
            st.g['ln'] = i + 1
            st.g['lb'] = b.o
            return [(s0, NULL), (st, b)]
        if len(av) == 1 and is_('cb_close'):
            eng.ob(st, 'requires', 'closing the open resource, once', z3.And(av[0].o == st.g['hd'], st.g['opn'] == 1))
            st.g['opn'] = st.g['opn'] - 1
            return None
        if len(av) == 3 and is_('cb_notify'):
            eng.ob(st, 'requires', 'asking about the configured resource since the last load', z3.And(av[0].eq(uri), av[1] == st.i64(w, W.F['last_mod'])))
            s0 = st.copy()
            s0.g['upd'] = I(0)
            t = eng.fresh_of(st, ('int', 64), 'ts')
            eng.put(st, 'i64', av[2], t)
            st.g['upd'], st.g['ts'] = I(1), t
            return [(s0, I(0)), (st, I(1))]
        if len(av) == 3 and is_('cb_hash'):
            eng.ob(st, 'requires', 'the password given is hashed', z3.And(av[0].eq(A['password']), av[1] == st.g['pl']))
            hl = st.i64(w, W.F['hash_len'])
            eng.ob(st, 'memory', 'hash buffer', Or(hl == 0, st.valid(av[2], hl)))
            new, old = eng.fresh_arr('i8', False), st.inner('i8', av[2].o)
            z = eng.fresh('hz')
            st.add(z >= av[2].f, z < av[2].f + hl, z3.Select(new, z) == 0)
            st.add(forall(lambda k: Implies(Or(k < av[2].f, k >= av[2].f + hl), z3.Select(new, k) == z3.Select(old, k)), pats=lambda k: z3.Select(new, k)))
            eng.set_inner(st, 'i8', av[2].o, new)
            st.g['ho'] = av[2].o
            return eng.fresh_of(st, ('int', 32), 'hashrc')
        raise Unsupported('call through an unknown pointer')

    def m_strdup(eng, st, av, x):
        r = libc.m_u_strdup(eng, st, av, x)
        for s, q in r:
            if not isinstance(q, Ptr) or z3.is_int_value(z3.simplify(q.o)) and z3.simplify(q.o).as_long() == 0:
                continue
            s.g['dso'] = z3.Store(s.g['dso'], q.o, av[0].o)
            s.g['dsf'] = z3.Store(s.g['dsf'], q.o, av[0].f)
        return r

    def m_snprintf(eng, st, av, x):
        d, n, f = av[:3]
        A = eng.cur_args
        eng.ob(st, 'memory', 'u_snprintf: destination', st.valid(d, n))
        eng.ob(st, 'requires', 'search text: the user name and a colon', z3.And(z3.BoolVal(cs(eng, f) == b'%s:'), av[3].eq(A.user)))
        new, old = eng.fresh_arr('i8', False), st.inner('i8', d.o)
        z = eng.fresh('z')
        st.add(z >= d.f, z < d.f + n, z3.Select(new, z) == 0,
               forall(lambda k: Implies(Or(k < d.f, k >= d.f + n), z3.Select(new, k) == z3.Select(old, k)), pats=lambda k: z3.Select(new, k)))
        eng.set_inner(st, 'i8', d.o, new)
        st.g['su'] = d.o
        r = eng.fresh('snp')
        st.add(Or(r == 0, r == -1))
        return r

    def search(eng, st, ln, uu):
        eng.ob(st, 'requires', 'the line just read is searched for the search text', z3.And(ln.o == st.g['lb'], ln.f == 0, uu.o == st.g['su'], uu.f == 0, st.g['ln'] > 0))
        return PFX(st.g['ln'] - 1)

    def m_strstr(eng, st, av, x):
        pf = search(eng, st, av[0], av[1])
        s0, s1 = st.copy(), st.copy()
        s0.add(Not(pf))
        st.add(pf)
        s1.add(Not(pf))
        k = eng.fresh('at')
        s1.add(k > 0)
        return [(s0, NULL), (s1, av[0] + k), (st, av[0])]

    def m_strncmp(eng, st, av, x):
        if eng.cur != 'u_pwd_retr_res':
            raise Unsupported('strncmp')
        pf = search(eng, st, av[0], av[1])
        r = eng.fresh('ncmp')
        st.add((r == 0) == pf)
        return r

    def m_strcspn(eng, st, av, x):
        if cs(eng, av[1]) != b'\n':
            raise Unsupported('strcspn')
        p = av[0]
        eng.ob(st, 'memory', 'strcspn: a string', st.valid(p, 1))
        c = st.inner('i8', p.o)
        r = eng.fresh('cspn')
        i = st.g['ln'] - 1
        st.add(r >= 0, Or(z3.Select(c, p.f + r) == 10, z3.Select(c, p.f + r) == 0),
               forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + r), z3.And(z3.Select(c, k) != 0, z3.Select(c, k) != 10)), pats=lambda k: z3.Select(c, k)))
        eng.ob(st, 'requires', 'the line just read', z3.And(p.o == st.g['lb'], p.f == 0))
        st.add(Implies(z3.And(z3.Select(c, LEN(i)) == z3.Select(c, LEN(i)), z3.Select(LINE(i), r) == z3.Select(LINE(i), r)), r >= 0))
        return r

    def m_strtok(eng, st, av, x):
        ln, d, ptv, pn = av
        i = st.g['ln'] - 1
        eng.ob(st, 'requires', 'the line is split at the colons', z3.BoolVal(cs(eng, d) == b':'))
        c = eng.named(st, z3.simplify(st.inner('i8', ln.o)))
        eng.ob(st, 'requires', 'what is split is the line without its newline', z3.And(ln.o == st.g['lb'], ln.f == 0, z3.Select(c, LEN(i)) == 0,
               forall(lambda k: Implies(z3.And(k >= 0, k < LEN(i)), z3.Select(c, k) == z3.Select(LINE(i), k)), pats=lambda k: z3.Select(c, k))))
        s0 = st.copy()
        s0.g['oom'] = z3.BoolVal(True)
        n = FLD(i)
        st.add(n >= 0, n < MAXLN)
        tv = eng.alloc(st, 8 * n + 8, name='toks')
        sd = eng.alloc(st, LEN(i) + 1, name='tokdup')
        po, pf = eng.fresh_arr('po', False), eng.fresh_arr('pf', False)
        txt = eng.fresh_arr('i8', False)
        st.add(z3.Select(txt, LEN(i)) == 0)
        st.add(forall(lambda j: Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(po, 8 * j) == sd.o, z3.Select(pf, 8 * j) >= 0, z3.Select(pf, 8 * j) <= LEN(i))), pats=lambda j: z3.Select(po, 8 * j)),
               z3.Select(po, 8 * n) == sd.o, z3.Select(pf, 8 * n) == 0,
               Implies(n > 0, z3.And(z3.Select(po, 0) == sd.o, z3.Select(pf, 0) >= 0, z3.Select(pf, 0) <= LEN(i))),
               Implies(n > 1, z3.And(z3.Select(po, 8) == sd.o, z3.Select(pf, 8) >= 0, z3.Select(pf, 8) <= LEN(i))),
               Implies(n > 2, z3.And(z3.Select(po, 16) == sd.o, z3.Select(pf, 16) >= 0, z3.Select(pf, 16) <= LEN(i))))
        eng.set_inner(st, 'po', tv.o, po)
        eng.set_inner(st, 'pf', tv.o, pf)
        eng.set_inner(st, 'i8', sd.o, txt)
        eng.put(st, 'p', ptv, tv)
        eng.put(st, 'i64', pn, n)
        st.g['tkl'], st.g['tko'], st.g['tkn'], st.g['tkf'] = i, sd.o, n, pf
        return [(s0, I(-1)), (st, I(0))]

    def m_cleanup(eng, st, av, x):
        tv, n = av
        s0 = st.copy()
        s0.add(tv.null())
        st.add(Not(tv.null()))
        q = st.ptr(tv, 8 * n)
        eng.ob(st, 'memory', 'u_strtok_cleanup: the vector and text of one tokenization, once',
               z3.And(tv.f == 0, q.f == 0, st.alive(tv.o), st.alive(q.o), tv.o > eng.NG, q.o > eng.NG, st.sz(tv.o) == 8 * n + 8))
        st.live = z3.Store(z3.Store(st.live, tv.o, False), q.o, False)
        return [(s0, None), (st, None)]

    def m_strcmp(eng, st, av, x):
        A = eng.cur_args
        a, b = av
        r = eng.fresh_of(st, ('int', 32), 'cmp')
        if eng.cur == 'u_pwd_retr_res':
            eng.ob(st, 'requires', 'the name field is compared with the user', z3.And(a.o == st.g['tko'], a.f == z3.Select(st.g['tkf'], 0), st.g['tkn'] >= 1, b.eq(A.user), st.g['tkl'] == st.g['ln'] - 1))
            st.add((r == 0) == EQ(st.g['ln'] - 1))
            return r
        w = A['pwd']
        rec = Ptr(st.g['ro'], I(0))
        src = If(W.p(st, w, 'cb_hash').null(), st.g['so'], st.g['ho'])
        eng.ob(st, 'requires', 'the (hashed) password is compared with the one of the record', z3.And(a.o == src, a.f == 0, b.eq(W.rp(st, rec, 'pass'))))
        st.g['cm'], st.g['cr'] = I(1), r
        return r

    def m_strlen(eng, st, av, x):
        A = eng.cur_args
        if hasattr(A, 'password'):
            eng.ob(st, 'requires', 'length of the password', av[0].eq(A['password']))
            return st.g['pl']
        return libc_strlen(eng, st, av, x)

    def m_strlcpy(eng, st, av, x):
        d, s, n = av
        A = eng.cur_args
        eng.ob(st, 'memory', 'u_strlcpy: destination', st.valid(d, n))
        new, old = eng.fresh_arr('i8', False), st.inner('i8', d.o)
        z = eng.fresh('z')
        st.add(z >= d.f, z < d.f + n, z3.Select(new, z) == 0,
               forall(lambda k: Implies(Or(k < d.f, k >= d.f + n), z3.Select(new, k) == z3.Select(old, k)), pats=lambda k: z3.Select(new, k)))
        eng.set_inner(st, 'i8', d.o, new)
        if hasattr(A, 'password'):
            eng.ob(st, 'requires', 'the password is copied', s.eq(A['password']))
            st.g['so'] = d.o
            r = eng.fresh('lcp')
            st.add(Or(r == 0, r == -1))
            return r
        eng.ob(st, 'requires', 'the uri is copied to its place', z3.And(s.eq(A.res_uri), d.f == W.F['res_uri'], n <= W.USZ, n > W.USZ - 8))
        s0 = st.copy()
        s0.g['tl'], st.g['tl'] = I(1), I(0)
        return [(s0, I(-1)), (st, I(0))]

    def m_map_new(eng, st, av, x):
        eng.ob(st, 'requires', 'the map is created with the options prepared, in its place', z3.And(st.g['hf'] == 1, av[0].f == 0, st.alive(av[0].o), av[1].eq(Ptr(eng.cur_args['pwd'].o, eng.cur_args['pwd'].f + W.F['db']))))
        s0 = st.copy()
        s0.g['oom'] = z3.BoolVal(True)
        eng.put(s0, 'p', av[1], NULL)
        m = Ptr(eng.fresh('map'), I(0))
        st.add(m.o > 0, m.o != st.g['omap'], Not(z3.Select(st.g['mfree'], m.o)))
        eng.put(st, 'p', av[1], m)
        st.g['nmap'] = m.o
        st.g['maps'] = st.g['maps'] + 1
        return [(s0, I(2)), (st, I(0))]

    def m_map_free(eng, st, av, x):
        m = av[0]
        eng.ob(st, 'memory', 'u_hmap_easy_free: a map, freed once', z3.And(Not(m.null()), Not(z3.Select(st.g['mfree'], m.o))))
        st.g['mfree'] = z3.Store(st.g['mfree'], m.o, True)
        st.g['maps'] = st.g['maps'] - 1
        return None

    def m_opts_new(eng, st, av, x):
        def mk(s):
            q = eng.alloc(s, I(144), name='hopts')
            eng.put(s, 'p', av[0], q)
            s.g['hf'] = I(0)
            return q
        outs = []
        for s, q in fork_null(eng, st, mk):
            null = z3.is_int_value(z3.simplify(q.o)) and z3.simplify(q.o).as_long() == 0
            if null:
                eng.put(s, 'p', av[0], NULL)
            outs.append((s, I(2) if null else I(0)))
        return outs

    def m_opts_free(eng, st, av, x):
        s0 = st.copy()
        s0.add(av[0].null())
        st.add(Not(av[0].null()))
        eng.ob(st, 'memory', 'u_hmap_opts_free: options, once', z3.And(av[0].f == 0, st.alive(av[0].o), av[0].o > eng.NG))
        st.live = z3.Store(st.live, av[0].o, False)
        return [(s0, None), (st, None)]

    def m_freefunc(eng, st, av, x):
        eng.ob(st, 'requires', 'records of the map are released as records', av[1].eq(eng.gptr('@__hmap_pwd_rec_free')))
        st.g['hf'] = I(1)
        return I(0)

    def m_easy_put(eng, st, av, x):
        m, key, val = av
        A = eng.cur_args
        eng.ob(st, 'requires', 'the record goes into the map under its user name', z3.And(m.eq(W.p(st, A['pwd'], 'db')), key.eq(W.rp(st, val, 'user'))))
        i = st.g['ln'] - 1
        tk = lambda n, j: z3.And(z3.Select(st.g['dso'], W.rp(st, val, n).o) == st.g['tko'], z3.Select(st.g['dsf'], W.rp(st, val, n).o) == z3.Select(st.g['tkf'], 8 * j))
        eng.ob(st, 'requires', 'the record holds the fields of the line just read', z3.And(st.g['tkl'] == i, st.alive(val.o), tk('user', 0), tk('pass', 1), If(st.g['tkn'] >= 3, tk('opaque', 2), W.rp(st, val, 'opaque').null())))
        r = eng.fresh('putrc')
        st.add(r >= 0, r <= 2)
        st.g['oom'] = Or(st.g['oom'], r == 2)       # the map fails for lack of memory only
        pu = z3.Const('pu!%d' % next(eng.cnt), INNER)
        p0 = st.g['pu']
        st.add(Implies(r != 2, z3.Select(pu, i) == 1), Implies(r == 2, z3.Select(pu, i) == z3.Select(p0, i)), forall(lambda j: Implies(j != i, z3.Select(pu, j) == z3.Select(p0, j)), pats=lambda j: z3.Select(pu, j)))
        st.g['pu'] = pu
        # the map owns the record whatever the outcome
        eng.ob(st, 'memory', 'a record is handed over', rec_ok(st, val))
        lv = st.live
        for n in ('user', 'pass', 'opaque'):
            lv = If(W.rp(st, val, n).null(), lv, z3.Store(lv, W.rp(st, val, n).o, False))
        nl = z3.Const('live!%d' % next(eng.cnt), lv.sort())
        st.add(nl == z3.Store(lv, val.o, False))
        st.live = nl
        return r

    def m_easy_get(eng, st, av, x):
        A = eng.cur_args
        eng.ob(st, 'requires', 'looked up in the current snapshot by the user name', z3.And(av[0].eq(W.p(st, A['pwd'], 'db')), av[1].eq(A.user), Not(z3.Select(st.g['mfree'], av[0].o))))
        q = Ptr(eng.fresh('hit'), I(0))
        st.add(q.o >= 0, Implies(q.o != 0, rec_ok(st, q)), q.o != A.prec.o)
        st.g['hit'] = q.o
        return q


    def rec_ok(S, r):
        fs = [W.rp(S, r, n) for n in ('user', 'pass', 'opaque')]
        return z3.And(r.f == 0, S.alive(r.o), r.o > S.eng.NG, S.sz(r.o) == W.RSZ,
                      *[z3.And(p.f == 0, S.alive(p.o), p.o > S.eng.NG, p.o != r.o) for p in fs[:2]],
                      Or(fs[2].null(), z3.And(fs[2].f == 0, S.alive(fs[2].o), fs[2].o > S.eng.NG, fs[2].o != r.o, fs[2].o != fs[0].o, fs[2].o != fs[1].o)), fs[0].o != fs[1].o)

    W.rec_ok = rec_ok
    M = dict(libc.MODELS)
    M.update(u_strdup=m_strdup, u_snprintf=m_snprintf, strstr=m_strstr, strncmp=m_strncmp, strcspn=m_strcspn, u_strtok=m_strtok, u_strtok_cleanup=m_cleanup, strcmp=m_strcmp,
             strlen=m_strlen, u_strlcpy=m_strlcpy, u_hmap_easy_new=m_map_new, u_hmap_easy_free=m_map_free, u_hmap_opts_new=m_opts_new, u_hmap_opts_free=m_opts_free,
             u_hmap_opts_set_val_freefunc=m_freefunc, u_hmap_easy_put=m_easy_put, u_hmap_easy_get=m_easy_get)
    return W, M, ind, FLD


def libc_strlen(eng, st, av, x):
    from lvc import engine
    return engine.m_strlen(eng, st, av, x)


def options(mod):
    W, M, ind, _ = make(mod)
    return dict(models=M, indirect=ind, extra_types=('i8', 'i32', 'i64', 'p'))


def contracts(mod):
    W, M, ind, FLD = make(mod)
    G = tuple((n, IntS) for n in ('ln', 'nl', 'opn', 'hd', 'lb', 'su', 'tkl', 'tko', 'tkn', 'upd', 'ts', 'pl', 'ho', 'so', 'ro', 'cm', 'cr', 'maps', 'tl', 'omap', 'nmap', 'hit', 'hf', 'rld')) + \
        (('dso', INNER), ('dsf', INNER), ('tkf', INNER), ('pu', INNER), ('mfree', z3.ArraySort(IntS, z3.BoolSort())))

    def wf(S, w):
        return [S.heap(w, W.SZ), w.o > S.eng.NG]

    def clean(S, A):
        S.g['opn'] = I(0)
        S.g['ln'] = I(0)

    def sizes(S0, S):
        return ('sizes of what was allocated', forall(lambda k: Implies(S0.alive(k), S.sz(k) == S0.sz(k)), pats=lambda k: z3.Select(S.size, k)))

    def kept(S0, S, *n):
        return ('the rest', z3.And(*[S.g[k] == S0.g[k] for k in n]))

    def live_same(S0, S):
        return forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o))

    def tok_is(S, p, j):
        return z3.And(z3.Select(S.g['dso'], p.o) == S.g['tko'], z3.Select(S.g['dsf'], p.o) == z3.Select(S.g['tkf'], 8 * j))

    rec_ok = W.rec_ok

    def is_dup(S, p, q):
        return z3.And(z3.Select(S.g['dso'], p.o) == q.o, z3.Select(S.g['dsf'], p.o) == q.f)

    # ---------------------------------------------------------------- records
    def new_post(S0, S, A, r):
        q = S.ptr(A.prec)
        ok = r == 0
        u, p, o = (W.rp(S, q, n) for n in ('user', 'pass', 'opaque'))
        return [('0 or ~0', Or(ok, r == -1)), sizes(S0, S), ('fails only without memory', Implies(Not(ok), S.g['oom'])),
                ('nothing stored when it fails', Implies(Not(ok), q.eq(S0.ptr(A.prec)))),
                ('a new record', Implies(ok, z3.And(rec_ok(S, q), Not(S0.alive(q.o)), Not(S0.alive(u.o)), Not(S0.alive(p.o)), Or(o.null(), Not(S0.alive(o.o)))))),
                ('with copies of the fields', Implies(ok, z3.And(is_dup(S, u, A.user), is_dup(S, p, A['pass']), If(A.opaque.null(), o.null(), z3.And(Not(o.null()), is_dup(S, o, A.opaque)))))),
                ('nothing else stays allocated', forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(ok, Or(k == q.o, k == u.o, k == p.o, z3.And(Not(o.null()), k == o.o)))), pats=lambda k: z3.Select(S.live, k))),
                ('earlier copies keep their source', forall(lambda k: Implies(S0.alive(k), z3.And(z3.Select(S.g['dso'], k) == z3.Select(S0.g['dso'], k), z3.Select(S.g['dsf'], k) == z3.Select(S0.g['dsf'], k))),
                                                            pats=lambda k: (z3.Select(S.g['dso'], k))))]
    outp = lambda S, p: z3.And(S.valid(p, 8), p.o > S.eng.NG)
    rnew = Contract('u_pwd_rec_new', lambda S, A: [isstr(S, A.user), isstr(S, A['pass']), Or(A.opaque.null(), isstr(S, A.opaque)), outp(S, A.prec)], new_post,
                    lambda S, A: [('heap',), ('cell', 'p', A.prec), ('ghost', 'dso'), ('ghost', 'dsf')], ghosts=G)

    def free_post(S0, S, A, r):
        u, p, o = (W.rp(S0, A.rec, n) for n in ('user', 'pass', 'opaque'))
        here = Not(A.rec.null())
        return [sizes(S0, S), ('exactly the record and its fields are released', Implies(here, forall(lambda k: S.alive(k) == z3.And(S0.alive(k), k != A.rec.o, k != u.o, k != p.o, Or(o.null(), k != o.o)), pats=lambda k: z3.Select(S.live, k)))),
                ('no record, no release', Implies(Not(here), live_same(S0, S)))]
    rfree = Contract('u_pwd_rec_free', lambda S, A: [Not(A.pwd.null()), Or(A.rec.null(), rec_ok(S, A.rec))], free_post, lambda S, A: [('heap',), ('obj', ('p',), A.rec.o)], ghosts=G)

    # ---------------------------------------------------------------- resource
    def hcell(A):
        return ('cell', 'p', Ptr(A.pwd.o, A.pwd.f + W.F['res_handler']))
    gm = lambda *n: [('ghost', k) for k in n]

    def open_post(S0, S, A, r):
        h = W.p(S, A.pwd, 'res_handler')
        return [('oom', Implies(S0.g['oom'], S.g['oom'])), ('opened, at the first line', Implies(r == 0, z3.And(S.g['opn'] == S0.g['opn'] + 1, S.g['ln'] == 0, h.o == S.g['hd'], h.f == 0, h.o != 0, S.g['nl'] >= 0, S.g['nl'] < 2**60))),
                ('or not', Implies(r != 0, z3.And(S.g['opn'] == S0.g['opn'], h.null(), S.g['ln'] == S0.g['ln'], S.g['oom'])))]
    ropen = Contract('u_pwd_res_open', lambda S, A: wf(S, A.pwd) + [Not(W.p(S, A.pwd, 'cb_open').null()), S.g['opn'] == 0], open_post,
                     lambda S, A: [hcell(A)] + gm('opn', 'ln', 'hd', 'nl', 'oom'), ghosts=G)

    def close_post(S0, S, A, r):
        h, c = W.p(S0, A.pwd, 'res_handler'), W.p(S0, A.pwd, 'cb_close')
        did = z3.And(Not(h.null()), Not(c.null()))
        return [('closed exactly if open', S.g['opn'] == S0.g['opn'] - If(did, I(1), I(0))), ('handle forgotten', If(did, W.p(S, A.pwd, 'res_handler').null(), W.p(S, A.pwd, 'res_handler').eq(h)))]
    rclose = Contract('u_pwd_res_close', lambda S, A: wf(S, A.pwd) + [Or(W.p(S, A.pwd, 'res_handler').null(), z3.And(S.g['opn'] == 1, W.p(S, A.pwd, 'res_handler').o == S.g['hd']))], close_post,
                      lambda S, A: [hcell(A)] + gm('opn'), ghosts=G)

    # ---------------------------------------------------------------- look up in the file
    def scan(S, n):
        return forall(lambda i: Implies(z3.And(i >= 0, i < n), Or(fch(i) == 35, Not(PFX(i)))), pats=lambda i: [PFX(i)])

    def cbs(S, A):
        return [Not(W.p(S, A.pwd, 'cb_open').null()), Not(W.p(S, A.pwd, 'cb_load').null()), Not(W.p(S, A.pwd, 'cb_close').null())]

    def rr_inv(SE, S, v, A):
        h = W.p(S, A.pwd, 'res_handler')
        return [('nothing found so far', z3.And(v.got_it == 0, S.ptr(v.toks).null(), S.ptr(v.rec).null())),
                ('reading', z3.And(S.g['opn'] == 1, S.g['hd'] == h.o, h.f == 0, h.o != 0, S.g['ln'] >= 0, S.g['ln'] <= S.g['nl'], v.lc == S.g['ln'] + 1)),
                ('search text', S.g['su'] == v.uu.o),
                ('only the line buffer', others(SE, S, ('i8',), [v.ln.o])),
                ('lines so far', scan(S, S.g['ln']))]

    def rr_post(S0, S, A, r):
        q = S.ptr(A.prec)
        ok = r == 0
        i = S.g['ln'] - 1
        u, p, o = (W.rp(S, q, n) for n in ('user', 'pass', 'opaque'))
        return [('0 or ~0', Or(ok, r == -1)), sizes(S0, S), kept(S0, S, 'cm', 'cr', 'maps', 'mfree', 'omap'), ('its record', S.g['ro'] == q.o), ('nothing stored when it fails', Implies(Not(ok), q.eq(S0.ptr(A.prec)))), ('the resource is closed again', z3.And(S.g['opn'] == 0, W.p(S, A.pwd, 'res_handler').null())),
                ('found: the first line that begins with the name, and whose name field it is', Implies(ok, z3.And(i >= 0, i < S.g['nl'], fch(i) != 35, PFX(i), EQ(i), FLD(i) >= 2))),
                ('no earlier line qualifies', Implies(ok, scan(S, i))),
                ('a new record', Implies(ok, z3.And(Not(S0.alive(q.o)), Not(S0.alive(u.o)), Not(S0.alive(p.o)), Or(o.null(), Not(S0.alive(o.o)))))),
                ('its fields', Implies(ok, z3.And(rec_ok(S, q), S.g['tkl'] == i, tok_is(S, u, 0), tok_is(S, p, 1), If(FLD(i) >= 3, tok_is(S, o, 2), o.null())))),
                ('not found: no line qualifies, or the first that begins so is not it', Implies(z3.And(Not(ok), Not(S.g['oom'])), Or(z3.And(S.g['ln'] == S.g['nl'], scan(S, S.g['nl'])), z3.And(fch(i) != 35, PFX(i), scan(S, i), Or(FLD(i) < 2, Not(EQ(i))))))),
                ('nothing else stays allocated', forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(ok, Or(k == q.o, k == u.o, k == p.o, z3.And(Not(o.null()), k == o.o)))), pats=lambda k: z3.Select(S.live, k)))]

    def w_pre(S, A):
        return wf(S, A.pwd) + cbs(S, A)
    DG = gm('opn', 'ln', 'hd', 'nl', 'lb', 'su', 'tkl', 'tko', 'tkn', 'tkf', 'dso', 'dsf')
    rres = Contract('u_pwd_retr_res', lambda S, A: w_pre(S, A) + [isstr(S, A.user), A.user.o != A.pwd.o, A.user.o != A.prec.o, outp(S, A.prec), A.prec.o != A.pwd.o, S.g['opn'] == 0, W.p(S, A.pwd, 'res_handler').null()], rr_post,
                    lambda S, A: [('heap',), ('cell', 'p', A.prec), hcell(A)] + DG + gm('ro'), loops={0: LoopSpec(rr_inv)}, ghosts=G, entry=clean)
    rres.ghost = lambda S0, S, A, r: S.g.update(ro=S.ptr(A.prec).o)

    # ---------------------------------------------------------------- snapshot
    def good(i):
        return z3.And(fch(i) != 35, FLD(i) >= 2)

    def pushed(S, n):
        pu = S.g['pu']
        return [('the last line', Implies(z3.And(n > 0, good(n - 1)), z3.Select(pu, n - 1) == 1)),
                ('every record of the lines so far is in the map', forall(lambda i: Implies(z3.And(i >= 0, i < n, good(i)), z3.Select(pu, i) == 1), pats=lambda i: z3.Select(pu, i))),
                ('and nothing else', forall(lambda i: Implies(z3.Select(pu, i) == 1, z3.And(i >= 0, i < n, good(i))), pats=lambda i: z3.Select(pu, i)))]

    def dl_entry(S, A):
        clean(S, A)
        pu = z3.Const('pu0!%d' % next(S.eng.cnt), INNER)
        S.add(forall(lambda i: z3.Select(pu, i) == 0, pats=lambda i: z3.Select(pu, i)))
        S.g['pu'] = pu

    def dl_inv(SE, S, v, A):
        h = W.p(S, A.pwd, 'res_handler')
        t, n = S.ptr(v.toks), S.i64(v.ntoks)
        q = S.ptr(t, 8 * n)
        stk = [v.ln.o, v.toks.o, v.ntoks.o, v.rec.o]
        fr = []
        for k in list(S.M):
            if not z3.eq(S.M[k], SE.M[k]):
                m = named_map(S, k)
                fr.append(forall(lambda o: Implies(z3.And(SE.alive(o), *[o != x for x in stk]), z3.Select(m, o) == z3.Select(SE.M[k], o)), pats=lambda o: z3.Select(m, o)))
        return [('no record pending', S.ptr(v.rec).null()),
                ('reading', z3.And(S.g['opn'] == 1, S.g['hd'] == h.o, h.f == 0, h.o != 0, S.g['ln'] >= 0, S.g['ln'] <= S.g['nl'])),
                ('fields of the last line', Or(t.null(), z3.And(t.f == 0, n >= 0, n < MAXLN, S.alive(t.o), t.o > S.eng.NG, Not(SE.alive(t.o)), S.sz(t.o) == 8 * n + 8, q.f == 0, S.alive(q.o), Not(SE.alive(q.o)), q.o > S.eng.NG, q.o != t.o))),
                ('nothing else is allocated', forall(lambda k: S.alive(k) == Or(SE.alive(k), z3.And(Not(t.null()), Or(k == t.o, k == q.o))), pats=lambda k: z3.Select(S.live, k))),
                ('sizes', forall(lambda k: Implies(SE.alive(k), S.sz(k) == SE.sz(k)), pats=lambda k: z3.Select(S.size, k))),
                ('only the buffers', z3.And(*fr))] + pushed(S, S.g['ln'])

    def dl_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)), kept(S0, S, 'cm', 'cr', 'maps', 'mfree', 'omap', 'nmap', 'hf', 'upd', 'ts', 'hit'), ('the resource is closed again', z3.And(S.g['opn'] == 0, W.p(S, A.pwd, 'res_handler').null())), sizes(S0, S),
                ('nothing stays allocated', live_same(S0, S)), ('success: all lines were read', Implies(r == 0, S.g['ln'] == S.g['nl'])), ('it fails only when the resource cannot be opened or there is no memory', Implies(r != 0, S.g['oom']))] + \
               [(l, Implies(r == 0, f)) for l, f in pushed(S, S.g['nl'])]

    def dbok(S, A):
        d = W.p(S, A.pwd, 'db')
        return z3.And(d.f == 0, d.o > 0, Not(z3.Select(S.g['mfree'], d.o)))
    idle = lambda S, A: [S.g['opn'] == 0, W.p(S, A.pwd, 'res_handler').null()]
    dload = Contract('u_pwd_db_load', lambda S, A: w_pre(S, A) + idle(S, A) + [dbok(S, A)], dl_post, lambda S, A: [('heap',), hcell(A)] + DG + gm('pu'), loops={0: LoopSpec(dl_inv)}, ghosts=G, entry=dl_entry)

    def dbcell(A):
        return ('cell', 'p', Ptr(A.pwd.o, A.pwd.f + W.F['db']))

    def dn_post(S0, S, A, r):
        d, d0 = W.p(S, A.pwd, 'db'), W.p(S0, A.pwd, 'db')
        return [('0 or ~0', Or(r == 0, r == -1)), sizes(S0, S), ('nothing else stays allocated', live_same(S0, S)),
                ('a new map that releases records', Implies(r == 0, z3.And(d.o > 0, d.f == 0, d.o == S.g['nmap'], d.o != S0.g['omap'], S.g['hf'] == 1, Not(z3.Select(S.g['mfree'], d.o)), S.g['maps'] == S0.g['maps'] + 1))),
                ('or none, for lack of memory', Implies(r != 0, z3.And(Or(d.null(), d.eq(d0)), S.g['oom'], S.g['maps'] == S0.g['maps'])))]
    dnew = Contract('u_pwd_db_new', lambda S, A: wf(S, A.pwd), dn_post, lambda S, A: [('heap',), dbcell(A)] + gm('nmap', 'hf', 'maps'), ghosts=G)

    def dt_post(S0, S, A, r):
        d = W.p(S0, A.pwd, 'db')
        return [('the map is released and forgotten', z3.And(W.p(S, A.pwd, 'db').null(), r == 0)),
                ('exactly it', S.g['mfree'] == If(d.null(), S0.g['mfree'], z3.Store(S0.g['mfree'], d.o, True))), ('count', S.g['maps'] == S0.g['maps'] - If(d.null(), I(0), I(1)))]
    dterm = Contract('u_pwd_db_term', lambda S, A: wf(S, A.pwd) + [Or(W.p(S, A.pwd, 'db').null(), dbok(S, A))], dt_post, lambda S, A: [dbcell(A)] + gm('mfree', 'maps'), ghosts=G)

    def omap(S, A):
        S.g['omap'] = W.p(S, A.pwd, 'db').o

    def snap(S, A):
        d = W.p(S, A.pwd, 'db')
        return [Or(d.null(), dbok(S, A)), S.g['maps'] == If(d.null(), I(0), I(1))]

    def is_new(S0, S, A):
        d0, d = W.p(S0, A.pwd, 'db'), W.p(S, A.pwd, 'db')
        return [('the new snapshot', z3.And(dbok(S, A), d.o != d0.o, S.g['ln'] == S.g['nl'])), ('the old snapshot is released', Or(d0.null(), z3.Select(S.g['mfree'], d0.o)))] + pushed(S, S.g['nl'])

    def ld_post(S0, S, A, r):
        d0, d = W.p(S0, A.pwd, 'db'), W.p(S, A.pwd, 'db')
        return [('0 or ~0', Or(r == 0, r == -1)), kept(S0, S, 'cm', 'cr', 'upd', 'ts', 'hit'), sizes(S0, S), ('nothing else stays allocated', live_same(S0, S)), ('the resource is closed again', z3.And(*idle(S, A))),
                ('one map at most', S.g['maps'] == If(d.null(), I(0), I(1)))] + [(l, Implies(r == 0, f)) for l, f in is_new(S0, S, A)] + \
               [('failure keeps the old snapshot', Implies(r != 0, z3.And(d.eq(d0), Or(d0.null(), dbok(S, A)), S.g['oom'])))]
    LG = DG + gm('pu', 'nmap', 'hf', 'maps', 'mfree', 'omap')
    load = Contract('u_pwd_load', lambda S, A: w_pre(S, A) + idle(S, A) + snap(S, A) + [W.mem(S, A.pwd) != 0], ld_post, lambda S, A: [('heap',), dbcell(A), hcell(A)] + LG, ghosts=G, entry=omap)

    def nr_entry(S, A):
        S.g['upd'] = I(0)

    def modcell(A):
        return ('cell', 'i64', Ptr(A.pwd.o, A.pwd.f + W.F['last_mod']))

    def reloaded(S0, S, A, ok):
        d0, d = W.p(S0, A.pwd, 'db'), W.p(S, A.pwd, 'db')
        lm0, lm = S0.i64(A.pwd, W.F['last_mod']), S.i64(A.pwd, W.F['last_mod'])
        asked = z3.And(W.mem(S0, A.pwd) != 0, Not(W.p(S0, A.pwd, 'cb_notify').null()))
        upd = z3.And(asked, S.g['upd'] == 1)
        return [('the resource is closed again', z3.And(*idle(S, A))), sizes(S0, S), ('nothing else stays allocated', live_same(S0, S)), ('one map at most', S.g['maps'] == If(d.null(), I(0), I(1))),
                ('no change notified: the snapshot stays', Implies(Not(upd), z3.And(ok, d.eq(d0), lm == lm0, Or(d.null(), dbok(S, A)))))] + \
               [(l, Implies(z3.And(upd, ok), f)) for l, f in is_new(S0, S, A)] + \
               [('the time of the snapshot is the one notified', Implies(z3.And(upd, ok), lm == S.g['ts'])),
                ('reload failed: the old snapshot stays, and is still known to be old', Implies(z3.And(upd, Not(ok)), z3.And(d.eq(d0), lm == lm0, Or(d.null(), dbok(S, A)), S.g['oom'])))]
    NG = LG + gm('upd', 'ts')
    need = Contract('u_pwd_need_reload', lambda S, A: w_pre(S, A) + idle(S, A) + snap(S, A), lambda S0, S, A, r: [('0 or ~0', Or(r == 0, r == -1)), kept(S0, S, 'cm', 'cr', 'hit')] + reloaded(S0, S, A, r == 0),
                    lambda S, A: [('heap',), dbcell(A), hcell(A), modcell(A)] + NG, ghosts=G, entry=nr_entry)

    def rm_entry(S, A):
        S.g['hit'], S.g['upd'] = I(0), I(0)

    def rm_post(S0, S, A, r):
        q = S.ptr(A.prec)
        d = W.p(S, A.pwd, 'db')
        return [('0 or ~0', Or(r == 0, r == -1)), kept(S0, S, 'cm', 'cr'), sizes(S0, S), ('nothing else stays allocated', live_same(S0, S)), ('the resource is closed again', z3.And(*idle(S, A))),
                ('a record of the snapshot', Implies(r == 0, z3.And(dbok(S, A), q.o == S.g['hit'], q.o == S.g['ro'], rec_ok(S, q)))), ('nothing stored when it fails', Implies(r != 0, q.eq(S0.ptr(A.prec)))), ('which is looked up whenever there is one', Implies(r != 0, Or(d.null(), S.g['hit'] == 0))),
                ('snapshot', z3.And(*snap(S, A)))]
    rmem = Contract('u_pwd_retr_mem', lambda S, A: w_pre(S, A) + idle(S, A) + snap(S, A) + [isstr(S, A.user), A.user.o != A.pwd.o, A.user.o != A.prec.o, outp(S, A.prec), A.prec.o != A.pwd.o], rm_post,
                    lambda S, A: [('heap',), dbcell(A), hcell(A), modcell(A), ('cell', 'p', A.prec)] + NG + gm('hit', 'ro'), ghosts=G, entry=rm_entry, ghost=lambda S0, S, A, r: S.g.update(ro=S.ptr(A.prec).o))

    # ---------------------------------------------------------------- authentication
    def au_entry(S, A):
        S.g['hit'], S.g['cm'], S.g['ro'] = I(0), I(0), I(0)

    def au_post(S0, S, A, r):
        inm = W.mem(S0, A.pwd) != 0
        return [('accepted only if the password matches the record found', Implies(r == 0, z3.And(S.g['cm'] == 1, S.g['cr'] == 0))), ('the verdict is that of the comparison', Implies(S.g['cm'] == 1, r == S.g['cr'])),
                sizes(S0, S), ('nothing stays allocated', live_same(S0, S)), ('the resource is closed again', z3.And(*idle(S, A)))]
    auth = Contract('u_pwd_auth_user', lambda S, A: w_pre(S, A) + idle(S, A) + snap(S, A) + [isstr(S, A.user), A.user.o != A.pwd.o, isstr(S, A.password), A.password.o != A.pwd.o, S.g['pl'] >= 0, S.g['pl'] < 2**60,
                                                                 S.i64(A.pwd, W.F['hash_len']) < 2**60, Implies(Not(W.p(S, A.pwd, 'cb_hash').null()), S.i64(A.pwd, W.F['hash_len']) > 0)], au_post,
                    lambda S, A: [('heap',), dbcell(A), hcell(A), modcell(A)] + NG + gm('hit', 'cm', 'cr', 'so', 'ho', 'ro'), ghosts=G, entry=au_entry)

    # ---------------------------------------------------------------- life of an instance
    def tm_post(S0, S, A, r):
        d = W.p(S0, A.pwd, 'db')
        here = Not(A.pwd.null())
        return [sizes(S0, S), ('exactly the instance is released', Implies(here, forall(lambda k: S.alive(k) == z3.And(S0.alive(k), k != A.pwd.o), pats=lambda k: z3.Select(S.live, k)))),
                ('and its map', Implies(here, S.g['mfree'] == If(d.null(), S0.g['mfree'], z3.Store(S0.g['mfree'], d.o, True)))), ('no instance, no release', Implies(Not(here), z3.And(live_same(S0, S), S.g['mfree'] == S0.g['mfree'])))]
    term = Contract('u_pwd_term', lambda S, A: [Or(A.pwd.null(), z3.And(*wf(S, A.pwd), A.pwd.f == 0, Or(W.p(S, A.pwd, 'db').null(), dbok(S, A))))], tm_post, lambda S, A: [('heap',), dbcell(A)] + gm('mfree', 'maps'), ghosts=G)

    def in_post(S0, S, A, r):
        q = S.ptr(A.ppwd)
        ok = r == 0
        bad = Or(A.res_uri.null(), A.cb_open.null(), A.cb_load.null(), A.ppwd.null(), z3.And(Not(A.cb_hash.null()), A.hash_len == 0))
        return [('0 or ~0', Or(ok, r == -1)), ('a new instance', Implies(ok, z3.And(Not(bad), Not(S0.alive(q.o)), S.heap(q, W.SZ)))),
                ('with what was asked', Implies(ok, z3.And(*[W.p(S, q, n).eq(A[n]) for n in ('cb_open', 'cb_load', 'cb_close', 'cb_notify', 'cb_hash')], S.i64(q, W.F['hash_len']) == A.hash_len, W.mem(S, q) == A.in_memory))),
                ('no snapshot yet', Implies(ok, z3.And(W.p(S, q, 'db').null(), W.p(S, q, 'res_handler').null(), S.i64(q, W.F['last_mod']) == 0, S.g['tl'] == 0))),
                ('fails only for bad arguments, a too long name or no memory', Implies(Not(ok), Or(bad, S.g['oom'], S.g['tl'] == 1))),
                ('nothing else stays allocated', forall(lambda k: S.alive(k) == Or(S0.alive(k), z3.And(ok, k == q.o)), pats=lambda k: z3.Select(S.live, k)))]

    def in_entry(S, A):
        S.g['tl'] = I(0)
    init = Contract('u_pwd_init', lambda S, A: [Or(A.res_uri.null(), isstr(S, A.res_uri)), Or(A.ppwd.null(), outp(S, A.ppwd)), Or(A.ppwd.null(), A.ppwd.o != A.res_uri.o)], in_post,
                    lambda S, A: [('heap',), ('cell', 'p', A.ppwd)] + gm('tl'), ghosts=G, entry=in_entry)
    hfree = Contract('__hmap_pwd_rec_free', lambda S, A: [Or(A.val.null(), rec_ok(S, A.val))], lambda S0, S, A, r: free_post(S0, S, ANS(rec=A.val), r), lambda S, A: [('heap',), ('obj', ('p',), A.val.o)], ghosts=G)
    return [rnew, rfree, ropen, rclose, rres, dload, dnew, dterm, load, need, rmem, auth, term, init, hfree]
