"""Contracts for srcs/toolbox/net.c over a model of the socket calls in which every call may fail.
Ghosts, per descriptor: fs state (0 closed, 1 new, 2 connecting, 3 connected, 4 bound,
5 listening, 6 broken), fn non-blocking, fd/ft/fp domain, type and protocol, fo/ff the address
connected or bound, fr address reuse, fb broadcast, se pending error.  now: microseconds,
t0: when connecting began, exp: the connection timed out, fcf: fcntl(2) failed, kc: index of the
address under trial, an: number of addresses, ak/af the addrinfo nodes."""
from lvc.engine import *
from lvc import libc

MAPS = ('fs', 'fn', 'fd', 'ft', 'fp', 'fo', 'ff', 'fr', 'fb', 'se')
INTS = ('now', 't0', 'exp', 'fcf', 'kc', 'an', 'bud')
EINTR, EINPROGRESS, ETIMEDOUT = 4, 115, 110
SEL = z3.Select


def sg(x): return If(x >= 2**63, x - 2**64, x)


def tot(S, p): return sg(S.i64(p)) * 1000000 + sg(S.i64(p, 8))


def norm(S, p): return z3.And(sg(S.i64(p, 8)) >= 0, sg(S.i64(p, 8)) < 1000000, sg(S.i64(p)) > -2**41, sg(S.i64(p)) < 2**41)


def fail(eng, st, e=None):
    """a failing call: -1 and errno, never ETIMEDOUT unless given"""
    s0 = st.copy()
    n = eng.fresh('eno')
    s0.add(n > 0, n < 200, n != ETIMEDOUT, n != EINTR, n != EINPROGRESS)
    eng.put(s0, 'i32', eng.gptr('@__errno_location'), n if e is None else I(e))
    s0.g['flt'] = I(1)
    return s0


def upd(st, k, i, v):
    v = z3.simplify(v)
    st.g[k] = z3.Store(st.g[k], i, st.eng.named(st, v) if has_ite(v) else v)


def m_socket(eng, st, av, x):
    s0 = fail(eng, st)
    r = eng.fresh('sd')
    st.add(r >= 0, r < 2**31 - 1, SEL(st.g['fs'], r) == 0)
    st.g['flt'] = If(r >= 1024, I(1), st.g['flt'])     # select(2) cannot wait for it
    for k, v in (('fs', I(1)), ('fn', I(0)), ('fd', av[0]), ('ft', av[1]), ('fp', av[2]), ('fr', I(0)), ('fb', I(0)), ('se', I(0)), ('fo', I(0)), ('ff', I(0))):
        upd(st, k, r, v)
    return [(s0, I(-1)), (st, r)]


def isopen(eng, st, d, what):
    eng.ob(st, 'requires', '%s: an open descriptor' % what, SEL(st.g['fs'], d) > 0)


def m_close(eng, st, av, x):
    isopen(eng, st, av[0], 'close')
    upd(st, 'fs', av[0], I(0))
    r = eng.fresh_of(st, ('int', 32), 'closerc')
    e = eng.fresh_of(st, ('int', 32), 'eno')
    eng.put(st, 'i32', eng.gptr('@__errno_location'), e)
    return r


def m_bind(eng, st, av, x):
    isopen(eng, st, av[0], 'bind')
    eng.ob(st, 'requires', 'bind: a new socket', SEL(st.g['fs'], av[0]) == 1)
    s0 = fail(eng, st)
    upd(st, 'fs', av[0], I(4)); upd(st, 'fo', av[0], av[1].o); upd(st, 'ff', av[0], av[1].f)
    return [(s0, I(-1)), (st, I(0))]


def m_listen(eng, st, av, x):
    isopen(eng, st, av[0], 'listen')
    eng.ob(st, 'requires', 'listen: a bound socket', SEL(st.g['fs'], av[0]) == 4)
    s0 = fail(eng, st)
    upd(st, 'fs', av[0], I(5))
    return [(s0, I(-1)), (st, I(0))]


def m_connect(eng, st, av, x):
    isopen(eng, st, av[0], 'connect')
    eng.ob(st, 'requires', 'connect: a new socket', SEL(st.g['fs'], av[0]) == 1)
    upd(st, 'fo', av[0], av[1].o); upd(st, 'ff', av[0], av[1].f)
    w = fail(eng, st, EINTR)          # interrupted, or in progress: EINTR or EINPROGRESS
    e = eng.fresh('eno')
    w.add(Or(e == EINTR, e == EINPROGRESS))
    eng.put(w, 'i32', eng.gptr('@__errno_location'), e)
    w.g['flt'] = st.g['flt']
    upd(w, 'fs', av[0], I(2))
    f = fail(eng, st)
    e = eng.fresh('eno')
    f.add(e > 0, e < 200, e != EINTR, e != EINPROGRESS)
    eng.put(f, 'i32', eng.gptr('@__errno_location'), e)
    f.g['exp'] = If(e == ETIMEDOUT, I(1), f.g['exp'])
    upd(f, 'fs', av[0], I(6))
    upd(st, 'fs', av[0], I(3))
    return [(w, I(-1)), (f, I(-1)), (st, I(0))]


def m_select(eng, st, av, x):
    n, r, w, e, tv = av
    sd = eng.cur_args['sd']
    T = eng.cur_args['timeout']
    eng.ob(st, 'requires', 'select: waits for the descriptor being connected', z3.And(n == sd + 1, r.null(), e.null(), SEL(st.g['fs'], sd) == 2))
    eng.ob(st, 'memory', 'select: descriptor set', z3.And(st.valid(w, 128), n <= 1024))
    eng.ob(st, 'requires', 'select: a timeout exactly when one is given', tv.null() == T.null())
    tvn = eng.implied(st, tv.null())
    if not tvn:
        eng.ob(st, 'memory', 'select: timeout', st.valid(tv, 16))
        eng.ob(st, 'requires', 'select: waits no longer than what is left of the timeout', z3.And(norm(st, tv), tot(st, tv) == st.g['bud'] - (st.g['now'] - st.g['t0'])))
    t = eng.fresh('now')
    st.add(t >= st.g['now'], t < 2**59)
    out = []
    # interrupted; other failure
    for en in (EINTR, None):
        s0 = fail(eng, st, en)
        if en:
            s0.g['flt'] = If(t - st.g['t0'] > st.g['bud'], I(1), st.g['flt']) if not tvn else st.g['flt']
        s0.g['now'] = t
        if not tvn:
            eng.put(s0, 'i64', tv, eng.fresh_of(s0, ('int', 64), 'tv'))
            eng.put(s0, 'i64', Ptr(tv.o, tv.f + 8), eng.fresh_of(s0, ('int', 64), 'tv'))
        out.append((s0, I(-1)))
    if not tvn:
        s0 = st.copy()
        s0.g['now'], s0.g['exp'], s0.g['flt'] = t, I(1), I(1)
        out.append((s0, I(0)))
    p = eng.fresh('pend')
    st.add(p >= 0, p < 200)
    upd(st, 'se', sd, p)
    upd(st, 'fs', sd, If(p == 0, I(3), I(6)))
    st.g['flt'] = If(p == 0, st.g['flt'], I(1))
    st.g['now'] = t
    c = eng.fresh('ready')
    st.add(c >= 1, c <= 3)
    return out + [(st, c)]


def m_setsockopt(eng, st, av, x):
    isopen(eng, st, av[0], 'setsockopt')
    eng.ob(st, 'memory', 'setsockopt: value', st.valid(av[3], av[4]))
    s0 = fail(eng, st)
    lev, nm = conc(av[1]), conc(av[2])
    if lev == 1 and nm in (2, 6):
        upd(st, 'fr' if nm == 2 else 'fb', av[0], eng.named(st, z3.simplify(If(st.i32(av[3]) != 0, I(1), I(0)))))
    return [(s0, I(-1)), (st, I(0))]


def m_getsockopt(eng, st, av, x):
    isopen(eng, st, av[0], 'getsockopt')
    eng.ob(st, 'memory', 'getsockopt: value', st.valid(av[3], 4))
    s0 = fail(eng, st)
    v = eng.fresh_of(st, ('int', 32), 'opt')
    if conc(av[1]) == 1 and conc(av[2]) == 4:
        st.add(v == SEL(st.g['se'], av[0]))
        st.g['exp'] = If(v == ETIMEDOUT, I(1), st.g['exp'])
    eng.put(st, 'i32', av[3], v)
    return [(s0, I(-1)), (st, I(0))]


def m_fcntl(eng, st, av, x):
    d, cmd = av[0], conc(av[1])
    isopen(eng, st, d, 'fcntl')
    s0 = fail(eng, st)
    s0.g['fcf'] = I(1)
    if cmd == 3:
        h, l = eng.fresh('flh'), eng.fresh('fll')
        b = SEL(st.g['fn'], d)
        st.add(h >= 0, h < 2**19, l >= 0, l < 2048)
        return [(s0, I(-1)), (st, h * 4096 + b * 2048 + l)]
    if cmd == 4:
        upd(st, 'fn', d, (av[2] / 2048) % 2)
        return [(s0, I(-1)), (st, I(0))]
    raise Unsupported('fcntl command')


def m_gettimeofday(eng, st, av, x):
    eng.ob(st, 'memory', 'gettimeofday', st.valid(av[0], 16))
    s0 = fail(eng, st)
    s, u = eng.fresh('tsec'), eng.fresh('tus')
    st.add(s >= 0, s < 2**40, u >= 0, u < 1000000, s * 1000000 + u == st.g['now'])
    eng.put(st, 'i64', av[0], s)
    eng.put(st, 'i64', Ptr(av[0].o, av[0].f + 8), u)
    return [(s0, I(-1)), (st, I(0))]


def m_accept(eng, st, av, x):
    A = eng.cur_args
    eng.ob(st, 'requires', 'accept: on the descriptor given', z3.And(av[0] == A.sd, av[1].eq(A.addr), av[2].eq(A.addrlen), st.g['acc'] == 0))
    s0 = fail(eng, st, EINTR)
    s0.g['flt'] = st.g['flt']
    s1 = fail(eng, st)
    s1.g['acc'] = I(1)
    r = eng.fresh('ad')
    st.add(r >= 0, r < 2**31)
    st.g['acc'], st.g['ar'] = I(2), r
    return [(s0, I(-1)), (s1, I(-1)), (st, r)]


def m_log(eng, st, av, x): return eng.fresh_of(st, ('int', 32), 'logrc')


def options(mod):
    M = dict(libc.MODELS)
    M.update(socket=m_socket, close=m_close, bind=m_bind, listen=m_listen, connect=m_connect, select=m_select, setsockopt=m_setsockopt, getsockopt=m_getsockopt,
             fcntl=m_fcntl, gettimeofday=m_gettimeofday, accept=m_accept, u_log_write_ex=m_log, u_use_unused_args=lambda e, s, a, x: None, strerror=lambda e, s, a, x: NULL)
    return dict(models=M, extra_types=('i8', 'i16', 'i32', 'i64'), unroll=20)


def contracts(mod):
    G = tuple((n, INNER) for n in MAPS) + tuple((n, IntS) for n in INTS + ('flt', 'acc', 'ar', 'sch', 'sl', 'nd')) + (('ak', INNER), ('own', BOOLA))
    errno = lambda S: ('obj', ('i32',), S.eng.gptr('@__errno_location').o)
    gm = lambda *n: [('ghost', k) for k in n]

    def fdsame(S0, S, names, but=None):
        out = []
        for k in names:
            if but is None:
                out.append(('%s of every descriptor' % k, forall(lambda i: SEL(S.g[k], i) == SEL(S0.g[k], i), pats=lambda i: SEL(S.g[k], i))))
            else:
                out.append(('%s of the other descriptors' % k, forall(lambda i: Implies(i != but, SEL(S.g[k], i) == SEL(S0.g[k], i)), pats=lambda i: SEL(S.g[k], i))))
        return out

    def kept(S0, S, *n):
        return ('the rest', z3.And(*[S.g[k] == S0.g[k] for k in n]))

    def flt(S0, S, bad):
        """no failure without a failing call"""
        return [('failures', z3.And(S.g['flt'] >= S0.g['flt'], FL(S))), ('fails only when a call failed', Implies(bad, S.g['flt'] == 1))]
    FL = lambda S: Or(S.g['flt'] == 0, S.g['flt'] == 1)
    opened = lambda S, A, n='s': SEL(S.g['fs'], A[n]) > 0

    # ------------------------------------------------ flags and options
    def nb(fn, val):
        def post(S0, S, A, r):
            return [('0 or ~0', Or(r == 0, r == -1)), ('set', Implies(r == 0, SEL(S.g['fn'], A.s) == val)), ('kept on failure', Implies(r != 0, SEL(S.g['fn'], A.s) == SEL(S0.g['fn'], A.s))),
                    ('failure of fcntl', z3.And(Implies(r != 0, S.g['fcf'] == 1), Implies(r == 0, S.g['fcf'] == S0.g['fcf']), Implies(r == 0, S.g['flt'] == S0.g['flt']))),
                    ('errno on failure', Implies(r != 0, S.i32(S.eng.gptr('@__errno_location')) != ETIMEDOUT))] + flt(S0, S, r != 0) + fdsame(S0, S, ('fn',), A.s)
        return Contract(fn, lambda S, A: [FL(S), opened(S, A), Or(SEL(S.g['fn'], A.s) == 0, SEL(S.g['fn'], A.s) == 1)], post, lambda S, A: gm('fn', 'fcf', 'flt') + [errno(S)], ghosts=G)
    C = [nb('u_net_set_nonblocking', 1), nb('u_net_unset_nonblocking', 0)]

    def nagle_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)), ('bad descriptors are refused', Implies(A.s < 0, r != 0))] + flt(S0, S, z3.And(r != 0, A.s >= 0)) + [kept(S0, S, 'fs', 'fn')]
    C.append(Contract('u_net_nagle_off', lambda S, A: [FL(S), Or(A.s < 0, opened(S, A))], nagle_post, lambda S, A: gm('flt') + [errno(S)], ghosts=G))

    def reuse_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)), ('set', Implies(r == 0, SEL(S.g['fr'], A.s) == 1))] + flt(S0, S, r != 0) + fdsame(S0, S, ('fr',), A.s)
    C.append(Contract('bind_reuse_addr', lambda S, A: [FL(S), A.s >= 0, opened(S, A)], reuse_post, lambda S, A: gm('flt', 'fr') + [errno(S)], ghosts=G))

    def sctp_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1))] + flt(S0, S, r != 0)
    C.append(Contract('sctp_enable_events', lambda S, A: [FL(S), opened(S, A)], sctp_post, lambda S, A: gm('flt') + [errno(S)], ghosts=G))

    # ------------------------------------------------ thin wrappers
    def sock_post(S0, S, A, r):
        return [('-1 or a descriptor', z3.And(r >= -1, r < 2**31 - 1)), ('failure opens nothing', Implies(r == -1, z3.And(*[S.g[k] == S0.g[k] for k in MAPS])))] + flt(S0, S, r == -1) + [('large descriptors', Implies(r >= 1024, S.g['flt'] == 1))] + \
            [('a new socket of the kind asked for', Implies(r >= 0, z3.And(SEL(S0.g['fs'], r) == 0, SEL(S.g['fs'], r) == 1, SEL(S.g['fn'], r) == 0, SEL(S.g['fd'], r) == A.domain, SEL(S.g['ft'], r) == A.type, SEL(S.g['fp'], r) == A.protocol,
                                                                          SEL(S.g['fr'], r) == 0, SEL(S.g['fb'], r) == 0)))] + fdsame(S0, S, MAPS, r)
    C.append(Contract('u_socket', lambda S, A: [FL(S)], sock_post, lambda S, A: gm('flt', *MAPS) + [errno(S)], ghosts=G))

    def bind_post(S0, S, A, r):
        return [('0 or -1', Or(r == 0, r == -1)), ('bound to the address', Implies(r == 0, z3.And(SEL(S.g['fs'], A.sd) == 4, SEL(S.g['fo'], A.sd) == A.addr.o, SEL(S.g['ff'], A.sd) == A.addr.f))),
                ('unchanged on failure', Implies(r != 0, z3.And(*[S.g[k] == S0.g[k] for k in MAPS])))] + flt(S0, S, r != 0) + fdsame(S0, S, ('fs', 'fo', 'ff'), A.sd)
    C.append(Contract('u_bind', lambda S, A: [FL(S), SEL(S.g['fs'], A.sd) == 1], bind_post, lambda S, A: gm('flt', 'fs', 'fo', 'ff') + [errno(S)], ghosts=G))

    def listen_post(S0, S, A, r):
        return [('0 or -1', Or(r == 0, r == -1)), ('listening', Implies(r == 0, SEL(S.g['fs'], A.sd) == 5)), ('unchanged on failure', Implies(r != 0, S.g['fs'] == S0.g['fs']))] + flt(S0, S, r != 0) + fdsame(S0, S, ('fs',), A.sd)
    C.append(Contract('u_listen', lambda S, A: [FL(S), SEL(S.g['fs'], A.sd) == 4], listen_post, lambda S, A: gm('flt', 'fs') + [errno(S)], ghosts=G))

    def acc_post(S0, S, A, r):
        return [('retried until accepted or failed', Or(z3.And(r == -1, S.g['acc'] == 1), z3.And(S.g['acc'] == 2, r == S.g['ar'], r >= 0)))]
    C.append(Contract('u_accept', lambda S, A: [FL(S), S.g['acc'] == 0], acc_post, lambda S, A: gm('flt', 'acc', 'ar') + [errno(S)], ghosts=G,
                      loops={0: LoopSpec(lambda SE, S, v, A: [('pending', S.g['acc'] == 0), ('only errno', others(SE, S, ('i32',), [S.eng.gptr('@__errno_location').o]))])}))

    # ------------------------------------------------ connecting
    def ut_post(S0, S, A, r):
        t, s = A.timeout, A.tstart
        return [('0 or ~0', Or(r == 0, r == -1)), ('the elapsed time is taken off', Implies(r == 0, z3.And(tot(S, t) == tot(S0, t) - (S.g['now'] - tot(S0, s)), sg(S.i64(t, 8)) >= 0, sg(S.i64(t, 8)) < 1000000, tot(S, s) == S.g['now'], norm(S, s)))),
                ('unchanged on failure', Implies(r != 0, z3.And(tot(S, t) == tot(S0, t), tot(S, s) == tot(S0, s), norm(S, t), norm(S, s)))),
                ('errno', Implies(r != 0, S.i32(S.eng.gptr('@__errno_location')) != ETIMEDOUT))] + flt(S0, S, r != 0) + [('flt', Implies(r == 0, S.g['flt'] == S0.g['flt']))]
    C.append(Contract('update_timeout', lambda S, A: [FL(S), S.valid(A.timeout, 16), S.valid(A.tstart, 16), A.timeout.o != A.tstart.o, norm(S, A.timeout), norm(S, A.tstart), A.timeout.o > S.eng.NG, A.tstart.o > S.eng.NG, tot(S, A.tstart) >= 0,
                                                      S.g['now'] >= tot(S, A.tstart), S.g['now'] < 2**60], ut_post,
                      lambda S, A: gm('flt') + [errno(S)] + [('cell', 'i64', Ptr(A.timeout.o, A.timeout.f + k)) for k in (0, 8)] + [('obj', '*', A.tstart.o)], ghosts=G))

    # the loop of u_connect_ex: still connecting, and what is left of the timeout is known
    def no_errno(S, T): return T.o != S.eng.gptr('@__errno_location').o

    def tv_ok(S, T): return Or(T.null(), z3.And(S.valid(T, 16), T.o > S.eng.NG, norm(S, T), tot(S, T) < 2**60, tot(S, T) > -2**60, no_errno(S, T)))

    def clock(S): return [S.g['now'] >= 0, S.g['now'] < 2**59]

    def spent(S0, S, T):
        return [('time', z3.And(S.g['now'] >= S0.g['now'], S.g['now'] < 2**59)), ('of the timeout at most the time elapsed is taken', Or(T.null(), z3.And(norm(S, T), tot(S, T) <= tot(S0, T), tot(S, T) >= tot(S0, T) - (S.g['now'] - S0.g['now']))))]

    def conn_pre(S, A):
        T = A.timeout
        return [FL(S), SEL(S.g['fs'], A.sd) == 1, Or(SEL(S.g['fn'], A.sd) == 0, SEL(S.g['fn'], A.sd) == 1), A.sd < 2**31 - 1, ('errno', no_errno(S, T)),
                tv_ok(S, T)] + clock(S)

    def conn_entry(S, A):
        S.g['exp'], S.g['fcf'], S.g['t0'] = I(0), I(0), S.g['now']
        S.add(S.g['bud'] == tot(S, A.timeout))

    def conn_post(S0, S, A, r):
        T = A.timeout
        late = Or(S.g['exp'] == 1, z3.And(Not(T.null()), S.g['now'] - S.g['t0'] > S.g['bud']))
        bad = Or(A.sd < 0, A.addr.null(), A.addrlen == 0)
        return [('0, -1 or -2', Or(r == 0, r == -1, r == -2)), ('invalid arguments are refused', Implies(bad, r == -1)),
                ('success: connected', Implies(r == 0, SEL(S.g['fs'], A.sd) == 3)), ('to the address given', Implies(r == 0, z3.And(SEL(S.g['fo'], A.sd) == A.addr.o, SEL(S.g['ff'], A.sd) == A.addr.f))),
                ('success: in blocking mode', Implies(z3.And(r == 0, Not(T.null())), SEL(S.g['fn'], A.sd) == 0)),
                ('blocking mode restored on failure', Implies(z3.And(r != 0, Not(bad), Not(T.null()), S.g['fcf'] == 0), SEL(S.g['fn'], A.sd) == 0)),
                ('mode untouched without a timeout', Implies(T.null(), SEL(S.g['fn'], A.sd) == SEL(S0.g['fn'], A.sd))),
                ('-2 only when the time is over', Implies(r == -2, late)), ('-1 only when it is not', Implies(z3.And(r == -1, Not(bad)), S.g['exp'] == 0)),
                ('fails only for a reason', Implies(z3.And(r != 0, Not(bad)), Or(S.g['flt'] == 1, A.sd >= 1024))),
                ('the descriptor stays open', SEL(S.g['fs'], A.sd) > 0), ('failures', z3.And(FL(S), S.g['flt'] >= S0.g['flt'])), kept(S0, S, 'fd', 'ft', 'fp', 'fr', 'fb', 'kc', 'an', 'ak', 'own')] + spent(S0, S, T) + fdsame(S0, S, ('fs', 'fn', 'fo', 'ff', 'se'), A.sd)

    def conn_inv(SE, S, v, A):
        T = A.timeout
        ts = v.tstart
        tc = v.tcopy
        q = [('connecting', SEL(S.g['fs'], A.sd) == 2), ('the address', z3.And(SEL(S.g['fo'], A.sd) == A.addr.o, SEL(S.g['ff'], A.sd) == A.addr.f)), ('not over', z3.And(S.g['exp'] == 0, A.sd < 1024, Or(T.null(), S.g['now'] - S.g['t0'] <= S.g['bud'], S.g['now'] == S.g['t0'], S.g['flt'] == 1))),
             ('now', z3.And(S.g['now'] >= S.g['t0'], S.g['now'] < 2**60)), ('args', z3.And(v.ptcopy.null() == T.null(), Implies(Not(T.null()), v.ptcopy.eq(tc)))), ('flt', z3.And(FL(S), S.g['flt'] >= SE.g['flt'])), ('fcf', S.g['fcf'] == 0), ('now bound', S.g['now'] < 2**59),
             ('what is left', Implies(Not(T.null()), z3.And(norm(S, T), norm(S, ts), tot(S, T) == S.g['bud'] - (tot(S, ts) - S.g['t0']), tot(S, ts) == S.g['now']))),
             ('mode', Implies(T.null(), SEL(S.g['fn'], A.sd) == SEL(SE.g['fn'], A.sd))), ('mode bit', Or(SEL(S.g['fn'], A.sd) == 0, SEL(S.g['fn'], A.sd) == 1)),
             ('only errno', others(SE, S, ('i32',), [S.eng.gptr('@__errno_location').o, v.rc.o, v.rc_len.o, ts.o, tc.o]))]
        return q + fdsame(SE, S, ('fs', 'fn', 'fo', 'ff', 'se'), A.sd) + [('memory', others(SE, S, ('i8', 'i16', 'i64', 'po', 'pf'), [T.o, ts.o, tc.o, v.writefds.o]))]
    C.append(Contract('u_connect_ex', conn_pre, conn_post, lambda S, A: gm('fs', 'fn', 'fo', 'ff', 'se', 'flt', 'now', 'exp', 'fcf', 't0', 'bud') + [errno(S), ('obj', ('i64',), A.timeout.o)], ghosts=G,
                      loops={0: LoopSpec(lambda SE, S, v, A: [('the set', others(SE, S, ('i64',), [v.writefds.o])), ('in range', z3.And(v['__i'] >= 0, v['__i'] <= 16))]), 1: LoopSpec(conn_inv)}, entry=conn_entry))

    # ------------------------------------------------ creating sockets
    bit = lambda x, k: (x / 2**k) % 2 == 1
    NOFD = lambda S0, S: [('no descriptor stays open', forall(lambda i: SEL(S.g['fs'], i) == SEL(S0.g['fs'], i), pats=lambda i: SEL(S.g['fs'], i)))]

    def others_fd(S0, S, r):
        return [('descriptors already open: %s' % k, forall(lambda i: Implies(SEL(S0.g['fs'], i) > 0, SEL(S.g[k], i) == SEL(S0.g[k], i)), pats=lambda i: SEL(S.g[k], i))) for k in MAPS if k != 'fs'] + \
            [('no other descriptor stays open', forall(lambda i: Implies(i != r, SEL(S.g['fs'], i) == SEL(S0.g['fs'], i)), pats=lambda i: SEL(S.g['fs'], i)))]

    def made(S0, S, r, act, dom, typ, pro, opts, sad):
        g = lambda k: SEL(S.g[k], r)
        new = z3.And(SEL(S0.g['fs'], r) == 0, g('fd') == dom, g('ft') == typ, g('fp') == pro, g('fn') == 0)
        addr = z3.And(g('fo') == sad.o, g('ff') == sad.f)
        if act:
            return [('a new blocking socket of the kind asked for', Implies(r >= 0, new)), ('connected unless told not to', Implies(r >= 0, If(bit(opts, 1), g('fs') == 1, z3.And(g('fs') == 3, addr)))),
                    ('broadcast when asked for', Implies(r >= 0, (g('fb') == 1) == z3.And(typ == 2, bit(opts, 20))))]
        return [('a new blocking socket of the kind asked for', Implies(r >= 0, new)), ('bound to the address', Implies(r >= 0, addr)), ('listening unless a datagram socket', Implies(r >= 0, g('fs') == If(Or(typ == 1, typ == 5), I(5), I(4)))),
                ('address reuse unless told not to', Implies(z3.And(r >= 0, dom != 1, Not(bit(opts, 0))), g('fr') == 1)), ('no address reuse when told so', Implies(z3.And(r >= 0, bit(opts, 0)), g('fr') == 0))]
    SK = gm('now', 'exp', 'fcf', 't0', 'bud', 'flt', *MAPS)

    def horse(fn, act):
        T = lambda A: A['timeout'] if act else A['dummy']

        def post(S0, S, A, r):
            return [('-1 or a descriptor', r >= -1), ('no address, no socket', Implies(A.sad.null(), r == -1)), ('failures', z3.And(FL(S), S.g['flt'] >= S0.g['flt'])), ('fails only when a call failed', Implies(z3.And(r == -1, Not(A.sad.null()), z3.BoolVal(True) if not act else A.sad_len != 0), S.g['flt'] == 1)),
                    ('no descriptor stays open on failure', Implies(r == -1, forall(lambda i: SEL(S.g['fs'], i) == SEL(S0.g['fs'], i), pats=lambda i: SEL(S.g['fs'], i)))), kept(S0, S, 'kc', 'an', 'ak', 'own')] + \
                made(S0, S, r, act, A.domain, A.type, A.protocol, A.opts, A.sad) + others_fd(S0, S, r) + spent(S0, S, T(A))
        return Contract(fn, lambda S, A: [FL(S), A.opts >= 0, no_errno(S, T(A)), tv_ok(S, T(A))] + clock(S), post, lambda S, A: SK + [errno(S), ('obj', ('i64',), T(A).o)], ghosts=G)
    C += [horse('do_csock', True), horse('do_ssock', False)]
    return C
