"""Contracts for srcs/toolbox/log.c.  Ghosts: hn/hl/hb/hf calls of the hook, level and text it
got; sn records handed to syslog; lk depth of the user's lock; rn/rr records u_log_write_ex asks
u_log for and what became of the last one; tn/tt the text the format and its arguments denote."""
from lvc.engine import *
from lvc import libc
from specs.misc import m_strlcpy

MAX = 1024
LABELS = {7: b'dbg', 6: b'inf', 5: b'ntc', 4: b'wrn', 3: b'err', 2: b'crt', 1: b'alr', 0: b'emg'}
CTX, NOCTX = b'[%s][%d:%s:%d:%s] %s %s', b'[%s][%d:::] %s %s'


def cs(eng, p):
    s = eng.cstring(p)
    return None if s is None else s.split(b'\0')[0]


def errno(eng):
    return eng.gptr('@__errno_location')


def clobber_errno(eng, st):
    eng.put(st, 'i32', errno(eng), eng.fresh_of(st, ('int', 32), 'errno'))


def glob(S, n):
    return S.ptr(S.eng.gptr('@' + n))


def ind(eng, st, p, av, x):
    """hook, lock and unlock functions: they may clobber errno, nothing else of the library's"""
    if len(av) == 3:
        h, a = glob(st, 'hook'), glob(st, 'hook_arg')
        eng.ob(st, 'requires', 'the hook is the installed one, with its argument', z3.And(p.eq(h), av[0].eq(a)))
        eng.ob(st, 'requires', 'the hook runs under the lock', Implies(Not(glob(st, 'f_lock').null()), st.g['lk'] == 1))
        st.g['hn'] = st.g['hn'] + 1
        st.g['hl'] = av[1]
        st.g['hb'], st.g['hf'] = eng.named(st, z3.simplify(st.inner('i8', av[2].o))), av[2].f
    elif z3.eq(z3.simplify(p.o), z3.simplify(glob(st, 'f_lock').o)):
        eng.ob(st, 'requires', 'lock argument', av[0].eq(glob(st, 'f_lock_arg')))
        st.g['lk'] = st.g['lk'] + 1
    else:
        eng.ob(st, 'requires', 'the unlock function, with its argument', z3.And(p.eq(glob(st, 'f_unlock')), av[0].eq(glob(st, 'f_unlock_arg'))))
        st.g['lk'] = st.g['lk'] - 1
    clobber_errno(eng, st)
    return None if x.ty[0] == 'void' else eng.fresh_of(st, x.ty, 'hookrc')


def m_vsn(eng, st, av, x):
    outs = libc.m_vsnprintf(eng, st, av, x)
    outs = outs if isinstance(outs, list) else [(st, outs)]
    for s, r in outs:
        s.g['vrc'] = r
        clobber_errno(eng, s)
    return outs


def m_vsyslog(eng, st, av, x):
    st.g['sn'] = st.g['sn'] + 1
    clobber_errno(eng, st)
    return None


def m_syslog(eng, st, av, x):
    clobber_errno(eng, st)
    return None


def m_getpid(eng, st, av, x):
    return st.g['pid']


def m_snprintf(eng, st, av, x):
    """the errno suffix"""
    d, n, f = av[0], av[1], av[2]
    eng.ob(st, 'memory', 'snprintf: destination range', Or(n == 0, st.valid(d, n)))
    st.g['eo'], st.g['ee'] = d.o, (av[3] if cs(eng, f) == b'[errno: %d, %s]' else eng.fresh('other'))
    new, old, L = eng.fresh_arr('i8', False), st.inner('i8', d.o), eng.fresh('snl')
    st.add(L >= 0, Implies(n > 0, z3.And(L < n, z3.Select(new, d.f + L) == 0)),
           forall(lambda k: Implies(Or(k < d.f, k >= d.f + n), z3.Select(new, k) == z3.Select(old, k)), pats=lambda k: z3.Select(new, k)))
    eng.set_inner(st, 'i8', d.o, new)
    clobber_errno(eng, st)
    return eng.fresh_of(st, ('int', 32), 'snp')


def m_u_log(eng, st, av, x):
    """a request for one record: what it is made of is checked here"""
    A = eng.cur_args
    fac, lev, fmt = av[:3]
    f = cs(eng, fmt)
    ctx = f == CTX
    n, T = st.g['mn'], st.g['mt']

    def rq(l, g):
        eng.ob(st, 'requires', 'record: ' + l, g)
    rq('one of the two layouts', z3.BoolVal(f in (CTX, NOCTX)))
    rq('location given exactly when asked for', (A.flags % 2 != 0) if ctx else (A.flags % 2 == 0))
    rq('facility and level are those of the call', z3.And(fac == A.fac, lev == A.lev))
    L = cs(eng, av[3])
    rq('label of the level', z3.Or([A.lev == k for k, v in LABELS.items() if v == L] + ([z3.Or(A.lev < 0, A.lev > 7)] if L == b'unk' else [])))
    rq('process id', av[4] == st.g['pid'])
    if ctx:
        rq('file, line and function', z3.And(av[5].eq(A.file), av[6] == A.line, av[7].eq(A.func)))
    msg, em = av[-2], av[-1]
    c = eng.named(st, z3.simplify(st.inner('i8', msg.o)))
    rq('the formatted message, complete', z3.And(forall(lambda k: Implies(z3.And(k >= msg.f, k < msg.f + n), z3.Select(c, k) == z3.Select(T, k - msg.f)), pats=lambda k: z3.Select(c, k)), z3.Select(c, msg.f + n) == 0))
    rq('no error text unless an error number is given', Implies(A.err == 0, st.i8(em) == 0))
    rq('text of the error number given', Implies(A.err != 0, z3.And(st.g['eo'] == em.o, st.g['ee'] == A.err)))
    st.g['rn'] = st.g['rn'] + 1
    r = eng.fresh('ulog')
    st.add(Or(r == 0, r == -1))
    st.g['rr'] = r
    clobber_errno(eng, st)
    return r


def m_strerror_r(eng, st, av, x):
    """GNU variant: a string, either in the buffer given or static (not the caller's)"""
    b, n = av[1], av[2]
    eng.ob(st, 'memory', 'strerror_r: buffer', st.valid(b, n))
    outs = []
    s0 = st.copy()
    q = Ptr(eng.fresh('errtext'), 0)
    k = eng.fresh('nul')
    s0.add(s0.alive(q.o), q.o > eng.NG, q.o != b.o, q.o != eng.cur_args.msg.o, s0.sz(q.o) >= 1, k >= 0, k < s0.sz(q.o), z3.Select(s0.inner('i8', q.o), k) == 0)
    clobber_errno(eng, s0)
    outs.append((s0, q))
    new, old = eng.fresh_arr('i8', False), st.inner('i8', b.o)
    k = eng.fresh('nul')
    st.add(k >= b.f, k < b.f + n, z3.Select(new, k) == 0, forall(lambda j: Implies(Or(j < b.f, j >= b.f + n), z3.Select(new, j) == z3.Select(old, j)), pats=lambda j: z3.Select(new, j)))
    eng.set_inner(st, 'i8', b.o, new)
    clobber_errno(eng, st)
    outs.append((st, b))
    return outs


def m_out(eng, st, av, x):
    st.g['on'] = st.g['on'] + 1
    clobber_errno(eng, st)
    return eng.fresh_of(st, ('int', 32), 'out')


def options(mod):
    M = dict(libc.MODELS)
    M.update(vsnprintf=m_vsn, vsyslog=m_vsyslog, syslog=m_syslog, getpid=m_getpid, snprintf=m_snprintf, strerror_r=m_strerror_r, strlcpy=m_strlcpy, vfprintf=m_out, fprintf=m_out)
    return dict(models=M, indirect=ind, extra_types=('i8', 'i32'))


def fn_options(mod, fn):
    if fn == 'u_log_write_ex':
        M = options(mod)['models']
        M['u_log'] = m_u_log

        def vsn(eng, st, av, x):
            st.g['tn'], st.g['tt'] = st.g['mn'], st.g['mt']
            return m_vsn(eng, st, av, x)
        M['vsnprintf'] = vsn
        return dict(models=M, override=('u_log',))


def contracts(mod):
    G = tuple((n, IntS) for n in ('hn', 'hl', 'hf', 'sn', 'lk', 'rn', 'rr', 'pid', 'eo', 'ee', 'vrc', 'mn', 'on')) + (('hb', INNER), ('mt', INNER)) + libc.text_ghosts()

    def zero(*n):
        return lambda S, A: [S.g.__setitem__(k, I(0)) for k in n]

    def errno_c(S):
        return ('cell', 'i32', errno(S.eng))

    def log_post(S0, S, A, r):
        h = Not(glob(S0, 'hook').null())
        n, T, b, f = S.g['tn'], S.g['tt'], S.g['hb'], S.g['hf']
        return [('0 or ~0', Or(r == 0, r == -1)),
                ('exactly one record to the hook, or an error', Implies(h, z3.And(S.g['sn'] == 0, S.g['hn'] == If(r == 0, I(1), I(0))))),
                ('with the level', Implies(z3.And(h, r == 0), S.g['hl'] == A.level)),
                ('the record fits', Implies(z3.And(h, r == 0), n < MAX)),
                ('a record is refused only when it does not fit', Implies(r != 0, z3.And(h, Or(S.g['vrc'] < 0, n >= MAX)))),
                ('the complete text', Implies(z3.And(h, r == 0), z3.And(forall(lambda k: Implies(z3.And(k >= f, k < f + n), z3.Select(b, k) == z3.Select(T, k - f)), pats=lambda k: z3.Select(b, k)), z3.Select(b, f + n) == 0))),
                ('without a hook: exactly one record to syslog', Implies(Not(h), z3.And(r == 0, S.g['sn'] == 1, S.g['hn'] == 0))),
                ('the lock is released', Implies(Not(glob(S0, 'f_unlock').null()) == Not(glob(S0, 'f_lock').null()), S.g['lk'] == 0))]
    fmtok = lambda S, A: [S.alive(A.fmt.o)]
    log = Contract('u_log', fmtok, log_post, lambda S, A: [errno_c(S)], ghosts=G, entry=zero('hn', 'sn', 'lk', 'vrc'))

    def w_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)),
                ('success: one record, accepted', Implies(r == 0, z3.And(S.g['rn'] == 1, S.g['rr'] == 0))),
                ('failure: the message does not fit, or the record was refused', Implies(r != 0, Or(z3.And(S.g['rn'] == 0, Or(S.g['vrc'] < 0, S.g['mn'] >= MAX)), z3.And(S.g['rn'] == 1, S.g['rr'] != 0)))),
                ('errno is preserved', S.i32(errno(S.eng)) == S0.i32(errno(S.eng)))]
    write = Contract('u_log_write_ex', fmtok, w_post, lambda S, A: [errno_c(S)], ghosts=G, entry=zero('rn', 'vrc', 'eo', 'ee'))

    cons = Contract('u_console_write_ex', fmtok, lambda S0, S, A, r: [('0 or ~0', Or(r == 0, r == -1)), ('errno is preserved', S.i32(errno(S.eng)) == S0.i32(errno(S.eng)))],
                    lambda S, A: [errno_c(S)], ghosts=G)

    def se_post(S0, S, A, r):
        c = S.inner('i8', A.msg.o)
        return [('0 or ~0', Or(r == 0, r == -1)), ('NUL terminated within the size given', Implies(r == 0, exists(lambda k: z3.And(k >= A.msg.f, k < A.msg.f + A.sz, z3.Select(c, k) == 0)))),
                ('nothing behind it changes', forall(lambda k: Implies(Or(k < A.msg.f, k >= A.msg.f + A.sz), z3.Select(c, k) == z3.Select(S0.inner('i8', A.msg.o), k)), pats=lambda k: z3.Select(c, k)))]
    strerr = Contract('u_strerror_r', lambda S, A: [S.valid(A.msg, A.sz), A.sz > 0], se_post, lambda S, A: [('obj', ['i8'], A.msg.o), errno_c(S)])

    def sethook(S0, S, A, r):
        h0, a0 = glob(S0, 'hook'), glob(S0, 'hook_arg')
        return [('0', r == 0), ('installed', z3.And(glob(S, 'hook').eq(A.func), glob(S, 'hook_arg').eq(A.arg))),
                ('the previous hook is handed back', z3.And(Implies(Not(A.old.null()), S.ptr(A.old).eq(h0)), Implies(Not(A.parg.null()), S.ptr(A.parg).eq(a0)))),
                ('the lock is released', Implies(Not(glob(S0, 'f_unlock').null()) == Not(glob(S0, 'f_lock').null()), S.g['lk'] == 0))]
    gcell = lambda S, n: ('cell', 'p', S.eng.gptr('@' + n))
    outp = lambda S, p: Or(p.null(), z3.And(S.valid(p, 8), p.o > S.eng.NG))
    hookc = Contract('u_log_set_hook', lambda S, A: [outp(S, A.old), outp(S, A.parg), Or(A.old.null(), A.old.o != A.parg.o)], sethook,
                     lambda S, A: [gcell(S, 'hook'), gcell(S, 'hook_arg'), ('cell', 'p', A.old), ('cell', 'p', A.parg), errno_c(S)], ghosts=G, entry=zero('lk'))

    def setter(fn, g):
        return Contract(fn, lambda S, A: [], lambda S0, S, A, r: [('0', r == 0), ('installed', z3.And(glob(S, g).eq(A.f), glob(S, g + '_arg').eq(A.arg)))],
                        lambda S, A: [gcell(S, g), gcell(S, g + '_arg')])
    return [log, write, cons, strerr, hookc, setter('u_log_set_lock', 'f_lock'), setter('u_log_set_unlock', 'f_unlock')]
