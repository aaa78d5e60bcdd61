"""Models of libc functions (assumed contracts on dependencies), shared by the spec modules"""
import z3
from .engine import *


def m_strncpy(eng, st, av, x):
    d, s, n = av
    L = eng.fresh('snl')
    src = st.inner('i8', s.o)
    st.add(L >= 0, L <= n,
           forall(lambda k: Implies(z3.And(k >= s.f, k < s.f + L), z3.Select(src, k) != 0), pats=lambda k: z3.Select(src, k)),
           Implies(L < n, z3.Select(src, s.f + L) == 0))
    cond = z3.Or(n == 0, st.valid(d, n))
    eng.ob(st, 'memory', 'strncpy destination range within a live object', cond)
    eng.ob(st, 'memory', 'strncpy source range within a live object', z3.Or(n == 0, st.valid(s, If(L < n, L + 1, n))))
    old = st.inner('i8', d.o)
    new = eng.fresh_arr('i8', False)
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(f >= d.f, f < d.f + L), z3.Select(src, f - d.f + s.f),
                                                    If(z3.And(f >= d.f + L, f < d.f + n), I(0), z3.Select(old, f))),
                  pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', d.o, new)
    return d


def text_ghosts():
    return (('tn', IntS), ('tt', INNER))


def m_vsnprintf(eng, st, av, x):
    """the formatted text is a function of (fmt, args): ghost tn (length) and tt (bytes), the
    same for every call made by one invocation of the function under proof"""
    buf, size = av[0], av[1]
    n, T = st.g['tn'], st.g['tt']
    outs = []
    # encoding error
    s0 = st.copy()
    rc = eng.fresh('vsn_err')
    s0.g['oom'] = z3.BoolVal(True)      # the environment failed
    s0.add(rc < 0, rc >= -2**31)
    eng.ob(s0, 'memory', 'vsnprintf destination range within a live object', z3.Or(size == 0, s0.valid(buf, size)))
    old = s0.inner('i8', buf.o)
    new = eng.fresh_arr('i8', False)
    s0.add(forall(lambda f: Implies(Not(z3.And(f >= buf.f, f < buf.f + size)), z3.Select(new, f) == z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(s0, 'i8', buf.o, new)
    outs.append((s0, rc))
    eng.ob(st, 'memory', 'vsnprintf destination range within a live object', z3.Or(size == 0, st.valid(buf, size)))
    st.add(n >= 0, n < 2**31,
           forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(T, k) != 0), pats=lambda k: z3.Select(T, k)))
    old = st.inner('i8', buf.o)
    new = eng.fresh_arr('i8', False)
    m = If(n < size, n, size - 1)
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(size > 0, f >= buf.f, f < buf.f + m), z3.Select(T, f - buf.f),
                                                    If(z3.And(size > 0, f == buf.f + m), I(0), z3.Select(old, f))),
                  pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', buf.o, new)
    outs.append((st, n))
    eng.assumed.add('vsnprintf: same text for the same format and arguments; NUL-free; C99 return value')
    return outs


MODELS = {'strncpy': m_strncpy, 'vsnprintf': m_vsnprintf}


# ------------------------------------------------------------- files, whole content at once
# ghost fz: size of the file, fc: its bytes.  stat(2) and fread(3) on the named file either
# fail or agree with them (nobody else changes the file meanwhile).
def file_ghosts():
    return (('fz', IntS), ('fc', INNER))


def m_stat(eng, st, av, x):
    s0 = st.copy()
    p = av[1]
    eng.ob(st, 'memory', 'stat: result argument', st.valid(p, 144))
    for t in list(st.M):
        eng.set_inner(st, t, p.o, eng.fresh_arr(t, False))
    st.add(st.i64(p, 48) == st.g['fz'], st.g['fz'] >= 0, st.g['fz'] < 2**56)
    eng.assumed.add('stat/fread agree on the size and content of the file (no concurrent writer)')
    return [(s0, I(-1)), (st, I(0))]


def m_fopen(eng, st, av, x):
    s0 = st.copy()
    fp = eng.alloc(st, I(216), name='FILE')
    return [(s0, NULL), (st, fp)]


def m_fclose(eng, st, av, x):
    fp = av[0]
    eng.ob(st, 'memory', 'fclose: open stream', z3.And(fp.o > eng.NG, fp.f == 0, st.alive(fp.o)))
    st.live = z3.Store(st.live, fp.o, False)
    return eng.fresh_of(st, ('int', 32), 'fclose')


def m_fread_whole(eng, st, av, x):
    """fread(p, n, 1, fp) with n == file size: all or (error) anything up to n bytes"""
    p, n, cnt, fp = av
    eng.ob(st, 'memory', 'fread: open stream', z3.And(fp.o > eng.NG, st.alive(fp.o)))
    eng.ob(st, 'memory', 'fread: destination range', st.valid(p, n))
    eng.ob(st, 'requires', 'fread: the whole file in one item', z3.And(cnt == 1, n == st.g['fz']))
    old = st.inner('i8', p.o)
    s0 = st.copy()
    new = eng.fresh_arr('i8', False)
    s0.add(forall(lambda f: Implies(Or(f < p.f, f >= p.f + n), z3.Select(new, f) == z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(s0, 'i8', p.o, new)
    new = eng.fresh_arr('i8', False)
    C = st.g['fc']
    st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(f >= p.f, f < p.f + n), z3.Select(C, f - p.f), z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', p.o, new)
    return [(s0, I(0)), (st, I(1))]


MODELS.update({'stat': m_stat, 'fopen': m_fopen, 'fclose': m_fclose, 'fread': m_fread_whole})


# ------------------------------------------------------- libu helpers proved in specs/misc.py
def m_u_strdup(eng, st, av, x):
    """u_strdup: contract proved in specs/misc.py"""
    p = av[0]
    n = m_strlen(eng, st, [p], x)
    src = st.inner('i8', p.o)

    def mk(s):
        q = eng.alloc(s, n + 1, name='dup')
        new = eng.fresh_arr('i8', False)
        s.add(forall(lambda k: Implies(z3.And(k >= 0, k <= n), z3.Select(new, k) == z3.Select(src, p.f + k)), pats=lambda k: z3.Select(new, k)))
        s.add(forall(lambda k: Implies(z3.And(k >= p.f, k <= p.f + n), z3.Select(new, k - p.f) == z3.Select(src, k)), pats=lambda k: z3.Select(src, k)))
        s.add(z3.Select(new, n) == 0)
        eng.set_inner(s, 'i8', q.o, new)
        return q
    return fork_null(eng, st, mk)


MODELS['u_strdup'] = m_u_strdup
