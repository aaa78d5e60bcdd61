"""The contiguous methods of rb.c again, under the memory model of the mmap variant: the two
halves of the buffer are one physical range (assumed contract on mmap(2) MAP_SHARED twins), and
the creation path with every system call free to fail."""
from lvc.engine import *
from . import rb


def twin_copy(eng, st, av, x):
    """memcpy whose destination may be a twin-mapped buffer (an object in ghost array `twin`
    holds the half size, 0 for ordinary objects)"""
    d, s, n = av[0], av[1], av[2]
    tw = eng.twin_of(st, d)
    if tw is None:
        eng.memcpy(st, d, s, n)
        return d
    for p, w in ((s, 'source'), (d, 'destination')):
        goal = z3.Or(n == 0, st.valid(p, n))
        if not eng.implied(st, goal):
            eng.ob(st, 'memory', 'memcpy %s range within a live object' % w, goal)
    half = tw
    so, do = z3.Select(st.M['i8'], s.o), z3.Select(st.M['i8'], d.o)
    new = eng.fresh_arr('i8', False)

    def inr(f):
        return z3.And(f >= d.f, f < d.f + n)
    st.add(forall(lambda f: z3.Select(new, f) == If(inr(f), z3.Select(so, f - d.f + s.f),
                                                    If(z3.And(f < half, inr(f + half)), z3.Select(so, f + half - d.f + s.f),
                                                       If(z3.And(f >= half, inr(f - half)), z3.Select(so, f - half - d.f + s.f),
                                                          z3.Select(do, f)))), pats=lambda f: z3.Select(new, f)))
    eng.set_inner(st, 'i8', d.o, new)
    return d


def m_fd(eng, st, av, x):
    fd = eng.fresh_of(st, x.ty, 'fd')
    st.add(fd >= -1)
    return fd


def m_int01(eng, st, av, x):
    r = eng.fresh_of(st, x.ty, 'rc')
    st.add(Or(r == 0, r == -1))
    return r


def m_sysconf(eng, st, av, x):
    eng.assumed.add('sysconf(_SC_PAGESIZE) is 4096')
    return I(4096)


def m_mmap(eng, st, av, x):
    addr, n = av[0], av[1]
    failed = st.copy()
    outs = [(failed, Ptr(0, 2**64 - 1))]
    if conc(addr.o) == 0 and conc(addr.f) == 0:
        p = eng.alloc(st, n, name='map')
        st.add(n > 0)
        outs.append((st, p))
    else:
        eng.ob(st, 'memory', 'MAP_FIXED range lies in a reserved mapping', st.valid(addr, n))
        outs.append((st, addr))
    return outs


def m_munmap(eng, st, av, x):
    p, n = av
    eng.ob(st, 'memory', 'munmap: start of a live mapping, whole length', z3.And(p.o > eng.NG, p.f == 0, st.alive(p.o), st.sz(p.o) == n))
    s2 = st.copy()
    st.live = z3.Store(st.live, p.o, False)
    return [(st, I(0))]


def options(mod):
    o = rb.options(mod)
    o['models'] = {'mkstemp': m_fd, 'u_remove': m_int01, 'ftruncate': m_int01, 'close': m_int01, 'sysconf': m_sysconf,
                   'mmap': m_mmap, 'munmap': m_munmap, 'llvm.memcpy': twin_copy}
    return o


def contracts(mod):
    cs = rb.contracts(mod, twin=True)
    F = mod.di_struct('u_rb_s')
    keep = []

    def entry(S, A):
        e = S.eng
        b, half = base(S, A.rb), S.i64(A.rb, F['sz'])
        e.assumed.add('mmap(MAP_FIXED|MAP_SHARED) twins: both halves of the buffer are the same bytes')
        e.twin_of = lambda st, p: half if e.implied(st, p.o == b.o) else None
    for c in cs:
        c.entry = entry
        if c.fn in ('write_contiguous', 'read_contiguous', 'fast_read', 'u_rb_write', 'u_rb_read', 'u_rb_fast_read', 'u_rb_clear'):
            keep.append(c)
        else:
            c.inline = True

    def base(S, r):
        return S.ptr(r, F['base'])

    def cm_post(S0, S, A, r):
        rbp = S.ptr(A.prb)
        sz = S.i64(rbp, F['sz'])
        ok = r == 0
        return [('0 or -1', Or(ok, r == -1)),
                ('at least the requested size, whole pages', Implies(ok, z3.And(sz >= A.hint_sz, sz % 4096 == 0, sz >= 1, S.i64(rbp, F['ready']) == 0,
                                                                                S.i64(rbp, F['rd_off']) == 0, S.i64(rbp, F['wr_off']) == 0,
                                                                                S.sz(base(S, rbp).o) == 2 * sz, S.alive(base(S, rbp).o), base(S, rbp).f == 0))),
                ('methods of the contiguous variant', Implies(ok, z3.And(
                    S.ptr(rbp, F['cb_read']).eq(S.eng.gptr('@read_contiguous')), S.ptr(rbp, F['cb_write']).eq(S.eng.gptr('@write_contiguous')),
                    S.ptr(rbp, F['cb_fast_read']).eq(S.eng.gptr('@fast_read')), S.ptr(rbp, F['cb_free']).eq(S.eng.gptr('@free_mmap'))))),
                ('a failed create leaks nothing', Implies(Not(ok), S.live == S0.live))]
    cm = Contract('create_mmap', lambda S, A: [Or(A.prb.null(), z3.And(S.valid(A.prb, 8), A.prb.o > S.eng.NG))], cm_post,
                  lambda S, A: [('cell', 'p', A.prb), ('heap',)])
    return cs + [cm]
