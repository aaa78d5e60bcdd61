"""Contracts for srcs/toolbox/memory.c: every request goes to the installed function, unchanged"""
from lvc.engine import *

FIELDS = {'malloc': 0, 'calloc': 8, 'realloc': 16, 'free': 24}


def hook(eng, st, p, av, x):
    """the installed function: ghosts n (calls), fo/ff (which), a0, a1, ro/rf (what it returned)"""
    st.g['n'] = st.g['n'] + 1
    st.g['fo'], st.g['ff'] = p.o, p.f
    for i, a in enumerate(av):
        if isinstance(a, Ptr):
            st.g['po%d' % i], st.g['pf%d' % i] = a.o, a.f
        else:
            st.g['a%d' % i] = a
    if x.ty[0] == 'void':
        return None
    r = eng.fresh_of(st, x.ty, 'hook')
    st.g['ro'], st.g['rf'] = r.o, r.f
    return r


def options(mod):
    return dict(indirect=hook, models={k: None for k in ()})


def contracts(mod):
    G = tuple((n, IntS) for n in ('n', 'fo', 'ff', 'a0', 'a1', 'po0', 'pf0', 'ro', 'rf'))

    def fns(S):
        return S.eng.gptr('@u_memory_fns')

    def call(name, args, ret=True, cond=None):
        def post(S0, S, A, r):
            f = S0.ptr(Ptr(fns(S).o, FIELDS[name]))
            c = z3.BoolVal(True) if cond is None else cond(A)
            out = [('the installed function is called once', S.g['n'] == If(c, I(1), I(0))), ('through the installed pointer', Implies(c, z3.And(S.g['fo'] == f.o, S.g['ff'] == f.f)))]
            for i, a in enumerate(args(A)):
                if isinstance(a, Ptr):
                    out.append(('argument %d' % i, Implies(c, z3.And(S.g['po%d' % i] == a.o, S.g['pf%d' % i] == a.f))))
                else:
                    out.append(('argument %d' % i, Implies(c, S.g['a%d' % i] == a)))
            if ret:
                out.append(('its result', z3.And(r.o == S.g['ro'], r.f == S.g['rf'])))
            return out

        def pre(S, A):
            return [Not(S.ptr(Ptr(fns(S).o, FIELDS[name])).null())]
        return pre, post

    def mk(fn, name, args, **k):
        pre, post = call(name, args, **k)
        return Contract(fn, pre, post, lambda S, A: [], ghosts=G, entry=lambda S, A: S.g.__setitem__('n', I(0)))

    def setter(fn, name):
        return Contract(fn, lambda S, A: [], lambda S0, S, A, r: [('installed', S.ptr(Ptr(fns(S).o, FIELDS[name])).eq(A[0]))],
                        lambda S, A: [('cell', 'p', Ptr(fns(S).o, FIELDS[name]))])
    return [mk('u_malloc', 'malloc', lambda A: [A.sz]), mk('u_calloc', 'calloc', lambda A: [A.cnt, A.sz]), mk('u_zalloc', 'calloc', lambda A: [I(1), A.sz]),
            mk('u_realloc', 'realloc', lambda A: [A.ptr, A.sz]),
            mk('u_free', 'free', lambda A: [A.ptr], ret=False, cond=lambda A: Not(A.ptr.null()))] + \
        [setter('u_memory_set_' + n, n) for n in FIELDS]
