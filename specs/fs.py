"""Contracts for srcs/toolbox/fs.c over a stream model of stdio: every call may fail or transfer
a prefix.  Ghosts: fz/fc size and bytes of the source, rp read position, re error indicator of
the source, wp/wc bytes written to the destination, wd destination closed without error,
sf/df the open streams, ln/un outcome of link and unlink."""
from lvc.engine import *
from lvc import libc

NAMES = ('fz', 'rp', 're', 'wp', 'wd', 'sf', 'df', 'ln', 'un')


def str_is(eng, p, q):
    return z3.And(p.o == q.o, p.f == q.f)


def m_fopen(eng, st, av, x):
    mode = eng.cstring(av[1])
    mode = mode.split(b'\0')[0] if mode else b'?'
    A = eng.cur_args
    s0 = st.copy()
    fp = eng.alloc(st, I(216), name='FILE')
    if mode[:1] == b'r':
        eng.ob(st, 'requires', 'the stream opened for reading is the source', str_is(eng, av[0], A.src))
        st.g['sf'], st.g['rp'], st.g['re'] = fp.o, I(0), I(0)
        st.add(st.g['fz'] >= 0, st.g['fz'] < 2**60)
    else:
        eng.ob(st, 'requires', 'the stream opened for writing is the destination, emptied', z3.And(str_is(eng, av[0], A.dst), z3.BoolVal(mode[:1] == b'w')))
        st.g['df'], st.g['wp'], st.g['wd'] = fp.o, I(0), I(0)
    return [(s0, NULL), (st, fp)]


def m_fread(eng, st, av, x):
    p, n, cnt, fp = av
    tot = z3.simplify(n * cnt)
    eng.ob(st, 'requires', 'fread: the open source, item size 1', z3.And(fp.o == st.g['sf'], fp.f == 0, st.alive(fp.o), n == 1))
    eng.ob(st, 'memory', 'fread: destination range', st.valid(p, tot))
    r, rp, C = eng.fresh('nread'), st.g['rp'], st.g['fc']
    old = st.inner('i8', p.o)
    new = eng.fresh_arr('i8', False)
    st.add(r >= 0, r <= cnt, rp + r <= st.g['fz'],
           forall(lambda f: z3.Select(new, f) == If(z3.And(f >= p.f, f < p.f + r), z3.Select(C, f - p.f + rp), z3.Select(old, f)), pats=lambda f: z3.Select(new, f)))
    re = eng.fresh('ferr')
    st.add(Or(re == st.g['re'], re == 1), Implies(z3.And(r < cnt, rp + r < st.g['fz']), re == 1))
    st.g['re'] = re
    st.g['rp'] = rp + r
    eng.set_inner(st, 'i8', p.o, new)
    return r


def m_fwrite(eng, st, av, x):
    p, n, cnt, fp = av
    eng.ob(st, 'requires', 'fwrite: the open destination, item size 1', z3.And(fp.o == st.g['df'], fp.f == 0, st.alive(fp.o), n == 1))
    eng.ob(st, 'memory', 'fwrite: source range', Or(cnt == 0, st.valid(p, cnt)))
    r, wp = eng.fresh('nwritten'), st.g['wp']
    src = eng.named(st, z3.simplify(st.inner('i8', p.o)))
    new = z3.FreshConst(INNER, 'wc')
    W = st.g['wc']
    st.add(r >= 0, r <= cnt, forall(lambda k: z3.Select(new, k) == If(z3.And(k >= wp, k < wp + r), z3.Select(src, k - wp + p.f), z3.Select(W, k)), pats=lambda k: z3.Select(new, k)))
    st.g['wc'] = new
    st.g['wp'] = wp + r
    return r


def m_ferror(eng, st, av, x):
    eng.ob(st, 'memory', 'ferror: open stream', st.alive(av[0].o))
    r = eng.fresh('ferror')
    st.add(r >= -2**31, r < 2**31, Implies(av[0].o == st.g['sf'], (r != 0) == (st.g['re'] == 1)))
    return r


def m_fclose(eng, st, av, x):
    fp = av[0]
    eng.ob(st, 'memory', 'fclose: a stream that is open (not closed twice)', z3.And(fp.f == 0, st.alive(fp.o), Or(fp.o == st.g['sf'], fp.o == st.g['df'])))
    st.live = z3.Store(st.live, fp.o, False)
    s0 = st.copy()
    st.g['wd'] = If(fp.o == st.g['df'], I(1), st.g['wd'])
    return [(s0, I(-1)), (st, I(0))]


def m_link(eng, st, av, x):
    A = eng.cur_args
    eng.ob(st, 'requires', 'link: source to destination', z3.And(str_is(eng, av[0], A.src), str_is(eng, av[1], A.dst)))
    s0 = st.copy()
    e = eng.fresh('eno')
    s0.add(e > 0, e < 200)
    eng.put(s0, 'i32', eng.gptr('@__errno_location'), e)
    st.g['ln'] = I(1)
    return [(s0, I(-1)), (st, I(0))]


def m_unlink(eng, st, av, x):
    s0 = st.copy()
    e = eng.fresh('eno')
    s0.add(e > 0, e < 200)
    eng.put(s0, 'i32', eng.gptr('@__errno_location'), e)
    eng.ob(st, 'requires', 'unlink: the file named', str_is(eng, av[0], eng.cur_args[0]))
    st.g['un'] = I(1)
    return [(s0, I(-1)), (st, I(0))]


def m_rename(eng, st, av, x):
    """rename(2): moves atomically or fails"""
    A = eng.cur_args
    eng.ob(st, 'requires', 'rename: source to destination', z3.And(str_is(eng, av[0], A.src), str_is(eng, av[1], A.dst)))
    s0 = st.copy()
    st.g['ln'] = I(1)
    st.g['un'] = I(1)
    return [(s0, I(-1)), (st, I(0))]


def options(mod):
    M = dict(libc.MODELS)
    M.update(fopen=m_fopen, fread=m_fread, fwrite=m_fwrite, ferror=m_ferror, fclose=m_fclose, link=m_link, unlink=m_unlink, rename=m_rename)
    return dict(models=M, extra_types=('i8', 'i32'))


def contracts(mod):
    G = tuple((n, IntS) for n in NAMES) + (('fc', INNER), ('wc', INNER))
    ALL = [n for n, _ in G]

    def named(S, p):
        return Or(p.null(), S.alive(p.o))

    def copied(S):
        n, C, W = S.g['fz'], S.g['fc'], S.g['wc']
        return [('everything read', S.g['wp'] == n), ('and written', forall(lambda k: Implies(z3.And(k >= 0, k < n), z3.Select(W, k) == z3.Select(C, k)), pats=lambda k: z3.Select(W, k))), ('and flushed', S.g['wd'] == 1)]

    def copy_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)), ('missing names are refused', Implies(Or(A.src.null(), A.dst.null()), r != 0))] + \
            [('success: ' + l, Implies(r == 0, f)) for l, f in copied(S)] + \
            [('no stream stays open', forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o)))]

    def copy_inv(SE, S, v, A):
        W, C = S.g['wc'], S.g['fc']
        return [('streams', z3.And(v.sfp.o == S.g['sf'], v.sfp.f == 0, v.dfp.o == S.g['df'], v.dfp.f == 0, S.g['sf'] != S.g['df'], S.g['sf'] == SE.g['sf'], S.g['df'] == SE.g['df'], v.sfp.eq(SE_v(SE, v, 'sfp')), v.dfp.eq(SE_v(SE, v, 'dfp')))),
                ('only the buffer', others(SE, S, ('i8',), [v.buf.o])),
                ('live', S.live == SE.live), ('position', z3.And(S.g['rp'] == S.g['wp'], S.g['rp'] >= 0, S.g['rp'] <= S.g['fz'], S.g['fz'] == SE.g['fz'], S.g['wd'] == 0)),
                ('unread data', Or(S.g['re'] == 0, S.g['re'] == 1)),
                ('source unchanged', C == SE.g['fc']),
                ('copied so far', forall(lambda k: Implies(z3.And(k >= 0, k < S.g['wp']), z3.Select(W, k) == z3.Select(C, k)), pats=lambda k: z3.Select(W, k)))]

    def SE_v(SE, v, n):
        return v[n]

    copy = Contract('u_copy', lambda S, A: [named(S, A.src), named(S, A.dst)], copy_post, lambda S, A: [('heap',)] + [('ghost', n) for n in ALL if n not in ('fz', 'fc', 'ln', 'un')],
                    ghosts=G, loops={0: LoopSpec(copy_inv)})

    def rm_post(S0, S, A, r):
        a = A[0]
        return [('0 or ~0', Or(r == 0, r == -1)), ('success exactly when the file was unlinked', Implies(S0.g['un'] == 0, (r == 0) == (S.g['un'] == 1))), ('0 or 1', Or(S.g['un'] == 0, S.g['un'] == 1))]
    rem = Contract('u_remove', lambda S, A: [named(S, A[0]), S.g['un'] == 0], rm_post, lambda S, A: [('ghost', 'un'), ('cell', 'i32', S.eng.gptr('@__errno_location'))], ghosts=G)

    def mv_post(S0, S, A, r):
        return [('0 or ~0', Or(r == 0, r == -1)), ('success: the source is gone', Implies(r == 0, S.g['un'] == 1)),
                ('failure keeps the source', Implies(r != 0, S.g['un'] == 0))] + \
            [('success: linked, or copied: ' + l, Implies(z3.And(r == 0, S.g['ln'] == 0), f)) for l, f in copied(S)] + \
            [('no stream stays open', forall(lambda o: S.alive(o) == S0.alive(o), pats=lambda o: z3.Select(S.live, o)))]
    move = Contract('u_move', lambda S, A: [named(S, A.src), named(S, A.dst), S.g['un'] == 0, S.g['ln'] == 0], mv_post,
                    lambda S, A: [('heap',), ('cell', 'i32', S.eng.gptr('@__errno_location'))] + [('ghost', n) for n in ALL if n not in ('fz', 'fc')], ghosts=G)
    return [copy, rem, move]
