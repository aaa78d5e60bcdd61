"""Contracts for srcs/toolbox/rb.c (malloc based buffers; rb_mmap.py re-runs the contiguous
methods under the twin-mapping memory model of the mmap variant)"""
from lvc.engine import *

CONTIG, MALLOC = 1, 2
METHODS = ('write_contiguous', 'write_wrapped', 'read_contiguous', 'read_wrapped', 'fast_read', 'free_malloc', 'free_mmap')


def options(mod):
    return dict(fptr_candidates=METHODS, extra_types=('i8',))


def contracts(mod, twin=False):
    F = mod.di_struct('u_rb_s')
    OFF = {k: F[k] for k in ('base', 'sz', 'wr_off', 'rd_off', 'ready', 'opts', 'cb_free', 'cb_read', 'cb_fast_read', 'cb_write')}

    def g(S, rb, k):
        return S.i64(rb, OFF[k])

    def base(S, rb):
        return S.ptr(rb, OFF['base'])

    def byte(S, rb, f):
        return z3.Select(S.inner('i8', base(S, rb).o), f)

    def sane(S, rb, need_ready=True):
        b, sz, rd, n = base(S, rb), g(S, rb, 'sz'), g(S, rb, 'rd_off'), g(S, rb, 'ready')
        return [S.heap(rb, F['__size__']), rb.o > S.eng.NG, b.f == 0, b.o > S.eng.NG, b.o != rb.o, S.alive(b.o),
                sz >= 1, sz < 2**63, n >= 0, n <= sz, rd >= 0, rd < sz,
                bit(S.i32(rb, OFF['opts']), MALLOC) == (not twin)]

    def bit(o, m):
        return (o / m) % 2 == 1

    def contig_q(S, rb):
        b, sz, rd, n, wr = base(S, rb), g(S, rb, 'sz'), g(S, rb, 'rd_off'), g(S, rb, 'ready'), g(S, rb, 'wr_off')
        r = sane(S, rb) + [wr == rd + n, S.sz(b.o) == 2 * sz, sz < 2**62]
        if not twin:
            r.append(bit(S.i32(rb, OFF['opts']), CONTIG))
        return r

    def mirrored(S, rb):
        b, sz = base(S, rb), g(S, rb, 'sz')
        inn = S.inner('i8', b.o)
        return [forall(lambda f: Implies(z3.And(f >= sz, f < 2 * sz), z3.Select(inn, f) == z3.Select(inn, f - sz)),
                       pats=lambda f: z3.Select(inn, f)),
                forall(lambda f: Implies(z3.And(f >= 0, f < sz), z3.Select(inn, f) == z3.Select(inn, f + sz)),
                       pats=lambda f: z3.Select(inn, f))]

    def contig(S, rb):
        return contig_q(S, rb) + mirrored(S, rb)

    def fold(x, sz):
        return If(x >= sz, x - sz, x)

    def wrapped(S, rb):
        b, sz, rd, n, wr = base(S, rb), g(S, rb, 'sz'), g(S, rb, 'rd_off'), g(S, rb, 'ready'), g(S, rb, 'wr_off')
        return sane(S, rb) + [wr == fold(rd + n, sz), S.sz(b.o) == sz, Not(bit(S.i32(rb, OFF['opts']), CONTIG))]

    def cbs(S, rb, isc):
        e = S.eng
        # rb->cb_* as installed at creation
        nm = {'cb_write': ('write_contiguous', 'write_wrapped'), 'cb_read': ('read_contiguous', 'read_wrapped'),
              'cb_free': ('free_mmap',) * 2 if twin else ('free_malloc',) * 2, 'cb_fast_read': ('fast_read', None)}
        out = []
        for k, (a, w) in nm.items():
            p = S.ptr(rb, OFF[k])
            n = a if isc else w
            out.append(p.null() if n is None else p.eq(e.gptr('@' + n)))
        return out

    def wf(S, rb):
        if twin:
            return contig(S, rb) + cbs(S, rb, True)
        c = z3.And(*(contig_q(S, rb) + cbs(S, rb, True)))
        w = z3.And(*(wrapped(S, rb) + cbs(S, rb, False)))
        return sane(S, rb) + [Or(c, w), Implies(bit(S.i32(rb, OFF['opts']), CONTIG), z3.And(*mirrored(S, rb)))]

    def mn(a, b):
        return If(a < b, a, b)

    def buf(S, A, n):
        b = A.b
        return [S.valid(b, n), b.o != A.rb.o, b.o != base(S, A.rb).o, S.alive(b.o)]

    def const_cfg(S0, S, rb):
        return [('configuration is constant', z3.And(base(S, rb).eq(base(S0, rb)), g(S, rb, 'sz') == g(S0, rb, 'sz'),
                                                     S.i32(rb, OFF['opts']) == S0.i32(rb, OFF['opts']),
                                                     *[S.ptr(rb, OFF[k]).eq(S0.ptr(rb, OFF[k])) for k in
                                                       ('cb_free', 'cb_read', 'cb_write', 'cb_fast_read')]))]

    # ---------------------------------------------------------- write
    def written(S0, S, A, n):
        """every queued byte stays, the first n bytes of b follow them, in order"""
        rb = A.rb
        b, sz, rd, rdy = base(S0, rb), g(S0, rb, 'sz'), g(S0, rb, 'rd_off'), g(S0, rb, 'ready')
        i0, i1 = S0.inner('i8', b.o), S.inner('i8', b.o)
        src = S0.inner('i8', A.b.o)

        def body(f):
            d = fold(f, sz)
            i = If(d >= rd, d - rd, d + sz - rd)
            return Implies(z3.And(f >= 0, f < S0.sz(b.o)),
                           z3.And(Implies(i < rdy, z3.Select(i1, f) == z3.Select(i0, f)),
                                  Implies(z3.And(i >= rdy, i < rdy + n),
                                          z3.Select(i1, f) == z3.Select(src, A.b.f + i - rdy))))
        return forall(body, pats=lambda f: z3.Select(i1, f))

    def wr_count(S0, A, r):
        sz, rdy = g(S0, A.rb, 'sz'), g(S0, A.rb, 'ready')
        ok = And(Not(A.b.null()), A.b_sz <= sz)
        n = mn(sz - rdy, A.b_sz)
        return ok, n

    def w_post(which):
        def post(S0, S, A, r):
            ok, n = wr_count(S0, A, r)
            sz = g(S0, A.rb, 'sz')
            rd, rdy = g(S0, A.rb, 'rd_off'), g(S0, A.rb, 'ready')
            wr = rd + rdy + n if which == 'c' else fold(rd + rdy + n, sz)
            out = [('stores exactly what fits, refuses oversized requests', r == If(ok, n, I(2**64 - 1))),
                   ('bytes queued in order, none disturbed', Implies(ok, written(S0, S, A, n))),
                   ('read offset and fill level untouched by the method', z3.And(g(S, A.rb, 'rd_off') == rd, g(S, A.rb, 'ready') == rdy)),
                   ('write offset follows the last byte', Implies(ok, g(S, A.rb, 'wr_off') == wr)),
                   ('refused request leaves the offset', Implies(Not(ok), g(S, A.rb, 'wr_off') == g(S0, A.rb, 'wr_off'))),
                   ('refused request leaves the buffer', Implies(Not(ok), S.inner('i8', base(S0, A.rb).o) == S0.inner('i8', base(S0, A.rb).o)))]
            if which == 'c':
                i1 = S.inner('i8', base(S0, A.rb).o)
                out.append(('both halves stay equal', z3.And(
                    forall(lambda f: Implies(z3.And(f >= sz, f < 2 * sz), z3.Select(i1, f) == z3.Select(i1, f - sz)), pats=lambda f: z3.Select(i1, f)),
                    forall(lambda f: Implies(z3.And(f >= 0, f < sz), z3.Select(i1, f) == z3.Select(i1, f + sz)), pats=lambda f: z3.Select(i1, f)))))
            return out + const_cfg(S0, S, A.rb)
        return post

    def w_mods(S, A):
        return [('obj', '*', base(S, A.rb).o), ('cell', 'i64', A.rb + OFF['wr_off'])]

    def w_pre(wfn):
        return lambda S, A: wfn(S, A.rb) + [Or(A.b.null(), z3.And(*buf(S, A, A.b_sz)))]

    wc = Contract('write_contiguous', w_pre(contig), w_post('c'), w_mods)
    ww = Contract('write_wrapped', w_pre(wrapped), w_post('w'), w_mods)

    def mirror_pre(S, A):
        rb = A.rb
        b, sz, wr, n = base(S, rb), g(S, rb, 'sz'), g(S, rb, 'wr_off'), A.to_be_written
        inn, src = S.inner('i8', b.o), S.inner('i8', A.b.o)
        return sane(S, rb) + [S.sz(b.o) == 2 * sz, n >= 1, n <= sz, wr >= 0, wr + n <= 2 * sz] + buf(S, A, n) + [
            forall(lambda f: Implies(z3.And(f >= wr, f < wr + n), z3.Select(inn, f) == z3.Select(src, A.b.f + f - wr)), pats=lambda f: z3.Select(inn, f)),
            forall(lambda f: Implies(z3.And(f >= 0, f < sz, Not(z3.And(f >= wr, f < wr + n)), Not(z3.And(f + sz >= wr, f + sz < wr + n))),
                                     z3.Select(inn, f) == z3.Select(inn, f + sz)), pats=lambda f: z3.Select(inn, f)),
            forall(lambda f: Implies(z3.And(f >= sz, f < 2 * sz, Not(z3.And(f >= wr, f < wr + n)), Not(z3.And(f - sz >= wr, f - sz < wr + n))),
                                     z3.Select(inn, f) == z3.Select(inn, f - sz)), pats=lambda f: z3.Select(inn, f))]

    # mirror() is inlined into write_contiguous (it has no loop): its contract is the one above
    # ---------------------------------------------------------- read
    def rd_count(S0, A):
        sz, rdy = g(S0, A.rb, 'sz'), g(S0, A.rb, 'ready')
        return And(Not(A.b.null()), A.b_sz <= sz), mn(rdy, A.b_sz)

    def delivered(S0, S, A, n):
        rb = A.rb
        b, sz, rd = base(S0, rb), g(S0, rb, 'sz'), g(S0, rb, 'rd_off')
        i0, d1 = S0.inner('i8', b.o), S.inner('i8', A.b.o)
        return forall(lambda k: Implies(z3.And(k >= A.b.f, k < A.b.f + n),
                                        z3.Select(d1, k) == z3.Select(i0, fold(rd + k - A.b.f, sz))), pats=lambda k: z3.Select(d1, k))

    def beyond(S0, S, A, n):
        d0, d1 = S0.inner('i8', A.b.o), S.inner('i8', A.b.o)
        return forall(lambda k: Implies(Or(k < A.b.f, k >= A.b.f + n), z3.Select(d1, k) == z3.Select(d0, k)), pats=lambda k: z3.Select(d1, k))

    def r_post(which):
        def post(S0, S, A, r):
            ok, n = rd_count(S0, A)
            sz, rd, rdy, wr = (g(S0, A.rb, k) for k in ('sz', 'rd_off', 'ready', 'wr_off'))
            nrd = fold(rd + n, sz)
            nwr = If(rd + n >= sz, wr - sz, wr) if which == 'c' else wr
            return [('delivers exactly what is there, refuses oversized requests', r == If(ok, n, I(2**64 - 1))),
                    ('oldest bytes, in order', Implies(ok, delivered(S0, S, A, n))),
                    ('caller buffer untouched beyond the bytes delivered', beyond(S0, S, A, If(ok, n, I(0)))),
                    ('read offset follows the last byte', g(S, A.rb, 'rd_off') == If(ok, nrd, rd)),
                    ('write offset', g(S, A.rb, 'wr_off') == If(ok, nwr, wr)),
                    ('fill level untouched by the method', g(S, A.rb, 'ready') == rdy)] + const_cfg(S0, S, A.rb)
        return post

    def r_mods(S, A):
        return [('obj', '*', A.b.o), ('cell', 'i64', A.rb + OFF['rd_off']), ('cell', 'i64', A.rb + OFF['wr_off'])]

    rc = Contract('read_contiguous', w_pre(contig), r_post('c'), r_mods)
    rw = Contract('read_wrapped', w_pre(wrapped), r_post('w'), r_mods)

    def fr_post(S0, S, A, r):
        sz, rd, rdy = (g(S0, A.rb, k) for k in ('sz', 'rd_off', 'ready'))
        want = S0.i64(A.pb_sz)
        ok = And(Not(A.pb_sz.null()), want <= sz)
        if A.twin_ok is not None:
            ok = And(ok, A.twin_ok)
        n = mn(rdy, want)
        b = base(S0, A.rb)
        return [('NULL unless there is something to return', r.null() == Or(Not(ok), n == 0)),
                ('count handed back', Implies(ok, S.i64(A.pb_sz) == n)),
                ('points at the oldest byte', Implies(And(ok, n > 0), z3.And(r.o == b.o, r.f == rd))),
                ('the bytes lie within the buffer', Implies(And(ok, n > 0), rd + n <= 2 * sz)),
                ('consumed', z3.And(g(S, A.rb, 'ready') == If(ok, rdy - n, rdy), g(S, A.rb, 'rd_off') == If(ok, fold(rd + n, sz), rd)))] \
            + const_cfg(S0, S, A.rb) + wfl(S, A.rb)

    def wfl(S, rb):
        return [('ring buffer well formed after', f) for f in wf(S, rb)]

    def fr_args(fn):
        def f(S0, S, A, r):
            A.twin_ok = bit(S0.i32(A.rb, OFF['opts']), CONTIG)
            return fn(S0, S, A, r)
        return f

    def fr_pre(S, A):
        return contig(S, A.rb) + cbs(S, A.rb, True) + [
                Or(A.pb_sz.null(), z3.And(S.valid(A.pb_sz, 8), A.pb_sz.o != A.rb.o, A.pb_sz.o != base(S, A.rb).o))]

    def fr_mods(S, A):
        return [('cell', 'i64', A.rb + OFF[k]) for k in ('rd_off', 'wr_off', 'ready')] + [('cell', 'i64', A.pb_sz)]
    fr = Contract('fast_read', fr_pre, fr_args(fr_post), fr_mods)

    # ---------------------------------------------------------- public API
    def pub_w(S0, S, A, r):
        ok, n = wr_count(S0, A, r)
        rdy = g(S0, A.rb, 'ready')
        return [('stores exactly what fits, refuses oversized requests', r == If(ok, n, I(2**64 - 1))),
                ('bytes queued in order, none disturbed', Implies(ok, written(S0, S, A, n))),
                ('nothing consumed', g(S, A.rb, 'rd_off') == g(S0, A.rb, 'rd_off')),
                ('fill level counts them', g(S, A.rb, 'ready') == If(ok, rdy + n, rdy))] + const_cfg(S0, S, A.rb) + wfl(S, A.rb)
    pw = Contract('u_rb_write', lambda S, A: wf(S, A.rb) + [Or(A.b.null(), z3.And(*buf(S, A, A.b_sz)))], pub_w,
                  lambda S, A: w_mods(S, A) + [('cell', 'i64', A.rb + OFF['ready'])])

    def pub_r(S0, S, A, r):
        ok, n = rd_count(S0, A)
        rdy, rd, sz = g(S0, A.rb, 'ready'), g(S0, A.rb, 'rd_off'), g(S0, A.rb, 'sz')
        return [('delivers exactly what is there, refuses oversized requests', r == If(ok, n, I(2**64 - 1))),
                ('oldest bytes, in order', Implies(ok, delivered(S0, S, A, n))),
                ('caller buffer untouched beyond the bytes delivered', beyond(S0, S, A, If(ok, n, I(0)))),
                ('exactly those bytes leave the buffer', z3.And(g(S, A.rb, 'ready') == If(ok, rdy - n, rdy),
                                                                g(S, A.rb, 'rd_off') == If(ok, fold(rd + n, sz), rd)))] \
            + const_cfg(S0, S, A.rb) + wfl(S, A.rb)
    pr = Contract('u_rb_read', lambda S, A: wf(S, A.rb) + [Or(A.b.null(), z3.And(*buf(S, A, A.b_sz)))], pub_r,
                  lambda S, A: r_mods(S, A) + [('cell', 'i64', A.rb + OFF['ready'])])

    def pf_pre(S, A):
        return wf(S, A.rb) + [Or(A.pb_sz.null(), z3.And(S.valid(A.pb_sz, 8), A.pb_sz.o != A.rb.o, A.pb_sz.o != base(S, A.rb).o))]

    def pf_post(S0, S, A, r):
        A.twin_ok = bit(S0.i32(A.rb, OFF['opts']), CONTIG)
        return [Implies(g(S0, A.rb, 'sz') >= 0, f) if False else (l, f) for l, f in fr_post2(S0, S, A, r)]

    def fr_post2(S0, S, A, r):
        isc = A.twin_ok
        o = []
        for l, f in fr_post(S0, S, A, r):
            if l in ('count handed back',):
                f = Implies(isc, f)
            o.append((l, f))
        return o
    pf = Contract('u_rb_fast_read', pf_pre, pf_post, fr_mods)
    cl = Contract('u_rb_clear', lambda S, A: wf(S, A.rb),
                  lambda S0, S, A, r: [('reports success', r == 0), ('empty afterwards', g(S, A.rb, 'ready') == 0)] + const_cfg(S0, S, A.rb) + wfl(S, A.rb),
                  lambda S, A: [('cell', 'i64', A.rb + OFF[k]) for k in ('rd_off', 'wr_off', 'ready')])
    rdy = Contract('u_rb_ready', lambda S, A: wf(S, A.rb), lambda S0, S, A, r: [('fill level', r == g(S0, A.rb, 'ready'))], lambda S, A: [], inline=True)
    av = Contract('u_rb_avail', lambda S, A: wf(S, A.rb), lambda S0, S, A, r: [('free space', r == g(S0, A.rb, 'sz') - g(S0, A.rb, 'ready'))], lambda S, A: [], inline=True)
    sz = Contract('u_rb_size', lambda S, A: wf(S, A.rb), lambda S0, S, A, r: [('capacity', r == g(S0, A.rb, 'sz'))], lambda S, A: [], inline=True)
    out = [wc, rc, fr, pw, pr, pf, cl, rdy, av, sz]
    if not twin:
        out += [ww, rw]

        def cr_post(S0, S, A, r):
            rb = S.ptr(A.prb)
            ok = r == 0
            szarg = A.sz if hasattr(A, 'sz') else A.hint_sz
            return [('0 or -1', Or(ok, r == -1)),
                    ('zero capacity refused', Implies(szarg == 0, r == -1)), ('fails only for lack of memory', Implies(z3.And(r != 0, szarg > 0, szarg < 2**60, Not(A.prb.null())), S.g['oom'])),
                    ('well formed, empty, of the requested size', Implies(ok, z3.And(g(S, rb, 'sz') == szarg, g(S, rb, 'ready') == 0, *wf(S, rb)))),
                    ('a failed create leaks nothing', Implies(Not(ok), S.live == S0.live)),
                    ('fresh objects only', Implies(ok, z3.And(Not(S0.alive(rb.o)), Not(S0.alive(base(S, rb).o)))))]
        cm = Contract('create_malloc',
                      lambda S, A: [Or(A.prb.null(), z3.And(S.valid(A.prb, 8), A.prb.o > S.eng.NG)), A.opts >= 0, bit(A.opts, MALLOC)],
                      cr_post, lambda S, A: [('cell', 'p', A.prb), ('heap',)])

        def f_post(S0, S, A, r):
            return [('releases both blocks and nothing else', Implies(Not(A.rb.null()), S.live == z3.Store(
                If(base(S0, A.rb).null(), S0.live, z3.Store(S0.live, base(S0, A.rb).o, False)), A.rb.o, False))),
                ('NULL is a no-op', Implies(A.rb.null(), S.live == S0.live))]
        fm = Contract('free_malloc', lambda S, A: [Or(A.rb.null(), z3.And(*sane(S, A.rb)), z3.And(
            S.heap(A.rb, F['__size__']), A.rb.o > S.eng.NG, base(S, A.rb).null()))], f_post, lambda S, A: [('heap',)])
        uf = Contract('u_rb_free', lambda S, A: [Implies(Not(A.rb.null()), f) for f in wf(S, A.rb)], f_post, lambda S, A: [('heap',)])
        out += [cm, fm, uf]
    return out
