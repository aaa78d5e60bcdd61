"""LVC: a small contract-based deductive verifier for C, working on the LLVM IR
clang -O0 emits for the real translation unit.

 * function by function: a call to a function with a contract is replaced by
   (prove requires; havoc modifies; assume ensures); a call to a function of the
   same unit without a contract is inlined; anything else needs a model.
 * loops are cut at their header by an inductive invariant (LoopSpec): prove on
   entry, havoc what the body may change (computed, not declared), assume, run
   one arbitrary iteration, prove again.  No bound on iterations.
 * integers are mathematical integers with the wrap-around of the machine type
   made explicit (unsigned) or turned into an obligation (signed, nsw).
 * memory is a set of disjoint objects (object id, byte offset); every access
   carries an in-bounds/liveness obligation.  Cells are typed by access width:
   a cell is assumed to be read with the type it was last written with
   (effective-type discipline) - listed in the trusted base.
"""
import time, itertools, re, os
import z3
from . import ir
from .ir import Unsupported

I = z3.IntVal
IntS = z3.IntSort()
INNER = z3.ArraySort(IntS, IntS)
OUTER = z3.ArraySort(IntS, INNER)
RINNER = z3.ArraySort(IntS, z3.RealSort())
ROUTER = z3.ArraySort(IntS, RINNER)
BOOLA = z3.ArraySort(IntS, z3.BoolSort())
MT = ('i8', 'i16', 'i32', 'i64', 'po', 'pf', 'd')


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def conc(e):
    """python int if e is a literal, else None"""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return None


def And(*a):
    a = [x for x in a if not (x is True)]
    if any(x is False for x in a):
        return z3.BoolVal(False)
    return z3.And(*a) if a else z3.BoolVal(True)


Or = z3.Or
Not = z3.Not
Implies = z3.Implies
If = z3.If


def leaves(e, lim=60):
    """constant leaves of an if-then-else tree, or None"""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            todo += [x.arg(1), x.arg(2)]
        elif z3.is_int_value(x):
            out.append(x.as_long())
        else:
            return None
        if len(out) + len(todo) > lim:
            return None
    return out


def mapl(e, f):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = mapl(e.arg(1), f), mapl(e.arg(2), f)
        if z3.eq(a, b):
            return a
        return z3.If(e.arg(0), a, b)
    return z3.IntVal(f(e.as_long()))


_ctype = None


def ctype_groups():
    """classification bits of the C locale as runs over -128..255"""
    global _ctype
    if _ctype is None:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.setlocale.restype = ctypes.c_char_p
        old = libc.setlocale(0, None)
        libc.setlocale(0, b'C')
        libc.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_int16))
        t = libc.__ctype_b_loc()[0]
        v = [t[c] for c in range(-128, 256)]
        libc.setlocale(0, old)
        out = []
        for c in range(-128, 256):
            if not out or out[-1][1] != v[c + 128]:
                out.append((c, v[c + 128]))
        _ctype = out
    return _ctype


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o, self.f = iv(o), iv(f)

    def __add__(self, k):
        return Ptr(self.o, z3.simplify(self.f + k))

    def eq(self, q):
        return z3.And(self.o == q.o, self.f == q.f)

    def ne(self, q):
        return z3.Not(self.eq(q))

    def null(self):
        return z3.And(self.o == 0, self.f == 0)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.f)


NULL = Ptr(0, 0)
_lam = itertools.count()


def forall(f, n=1, pats=None, sorts=None):
    """forall(lambda i: body) ; pats: lambda i: [terms] (each a pattern)"""
    k = next(_lam)
    vs = [z3.Const('q%d_%d' % (k, j), (sorts[j] if sorts else IntS)) for j in range(n)]
    b = f(*vs)
    if pats is not None:
        p = pats(*vs)
        if not isinstance(p, (list, tuple)):
            p = [p]
        return z3.ForAll(vs, b, patterns=list(p))
    return z3.ForAll(vs, b)


def exists(f, n=1):
    k = next(_lam)
    vs = [z3.Int('e%d_%d' % (k, j)) for j in range(n)]
    return z3.Exists(vs, f(*vs))


class Facts:
    """persistent list"""
    __slots__ = ('prev', 'f', 'n', 'q', 'anyq')

    def __init__(self, prev, f):
        self.prev, self.f = prev, f
        self.n = prev.n + 1 if prev else 1
        self.q = has_quant(f)
        self.anyq = self.q or (prev is not None and prev.anyq)

    @staticmethod
    def tolist(x):
        out = []
        while x is not None:
            out.append(x.f)
            x = x.prev
        out.reverse()
        return out


_has_q = z3.Probe('has-quantifiers')


def has_quant(e):
    g = z3.Goal()
    g.add(e)
    return _has_q(g) != 0


def max_vars(e):
    """the largest number of variables of a quantifier in e"""
    if not has_quant(e):
        return 0
    r, todo, seen = 0, [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = max(r, x.num_vars())
            todo.append(x.body())
        elif z3.is_app(x) and has_quant(x):
            todo.extend(x.children())
    return r


def roles(e):
    """the ghosts and abstract functions e speaks of"""
    r, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n.startswith('g_'):
                    r.add(n.split('!')[0])
                elif x.num_args():
                    r.add(n)
            todo.extend(x.children())
    return r


class Inc:
    """solver whose assertion stack follows a persistent facts list (neighbouring
    obligations and branch queries share most of their facts)"""

    def __init__(self, mk, qf, chunk=8):
        self.mk, self.qf, self.chunk = mk, qf, chunk
        self.s = mk()
        self.stack = []          # nodes at which a level was pushed

    def sync(self, x):
        keep = len(self.stack)
        # pop to the deepest pushed node that is on x's chain
        pend = []
        y = x
        while True:
            while keep and self.stack[keep - 1].n > (y.n if y is not None else 0):
                keep -= 1
            if keep and self.stack[keep - 1] is y:
                break
            if y is None:
                break
            pend.append(y)
            y = y.prev
        d = len(self.stack) - keep
        if d:
            self.s.pop(d)
            del self.stack[keep:]
        if pend:
            self.s.push()
            for n in reversed(pend):
                if not (self.qf and n.q):
                    self.s.add(n.f)
            self.stack.append(x)

    def check(self, x, f):
        self.sync(x)
        self.s.push()
        self.s.add(f)
        r = self.s.check()
        self.s.pop()
        return r


class Frame:
    __slots__ = ('fn', 'regs', 'loc', 'allocas', 'blk', 'idx', 'prev', 'dst', 'unroll', 'names', 'stackobjs', 'line')

    def copy(self):
        g = Frame()
        g.fn, g.blk, g.idx, g.prev, g.dst = self.fn, self.blk, self.idx, self.prev, self.dst
        g.regs = dict(self.regs)
        g.loc = dict(self.loc)
        g.allocas = self.allocas
        g.unroll = dict(self.unroll)
        g.names = self.names
        g.stackobjs = list(self.stackobjs)
        g.line = self.line
        return g


class St:
    def __init__(self):
        self.M = {}
        self.live = None
        self.size = None
        self.g = {}
        self.facts = None
        self.frames = []
        self.eng = None
        self.trail = None   # persistent list of (fn,line) branch decisions

    def copy(self):
        s = St()
        s.M = dict(self.M)
        s.live, s.size = self.live, self.size
        s.g = dict(self.g)
        s.facts = self.facts
        s.frames = [f.copy() for f in self.frames]
        s.eng = self.eng
        s.trail = self.trail
        return s

    def snap(self):
        """memory/ghost snapshot without frames (for S0 in specs)"""
        s = St()
        s.M = dict(self.M)
        s.live, s.size = self.live, self.size
        s.g = dict(self.g)
        s.eng = self.eng
        return s

    def add(self, *fs):
        for f in fs:
            if f is True or f is None:
                continue
            if isinstance(f, tuple):
                f = f[1]
            if z3.is_true(f):
                continue
            self.facts = Facts(self.facts, f)

    # ---- spec accessors (no obligations)
    def _c(self, t, p, off=0):
        return z3.Select(z3.Select(self.M[t], p.o), z3.simplify(p.f + off))

    def i8(self, p, off=0):
        return self._c('i8', p, off)

    def i16(self, p, off=0):
        return self._c('i16', p, off)

    def i32(self, p, off=0):
        return self._c('i32', p, off)

    def i64(self, p, off=0):
        return self._c('i64', p, off)

    def dbl(self, p, off=0):
        return self._c('d', p, off)

    def ptr(self, p, off=0):
        return Ptr(self._c('po', p, off), self._c('pf', p, off))

    def inner(self, t, o):
        return z3.Select(self.M[t], o)

    def alive(self, o):
        return z3.Select(self.live, o)

    def sz(self, o):
        return z3.Select(self.size, o)

    def valid(self, p, n):
        """p points to the start or inside of a live object with n more bytes"""
        return z3.And(p.o != 0, self.alive(p.o), p.f >= 0, p.f + n <= self.sz(p.o))

    def heap(self, p, n):
        """p is the start of a live object of exactly n bytes"""
        return z3.And(p.o > 0, p.f == 0, self.alive(p.o), self.sz(p.o) == n)


class Ob:
    __slots__ = ('name', 'kind', 'fn', 'line', 'facts', 'goal', 'status', 'time', 'be', 'model', 'trail', 'label')

    def __init__(self, **k):
        self.status = None
        self.time = 0
        self.be = ''
        self.model = None
        for a, b in k.items():
            setattr(self, a, b)


class LoopSpec:
    """inv(SE, S, v, A) -> list of (label, formula);  SE = snapshot at loop entry,
    S = current state, v = accessor for locals by source name, A = the arguments
    of the function under verification (None when inlined).  measure(S,v) optional."""

    def __init__(self, inv, measure=None, name='', ghost=None, step=None, leave=None):
        self.inv, self.measure, self.name, self.ghost = inv, measure, name, ghost
        self.step = step      # ghost code run at the back edge: step(SH, S, vh, v, A)
        self.leave = leave    # ghost code run when the loop is left


class Contract:
    def __init__(self, fn, pre, post, mods=None, loops=None, ghost=None, ghosts=(), doc='', entry=None, inline=False, before=None):
        """mods(S,A) -> list of effects: ('obj', types|'*', objexpr), ('mem', types|'*') whole
        memory of those types, ('heap',) allocation state, ('ghost', name)"""
        self.fn, self.pre, self.post, self.mods = fn, pre, post, mods
        self.loops = loops or {}
        self.ghost = ghost
        self.ghosts = ghosts
        self.inline = inline  # verified on its own, but callers see the body
        self.before = before or {}      # ghost code before a call of the named function: f(S, arguments of the call, A)
        self.entry = entry    # ghost code / lemmas run on entry: entry(S, A)
        self.doc = doc


class V:
    """locals of the current frame by source name"""

    def __init__(self, eng, st, frame):
        self._e, self._s, self._f = eng, st, frame

    def __getattr__(self, n):
        return self[n]

    def __getitem__(self, n):
        f = self._f
        a = f.names.get(n)
        if a is None:
            raise Unsupported('annotation does not attach: %s has no local %r' % (f.fn.name, n))
        if a in f.loc:
            x = f.loc[a]
            if x is None:
                x = self._e.fresh_of(self._s, f.allocas[a][0], 'uninit_' + n)
                f.loc[a] = x
            return x
        if a in f.regs:      # memory alloca: pointer to it
            return f.regs[a]
        raise Unsupported('annotation does not attach: local %r not available' % n)


RANGE = {'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2**31, 2**31 - 1), 'i64': (0, 2**64 - 1)}


def ushift(x, n):
    return If(x < 0, x + (1 << n), x)


def low_zeros(t):
    """number of low bits of the integer term t that are syntactically zero"""
    if z3.is_mul(t):
        t = t.arg(0)
    if z3.is_int_value(t):
        m = t.as_long()
        return (m & -m).bit_length() - 1 if m else 99
    return 0


class Engine:
    _inc = None

    def __init__(self, mod, contracts=(), models=None, indirect=None, loops=None, malloc_fail=True,
                 extra_types=(), fptr_candidates=(), skip_types=(), inline_limit=12, unroll=24, log_calls=None, check_overflow=True, override=()):
        self.mod = mod
        self.contracts = {c.fn: c for c in contracts}
        self.override = override       # functions with a contract that are modelled here
        self.models = dict(BUILTIN)
        self.models.update(models or {})
        self.indirect = indirect
        self.loops = loops or {}
        self.malloc_fail = malloc_fail
        self.unroll = unroll
        self.check_overflow = check_overflow
        self.types = (set(self.scan_types()) | set(extra_types)) - set(skip_types)
        self.twin_of = lambda st, p: None
        self.fptr_candidates = ['@' + x for x in fptr_candidates]
        if 'po' in self.types:
            self.types.add('pf')
        self.cnt = itertools.count()
        self._dist = False
        self.defs = []
        self.gid = {}
        self.gname = {}
        for i, n in enumerate(list(mod.globals) + list(mod.funcs) + list(mod.decls)):
            self.gid[n] = i + 1
            self.gname[i + 1] = n
        self.ctid = None
        if '@__ctype_b_loc' in self.gid:
            self.gid['@#ctype'] = len(self.gid) + 1
            self.gname[self.gid['@#ctype']] = '@#ctype'
            self.ctid = (self.gid['@__ctype_b_loc'], self.gid['@#ctype'])
        self.NG = len(self.gid) + 1
        self.constarr = {}
        self.loopinfo = {}
        self.obs = []
        self.cur = None
        self.before = {}
        self.paths = 0
        self.exits = 0
        self.assumed = set()
        self.inlined = set()
        self.t0 = time.time()
        self.deadline = None
        self.feas = 0

    # ------------------------------------------------------------ helpers
    def scan_types(self):
        ts = set()
        for f in self.mod.funcs.values():
            for b in f.blocks.values():
                for x in b:
                    if x.op in ('load', 'store'):
                        ts.update(self.tkeys(x.ty, True))
                    if x.op == 'call' and x.args[0][0] == 'glob' and ('strlen' in x.args[0][1] or 'str' in x.args[0][1]):
                        ts.add('i8')
        return ts

    def tkeys(self, ty, quiet=False):
        if ty[0] == 'int':
            k = {1: 'i8', 8: 'i8', 16: 'i16', 32: 'i32', 64: 'i64'}.get(ty[1])
            if k:
                return (k,)
        if ty[0] == 'ptr':
            return ('po', 'pf')
        if ty[0] == 'double':
            return ('d',)
        if ty[0] == 'float':
            return ('f4',)
        if ty[0] == 'x86_fp80':
            return ('fx',)
        if ty[0] == 'vec' and ty[2] == ('float',):
            return ('f4',)
        if quiet:
            return ()
        raise Unsupported('memory type ' + repr(ty))

    def fresh(self, name='v'):
        return z3.Int('%s!%d' % (name, next(self.cnt)))

    def fresh_of(self, st, ty, name='v'):
        if ty[0] == 'int':
            if ty[1] == 1:
                return z3.Bool('%s!%d' % (name, next(self.cnt)))
            v = self.fresh(name)
            lo, hi = RANGE['i%d' % ty[1]]
            st.add(v >= lo, v <= hi)
            return v
        if ty[0] == 'ptr':
            return Ptr(self.fresh(name + '.o'), self.fresh(name + '.f'))
        if ty[0] == 'double':
            return z3.Real('%s!%d' % (name, next(self.cnt)))
        if ty[0] in ('float', 'x86_fp80'):
            return self.fresh(name)        # opaque bit pattern
        if ty[0] == 'vec' and ty[2] == ('float',):
            return tuple(self.fresh(name) for _ in range(ty[1]))
        if ty[0] == 'void':
            return None
        raise Unsupported('fresh of ' + repr(ty))

    def fresh_arr(self, t, outer=True):
        if t == 'd':
            return z3.Const('M%s!%d' % (t, next(self.cnt)), ROUTER if outer else RINNER)
        return z3.Const('M%s!%d' % (t, next(self.cnt)), OUTER if outer else INNER)

    def init_state(self):
        st = St()
        st.eng = self
        for t in sorted(self.types):
            st.M[t] = self.fresh_arr(t)
        st.live = z3.Const('live!%d' % next(self.cnt), BOOLA)
        st.size = z3.Const('size!%d' % next(self.cnt), INNER)
        st.add(Not(st.live[0]))
        if '@__errno_location' in self.gid:
            g = self.gid['@__errno_location']
            st.add(st.live[g], st.size[g] == 4)
        for n, (ty, init, const) in self.mod.globals.items():
            if ty is None:
                continue
            try:
                sz = self.mod.size(ty)
            except Unsupported:
                continue
            if const or n in self.used_globals():
                g = self.gid[n]
                st.add(st.live[g], st.size[g] == sz)
        return st

    def used_globals(self):
        return self.mod.globals

    def ob(self, st, kind, label, goal, line=None):
        if goal is True or z3.is_true(goal):
            goal = z3.BoolVal(True)
        fr = st.frames[-1] if st.frames else None
        fn = fr.fn.name if fr else (self.cur or '?')
        ln = line if line is not None else (fr.line if fr else 0)
        self.obs.append(Ob(name='%s:%s' % (self.cur, label), kind=kind, label=label, fn=fn, line=ln,
                           facts=st.facts, goal=goal, trail=st.trail))
        # after an obligation has been raised it may be assumed on the rest of the path
        st.add(goal)

    def qf(self, st, f):
        """quantifier-free query on the path"""
        if self._inc is None:
            def mk():
                s = z3.SimpleSolver()
                s.set('timeout', 300)
                return s
            self._inc = Inc(mk, True)
        return self._inc.check(st.facts, f)

    def implied(self, st, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return self.qf(st, Not(g)) == z3.unsat

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.qf(st, c) != z3.unsat

    # ---------------------------------------------------------- integer ops
    def wrap(self, st, e, n):
        """canonicalise integer e into the n-bit representation"""
        lo, hi = RANGE['i%d' % n]
        c = conc(e)
        if c is not None:
            c &= (1 << n) - 1
            if n != 64 and c > hi:
                c -= 1 << n
            return I(c)
        e = z3.simplify(e)
        if z3.is_app_of(e, z3.Z3_OP_ITE) and leaves(e) is not None:
            def w(c):
                c &= (1 << n) - 1
                return c - (1 << n) if n != 64 and c > hi else c
            return mapl(e, w)
        if self.implied(st, z3.And(e >= lo, e <= hi)):
            return e
        m = 1 << n
        # one wrap is enough for +,- ; general otherwise
        if self.implied(st, z3.And(e >= lo - m, e <= hi + m)):
            return If(e > hi, e - m, If(e < lo, e + m, e))
        r = e % m
        if n == 64:
            return r
        return If(r > hi, r - m, r)

    def sview(self, st, x, n):
        if n == 64:
            c = conc(x)
            if c is not None:
                return I(c - (1 << 64) if c >= 1 << 63 else c)
            if self.implied(st, x < (1 << 63)):
                return x
            return If(x >= (1 << 63), x - (1 << 64), x)
        return x

    def uview(self, st, x, n):
        if n == 64:
            return x
        c = conc(x)
        if c is not None:
            return I(c & ((1 << n) - 1))
        if self.implied(st, x >= 0):
            return x
        return ushift(x, n)

    def bitop(self, st, op, a, b, n):
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            r = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op]
            return self.wrap(st, I(r), n)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and z3.is_app_of(a, z3.Z3_OP_ITE) and leaves(a) is not None:
            r = mapl(a, lambda c: {'and': c & cb, 'or': c | cb, 'xor': c ^ cb}[op])
            return self.wrap(st, r, n)
        ua = self.uview(st, a, n)
        if cb is not None:
            m = cb & ((1 << n) - 1)
            if op == 'xor' and m == (1 << n) - 1:
                return self.wrap(st, (1 << n) - 1 - ua, n)
            if op == 'and':
                if m == 0:
                    return I(0)
                if m & (m + 1) == 0:
                    return self.wrap(st, ua % (m + 1), n)
                inv = ((1 << n) - 1) ^ m
                if inv & (inv + 1) == 0:
                    return self.wrap(st, ua - ua % (inv + 1), n)
            bits = [k for k in range(n) if m >> k & 1]
            if len(bits) <= 8:
                bit = {k: (ua / (1 << k)) % 2 for k in bits}
                if op == 'and':
                    return self.wrap(st, z3.Sum([bit[k] * (1 << k) for k in bits]), n)
                if op == 'or':
                    return self.wrap(st, ua + z3.Sum([(1 - bit[k]) * (1 << k) for k in bits]), n)
                return self.wrap(st, ua + z3.Sum([(1 - 2 * bit[k]) * (1 << k) for k in bits]), n)
            if op == 'and' and len(bits) >= n - 8:
                cl = [k for k in range(n) if not m >> k & 1]
                return self.wrap(st, ua - z3.Sum([((ua / (1 << k)) % 2) * (1 << k) for k in cl]), n)
        if op == 'or':
            ub = self.uview(st, b, n)
            for x, y in ((ua, ub), (ub, ua)):
                y = z3.simplify(y)
                k = min(low_zeros(t) for t in (y.children() if z3.is_add(y) else [y]))
                k = 0 if k > n else k
                if k and self.implied(st, z3.And(x >= 0, x < (1 << k))):
                    return self.wrap(st, x + y, n)      # disjoint bits
        # bit vectors for the rest
        x, y = z3.Int2BV(ua, n), z3.Int2BV(self.uview(st, b, n), n)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        e = z3.BV2Int(r)
        if n == 64:
            return e
        hi = RANGE['i%d' % n][1]
        return If(e > hi, e - (1 << n), e)

    def binop(self, st, op, flags, a, b, ty):
        if op == 'sub' and ty == ('int', 64) and hasattr(self, 'p2i') and z3.is_expr(a) and z3.is_expr(b):
            x, y = self.p2i.get(a.get_id()), self.p2i.get(b.get_id())
            if x and y and self.implied(st, x[1].o == y[1].o):
                return self.wrap(st, x[1].f - y[1].f, 64)
        if ty[0] == 'double':
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            raise Unsupported('fp op')
        n = ty[1]
        if op in ('mul', 'udiv', 'urem') and not self._dist:
            for x, y, sw in ((b, a, False), (a, b, True)):
                if sw and op != 'mul':
                    continue
                if z3.is_expr(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and leaves(x) is not None and not (z3.is_expr(y) and leaves(y) is not None and len(leaves(y)) > 1):
                    if op != 'mul' and not self.implied(st, x != 0):
                        self.ob(st, 'div', 'divisor is not zero', x != 0)
                    self._dist = True
                    try:
                        def walk(e):
                            if z3.is_app_of(e, z3.Z3_OP_ITE):
                                return If(e.arg(0), walk(e.arg(1)), walk(e.arg(2)))
                            if op != 'mul' and e.as_long() == 0:
                                return I(0)
                            return self.binop(st, op, [f for f in flags if f == 'nuw'], y, e, ty)
                        return walk(x)
                    finally:
                        self._dist = False
        if n == 1:
            x, y = a, b
            if op == 'xor':
                return z3.Xor(x, y)
            if op == 'and':
                return z3.And(x, y)
            if op == 'or':
                return z3.Or(x, y)
            raise Unsupported('i1 ' + op)
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[op]
            if 'nsw' in flags and n < 64:
                r = z3.simplify(f(a, b))
                lo, hi = RANGE['i%d' % n]
                if self.check_overflow and not self.implied(st, z3.And(r >= lo, r <= hi)):
                    self.ob(st, 'overflow', 'signed %s does not overflow' % op, z3.And(r >= lo, r <= hi))
                return r
            if 'nsw' in flags:
                x, y = self.sview(st, a, 64), self.sview(st, b, 64)
                r = z3.simplify(f(x, y))
                g = z3.And(r >= -(1 << 63), r < (1 << 63))
                if self.check_overflow and not self.implied(st, g):
                    self.ob(st, 'overflow', 'signed %s does not overflow' % op, g)
                return self.wrap(st, r, 64)
            return self.wrap(st, f(a, b), n)
        if op in ('udiv', 'urem'):
            x, y = self.uview(st, a, n), self.uview(st, b, n)
            if not self.implied(st, y != 0):
                self.ob(st, 'div', 'divisor is not zero', y != 0)
            cy = conc(y)
            if cy is not None:
                return self.wrap(st, x / y if op == 'udiv' else x % y, n)
            if op == 'urem' and self.implied(st, z3.And(x >= 0, x < 2 * y)):
                return If(x >= y, x - y, x)
            q, r = self.fresh('q'), self.fresh('r')
            st.add(x == q * y + r, r >= 0, r < y, q >= 0)
            st.add(Implies(x < y, q == 0))
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            x, y = self.sview(st, a, n), self.sview(st, b, n)
            if not self.implied(st, y != 0):
                self.ob(st, 'div', 'divisor is not zero', y != 0)
            cy = conc(y)
            if cy is None or cy <= 0:
                raise Unsupported('signed division by a variable')
            q = If(x >= 0, x / y, -((-x) / y))
            return self.wrap(st, q if op == 'sdiv' else x - q * y, n)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, n)
        if op in ('shl', 'lshr', 'ashr'):
            cb = conc(b)
            if cb is None:
                # small symbolic shift: case split into ite
                amt = b
                r = None
                if op == 'shl':
                    e = I(0)
                    for k in range(n - 1, -1, -1):
                        e = If(amt == k, a * (1 << k), e)
                    if self.check_overflow:
                        self.ob(st, 'overflow', 'shift amount in range', z3.And(amt >= 0, amt < n))
                    return self.wrap(st, e, n)
                raise Unsupported('symbolic shift')
            if op == 'shl':
                if 'nsw' in flags and self.check_overflow:
                    r = z3.simplify(self.sview(st, a, n) * (1 << cb))
                    hi = (1 << (n - 1)) - 1
                    if not self.implied(st, z3.And(r <= hi, r >= -hi - 1)):
                        self.ob(st, 'overflow', 'shift does not overflow', z3.And(r <= hi, r >= -hi - 1))
                return self.wrap(st, a * (1 << cb), n)
            if op == 'lshr':
                return self.wrap(st, self.uview(st, a, n) / (1 << cb), n)
            return self.wrap(st, self.sview(st, a, n) / (1 << cb), n)
        raise Unsupported(op)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'reg':
            if v[1] not in fr.regs:
                raise Unsupported('undefined reg ' + v[1])
            return fr.regs[v[1]]
        if k == 'int':
            if ty[0] == 'int' and ty[1] == 1:
                return z3.BoolVal(bool(v[1]))
            if ty == ('double',):
                return z3.RealVal(v[1])
            c = v[1]
            n = ty[1]
            c &= (1 << n) - 1
            if n != 64 and c > RANGE['i%d' % n][1]:
                c -= 1 << n
            return I(c)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.gptr(v[1])
        if k == 'undef':
            return self.fresh_of(st, ty, 'undef')
        if k == 'fp':
            from fractions import Fraction
            fr_ = Fraction(v[1])
            return z3.RealVal(str(fr_))
        if k == 'zero':
            return NULL if ty[0] == 'ptr' else I(0)
        if k == 'cgep':
            base = self.val(st, fr, ('ptr',), v[2])
            return self.gep(st, fr, v[1], base, v[3])
        if k == 'ccast':
            x = self.val(st, fr, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        raise Unsupported('operand kind ' + k)

    def gptr(self, n):
        if n not in self.gid:
            self.gid[n] = len(self.gid) + 1
            self.gname[self.gid[n]] = n
        return Ptr(self.gid[n], 0)

    def gep(self, st, fr, sty, base, idx):
        off = base.f
        ty = sty
        for j, (it, v) in enumerate(idx):
            x = self.val(st, fr, it, v)
            x = self.sview(st, x, it[1])
            if j == 0:
                off = off + x * self.mod.size(ty)
            elif ty[0] == 'array':
                ty = ty[2]
                off = off + x * self.mod.size(ty)
            else:
                c = conc(x)
                o, ft = self.mod.field_off(ty, c)
                off = off + o
                ty = ft
        return Ptr(base.o, z3.simplify(off))

    def cast(self, st, op, a, x, b):
        if op in ('zext', 'sext', 'trunc'):
            if a[1] == 1:
                return If(x, I(1 if op == 'zext' or True and op != 'sext' else -1), I(0)) if op != 'sext' else \
                    self.wrap(st, If(x, I(-1), I(0)), b[1])
            if op == 'zext':
                return self.wrap(st, self.uview(st, x, a[1]), b[1])
            if op == 'sext':
                return self.wrap(st, self.sview(st, x, a[1]), b[1])
            if b[1] == 1:
                return self.uview(st, x, a[1]) % 2 == 1
            return self.wrap(st, x, b[1])
        if op == 'ptrtoint':
            # addresses: injective per object, object bases unknown
            addr = z3.Function('addr', IntS, IntS)
            st.add(addr(I(0)) == 0)
            e = self.wrap(st, addr(x.o) + x.f, 64)
            if not hasattr(self, 'p2i'):
                self.p2i = {}
            self.p2i[e.get_id()] = (e, x)
            return e
        if op == 'inttoptr':
            c = conc(x)
            if c == 0:
                return NULL
            if c is not None:
                return Ptr(0, c)      # e.g. (void*)-1: never dereferenceable
            y = getattr(self, 'p2i', {}).get(x.get_id()) if z3.is_expr(x) else None
            if y:
                return y[1]
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return x
        if op in ('sitofp', 'uitofp'):
            return z3.ToReal(self.sview(st, x, a[1]) if op == 'sitofp' else self.uview(st, x, a[1]))
        raise Unsupported('cast ' + op)

    # -------------------------------------------------------------- memory
    def const_global(self, p):
        c = conc(p.o)
        if c is not None and c in self.gname:
            n = self.gname[c]
            g = self.mod.globals.get(n)
            if g and g[2] and g[1] is not None:
                return n
        return None

    def cstring(self, p):
        """python bytes if p points into a constant string literal at a known offset"""
        n = self.const_global(p)
        off = conc(p.f)
        if n is None or off is None:
            return None
        init = self.mod.globals[n][1]
        if init[0] == 'cstr':
            return init[1][off:]
        if init[0] == 'zero':
            return b'\0'
        return None

    def const_load(self, st, ty, n, p):
        gty, init, _ = self.mod.globals[n]
        off = conc(p.f)
        cells = {}

        def walk(t, v, o):
            if v[0] == 'cstr':
                for i, ch in enumerate(v[1]):
                    cells[o + i] = (('int', 8), ('int', ch))
            elif v[0] == 'agg':
                if t[0] == 'array':
                    es = self.mod.size(t[2])
                    for i, (et, ev) in enumerate(v[1]):
                        walk(et, ev, o + i * es)
                else:
                    for i, (et, ev) in enumerate(v[1]):
                        walk(et, ev, o + self.mod.field_off(t, i)[0])
            elif v[0] == 'zero':
                if t[0] == 'array':
                    es = self.mod.size(t[2])
                    for i in range(t[1]):
                        walk(t[2], v, o + i * es)
                elif t[0] in ('struct', 'lit'):
                    for i, ft in enumerate(self.mod.fields(t)):
                        walk(ft, v, o + self.mod.field_off(t, i)[0])
                else:
                    cells[o] = (t, v)
            else:
                cells[o] = (t, v)
        if n not in self.constarr:
            walk(gty, init, 0)
            self.constarr[n] = cells
        cells = self.constarr[n]
        if off is not None:
            if off in cells:
                return self.val(st, None, cells[off][0], cells[off][1])
            return self.fresh_of(st, ty, 'cg')
        if ty[0] == 'int':
            vals = {}
            for o in sorted(cells):
                t, v = cells[o]
                if t[0] == 'int':
                    x = self.val(st, None, t, v)
                    vals.setdefault(x.as_long(), []).append(o)
            offs = sorted(o for o in cells if cells[o][0][0] == 'int')
            if len(vals) > 16 and len({y - x for x, y in zip(offs, offs[1:])}) == 1:
                # a table: arithmetic runs of the (aligned) index
                w = offs[1] - offs[0]
                if conc(z3.simplify(p.f % w)) != 0 and not self.implied(st, p.f % w == 0):
                    return self.fresh_of(st, ty, 'cg')
                at = {o: x for x, os_ in vals.items() for o in os_}
                runs = []
                for i, o in enumerate(offs):
                    if runs and runs[-1][3] in (None, at[o] - at[offs[i - 1]]):
                        runs[-1][3] = at[o] - at[offs[i - 1]]
                        runs[-1][2] = i
                    else:
                        runs.append([at[o], i, i, None])
                idx = z3.simplify(p.f / w)
                e = None
                for x, i, j, d in reversed(runs):
                    t = z3.simplify(I(x) + (idx - i) * (d or 0))
                    e = t if e is None else If(idx <= j, t, e)
                return self.named(st, e)
            e = None
            for x, os_ in sorted(vals.items(), key=lambda kv: -len(kv[1])):
                e = I(x) if e is None else If(z3.Or([p.f == o for o in os_]), I(x), e)
            return e if e is not None else I(0)
        if ty[0] == 'ptr':
            eo, ef = I(0), I(0)
            for o in sorted(cells, reverse=True):
                t, v = cells[o]
                q = self.val(st, None, t, v)
                eo, ef = If(p.f == o, q.o, eo), If(p.f == o, q.f, ef)
            return Ptr(eo, ef)
        return self.fresh_of(st, ty, 'cg')

    def access_ok(self, st, p, n, what, write=False):
        c = conc(p.o)
        if c is not None and c in self.gname:
            g = self.mod.globals.get(self.gname[c])
            if g and g[0] is not None:
                goal = z3.And(p.f >= 0, p.f + n <= self.mod.size(g[0]))
                if write and g[2]:
                    goal = z3.BoolVal(False)
                if not self.implied(st, goal):
                    self.ob(st, 'memory', what + ' within the object', goal)
                return
        if self.ctid and c in self.ctid and not write:
            goal = z3.And(p.f >= 0, p.f + n <= (8 if c == self.ctid[0] else 768))
            if not self.implied(st, goal):
                self.ob(st, 'memory', what + ' of the character table within the table', goal)
            return
        goal = st.valid(p, n)
        if write and self.immut(st, p):
            goal = z3.BoolVal(False)
        if not self.implied(st, goal):
            self.ob(st, 'memory', what + ' within a live object', goal)

    def immut(self, st, p):
        return False

    def load(self, st, ty, p, check=True, what='read'):
        sz = self.mod.size(ty)
        if check:
            self.access_ok(st, p, sz, what)
        n = self.const_global(p)
        if n is not None:
            return self.const_load(st, ty, n, p)
        if self.ctid and conc(p.o) in self.ctid:
            if conc(p.o) == self.ctid[0]:
                return Ptr(self.ctid[1], 256)
            c = (p.f - 256) / 2
            g = ctype_groups()
            e = I(g[0][1])
            for lo, v in g[1:]:
                e = If(c < lo, e, I(v)) if False else If(c >= lo, I(v), e)
            return e
        ks = self.tkeys(ty)
        for k in ks:
            if k not in st.M:
                raise Unsupported('memory kind ' + k)
        if ty[0] == 'vec':
            return tuple(z3.simplify(st._c('f4', p, 4 * i)) for i in range(ty[1]))
        if ty[0] == 'ptr':
            return Ptr(self.named(st, z3.simplify(st._c('po', p))), self.named(st, z3.simplify(st._c('pf', p))))
        v = z3.simplify(st._c(ks[0], p))
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return v
        if ty[1] == 1:
            st.add(z3.Or(v == 0, v == 1))
            return v == 1
        if conc(v) is None:
            lo, hi = RANGE[ks[0]]
            st.add(v >= lo, v <= hi)
        return v

    def put(self, st, k, p, v):
        if k == 'p':
            self.put(st, 'po', p, v.o)
            return self.put(st, 'pf', p, v.f)
        A = st.M[k]
        st.M[k] = z3.Store(A, p.o, z3.Store(z3.simplify(z3.Select(A, p.o)), p.f, v))

    def store(self, st, ty, p, v, check=True, what='write'):
        sz = self.mod.size(ty)
        if check:
            self.access_ok(st, p, sz, what, write=True)
        if ty[0] == 'ptr':
            self.put(st, 'po', p, v.o)
            self.put(st, 'pf', p, v.f)
        elif ty[0] == 'vec':
            for i in range(ty[1]):
                self.put(st, 'f4', p + 4 * i, v[i])
        elif ty[0] == 'int' and ty[1] == 1:
            self.put(st, 'i8', p, If(v, I(1), I(0)))
        else:
            self.put(st, self.tkeys(ty)[0], p, v)

    def named(self, st, e):
        """a constant equal to e when e contains an if-then-else (not allowed in patterns)"""
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                if x.sort() == INNER or x.sort() == RINNER:
                    c = z3.Const('nm!%d' % next(self.cnt), x.sort())
                    st.add(c == e)
                    self.defs.append(c == e)
                    return c
                c = z3.Const('nm!%d' % next(self.cnt), e.sort())
                st.add(c == e)
                self.defs.append(c == e)
                return c
            if z3.is_store(x) or z3.is_select(x) or z3.is_arith(x):
                todo.extend(x.children())
        return e

    def set_inner(self, st, t, o, inner):
        st.M[t] = z3.Store(st.M[t], o, inner)

    def memcpy(self, st, d, s, n, check=True, what='memcpy'):
        cn = conc(n)
        if cn == 0:
            return
        if check:
            for p, w in ((s, False), (d, True)):
                c = conc(p.o)
                g = self.mod.globals.get(self.gname[c]) if c is not None and c in self.gname else None
                if g and g[0] is not None:
                    goal = z3.Or(n == 0, z3.And(p.f >= 0, p.f + n <= self.mod.size(g[0])))
                else:
                    goal = z3.Or(n == 0, st.valid(p, n))
                if not self.implied(st, goal):
                    self.ob(st, 'memory', '%s %s range within a live object' % (what, 'destination' if w else 'source'), goal)
        gn = self.const_global(s)
        if gn is not None:
            sb = self.cstring(s)
            if sb is not None and cn is not None and 'i8' in st.M:
                for k in range(cn):
                    self.put(st, 'i8', d + k, I(sb[k] - 256 if sb[k] > 127 else sb[k]))
                return
        if cn is not None and cn <= 16:
            W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'po': 8, 'pf': 8, 'd': 8, 'f4': 4, 'fx': 16}
            snap = dict(st.M)
            for t in st.M:
                w = W[t]
                for k in range(0, cn - w + 1, w):
                    v = z3.Select(z3.Select(snap[t], s.o), z3.simplify(s.f + k))
                    self.put(st, t, d + k, v)
            return
        for t in list(st.M):
            so = z3.Select(st.M[t], s.o)
            do = z3.Select(st.M[t], d.o)
            new = self.fresh_arr(t, False)
            st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(d.f <= f, f < d.f + n),
                                                            z3.Select(so, f - d.f + s.f), z3.Select(do, f)),
                          pats=lambda f: z3.Select(new, f)))
            self.set_inner(st, t, d.o, new)

    def memset(self, st, d, c, n, check=True):
        if check:
            goal = z3.Or(n == 0, st.valid(d, n))
            if not self.implied(st, goal):
                self.ob(st, 'memory', 'memset range within a live object', goal)
        cc = conc(c)
        whole = conc(d.f) == 0 and self.implied(st, st.sz(d.o) == n)
        for t in list(st.M):
            if cc == 0:
                zero = z3.RealVal(0) if t == 'd' else I(0)
                if whole:
                    self.set_inner(st, t, d.o, z3.K(IntS, zero))
                    continue
                val = zero
            elif t == 'i8':
                val = self.wrap(st, c, 8)
            else:
                val = None
            do = z3.Select(st.M[t], d.o)
            new = self.fresh_arr(t, False)
            if val is not None:
                st.add(forall(lambda f: z3.Select(new, f) == If(z3.And(d.f <= f, f < d.f + n), val, z3.Select(do, f)),
                              pats=lambda f: z3.Select(new, f)))
            else:
                st.add(forall(lambda f: Implies(Not(z3.And(d.f - 7 <= f, f < d.f + n)),
                                                z3.Select(new, f) == z3.Select(do, f)),
                              pats=lambda f: z3.Select(new, f)))
            self.set_inner(st, t, d.o, new)

    def alloc(self, st, n, zero=False, name='obj'):
        n = self.named(st, iv(n))
        o = self.fresh(name)
        st.add(o > self.NG, Not(st.live[o]), n >= 0, n < (1 << 56))
        st.live = z3.Store(st.live, o, True)
        st.size = z3.Store(st.size, o, n)
        for t in list(st.M):
            if zero:
                self.set_inner(st, t, o, z3.K(IntS, z3.RealVal(0) if t == 'd' else I(0)))
            else:
                self.set_inner(st, t, o, self.fresh_arr(t, False))
        return Ptr(o, 0)

    # ------------------------------------------------------------- CFG
    def loops_of(self, fn):
        if fn.name in self.loopinfo:
            return self.loopinfo[fn.name]
        succ = {}
        for b in fn.order:
            x = fn.blocks[b][-1]
            if x.op == 'br':
                succ[b] = [x.args[0]]
            elif x.op == 'condbr':
                succ[b] = [x.args[1], x.args[2]]
            elif x.op == 'switch':
                succ[b] = [x.args[1]] + [c[1] for c in x.args[2]]
            else:
                succ[b] = []
        pred = {b: [] for b in fn.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        color = {}
        back = []

        def dfs(u):
            stack = [(u, iter(succ[u]))]
            color[u] = 1
            while stack:
                x, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        back.append((x, s))
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    color[x] = 2
                    stack.pop()
        dfs(fn.order[0])
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(p for p in pred[x] if p in color)
        order = [b for b in fn.order if b in loops]
        r = (loops, {h: i for i, h in enumerate(order)})
        self.loopinfo[fn.name] = r
        return r

    def promotable(self, fn):
        key = ('prom', fn.name)
        if key in self.loopinfo:
            return self.loopinfo[key]
        al = {}
        for b in fn.blocks.values():
            for x in b:
                if x.op == 'alloca':
                    al[x.dst] = x
        bad = set()

        def use(v, ok=False):
            if v and v[0] == 'reg' and v[1] in al and not ok:
                bad.add(v[1])
            if v and v[0] in ('cgep',):
                use(v[2])
        for b in fn.blocks.values():
            for x in b:
                if x.op == 'load':
                    v = x.args[0]
                    if v[0] == 'reg' and v[1] in al and al[v[1]].ty != x.ty:
                        bad.add(v[1])
                elif x.op == 'store':
                    use(x.args[0])
                    v = x.args[1]
                    if v[0] == 'reg' and v[1] in al and al[v[1]].ty != x.ty:
                        bad.add(v[1])
                elif x.op == 'gep':
                    use(x.args[0])
                    for _, v in x.args[1]:
                        use(v)
                elif x.op == 'call':
                    use(x.args[0])
                    for a in x.args[1]:
                        use(a[1])
                elif x.op in ('icmp', 'fcmp'):
                    use(x.args[1])
                    use(x.args[2])
                elif x.op == 'bin':
                    use(x.args[2])
                    use(x.args[3])
                elif x.op == 'cast':
                    use(x.args[2])
                elif x.op == 'select':
                    for v in x.args:
                        use(v)
                elif x.op == 'phi':
                    for v, _ in x.args[0]:
                        use(v)
                elif x.op == 'ret':
                    if x.args[0]:
                        use(x.args[0])
                elif x.op == 'unsup':
                    for a in al:
                        if a in x.text:
                            bad.add(a)
        prom = {a: x for a, x in al.items() if a not in bad and x.ty[0] in ('int', 'ptr', 'double', 'float', 'x86_fp80')}
        self.loopinfo[key] = (al, prom)
        return al, prom

    def push_frame(self, st, fn, args, dst=None):
        fr = Frame()
        fr.fn = fn
        fr.regs = {}
        fr.loc = {}
        al, prom = self.promotable(fn)
        fr.allocas = {a: (x.ty,) for a, x in al.items()}
        fr.blk = fn.order[0]
        fr.idx = 0
        fr.prev = None
        fr.dst = dst
        fr.unroll = {}
        fr.names = {}
        fr.stackobjs = []
        fr.line = fn.line
        # names: from dbg.declare, pre-scan
        for b in fn.order:
            for x in fn.blocks[b]:
                if x.op == 'dbgname':
                    nm = x.args[1]
                    base = nm
                    k = 2
                    while nm in fr.names and fr.names[nm] != x.args[0]:
                        nm = '%s#%d' % (base, k)
                        k += 1
                    fr.names[nm] = x.args[0]
        for (n, t, bv), v in zip(fn.params, args):
            fr.regs[n] = v
        st.frames.append(fr)
        return fr

    # --------------------------------------------------------- execution
    def run(self, st, stop=None):
        """explore from st.  stop: None or (depth, header, bodyset): a loop being cut.
        returns list of (kind, st, payload): kind 'ret' (frame below `base` popped),
        'back' , 'exit'."""
        out = []
        work = [st]
        base = len(st.frames) if stop is None else stop[0]
        first = True
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exceeded while generating obligations')
            s = work.pop()
            res = self.step_path(s, base, stop, first)
            first = False
            for k, x, pl in res:
                if k == 'cont':
                    work.append(x)
                else:
                    out.append((k, x, pl))
            if len(out) + len(work) > 4000:
                raise Unsupported('too many paths')
        return out

    def goto(self, st, fr, tgt, stop):
        """transfer to block tgt. returns None to continue in st or list of results"""
        src = fr.blk
        # phis
        blk = fr.fn.blocks[tgt]
        vals = {}
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            x = blk[i]
            for v, b in x.args[0]:
                if b == src or (b == '%0' and src == fr.fn.order[0]):
                    vals[x.dst] = self.val(st, fr, x.ty, v)
                    break
            else:
                raise Unsupported('phi')
            i += 1
        fr.regs.update(vals)
        fr.prev = src
        fr.blk = tgt
        fr.idx = i
        if stop is not None and len(st.frames) == stop[0]:
            if tgt == stop[1]:
                return [('back', st, None)]
            if tgt not in stop[2]:
                return [('exit', st, None)]
        loops, order = self.loops_of(fr.fn)
        if tgt in loops:
            spec = self.loopspec(fr.fn.name, order[tgt])
            if spec is not None:
                return self.do_loop(st, fr, tgt, loops[tgt], order[tgt], spec, stop)
            c = fr.unroll.get(tgt, 0) + 1
            fr.unroll[tgt] = c
            if c > self.unroll:
                raise Unsupported('loop %d of %s has no invariant and no small constant bound' % (order[tgt], fr.fn.name))
        return None

    def loopspec(self, fn, k):
        n = fn.lstrip('@')
        c = self.contracts.get(n)
        if c and k in c.loops:
            return c.loops[k]
        return self.loops.get((n, k))

    def do_loop(self, st, fr, hdr, body, idx, spec, stop):
        depth = len(st.frames)
        entry = st.snap()
        fn = fr.fn.name.lstrip('@')
        A = self.cur_args if depth == 1 else None
        v0 = V(self, st, fr)
        if spec.ghost:
            spec.ghost(st, v0, A)
            entry = st.snap()
        lname = '%s.loop%d' % (fn, idx)
        for lab, f in self.lab(spec.inv(entry, st, v0, A)):
            self.ob(st, 'loop-inv-base', '%s invariant holds on entry: %s' % (lname, lab), f)
        mods = {'loc': set(), 'mem': {}, 'live': False, 'size': False, 'g': set()}
        obs0 = len(self.obs)
        al, prom = self.promotable(fr.fn)
        # locals stored in the body (static) - start from there, the rest is a dynamic fixpoint
        for b in body:
            for x in fr.fn.blocks[b]:
                if x.op == 'store' and x.args[1][0] == 'reg' and x.args[1][1] in prom:
                    mods['loc'].add(x.args[1][1])
        cbase = next(self.cnt)
        for rounds in range(12):
            del self.obs[obs0:]
            h = st.copy()
            hf = h.frames[-1]
            for a in sorted(mods['loc']):
                hf.loc[a] = self.fresh_of(h, prom[a].ty, 'L' + a.strip('%"'))
            for t, objs in mods['mem'].items():
                if objs == 'ALL':
                    h.M[t] = self.fresh_arr(t)
                else:
                    for o in objs:
                        h.M[t] = z3.Store(h.M[t], o, self.fresh_arr(t, False))
            if mods['live']:
                h.live = z3.Const('live!%d' % next(self.cnt), BOOLA)
                h.add(Not(h.live[0]))
            if mods['size']:
                h.size = z3.Const('size!%d' % next(self.cnt), INNER)
            for gname in mods['g']:
                old = h.g[gname]
                h.g[gname] = z3.FreshConst(old.sort(), 'g_' + gname)
            # drop regs defined inside the body
            vh = V(self, h, hf)
            for lab, f in self.lab(spec.inv(entry, h, vh, A)):
                h.add(f)
            head = h.snap()
            m0 = None
            if spec.measure:
                m0 = spec.measure(h, vh)
            hf.unroll = {k: c for k, c in hf.unroll.items() if k not in body}
            hcopy = h.copy()
            hf0 = hcopy.frames[-1]
            res = self.run(h, (depth, hdr, body))
            if spec.step or spec.leave:
                for kind, s, _ in res:
                    g = spec.step if kind == 'back' else spec.leave
                    if g and s.frames:
                        g(hcopy, s, V(self, hcopy, hf0), V(self, s, s.frames[-1]), A)
            changed = False
            for kind, s, _ in res:
                if kind == 'back':
                    f2 = s.frames[-1]
                    for a in prom:
                        if a in mods['loc']:
                            continue
                        x, y = f2.loc.get(a), hf0.loc.get(a)
                        if x is not y and not self.same(x, y):
                            mods['loc'].add(a)
                            changed = True
                    changed |= self.note_mods(mods, head, s, cbase)
            if not changed:
                break
        else:
            raise Unsupported('loop modification analysis did not converge')
        outs = []
        for kind, s, pl in res:
            if kind == 'back':
                vb = V(self, s, s.frames[-1])
                for lab, f in self.lab(spec.inv(entry, s, vb, A)):
                    self.ob(s, 'loop-inv-step', '%s invariant is preserved: %s' % (lname, lab), f)
                if m0 is not None:
                    m1 = spec.measure(s, vb)
                    self.ob(s, 'loop-variant', '%s variant decreases and is bounded' % lname,
                            z3.And(m1 < m0, m0 >= 0))
                self.paths += 1
            elif kind == 'exit':
                # leave the loop: honour the outer stop
                f2 = s.frames[-1]
                if stop is not None and len(s.frames) == stop[0]:
                    if f2.blk == stop[1]:
                        outs.append(('back', s, None))
                        continue
                    if f2.blk not in stop[2]:
                        outs.append(('exit', s, None))
                        continue
                loops, order = self.loops_of(f2.fn)
                if f2.blk in loops and f2.blk != hdr:
                    sp = self.loopspec(f2.fn.name, order[f2.blk])
                    if sp is not None:
                        outs.extend(self.do_loop(s, f2, f2.blk, loops[f2.blk], order[f2.blk], sp, stop))
                        continue
                outs.append(('cont', s, None))
            elif kind == 'retin':
                # returned out of the frame the loop lives in
                outs.append(('cont' if True else kind, s, pl))
            else:
                outs.append((kind, s, pl))
        return outs

    def same(self, x, y):
        if x is None or y is None:
            return x is y
        if isinstance(x, Ptr):
            return z3.eq(x.o, y.o) and z3.eq(x.f, y.f)
        return z3.eq(x, y)

    def note_mods(self, mods, head, s, cbase):
        ch = False

        def old_term(e):
            # all constants in e were created before the loop was reached
            st, seen = [e], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    m = re.search(r'!(\d+)$', x.decl().name())
                    if m and int(m.group(1)) >= cbase:
                        return False
                st.extend(x.children())
            return True
        for t in s.M:
            if z3.eq(s.M[t], head.M[t]) or mods['mem'].get(t) == 'ALL':
                continue
            e = s.M[t]
            objs = []
            ok = True
            while not z3.eq(e, head.M[t]):
                if z3.is_store(e):
                    idx = e.arg(1)
                    if not old_term(idx):
                        ok = False
                        break
                    objs.append(idx)
                    e = e.arg(0)
                else:
                    ok = False
                    break
            cur = mods['mem'].get(t, [])
            if not ok:
                mods['mem'][t] = 'ALL'
                ch = True
            else:
                for o in objs:
                    if not any(z3.eq(o, c) for c in cur):
                        cur = cur + [o]
                        ch = True
                mods['mem'][t] = cur
        if not mods['live'] and not z3.eq(s.live, head.live):
            mods['live'] = ch = True
        if not mods['size'] and not z3.eq(s.size, head.size):
            mods['size'] = ch = True
        for k in s.g:
            if k not in mods['g'] and not z3.eq(s.g[k], head.g[k]):
                mods['g'].add(k)
                ch = True
        return ch

    def lab(self, fs):
        out = []
        for i, f in enumerate(fs or []):
            if f is None or f is True:
                continue
            if isinstance(f, tuple):
                out.append(f)
            else:
                out.append(('#%d' % i, f))
        return out

    def step_path(self, st, base, stop, first):
        """run st until fork / end"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            x = blk[fr.idx]
            if x.line:
                fr.line = x.line
            fr.idx += 1
            op = x.op
            if op == 'alloca':
                al, prom = self.promotable(fr.fn)
                if x.dst in prom:
                    if x.dst not in fr.loc:
                        fr.loc[x.dst] = None
                else:
                    n = self.mod.size(x.ty)
                    if x.args[0] is not None:
                        n = iv(n) * self.val(st, fr, *x.args[0])
                    p = self.alloc(st, iv(n), name='stk' + x.dst.strip('%"'))
                    fr.regs[x.dst] = p
                    fr.stackobjs.append(p.o)
            elif op == 'dbgname' or op == 'nop':
                pass
            elif op == 'load':
                v = x.args[0]
                if v[0] == 'reg' and v[1] in fr.loc:
                    r = fr.loc[v[1]]
                    if r is None:
                        r = self.fresh_of(st, x.ty, 'uninit' + v[1].strip('%"'))
                        fr.loc[v[1]] = r
                    fr.regs[x.dst] = r
                else:
                    p = self.val(st, fr, ('ptr',), v)
                    fr.regs[x.dst] = self.load(st, x.ty, p)
            elif op == 'store':
                v = self.val(st, fr, x.ty, x.args[0])
                d = x.args[1]
                if d[0] == 'reg' and d[1] in fr.loc:
                    fr.loc[d[1]] = v
                else:
                    self.store(st, x.ty, self.val(st, fr, ('ptr',), d), v)
            elif op == 'gep':
                b = self.val(st, fr, ('ptr',), x.args[0])
                fr.regs[x.dst] = self.gep(st, fr, x.ty, b, x.args[1])
            elif op == 'icmp':
                fr.regs[x.dst] = self.icmp(st, fr, x)
            elif op == 'fcmp':
                pr, a, b = x.args
                a, b = self.val(st, fr, x.ty, a), self.val(st, fr, x.ty, b)
                c = {'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b, 'oeq': a == b,
                     'one': a != b, 'une': a != b, 'ueq': a == b, 'ult': a < b, 'ule': a <= b,
                     'ugt': a > b, 'uge': a >= b}[pr]
                fr.regs[x.dst] = c
            elif op == 'bin':
                o, fl, a, b = x.args
                fr.regs[x.dst] = self.binop(st, o, fl, self.val(st, fr, x.ty, a), self.val(st, fr, x.ty, b), x.ty)
            elif op == 'fneg':
                fr.regs[x.dst] = -self.val(st, fr, x.ty, x.args[0])
            elif op == 'cast':
                o, a, v = x.args
                fr.regs[x.dst] = self.cast(st, o, a, self.val(st, fr, a, v), x.ty)
            elif op == 'select':
                c, a, b = x.args
                c = self.val(st, fr, ('int', 1), c)
                a, b = self.val(st, fr, x.ty, a), self.val(st, fr, x.ty, b)
                if isinstance(a, Ptr):
                    fr.regs[x.dst] = Ptr(If(c, a.o, b.o), If(c, a.f, b.f))
                else:
                    fr.regs[x.dst] = If(c, a, b)
            elif op == 'phi':
                pass
            elif op == 'br':
                r = self.goto(st, fr, x.args[0], stop)
                if r is not None:
                    return r
            elif op == 'condbr':
                c = z3.simplify(self.val(st, fr, ('int', 1), x.args[0]))
                if z3.is_true(c) or z3.is_false(c):
                    r = self.goto(st, fr, x.args[1] if z3.is_true(c) else x.args[2], stop)
                    if r is not None:
                        return r
                    continue
                outs = []
                ft = self.feasible(st, c)
                ff = self.feasible(st, Not(c)) if ft else True
                for cond, tgt, ok in ((c, x.args[1], ft), (Not(c), x.args[2], ff)):
                    if not ok:
                        continue
                    s2 = st.copy() if (ft and ff) else st
                    s2.add(cond)
                    if ft and ff:
                        s2.trail = (s2.trail, fr.fn.name, fr.line, tgt)
                    f2 = s2.frames[-1]
                    r = self.goto(s2, f2, tgt, stop)
                    if r is not None:
                        outs.extend(r)
                    else:
                        outs.append(('cont', s2, None))
                return outs
            elif op == 'switch':
                v = self.val(st, fr, x.ty, x.args[0])
                outs = []
                rest = []
                for cv, tgt in x.args[2]:
                    n = x.ty[1]
                    cc = cv & ((1 << n) - 1)
                    if n != 64 and cc > RANGE['i%d' % n][1]:
                        cc -= 1 << n
                    cond = v == cc
                    rest.append(Not(cond))
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        s2.add(cond)
                        s2.trail = (s2.trail, fr.fn.name, fr.line, tgt)
                        r = self.goto(s2, s2.frames[-1], tgt, stop)
                        outs.extend(r if r is not None else [('cont', s2, None)])
                cond = z3.And(*rest) if rest else z3.BoolVal(True)
                if self.feasible(st, cond):
                    s2 = st
                    s2.add(cond)
                    r = self.goto(s2, s2.frames[-1], x.args[1], stop)
                    outs.extend(r if r is not None else [('cont', s2, None)])
                return outs
            elif op == 'ret':
                v = None
                if x.args[0] is not None:
                    v = self.val(st, fr, x.ty, x.args[0])
                for o in fr.stackobjs:
                    st.live = z3.Store(st.live, o, False)
                depth = len(st.frames)
                if stop is None and depth == base:
                    return [('ret', st, v)]
                if stop is not None and depth == stop[0] and depth == 1:
                    return [('ret', st, v)]
                # pop an inlined frame
                leaving_loop_frame = stop is not None and depth == stop[0]
                st.frames.pop()
                if fr.dst is not None:
                    st.frames[-1].regs[fr.dst] = v
                if leaving_loop_frame:
                    return [('retin', st, None)]
            elif op == 'unreachable':
                return []
            elif op == 'call':
                r = self.call(st, fr, x)
                if r is not None:
                    return [('cont', s, None) for s in r]
            else:
                raise Unsupported('instruction: ' + x.text[:80])

    def icmp(self, st, fr, x):
        pr, a, b = x.args
        a, b = self.val(st, fr, x.ty, a), self.val(st, fr, x.ty, b)
        if isinstance(a, Ptr):
            if pr == 'eq':
                return z3.simplify(a.eq(b))
            if pr == 'ne':
                return z3.simplify(a.ne(b))
            # ordering of pointers: same object
            self.ob(st, 'memory', 'compared pointers belong to one object', a.o == b.o)
            return {'ult': a.f < b.f, 'ule': a.f <= b.f, 'ugt': a.f > b.f, 'uge': a.f >= b.f,
                    'slt': a.f < b.f, 'sle': a.f <= b.f, 'sgt': a.f > b.f, 'sge': a.f >= b.f}[pr]
        n = x.ty[1]
        if n == 1:
            return a == b if pr == 'eq' else a != b
        if pr == 'eq':
            return a == b
        if pr == 'ne':
            return a != b
        if pr[0] == 'u':
            a, b = self.uview(st, a, n), self.uview(st, b, n)
        else:
            a, b = self.sview(st, a, n), self.sview(st, b, n)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]

    def call(self, st, fr, x):
        callee, args = x.args
        av = []
        for a in args:
            if a[0] == ('metadata',):
                av.append(None)
            else:
                av.append(self.val(st, fr, a[0], a[1]))
        name = None
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.val(st, fr, ('ptr',), callee)
            c = conc(p.o)
            if c is not None and c in self.gname and self.gname[c] in self.mod.funcs:
                name = self.gname[c]
            elif c is not None and c in self.gname and self.gname[c] in self.mod.decls:
                name = self.gname[c]
            else:
                # possibly a known function under the path condition
                for n in self.fptr_candidates:
                    if n in self.gid and self.implied(st, z3.And(p.o == self.gid[n], p.f == 0)):
                        name = n
                        break
                if name is None and self.fptr_candidates:
                    outs = []
                    rest = []
                    for n in self.fptr_candidates:
                        c = z3.And(p.o == self.gid[n], p.f == 0)
                        rest.append(Not(c))
                        if self.feasible(st, c):
                            s2 = st.copy()
                            s2.add(c)
                            s2.frames[-1].idx -= 1
                            outs.append(s2)
                    self.ob(st, 'memory', 'called function pointer is one of the installed methods', Not(z3.And(*rest)))
                    return outs
                if name is None:
                    if self.indirect is None:
                        raise Unsupported('indirect call')
                    self.ob(st, 'memory', 'called function pointer is not NULL', Not(p.null()))
                    r = self.indirect(self, st, p, av, x)
                    return self.finish_call(st, x, r)
        bare = name.lstrip('@')
        if bare.startswith('llvm.'):
            return self.intrinsic(st, fr, x, bare, av)
        if bare in self.before:
            self.before[bare](st, av, self.cur_args)
        if bare in self.models and (bare not in self.contracts or bare in self.override):
            r = self.models[bare](self, st, av, x)
            return self.finish_call(st, x, r)
        if bare in self.contracts and not self.contracts[bare].inline:
            return self.finish_call(st, x, self.apply_contract(st, self.contracts[bare], av, x))
        if name in self.mod.funcs:
            if any(f.fn.name == name for f in st.frames):
                raise Unsupported('recursion without contract: ' + bare)
            if len(st.frames) > 10:
                raise Unsupported('inlining too deep')
            self.inlined.add(bare)
            self.push_frame(st, self.mod.funcs[name], av, x.dst)
            return None
        raise Unsupported('call to %s: no contract, body or model' % bare)

    def finish_call(self, st, x, r):
        """r: None (void), a value, or list of (st, value)"""
        if isinstance(r, list):
            for s, v in r:
                if x.dst is not None:
                    s.frames[-1].regs[x.dst] = v
            return [s for s, v in r]
        if x.dst is not None:
            st.frames[-1].regs[x.dst] = r
        return None

    def intrinsic(self, st, fr, x, n, av):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if 'llvm.memcpy' in self.models:
                self.models['llvm.memcpy'](self, st, av, x)
                return None
            self.memcpy(st, av[0], av[1], av[2], what='memcpy')
            return None
        if n.startswith('llvm.memset'):
            self.memset(st, av[0], av[1], av[2])
            return None
        if n.startswith('llvm.lifetime') or n.startswith('llvm.va_') or n.startswith('llvm.dbg') \
                or n.startswith('llvm.stacksave') or n.startswith('llvm.stackrestore'):
            if x.dst is not None:
                st.frames[-1].regs[x.dst] = NULL
            return None
        raise Unsupported('intrinsic ' + n)

    def named_args(self, fn, av):
        d = ArgNS()
        for (n, t, bv), v in zip(fn.params, av):
            d.__dict__[n.strip('%"')] = v
        d._list = list(av)
        return d

    def apply_contract(self, st, c, av, x):
        fn = self.mod.funcs.get('@' + c.fn)
        A = self.named_args(fn, av) if fn else ArgNS(av)
        A._caller = self.cur
        for lab, f in self.lab(c.pre(st, A)):
            self.ob(st, 'requires', 'call to %s: %s' % (c.fn, lab), f)
        S0 = st.snap()
        for e in (c.mods(S0, A) if c.mods else []):
            self.havoc(st, e)
            if e[0] == 'heap':
                oom = z3.FreshConst(z3.BoolSort(), 'g_oom')
                st.add(Implies(st.g['oom'], oom))
                st.g['oom'] = oom
        if c.entry or c.ghost or c.before or any(l.ghost or l.step or l.leave for l in c.loops.values()):
            # ghosts a hook may have assigned do not survive the call unless listed
            named = {e[1] for e in (c.mods(S0, A) if c.mods else []) if e[0] == 'ghost'}
            for n, _ in c.ghosts:
                if n in st.g and n not in named:
                    self.havoc(st, ('ghost', n))
        ret = self.fresh_of(st, x.ty, 'ret_' + c.fn) if x.ty[0] != 'void' else None
        for lab, f in self.lab(c.post(S0, st, A, ret)):
            st.add(f)
        return ret

    @staticmethod
    def named_g(st, t):
        """a name for a ghost's new value"""
        c = z3.FreshConst(t.sort(), 'gh')
        st.add(c == t)
        return c

    def havoc(self, st, e):
        if e[0] == 'obj':
            ts = st.M.keys() if e[1] == '*' else [t for t in expand(e[1]) if t in st.M]
            o = self.named(st, e[2])
            for t in list(ts):
                self.set_inner(st, t, o, self.fresh_arr(t, False))
        elif e[0] == 'mem':
            ts = st.M.keys() if e[1] == '*' else [t for t in expand(e[1]) if t in st.M]
            for t in list(ts):
                st.M[t] = self.fresh_arr(t)
        elif e[0] == 'heap':
            st.live = z3.Const('live!%d' % next(self.cnt), BOOLA)
            st.size = z3.Const('size!%d' % next(self.cnt), INNER)
            st.add(Not(st.live[0]))
        elif e[0] == 'ghost':
            st.g[e[1]] = z3.FreshConst(st.g[e[1]].sort(), 'g_' + e[1])
        elif e[0] == 'cell':      # ('cell', type, ptr)
            for t in expand((e[1],)):
                v = z3.Real('h!%d' % next(self.cnt)) if t == 'd' else self.fresh('h')
                self.put(st, t, Ptr(self.named(st, e[2].o), self.named(st, e[2].f)), v)
        else:
            raise Unsupported('effect')

    # --------------------------------------------------- verify one function
    def verify(self, c, pre_only=False):
        """generate the obligations of contract c; returns list of Ob"""
        fn = self.mod.funcs.get('@' + c.fn)
        if fn is None:
            raise Unsupported('function %s not found in the unit' % c.fn)
        self.cur = c.fn
        self.before = c.before
        n0 = len(self.obs)
        st = self.init_state()
        av = []
        for n, t, bv in fn.params:
            av.append(self.fresh_of(st, t, 'a_' + n.strip('%"')))
        A = self.named_args(fn, av)
        A._caller = None
        self.cur_args = A
        for gname, sort in c.ghosts:
            st.g[gname] = z3.Const('g_%s!%d' % (gname, next(self.cnt)), sort)
        st.g['oom'] = z3.BoolVal(False)     # has an allocation failed during this call?
        for lab, f in self.lab(c.pre(st, A)):
            st.add(f)
        self.pre_facts = st.facts
        if c.entry:
            c.entry(st, A)
        S0 = st.snap()
        self.push_frame(st, fn, av)
        res = self.run(st)
        exits = 0
        self.exit_facts = []
        for kind, s, v in res:
            if kind != 'ret':
                raise Unsupported('path end ' + kind)
            exits += 1
            self.exit_facts.append(s.facts)
            if c.ghost:
                c.ghost(S0, s, A, v)
            base = s.facts
            goals = []
            self.defs = []
            for lab, f in self.lab(c.post(S0, s, A, v)):
                goals.append((lab, f))
            s.facts = base
            s.add(*self.defs)      # names for terms, nothing else
            base = s.facts
            if c.mods is not None:
                goals += self.frame_goals(S0, s, c.mods(S0, A))
            for lab, f in goals:
                s.facts = base
                self.ob(s, 'ensures', lab, f, line=s.frames[-1].line if s.frames else fn.line)
                if lab.startswith('lemma:'):        # an obligation of its own; what follows may use it
                    s.facts = base
                    s.add(f)
                    base = s.facts
        self.exits += exits
        self.paths += exits
        return self.obs[n0:]

    def frame_goals(self, S0, s, effs):
        out = []
        sk = self.fresh('frame_o')
        pre = [S0.alive(sk)]
        allmem = set()
        heap = False
        objs = {}
        cells = []
        for e in effs:
            if e[0] == 'mem':
                allmem |= set(s.M) if e[1] == '*' else set(expand(e[1]))
            elif e[0] == 'obj':
                for t in (s.M if e[1] == '*' else expand(e[1])):
                    objs.setdefault(t, []).append(e[2])
            elif e[0] == 'heap':
                heap = True
            elif e[0] == 'cell':
                cells.append(e)
        for t in s.M:
            if t in allmem or z3.eq(s.M[t], S0.M[t]):
                continue
            mine = [e for e in cells if t in expand((e[1],))]
            cond = pre + [sk != o for o in objs.get(t, [])] + [sk != e[2].o for e in mine]
            out.append(('frame: no other object of kind %s changes' % t,
                        Implies(z3.And(*cond), z3.Select(s.M[t], sk) == z3.Select(S0.M[t], sk))))
            if mine:
                sf = self.fresh('frame_f')
                for e in mine:
                    c2 = pre + [sk == e[2].o] + [sk != o for o in objs.get(t, [])] + \
                        [z3.Or(sk != q[2].o, sf != q[2].f) for q in mine]
                    out.append(('frame: no other cell of kind %s changes' % t,
                                Implies(z3.And(*c2), z3.Select(z3.Select(s.M[t], sk), sf) ==
                                        z3.Select(z3.Select(S0.M[t], sk), sf))))
        if not heap:
            if not z3.eq(s.live, S0.live):
                out.append(('frame: allocation state unchanged',
                            Implies(S0.alive(sk), s.alive(sk))))
            if not z3.eq(s.size, S0.size):
                out.append(('frame: object sizes unchanged', Implies(S0.alive(sk), s.sz(sk) == S0.sz(sk))))
        return out


def expand(ts):
    out = []
    for t in ts:
        if t == 'p':
            out += ['po', 'pf']
        else:
            out.append(t)
    return out


class ArgNS:
    def __init__(self, lst=None):
        if lst is not None:
            self._list = lst

    def __getitem__(self, i):
        return getattr(self, i) if isinstance(i, str) else self._list[i]


def has_ite(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo.extend(x.children())
    return False


def named_map(S, t):
    """the memory of kind t as a term that may occur in patterns"""
    m = S.M[t]
    if has_ite(m):
        c = z3.Const('nmM!%d' % next(S.eng.cnt), m.sort())
        S.add(c == m)
        S.eng.defs.append(c == m)
        return c
    return m


def others(SE, S, ts, objs):
    """objects other than these have the cells they had (for loops that write through moving pointers)"""
    out = []
    for t in expand(ts):
        if not z3.eq(SE.M[t], S.M[t]):
            m = named_map(S, t)
            out.append(forall(lambda o: Implies(z3.And(*[o != x for x in objs]), z3.Select(m, o) == z3.Select(SE.M[t], o)), pats=lambda o: z3.Select(m, o)))
    return z3.And(*out) if out else z3.BoolVal(True)


def olds(S0, S, ts=None):
    """objects that existed in S0 have the cells they had"""
    out = []
    for t in (expand(ts) if ts else list(S.M)):
        if not z3.eq(S0.M[t], S.M[t]):
            out.append(('old objects untouched: ' + t, forall(lambda o: Implies(S0.alive(o), z3.Select(S.M[t], o) == z3.Select(S0.M[t], o)), pats=lambda o: z3.Select(S.M[t], o))))
    return out


def induct(st, label, lo, hi, P, pats, hyp=()):
    """lemma by strong induction over the integers [lo, hi): raises the step obligation
    and then assumes forall i in [lo,hi). P(i)"""
    eng = st.eng
    i = eng.fresh('ind')
    facts0 = st.facts
    st.add(i >= lo, i < hi, forall(lambda j: Implies(z3.And(j >= lo, j < i), P(j)), pats=pats))
    eng.ob(st, 'lemma', 'induction step: ' + label, P(i))
    st.facts = facts0
    st.add(forall(lambda j: Implies(z3.And(j >= lo, j < hi), P(j)), pats=pats))


# ------------------------------------------------------------------ models
def m_nop0(eng, st, av, x):
    """logging: no effect on program state (errno preservation is property of log.c)"""
    if x.ty[0] == 'void':
        return None
    return eng.fresh_of(st, x.ty, 'log')


def fork_null(eng, st, mk):
    outs = []
    if eng.malloc_fail:
        s2 = st.copy()
        s2.g['oom'] = z3.BoolVal(True)
        outs.append((s2, NULL))
    p = mk(st)
    outs.append((st, p))
    return outs


def m_malloc(eng, st, av, x):
    n = av[0]
    return fork_null(eng, st, lambda s: eng.alloc(s, n))


def m_zalloc(eng, st, av, x):
    return fork_null(eng, st, lambda s: eng.alloc(s, av[0], zero=True))


def m_calloc(eng, st, av, x):
    n = av[0] * av[1]
    # calloc fails on overflow
    def mk(s):
        s.add(n < (1 << 64))
        return eng.alloc(s, n, zero=True)
    return fork_null(eng, st, mk)


def m_free(eng, st, av, x):
    p = av[0]
    outs = []
    nul = p.null()
    if eng.feasible(st, nul):
        s2 = st.copy()
        s2.add(nul)
        outs.append((s2, None))
    if eng.feasible(st, Not(nul)):
        st.add(Not(nul))
        eng.ob(st, 'memory', 'free: pointer is the start of a live heap object',
               z3.And(p.o > eng.NG, p.f == 0, st.alive(p.o)))
        st.live = z3.Store(st.live, p.o, False)
        outs.append((st, None))
    return outs


def m_realloc(eng, st, av, x):
    p, n = av
    outs = []
    s0 = st.copy()
    s0.g['oom'] = z3.BoolVal(True)
    outs.append((s0, NULL))          # failure: old block untouched
    nul = p.null()
    if eng.feasible(st, nul):
        s1 = st.copy()
        s1.add(nul)
        q = eng.alloc(s1, n)
        outs.append((s1, q))
    if eng.feasible(st, Not(nul)):
        s2 = st.copy()
        s2.add(Not(nul))
        eng.ob(s2, 'memory', 'realloc: pointer is the start of a live heap object',
               z3.And(p.o > eng.NG, p.f == 0, s2.alive(p.o)))
        old = {t: z3.Select(s2.M[t], p.o) for t in s2.M}
        osz = s2.sz(p.o)
        s2.live = z3.Store(s2.live, p.o, False)
        q = eng.alloc(s2, n)
        s2.add(q.o != p.o)
        for t in s2.M:
            new = z3.Select(s2.M[t], q.o)
            new = z3.simplify(new)
            o = old[t]
            s2.add(forall(lambda f: Implies(z3.And(f >= 0, f < osz, f < n), z3.Select(new, f) == z3.Select(o, f)),
                          pats=lambda f: z3.Select(new, f)))
        outs.append((s2, q))
    return outs


def m_memcpy(eng, st, av, x):
    eng.memcpy(st, av[0], av[1], av[2])
    return av[0]


def m_memset(eng, st, av, x):
    eng.memset(st, av[0], eng.wrap(st, av[1], 8), av[2])
    return av[0]


def str_at(st, p, n):
    """p is a C string of length n"""
    c = z3.Select(st.M['i8'], p.o)
    return z3.And(n >= 0, z3.Select(c, p.f + n) == 0,
                  forall(lambda k: Implies(z3.And(k >= p.f, k < p.f + n), z3.Select(c, k) != 0),
                         pats=lambda k: z3.Select(c, k)))


def m_strlen(eng, st, av, x):
    p = av[0]
    b = eng.cstring(p)
    if b is not None:
        return I(b.index(0))
    n = eng.fresh('strlen')
    ex = exists(lambda k: z3.And(k >= p.f, k < st.sz(p.o), st.i8(Ptr(p.o, k)) == 0))
    eng.ob(st, 'memory', 'strlen: argument is a NUL-terminated string',
           z3.And(st.valid(p, 1), ex))
    st.add(n >= 0, n < (1 << 63), p.f + n < st.sz(p.o), str_at(st, p, n))
    return n


def m_errno(eng, st, av, x):
    return eng.gptr('@__errno_location')


def m_ctype(eng, st, av, x):
    eng.assumed.add('isspace & co: the C locale')
    return eng.gptr('@__ctype_b_loc')


def m_tolower(eng, st, av, x):
    c = av[0]
    return eng.named(st, If(z3.And(c >= 65, c <= 90), c + 32, c))


def m_toupper(eng, st, av, x):
    c = av[0]
    return eng.named(st, If(z3.And(c >= 97, c <= 122), c - 32, c))


BUILTIN = {
    '__ctype_b_loc': m_ctype, 'tolower': m_tolower, 'toupper': m_toupper,
    '__errno_location': m_errno,
    'u_log_write_ex': m_nop0, 'u_console_write_ex': m_nop0, 'u_strerror_r': m_nop0,
    'u_malloc': m_malloc, 'u_zalloc': m_zalloc, 'u_calloc': m_calloc, 'u_free': m_free, 'u_realloc': m_realloc,
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen,
}


# ------------------------------------------------------------------ solving
def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    return [g]


def model_text(m):
    txt = []
    for d in m.decls():
        if d.arity() == 0 and (d.range() == IntS or d.range() == z3.BoolSort() or d.range() == z3.RealSort()):
            n = d.name()
            if n.startswith('a_') or n.startswith('L') or n.startswith('ret_'):
                txt.append('%s = %s' % (n, m[d]))
    return '\n'.join(sorted(txt)[:60])


EM = [('z3/ematch', {'mbqi': False}), ('z3/ematch-nonl', {'mbqi': False, 'arith.nl': False}),
      ('z3/ematch-arith2', {'mbqi': False, 'arith.solver': 2}), ('z3/mbqi', {})]


class Solver:
    """discharges the obligations of one function; neighbouring ones share an incremental
    solver, the others get the portfolio"""

    def __init__(self, tmo, seed):
        def mk():
            s = z3.SimpleSolver()
            s.set('timeout', 250)
            s.set('random_seed', seed)
            s.set('mbqi', False)
            return s
        self.mk = mk
        self.inc = Inc(mk, False)
        self.seed = seed

    def solve(self, facts, goal, tmo):
        if not z3.is_true(goal) and not z3.is_true(z3.simplify(goal)):
            if self.inc.check(facts, z3.Not(goal)) == z3.unsat:
                return 'proved', 'z3/ematch-inc', None
        else:
            return 'proved', 'simplify', None
        return solve_one(facts, goal, tmo, self.seed)


def solve_one(facts, goal, timeout_ms=20000, seed=1):
    """-> ('proved'|'refuted'|'unknown', backend, model-text)"""
    quant = None
    if isinstance(facts, Facts):
        quant = facts.anyq
        facts = Facts.tolist(facts)
    parts = conjuncts(goal)
    if len(parts) == 1:
        return solve_part(facts, goal, timeout_ms, seed, quant)
    be = 'simplify'
    for p in parts:
        r, b, m = solve_part(facts, p, timeout_ms, seed, quant)
        if r != 'proved':
            return r, b, m
        if b != 'simplify':
            be = b
    return 'proved', be, None


def solve_part(facts, goal, timeout_ms, seed, quant=None):
    if z3.is_true(goal):
        return 'proved', 'simplify', None
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplify', None
    if quant is None:
        quant = any(has_quant(f) for f in facts)
    quant = quant or has_quant(goal)
    if not quant:
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        s.add(*facts)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', model_text(s.model())
        return 'unknown', '', None
    # fewer hypotheses first: none with quantifiers, then none with more than one variable
    t0 = time.time()
    mine = roles(goal)
    tried = {len(facts)}
    for keep, ms in ((lambda f: not has_quant(f), 300), (lambda f: not has_quant(f) or roles(f) <= mine, 1500), (lambda f: max_vars(f) < 2, 600)):
        fs = [f for f in facts if keep(f)]
        if len(fs) not in tried:
            tried.add(len(fs))
            s = z3.SimpleSolver()
            s.set('timeout', ms)
            s.set('random_seed', seed)
            s.set('mbqi', False)
            s.add(*fs)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return 'proved', 'z3/ematch-few', None
    # portfolio with restarts: matching-based instantiation is very seed sensitive
    slot = 700
    rnd = 0
    late = [f for f in facts if has_quant(f)]
    late_at = {f.get_id(): i for i, f in enumerate(late)}
    while True:
        for name, o in EM:
            left = timeout_ms - (time.time() - t0) * 1000
            if left < 50:
                return 'unknown', '', None
            s = z3.SimpleSolver()
            s.set('timeout', int(min(slot, left)))
            s.set('random_seed', seed + rnd)
            for k, v in o.items():
                s.set(k, v)
            s.add(*facts)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved', name, None
            if r == z3.sat and name == 'z3/mbqi':
                return 'refuted', name, model_text(s.model())
            rnd += 1
        for part in (2, 3, 4):      # only the quantified hypotheses that came last
            nq = len(late) - len(late) // part
            s = z3.SimpleSolver()
            s.set('timeout', int(max(50, min(slot, timeout_ms - (time.time() - t0) * 1000))))
            s.set('random_seed', seed + rnd)
            s.set('mbqi', False)
            s.add(*[f for f in facts if f.get_id() not in late_at or late_at[f.get_id()] >= nq])
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return 'proved', 'z3/ematch-late', None
        slot *= 2
