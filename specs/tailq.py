"""A BSD tail queue of nodes inside head objects: ghost par[q] = the object whose queue q is in,
idx[q] = its position there, cnt[h] = the length of h's queue."""
from lvc.engine import *


def cell(S, o, f):
    return Ptr(z3.Select(S.inner('po', o), f), z3.Select(S.inner('pf', o), f))


def isp(p, o, f=0):
    return z3.And(p.o == o, p.f == f)


class TQ:
    def __init__(self, first, next_, size, G=('par', 'idx', 'cnt')):
        self.F, self.L, self.N, self.P, self.SZ = first, first + 8, next_, next_ + 8, size
        self.gp, self.gi, self.gc = G
        self.ghosts = tuple((g, INNER) for g in G)

    def par(self, S, q): return z3.Select(S.g[self.gp], q)
    def idx(self, S, q): return z3.Select(S.g[self.gi], q)
    def cnt(self, S, h): return z3.Select(S.g[self.gc], h)
    def first(self, S, h): return cell(S, h, self.F)
    def last(self, S, h): return cell(S, h, self.L)
    def next(self, S, q): return cell(S, q, self.N)
    def prev(self, S, q): return cell(S, q, self.P)

    def each(self, S, f):
        return forall(f, pats=lambda q: self.par(S, q))

    def inv(self, S, h, only=None):
        F, L, n = self.first(S, h), self.last(S, h), self.cnt(S, h)
        isin = lambda q: self.par(S, q) == h
        ix = lambda q: self.idx(S, q)
        A_ = lambda b: self.each(S, lambda q: Implies(isin(q), b(q)))
        nx, pv = (lambda q: self.next(S, q)), (lambda q: self.prev(S, q))
        return [('queue ends', z3.And(F.f == 0, n >= 0, If(n == 0, z3.And(F.o == 0, isp(L, h, self.F)),
                                                          z3.And(F.o != 0, isin(F.o), ix(F.o) == 0, isp(pv(F.o), h, self.F), L.f == self.N, isin(L.o), ix(L.o) == n - 1, isp(nx(L.o), 0))))),
                ('queue nodes', A_(lambda q: z3.And(q > S.eng.NG, q != h, S.alive(q), S.sz(q) == self.SZ, ix(q) >= 0, ix(q) < n))),
                ('queue: forward links', A_(lambda q: z3.And(nx(q).f == 0, If(ix(q) == n - 1, nx(q).o == 0, z3.And(nx(q).o != 0, isin(nx(q).o), isp(pv(nx(q).o), q, self.N), ix(nx(q).o) == ix(q) + 1))))),
                ('queue: back links', A_(lambda q: If(ix(q) == 0, isp(pv(q), h, self.F), z3.And(pv(q).f == self.N, isin(pv(q).o), isp(nx(pv(q).o), q), ix(pv(q).o) == ix(q) - 1)))),
                ('queue: one node per position', forall(lambda p, q: Implies(z3.And(isin(p), isin(q), ix(p) == ix(q)), p == q), n=2, pats=lambda p, q: z3.MultiPattern(self.par(S, p), self.par(S, q))))]

    def frame(self, S0, S, h, x):
        """links of nodes in other queues, ends of other queues"""
        return [('ends of other queues', forall(lambda o: Implies(o != h, z3.And(cell(S, o, self.F).eq(cell(S0, o, self.F)), cell(S, o, self.L).eq(cell(S0, o, self.L)))), pats=lambda o: S.inner('po', o))),
                ('links in other queues', forall(lambda o: Implies(z3.And(o != x, self.par(S0, o) != h), z3.And(cell(S, o, self.N).eq(cell(S0, o, self.N)), cell(S, o, self.P).eq(cell(S0, o, self.P)))), pats=lambda o: S.inner('po', o)))]
