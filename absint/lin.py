"""Affine forms  c + sum coef*atom  over bounded integer atoms (exact, unbounded integers)."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t if t else {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return self.c == o.c and self.t == o.t

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def is_const(self):
        return not self.t

    def __repr__(self):
        return "+".join([str(self.c)] + ["%d*a%d" % (k, a) for a, k in sorted(self.t.items())])


ZERO = Lin(0)
ONE = Lin(1)


def add(a, b):
    if not b.t:
        return Lin(a.c + b.c, a.t) if b.c else a
    if not a.t:
        return Lin(a.c + b.c, b.t)
    t = dict(a.t)
    for k, v in b.t.items():
        n = t.get(k, 0) + v
        if n:
            t[k] = n
        else:
            t.pop(k, None)
    return Lin(a.c + b.c, t)


def neg(a):
    return Lin(-a.c, {k: -v for k, v in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Lin(a.c * k, {x: v * k for x, v in a.t.items()})


def addc(a, c):
    return Lin(a.c + c, a.t) if c else a


def atom(i):
    return Lin(0, {i: 1})


def divexact(a, d):
    return Lin(a.c // d, {x: v // d for x, v in a.t.items()})


def content(a):
    g = abs(a.c)
    for v in a.t.values():
        g = gcd(g, v)
    return g


def subst(a, i, l):
    """replace atom i by affine form l"""
    k = a.t.get(i)
    if k is None:
        return a
    t = dict(a.t)
    del t[i]
    return add(Lin(a.c, t), scale(l, k))
