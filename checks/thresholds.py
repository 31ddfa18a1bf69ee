"""Threshold partitioning: the constants that the code compares against, as further cuts of the operand axis.

An operation that singles out part of its domain does so with a comparison; a cell boundary on either side of the compared
constant keeps the branch from being joined with the ordinary path.
"""
import re
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from absint import irparse as IR
from spec import takum as T


def const_int(o):
    return o[1] if isinstance(o, tuple) and o and o[0] == "int" else None


def const_float(o):
    """non-zero finite constant as a fraction"""
    if isinstance(o, tuple) and o and o[0] == "flt" and isinstance(o[1], tuple) and o[1][0] == "num":
        m, e = o[1][1], o[1][2]
        return Fraction(m) * (Fraction(2) ** e)
    return None


def reach(prog, fn):
    """functions reachable from fn"""
    f0 = prog.ext.get(fn)
    if f0 is None:
        return []
    mod = getattr(prog, "_modof", None)
    if mod is None:
        mod = prog._modof = {id(f): m for m in prog.mods for f in m.funcs.values()}
    seen, todo, out = set(), [f0], []
    while todo:
        f = todo.pop()
        if id(f) in seen or not f.blocks:
            continue
        seen.add(id(f))
        out.append(f)
        m = mod.get(id(f))
        for b in f.blocks.values():
            for ins in b:
                cand = []
                if ins.op == "call":
                    cand = [ins.a[0]] + [x[1] for x in ins.a[1]]
                for o in cand:
                    if isinstance(o, tuple) and o and o[0] == "glob":
                        g = prog.resolve(o[1], m) if m else prog.ext.get(o[1])
                        if g is not None:
                            todo.append(g)
    return out


def consts(prog, fn, skip=()):
    """(signed integers, fractions) compared against in fn and its callees"""
    ints, floats = set(), set()
    for f in reach(prog, fn):
        if (f.file or "").split("/")[-1] in skip:
            continue
        for b in f.blocks.values():
            for ins in b:
                if ins.op in ("icmp", "fcmp"):
                    for o in ins.a[1:3]:
                        v = const_int(o)
                        if v is not None:
                            ints.add(v)
                        v = const_float(o)
                        if v is not None:
                            floats.add(v)
                elif ins.op == "switch":
                    for c in ins.a[2]:
                        v = c[0] if isinstance(c[0], int) else const_int(c[0])
                        if v is not None:
                            ints.add(v)
    return ints, floats


def around(x, out, M):
    """the takums next to coordinate x, of both signs"""
    b = int(mpmath.floor(x))
    for t in (b - 1, b, b + 1, b + 2):
        for s in (t, -t):
            if 1 <= abs(s) <= M:
                out.add(s)


def cuts(prog, fn, n, lin, F=None, axis=None, vals=None, limit=60, skip=()):
    """operand cuts (signed takums) at the compared constants: read as bit strings, as values, as logarithmic values and as
    results of F"""
    ints, floats = consts(prog, fn, skip)
    M = (1 << (n - 1)) - 1
    out = set()
    for c in ints:
        if c > M:
            c -= 1 << n
        if -M <= c <= M and abs(c) > 2:
            for t in (c - 1, c, c + 1):
                for s in (t, -t):
                    if 1 <= abs(s) <= M:
                        out.add(s)
    fl = sorted(floats | {Fraction(c) for c in ints if 2 < abs(c) < 1 << 20}, key=lambda q: (abs(q), q))
    if len(fl) > limit:
        fl = fl[:limit]
    for q in fl:
        x = mpf(q.numerator) / q.denominator
        around(abs(T.coord(abs(x), n, lin)), out, M)
        if abs(x) < 256:
            around(abs(T.coord(mpmath.exp(abs(x) / 2), n, lin)), out, M)
            around(abs(T.coord(mpmath.exp(-abs(x) / 2), n, lin)), out, M)
        if F is not None and axis:
            for u, v in zip(axis, axis[1:]):
                fu, fv = F(u), F(v)
                if fu is None or fv is None:
                    continue
                for y in (x, -x):
                    if (fu - y) * (fv - y) < 0:
                        lo, hi, rising = u, v, fv > fu
                        while hi - lo > 1:
                            m = (lo + hi) // 2
                            fm = F(m)
                            if fm is None:
                                break
                            if (fm < y) == rising:
                                lo = m
                            else:
                                hi = m
                        for t in (lo - 1, lo, hi, hi + 1):
                            if 1 <= abs(t) <= M:
                                out.add(t)
    return out
