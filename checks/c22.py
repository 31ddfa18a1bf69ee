import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mpmath
from fractions import Fraction
from checks import kernel as KN
from checks import thresholds
from checks.kernel import T, P, W, KINDS, Region, I, mp, mpf, lazy, delta, image_to_takum, points
from checks.contract import ASSUME
from checks.driver import main, Job
from checks.common import HEAD
from checks.regions import Fc, Fi
from absint import fl

RULE = ("takumN_to_{float32,float64,extended_float}, takumN_from_{float32,float64,extended_float} and the eight-by-eight "
        "logarithmic/linear cross conversions are abstractly interpreted at structured operands (every regime, irregular and extreme "
        "mantissas; every binade and irregular significands for floats; all operands of the 8-bit types) and on the cells between "
        "them. Results have to lie within 4 ulp of (-1)^S sqrt(e)^l for float32 and float64 (relative 2^-56 for long double) in the "
        "normal range of the float, and within one unit (1.5 in 64-bit types) of the exact value's takum. The round trip "
        "takum -> long double -> takum has to give the operand itself at every point (all operands for 8 and 16 bits)")

FT = (("float32", "float", mpf(2) ** -22), ("float64", "double", mpf(2) ** -51), ("extended_float", "x86_fp80", mpf(2) ** -56))
TOL = {8: mpf("1.01"), 16: mpf("1.01"), 32: mpf("1.01"), 64: mpf("1.5")}


def frange(ty, lo, hi, rel):
    """allowed results for the exact interval [lo, hi], both ends of one sign"""
    lo, hi = lo - abs(lo) * rel, hi + abs(hi) * rel
    mx, mn, ms = (mp.make_mpf(g(ty)) for g in (fl.maxfin, fl.minnorm, fl.minsub))
    a = {"rng": []}
    sg = 1 if lo > 0 else -1
    l, h = (lo, hi) if sg > 0 else (-hi, -lo)
    if h > mx:
        a["inf+" if sg > 0 else "inf-"] = True
    if l < mn:
        l -= 2 * ms
        h = h + 2 * ms if h < mn else h
        a["zero"] = True
        # the sign is kept: at least no result of the other sign
        l = max(l, mpf(0))
    lo, hi = (l, h) if sg > 0 else (-h, -l)
    a["rng"] = [(lo._mpf_, hi._mpf_)]
    return a


def grid(n, dense):
    p = P(n)
    if n == 8:
        return list(range(1, p.M + 1))
    if n == 16 and dense:
        return sorted(set(points(n, False, 2)) | set(range(1, p.M + 1, 37)))
    return points(n, False, 2)


def cuts(prog, fn, n, lin):
    """positive operand cuts at the compared constants"""
    return {abs(t) for t in thresholds.cuts(prog, fn, n, lin)} if n > 8 else set()


def to_float(n, nm, ty, rel, dense, prog):
    mp.prec = KN.PREC
    fn = "takum%d_to_%s" % (n, nm)
    pts = sorted(set(grid(n, dense)) | cuts(prog, fn, n, False))
    v = {t: T.val(t, n, False) for t in pts}
    out = []
    for s in (1, -1):
        for t in pts:
            x = s * v[t]
            out.append(Region(fn, "at %d" % (s * t), [I(n, s * t)], frange(ty, x, x, rel)))
        for t, u in zip(pts, pts[1:]):
            if u > t + 1:
                lo, hi = sorted((s * v[t], s * v[u]))
                out.append(Region(fn, "in [%d,%d]" % tuple(sorted((s * t, s * u))), [I(n, *sorted((s * t, s * u)))], frange(ty, lo, hi, rel)))
    return out


def floats(ty, dense, extra=()):
    """positive floats m*2^e as (m, e), m an integer significand of the full width"""
    p, emin, emax = fl.FMT[ty]
    es = sorted(set(range(max(emin, -190), min(emax, 190) + 1, 1 if dense else 3)) | {emin, emin + 1, emax - 1, emax, -200, 200, -1, 0, 1})
    out = set()
    for e in es:
        if not emin <= e <= emax:
            continue
        k = p - 1
        for m in (1 << k, (1 << k) + 1, (1 << p) - 1, 1 << k | 0xb3a91c6e4f12d785 * 0x9e3779b97f4a7c15 * (e + 999) >> 5 & ((1 << k) - 1)):
            out.add((m, e - k))
    # the compared constants
    for f in extra:
        x = abs(mpf(f.numerator) / f.denominator)
        for y in (x, mpmath.exp(x / 2), mpmath.exp(-x / 2)) if x < 256 else (x,):
            e = int(mpmath.frexp(y)[1]) - 1
            if emin <= e <= emax:
                m = int(mpmath.floor(mpmath.ldexp(y, p - 1 - e)))
                for d in (-1, 0, 1, 2):
                    if (1 << (p - 1)) <= m + d < (1 << p):
                        out.add((m + d, e - (p - 1)))
    # subnormals
    q = emin - (p - 1)
    for m in (1, 3, 1 << (p - 2), (1 << (p - 1)) - 1):
        out.add((m, q))
    return sorted(out, key=lambda x: mpmath.ldexp(mpf(x[0]), x[1]))


def from_float(n, nm, ty, dense, prog):
    mp.prec = KN.PREC
    fn = "takum%d_from_%s" % (n, nm)
    tol = TOL[n]
    ints, fls = thresholds.consts(prog, fn)
    fs = floats(ty, dense, sorted(fls | {Fraction(c) for c in ints if 2 < abs(c) < 1 << 20})[:80])
    out = []
    for s in (1, -1):
        prev = None
        for m, e in fs:
            x = mpmath.ldexp(mpf(m), e)
            A, B = image_to_takum(s * x, s * x, n, False, 0, 0, tol)
            out.append(Region(fn, "at %s%d*2^%d" % ("-" if s < 0 else "", m, e), [Fc(ty, s * m, e)], [(A, B)]))
            if prev is not None:
                lo, hi = sorted((s * prev, s * x))
                A, B = image_to_takum(lo, hi, n, False, 0, 0, tol)
                out.append(Region(fn, "in [%s,%s]" % (mpmath.nstr(lo, 12), mpmath.nstr(hi, 12)), [Fi(ty, lo._mpf_, hi._mpf_)], [(A, B)]))
            prev = x
    return out


def cross(n, flin, m, dense, prog):
    """takum{_linear}m from takum{_linear}n of the other kind"""
    mp.prec = KN.PREC
    a, b = ("_linear", "") if flin else ("", "_linear")
    fn = "takum%s%d_from_takum%s%d" % (b, m, a, n)
    tol = TOL[m]
    pts = grid(n, dense) if dense else points(n, flin, 1)
    pts = sorted(set(pts) | cuts(prog, fn, n, flin))
    v = {t: T.val(t, n, flin) for t in pts}
    # the operand as a long double: a linear one is exact, a logarithmic one a rounded power
    d = mpf(2) ** -63 if flin else mpf(2) ** -56
    out = []
    for s in (1, -1):
        for i, t in enumerate(pts):
            x = s * v[t]
            A, B = image_to_takum(x, x, m, not flin, 0, d, tol)
            out.append(Region(fn, "at %d" % (s * t), [I(n, s * t)], [(A, B)]))
            if i + 1 < len(pts) and pts[i + 1] > t + 1:
                u = pts[i + 1]
                lo, hi = sorted((x, s * v[u]))
                A, B = image_to_takum(lo, hi, m, not flin, 0, d, tol)
                out.append(Region(fn, "in [%d,%d]" % tuple(sorted((s * t, s * u))), [I(n, *sorted((s * t, s * u)))], [(A, B)]))
    out.append(Region(fn, "zero", [I(n, 0)], [(0, 0)]))
    out.append(Region(fn, "NaR", [I(n, P(n).NAR)], [(P(m).NAR, P(m).NAR)]))
    return out


def trip(n, dense, prog):
    p = P(n)
    fn = "trip%d" % n
    pts = list(range(1, p.M + 1, 1 if n == 8 or dense else 5)) if n <= 16 else points(n, False, 2)
    pts = sorted(set(pts) | cuts(prog, fn, n, False))
    out = []
    for t in pts:
        for s in (1, -1):
            out.append(Region(fn, "at %d" % (s * t), [I(n, s * t)], [(s * t, s * t)]))
    out.append(Region(fn, "zero", [I(n, 0)], [(0, 0)]))
    out.append(Region(fn, "NaR", [I(n, p.NAR)], [(p.NAR, p.NAR)]))
    return out


def build(tier):
    dense = tier != "quick"
    lim, per = (120, 4) if tier == "quick" else (600, 10)
    src = HEAD
    jobs = []
    for n in W:
        if n < 64:
            src += ("takum%(n)d trip%(n)d(takum%(n)d t) { return takum%(n)d_from_extended_float(takum%(n)d_to_extended_float(t)); }\n"
                    % dict(n=n))
            jobs.append(Job("takum%d_to_extended_float/round trip" % n, None, [], deadline=lim, pyfn=lazy(lambda prog, n=n: trip(n, dense, prog), lim, per)))
        for nm, ty, rel in FT:
            jobs.append(Job("takum%d_to_%s" % (n, nm), None, [], deadline=lim,
                            pyfn=lazy(lambda prog, n=n, nm=nm, ty=ty, rel=rel: to_float(n, nm, ty, rel, dense, prog), lim, per)))
            jobs.append(Job("takum%d_from_%s" % (n, nm), None, [], deadline=lim,
                            pyfn=lazy(lambda prog, n=n, nm=nm, ty=ty: from_float(n, nm, ty, dense, prog), lim, per)))
        for m in W:
            for flin in (False, True):
                a, b = ("_linear", "") if flin else ("", "_linear")
                jobs.append(Job("takum%s%d_from_takum%s%d" % (b, m, a, n), None, [], deadline=lim,
                                pyfn=lazy(lambda prog, n=n, m=m, flin=flin: cross(n, flin, m, dense, prog), lim, per)))
    return [("c22.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C22", build, RULE, level="other", libm=True, assumptions=ASSUME))
