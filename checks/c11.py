import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import kernel as KN
from checks import thresholds
from checks.kernel import T, K, P, W, KINDS, Region, I, mp, mpf, mpmath, lazy, delta, image_to_takum, tolerance
from checks.table import integer, nar_rows, NMIN, NMAX
from checks.contract import ASSUME, is_exact, name
from checks.driver import main, Job
from checks.common import HEAD, full, T as TN

RULE = ("integer_power and root are abstractly interpreted for every operand class and every parity class of the 64-bit "
        "exponent (strided boxes), for distinguished exponents (0, +-1, small, powers of two, INT64_MIN, INT64_MAX) and for every "
        "binade of exponents at structured operands; results have to lie in the image of the real function (sign by the parity of n, "
        "NaR exactly in the documented cases, saturation otherwise). t^1 = t and the first root are proved as identities over all t.")

EXPS = [NMIN, NMIN + 1, -(1 << 53) - 1, -(1 << 32) - 1, -(1 << 32), -(1 << 31), -65537, -255, -128, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5,
        6, 127, 128, 256, 257, 32768, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 3,
        (1 << 53) + 1, (1 << 62) + 1, NMAX - 1, NMAX]


def F(op, x, n):
    """real value for x > 0"""
    e = mpf(n) if op == "integer_power" else 1 / mpf(n)
    return mpmath.exp(K._e(e * mpmath.log(x)))


def exponent_cuts(prog, fn):
    ints, floats = thresholds.consts(prog, fn, KN.SKIP)
    out = set()
    for c in list(ints) + [int(q) for q in floats if abs(q) < 1 << 63]:
        for e in (c - 1, c, c + 1):
            for s in (e, -e):
                if NMIN <= s <= NMAX and s not in EXPS:
                    out.add(s)
    return sorted(out)[:120]


def regions(n, lin, op, tier, prog):
    mp.prec = KN.PREC
    fn = name("_linear" if lin else "", n, op)
    p = P(n)
    out = []
    # all classes of operands and exponents
    for r in integer(n, lin):
        if r.op != op:
            continue
        if r.kind == "nar":
            allow = [(p.NAR, p.NAR)]
        else:
            lo = -p.M if r.lo is None else T.rnd(r.lo, n, lin)
            hi = p.M if r.hi is None else T.rnd(r.hi, n, lin)
            if r.nz:
                lo, hi = (max(lo, 1), hi) if lo >= 0 else (lo, min(hi, -1))
            allow = [(lo, hi)]
        out.append(Region(fn, r.label, r.args, allow, affine=True))
    for r in nar_rows(n, lin, [], []):
        if r.op == op:
            out.append(Region(fn, r.label, r.args, [(p.NAR, p.NAR)], affine=True))
    # values
    pts = KN.few(n, lin)
    pts = pts if tier != "quick" else sorted(set(pts[::3]) | {1, p.M, p.O, p.O + 1})
    tol = tolerance(n)
    d = delta(lin)

    def one(t0, t1, n0, n1, label):
        # t > 0, n0..n1 of one sign
        xs = (T.val(t0, n, lin) * (1 - d), T.val(t1, n, lin) * (1 + d))
        ys = [F(op, x, e) for x in xs for e in {n0, n1}]
        return image_to_takum(min(ys), max(ys), n, lin, 0, mpf(2) ** -61, tol)
    exps = EXPS + exponent_cuts(prog, fn)
    if n > 8:
        pts = sorted(set(pts) | {t for t in thresholds.cuts(prog, fn, n, lin, skip=KN.SKIP) if t > 0})
    for t in pts:
        for e in exps:
            if e == 0:
                continue
            A, B = one(t, t, e, e, "")
            out.append(Region(fn, "t=%d, n=%d" % (t, e), [I(n, t), I(64, e)], [(A, B)]))
            if op == "integer_power":
                out.append(Region(fn, "t=%d, n=%d" % (-t, e), [I(n, -t), I(64, e)], [(-B, -A) if e % 2 else (A, B)]))
            elif e % 2:
                out.append(Region(fn, "t=%d, n=%d" % (-t, e), [I(n, -t), I(64, e)], [(-B, -A)]))
    for t in pts[::2] if tier == "quick" else pts:
        for k in range(2, 63, 3 if tier == "quick" else 1):
            for s in (1, -1):
                n0, n1 = (1 << k), (2 << (k + (1 if tier == "quick" else 0))) - 1
                n1 = min(n1, NMAX)
                if s < 0:
                    n0, n1 = -n1, -n0
                A, B = one(t, t, n0, n1, "")
                out.append(Region(fn, "t=%d, n in [%d,%d]" % (t, n0, n1), [I(n, t), I(64, n0, n1)], [(A, B)]))
    # operand cells with fixed exponents
    for t0, t1 in zip(pts, pts[1:]):
        for e in exps[1::2] if tier == "quick" else exps:
            if e == 0:
                continue
            A, B = one(t0, t1, e, e, "")
            out.append(Region(fn, "t in [%d,%d], n=%d" % (t0, t1, e), [I(n, t0, t1), I(64, e)], [(A, B)]))
    return out


def build(tier):
    src = HEAD
    jobs = []
    lim, per = (150, 25) if tier == "quick" else (600, 20)
    for n in (64, 32, 16, 8):
        for k in KINDS:
            for op in ("integer_power", "root"):
                jobs.append(Job(name(k, n, op), None, [], deadline=lim,
                                pyfn=lazy(lambda prog, n=n, k=k, op=op: regions(n, k != "", op, tier, prog), lim, per)))
                if n == 64 and k == "" and op == "integer_power":
                    continue
                f = "id_%s_%s%d" % (op, k, n)
                t = TN(k, n)
                src += "void %s(%s t) { CHECK(%s_%s(t, 1) == t); }\n" % (f, t, t, op)
                jobs.append(Job("%s_%s/identity" % (t, op), f, [full(n)]))
    return [("c11.c", src)], jobs


sys.exit(main("C11", build, RULE, libm=True, assumptions=ASSUME))
