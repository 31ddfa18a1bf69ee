"""C17: every operation evaluates its own real function on its operands, at the precision of the type.

The operand axis of each type is cut at structured points (every regime, mantissas 0, all ones and alternating); for each
point and each cell between neighbouring points the abstract result has to lie within the image of the real function over
the (slightly perturbed) points or cell, plus the rounding tolerance.
"""
import sys, os, time, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mpmath
from mpmath import mp, mpf
from spec import takum as T
from spec import kernels as K
from checks.regions import Region, I, run_regions, Job, known_entries
from checks.common import W, KINDS
from checks.table import P
from checks import thresholds

PREC = 320


def delta(lin):
    """operand perturbation granted to the long double intermediate; a logarithmic takum is the power of a rounded sqrt(e),
    whose relative error grows with |l| <= 255"""
    return mpf(2) ** (-60 if lin else -56)


SLACK = {"2_raised_minus_1": mpf(2) ** -59, "10_raised_minus_1": mpf(2) ** -59}
DOUBLE_KERNEL = {"arcoth": mpf(2) ** -48, "arcsch": mpf(2) ** -48}


def points(n, lin, dense=1):
    """structured positive takums"""
    p = P(n)
    if n == 8:
        return list(range(1, p.M + 1))
    out = {1, 2, 3, p.O - 1, p.O, p.O + 1, p.M - 1, p.M, p.M - 2}
    for dr in range(16):
        r = dr - 8 if dr >= 8 else 7 - dr
        mb = n - 5 - r
        for cf in ({0, (1 << r) - 1} if dense < 2 else {0, (1 << r) // 3, (1 << r) // 2, (1 << r) - 1}):
            base = (dr << r | cf) << mb
            ms = [0, (0xb3a91c6e4f12d785 ^ dr * 0x9e3779b97f4a7c15) & ((1 << mb) - 1), (1 << mb) - 1, 1, 0x5555555555555555 & ((1 << mb) - 1)]
            for m in ms if dense > 1 else ms[:2] if cf else ms[:3]:
                out.add(base + m)
    return sorted(x for x in out if 1 <= x <= p.M)


def perturb(x, d):
    return [x * (1 - d), x, x * (1 + d)]


def clampdom(x, dom):
    lo, hi = dom
    return max(lo, min(hi, x))


def image_to_takum(lo, hi, n, lin, slack, rel, tol):
    """takum interval for the real interval [lo, hi]"""
    p = P(n)
    lo -= slack + abs(lo) * rel
    hi += slack + abs(hi) * rel
    a = T.coord(lo, n, lin) if lo != 0 else mpf(0)
    b = T.coord(hi, n, lin) if hi != 0 else mpf(0)
    A = int(mpmath.ceil(a - tol))
    B = int(mpmath.floor(b + tol))
    A = max(-p.M, min(p.M, A))
    B = max(-p.M, min(p.M, B))
    # saturation never crosses zero
    if lo > 0:
        A = max(A, 1)
        B = max(B, 1)
    if hi < 0:
        B = min(B, -1)
        A = min(A, -1)
    return A, B


def tolerance(n):
    return mpf(2) if n == 64 else mpf("1.02")


SKIP = ("codec.c", "conversion.c", "util.c")  # decided by C07-C10 and C22


def unary_cuts(prog, n, lin, op, pts):
    """operand cuts at the constants the operation's own code compares against"""
    F, doms, pieces = K.U[op]
    mp.prec = PREC
    axis = [-t for t in reversed(pts)] + [0] + pts
    memo = {}

    def at(t):
        if t not in memo:
            x = T.val(t, n, lin)
            try:
                memo[t] = F(x) if any(a <= x <= b for a, b in pieces) else None
            except Exception:
                memo[t] = None
            if memo[t] is not None and not isinstance(memo[t], mpf):
                try:
                    memo[t] = mpf(memo[t])
                except Exception:
                    memo[t] = None
        return memo[t]
    return thresholds.cuts(prog, "takum%s%d_%s" % ("_linear" if lin else "", n, op), n, lin, at, axis, skip=SKIP)


def unary_regions(n, lin, op, dense=1, strict=False, prog=None):
    """regions of one unary operation"""
    DELTA = delta(lin)
    p = P(n)
    F, doms, pieces = K.U[op]
    tol = tolerance(n)
    slack = SLACK.get(op, mpf(0))
    rel = DOUBLE_KERNEL.get(op, mpf(0)) if n == 64 and not strict else mpf(0)
    d = max(DELTA, DOUBLE_KERNEL[op]) if op in DOUBLE_KERNEL and not strict else DELTA
    exact = op in ("absolute", "sign", "inversion")
    k = "takum%s%d" % ("_linear" if lin else "", n)
    fn = k + "_" + op
    pts = points(n, lin, dense)
    axis = [-t for t in reversed(pts)] + [0] + pts
    mp.prec = PREC
    if prog is not None and n > 8:
        axis = sorted(set(axis) | unary_cuts(prog, n, lin, op, pts))
    vals = {t: T.val(t, n, lin) for t in axis}
    out = []

    def dom_of(x, y):
        for lo, hi in doms:
            if lo <= x and y <= hi:
                return lo, hi
        return None
    def singular(x):
        """end points at which F is infinite or undefined"""
        if doms is K.NEGPOS and x == 0:
            return True
        if op in ("ln", "lb", "lg", "arsech", ) and x == 0:
            return True
        if op in ("artanh",) and abs(x) == 1:
            return True
        if op == "arcoth" and abs(x) == 1:
            return True
        if op.endswith("1_plus") and x == -1:
            return True
        return False

    def ev(x):
        return F(x)
    per = op in K.PERIODIC
    pi_t = op.endswith("pi_times")
    for t in axis:
        x = vals[t]
        dm = dom_of(x, x)
        if dm is None or singular(x):
            continue
        if per and x != 0:
            if abs(x) > mpf(2) ** 40:
                continue
            if pi_t:
                fr = abs(x * 2 - mpmath.nint(x * 2))
                if fr < abs(x) * mpf(2) ** -56:
                    continue
            else:
                q = x / K.h
                if abs(q - mpmath.nint(q)) < abs(q) * mpf(2) ** -56:
                    continue
        ys = []
        for z in perturb(x, d) if x != 0 else [x]:
            z = clampdom(z, dm)
            if singular(z):
                # the perturbed operand reaches a pole: unbounded on that side
                ys = None
                break
            ys.append(ev(z))
        if ys is None:
            continue
        A, B = image_to_takum(min(ys), max(ys), n, lin, slack, rel, tol)
        out.append(Region(fn, "at %d" % t, [I(n, t)], [(A, B)]))
    for t, u in zip(axis, axis[1:]):
        if u == t + 1:
            continue
        x, y = vals[t], vals[u]
        dm = dom_of(x, y)
        if dm is None or singular(x) or singular(y):
            continue
        lo, hi = x * (1 - d) if x > 0 else x * (1 + d), y * (1 + d) if y > 0 else y * (1 - d)
        lo, hi = clampdom(lo, dm), clampdom(hi, dm)
        if singular(lo) or singular(hi):
            continue
        if not any(a <= lo and hi <= b for a, b in pieces):
            continue
        ys = [ev(lo), ev(hi)]
        A, B = image_to_takum(min(ys), max(ys), n, lin, slack, rel, tol)
        out.append(Region(fn, "in [%d,%d]" % (t, u), [I(n, t, u)], [(A, B)]))
    return out


def few(n, lin):
    """points for the operand pairs"""
    p = P(n)
    s = {1, p.M, p.O, p.O + 1, p.O - 1}
    for dr in range(0, 16):
        r = dr - 8 if dr >= 8 else 7 - dr
        mb = n - 5 - r
        if mb < 0:
            s.add(max(1, (dr << r) >> -mb))
        else:
            s.add((dr << r) << mb)
            if dr in (4, 7, 8, 9, 11):
                s.add((dr << r) << mb | (0x5c3a91b7e4d28f60 & ((1 << mb) - 1)))
    return sorted(x for x in s if 1 <= x <= p.M)


def corners(op, x0, x1, y0, y1, d):
    """real interval containing op over the perturbed box, None when it is outside the domain or not monotone"""
    def w(a, b):
        return (a * (1 - d) if a > 0 else a * (1 + d)), (b * (1 + d) if b > 0 else b * (1 - d))
    x0, x1 = w(x0, x1)
    y0, y1 = w(y0, y1)
    f = K.B[op]
    if op == "division" and y0 <= 0 <= y1:
        return None
    if op == "hypotenuse":
        if x0 < 0 < x1 or y0 < 0 < y1:
            return None
    if op == "power":
        if x0 <= 0:
            return None
    if op.startswith("arctan2"):
        if (x0 <= 0 <= x1) or (y0 <= 0 <= y1):
            return None
    vs = [f(a, b) for a in {x0, x1} for b in {y0, y1}]
    return min(vs), max(vs)


def binary_regions(n, lin, op, dense=1, prog=None):
    DELTA = delta(lin)
    mp.prec = PREC
    k = "takum%s%d" % ("_linear" if lin else "", n)
    fn = k + "_" + op
    p = P(n)
    pts = few(n, lin)
    if dense < 2:
        sub = sorted(set(pts[::3]) | {1, p.O, p.M}) if len(pts) > 16 else pts
    else:
        sub = pts
    axis = [-t for t in reversed(pts)] + [0] + pts
    saxis = [-t for t in reversed(sub)] + [0] + sub
    extra = thresholds.cuts(prog, fn, n, lin, skip=SKIP) if prog is not None and n > 8 else set()
    vals = {t: T.val(t, n, lin) for t in set(axis) | set(saxis) | extra}
    tol = tolerance(n)
    out = []
    sp = pts if dense > 1 else [t for i, t in enumerate(sub) if i % 2 == 0 or t in (p.O, p.M)]
    paxis = [-t for t in reversed(sp)] + sp
    pairs = [(a, b) for a in paxis for b in paxis]
    ex = sorted(extra - set(paxis))
    part = [p.O, p.O + (5 << max(0, n - 9)), p.M // 3, p.M - p.M // 3 * 2 // 3, -p.O, -p.M // 3, 1, p.M] + ex
    for a in ex:
        for b in part:
            if b not in vals:
                vals[b] = T.val(b, n, lin)
            pairs += [(a, b), (b, a)]
    for a, b in dict.fromkeys(pairs):
        if True:
            x, y = vals[a], vals[b]
            if x == 0 or y == 0:
                continue
            if op == "power" and (x < 0 or x == 0):
                continue
            c = corners(op, x, x, y, y, DELTA)
            if c is None:
                continue
            A, B = image_to_takum(c[0], c[1], n, lin, 0, 0, tol)
            out.append(Region(fn, "at %d,%d" % (a, b), [I(n, a), I(n, b)], [(A, B)]))
    cells = [(a, b) for a, b in zip(saxis, saxis[1:]) if b > a + 1]
    for a0, a1 in cells:
        for b0, b1 in cells:
            c = corners(op, vals[a0], vals[a1], vals[b0], vals[b1], DELTA)
            if c is None:
                continue
            A, B = image_to_takum(c[0], c[1], n, lin, 0, 0, tol)
            out.append(Region(fn, "in [%d,%d]x[%d,%d]" % (a0, a1, b0, b1), [I(n, a0, a1), I(n, b0, b1)], [(A, B)]))
    return out


def lazy(gen, limit, per_region):
    def fn(prog, job):
        rs = gen(prog)
        return run_regions(rs, limit, per_region)(prog, job)
    return fn


def build(tier):
    dense = 1 if tier == "quick" else 2
    lim, per = (60, 3) if tier == "quick" else (400, 10)
    jobs = []
    for n in (64, 32, 16, 8):
        for k in KINDS:
            lin = k != ""
            for op in sorted(K.B):
                jobs.append(Job("takum%s%d_%s" % (k, n, op), None, [], deadline=lim,
                                pyfn=lazy(lambda prog, n=n, lin=lin, op=op: binary_regions(n, lin, op, dense, prog), lim, per)))
            for op in sorted(K.U):
                jobs.append(Job("takum%s%d_%s" % (k, n, op), None, [], deadline=lim,
                                pyfn=lazy(lambda prog, n=n, lin=lin, op=op: unary_regions(n, lin, op, dense, prog=prog), lim, per)))
    for e in known_entries("C17"):
        for n in W:
            for k in KINDS:
                for op in sorted(K.U):
                    fn = "takum%s%d_%s" % (k, n, op)
                    if re.fullmatch(e["functions"], fn):
                        jobs.append(Job(fn + "/known", None, [], deadline=4, known="%s: %s" % (fn, e["what"]),
                                        pyfn=lazy(lambda prog, n=n, k=k, op=op: [r for r in unary_regions(n, k != "", op, 1, True) if r.label.startswith("at")][5:40:10], 4, 2)))
    return [], jobs


RULE = ("Every operation of every type is abstractly interpreted at structured operand points (all regimes, extreme and "
        "irregular mantissas) and on the cells between them; the joined result has to lie within the image of the real function named "
        "by the operation over the point or cell (operands perturbed by 2^-60, the precision of the long double intermediate), plus one unit (two in 64-bit types). "
        "Cells cover the whole monotone domain; a violation is reported when a whole box yields results disjoint from that image.")
