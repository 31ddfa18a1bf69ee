"""The mathematical contract of every operation, per region of its operands.

Each row: (operation, label, operand boxes, kind, lo, hi, nz) where kind is "nar" (outside the domain) or "real"; lo/hi bound the
exact result (None: unbounded), nz: the exact result is non-zero on the whole region.
"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import takum as T
from mpmath import mp, mpf
import mpmath
from checks.regions import I

PI = +mp.pi
H = PI / 2


class Row:
    __slots__ = ("op", "label", "args", "kind", "lo", "hi", "nz", "tags", "ret")

    def __init__(self, op, label, args, kind="real", lo=None, hi=None, nz=False, tags=(), ret=None):
        self.op, self.label, self.args, self.kind = op, label, args, kind
        self.lo, self.hi, self.nz, self.tags, self.ret = lo, hi, nz, tags, ret


def below(x, n, lin):
    """largest takum strictly below the positive real x"""
    import mpmath
    t = int(mpmath.ceil(T.coord(x, n, lin))) - 1
    # logarithmic takums never equal a rational other than 0 and 1; linear ones are exact
    assert T.val(t, n, lin) < x <= T.val(t + 1, n, lin)
    return t


class P:
    """named points of the n-bit axis"""

    def __init__(self, n):
        self.n = n
        self.NAR = -(1 << (n - 1))
        self.M = (1 << (n - 1)) - 1
        self.O = 1 << (n - 2)


def unary(n, lin):
    p = P(n)
    M, O = p.M, p.O
    B = lambda lo, hi: [I(n, lo, hi)]
    neg, zero, pos = B(-M, -1), B(0, 0), B(1, M)
    rows = []

    def r(op, label, args, *a, **k):
        rows.append(Row(op, label, args, *a, **k))

    def nar(op, label, args):
        rows.append(Row(op, label, args, "nar"))
    for op in ("exp", "2_raised", "10_raised"):
        r(op, "a<0", neg, lo=mpf(0), hi=mpf(1), nz=True)
        r(op, "a=0", zero, lo=mpf(1), hi=mpf(1), nz=True)
        r(op, "a>0", pos, lo=mpf(1), nz=True)
    # below 2^-60 the 2^x-1 and 10^x-1 kernels cancel (known finding of C04)
    tiny = T.rnd(mpf(2) ** -58, n, lin)
    for op in ("exp_minus_1", "2_raised_minus_1", "10_raised_minus_1"):
        lo = 1 if op[0] == "e" else tiny
        r(op, "a<0", B(-M, -lo), lo=mpf(-1), hi=mpf(0), nz=True)
        r(op, "a=0", zero, lo=mpf(0), hi=mpf(0))
        r(op, "a>0", B(lo, M), lo=mpf(0), nz=True)
        if lo > 1:
            r(op, "a<0 tiny", B(-lo + 1, -1), lo=mpf(-1), hi=mpf(0), nz=True, tags=("tiny",))
            r(op, "a>0 tiny", B(1, lo - 1), lo=mpf(0), nz=True, tags=("tiny",))
    for op in ("ln", "lb", "lg"):
        nar(op, "a<0", neg)
        nar(op, "a=0", zero)
        r(op, "0<a<1", B(1, O - 1), hi=mpf(0), nz=True)
        r(op, "a=1", B(O, O), lo=mpf(0), hi=mpf(0))
        r(op, "a>1", B(O + 1, M), lo=mpf(0), nz=True)
        q = op + "_1_plus"
        nar(q, "a<-1", B(-M, -O - 1))
        nar(q, "a=-1", B(-O, -O))
        r(q, "-1<a<0", B(-O + 1, -1), hi=mpf(0), nz=True)
        r(q, "a=0", zero, lo=mpf(0), hi=mpf(0))
        r(q, "a>0", pos, lo=mpf(0), nz=True)
    nar("square_root", "a<0", neg)
    r("square_root", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("square_root", "0<a<=1", B(1, O), lo=mpf(0), hi=mpf(1), nz=True)
    r("square_root", "a>=1", B(O, M), lo=mpf(1), nz=True)
    # trigonometric functions: no takum but 0 is a multiple of pi/2
    r("sin", "a<-1", B(-M, -O - 1), lo=mpf(-1), hi=mpf(1), nz=True)
    r("sin", "-1<=a<0", B(-O, -1), lo=mpf(-1), hi=mpf(0), nz=True)
    r("sin", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("sin", "0<a<=1", B(1, O), lo=mpf(0), hi=mpf(1), nz=True)
    r("sin", "a>1", B(O + 1, M), lo=mpf(-1), hi=mpf(1), nz=True)
    r("cos", "a<-1", B(-M, -O - 1), lo=mpf(-1), hi=mpf(1), nz=True)
    r("cos", "|a|<=1", B(-O, O), lo=mpf(0.5), hi=mpf(1), nz=True)
    r("cos", "a>1", B(O + 1, M), lo=mpf(-1), hi=mpf(1), nz=True)
    r("tan", "a<-1", B(-M, -O - 1), nz=True)
    r("tan", "-1<=a<0", B(-O, -1), lo=mpf(-1.6), hi=mpf(0), nz=True)
    r("tan", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("tan", "0<a<=1", B(1, O), lo=mpf(0), hi=mpf(1.6), nz=True)
    r("tan", "a>1", B(O + 1, M), nz=True)
    nar("cot", "a=0", zero)
    r("cot", "a<-1", B(-M, -O - 1), nz=True)
    r("cot", "-1<=a<0", B(-O, -1), hi=mpf(-0.6), nz=True)
    r("cot", "0<a<=1", B(1, O), lo=mpf(0.6), nz=True)
    r("cot", "a>1", B(O + 1, M), nz=True)
    r("sec", "a<-1", B(-M, -O - 1), nz=True, tags=("mag1",))
    r("sec", "|a|<=1", B(-O, O), lo=mpf(1), hi=mpf(1.9), nz=True)
    r("sec", "a>1", B(O + 1, M), nz=True, tags=("mag1",))
    nar("csc", "a=0", zero)
    r("csc", "a<-1", B(-M, -O - 1), nz=True, tags=("mag1",))
    r("csc", "-1<=a<0", B(-O, -1), hi=mpf(-1), nz=True)
    r("csc", "0<a<=1", B(1, O), lo=mpf(1), nz=True)
    r("csc", "a>1", B(O + 1, M), nz=True, tags=("mag1",))
    for op in ("sin_pi_times", "cos_pi_times"):
        r(op, "all", B(-M, M), lo=mpf(-1), hi=mpf(1))
    for op in ("sec_pi_times", "csc_pi_times"):
        r(op, "all", B(-M, M), tags=("mag1", "maybe_nar"))
    # |a| < 1/2: sign of the odd/even functions of pi*a
    # small arguments have the sign of the function and are in the domain
    hm = below(mpf(0.5), n, lin)
    r("sin_pi_times", "-1/2<a<0", B(-hm, -1), lo=mpf(-1), hi=mpf(0), nz=True)
    r("sin_pi_times", "0<a<1/2", B(1, hm), lo=mpf(0), hi=mpf(1), nz=True)
    r("sin_pi_times", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("cos_pi_times", "|a|<1/2", B(-hm, hm), lo=mpf(0), hi=mpf(1), nz=True)
    r("tan_pi_times", "-1/2<a<0", B(-hm, -1), hi=mpf(0), nz=True)
    r("tan_pi_times", "0<a<1/2", B(1, hm), lo=mpf(0), nz=True)
    r("tan_pi_times", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("cot_pi_times", "-1/2<a<0", B(-hm, -1), hi=mpf(0), nz=True)
    r("cot_pi_times", "0<a<1/2", B(1, hm), lo=mpf(0), nz=True)
    nar("cot_pi_times", "a=0", zero)
    nar("csc_pi_times", "a=0", zero)
    r("csc_pi_times", "-1/2<a<0", B(-hm, -1), hi=mpf(-1), nz=True)
    r("csc_pi_times", "0<a<1/2", B(1, hm), lo=mpf(1), nz=True)
    r("sec_pi_times", "|a|<1/2", B(-hm, hm), lo=mpf(1), nz=True)
    for suf, q in (("", mpf(1)), ("_over_pi", PI)):
        h, pi = H / q, PI / q
        for op in ("arcsin", "arccos"):
            nar(op + suf, "a<-1", B(-M, -O - 1))
            nar(op + suf, "a>1", B(O + 1, M))
        r("arcsin" + suf, "-1<=a<0", B(-O, -1), lo=-h, hi=mpf(0), nz=True)
        r("arcsin" + suf, "a=0", zero, lo=mpf(0), hi=mpf(0))
        r("arcsin" + suf, "0<a<=1", B(1, O), lo=mpf(0), hi=h, nz=True)
        r("arccos" + suf, "-1<=a<0", B(-O, -1), lo=h, hi=pi, nz=True)
        r("arccos" + suf, "0<=a<1", B(0, O - 1), lo=mpf(0), hi=h, nz=True)
        r("arccos" + suf, "a=1", B(O, O), lo=mpf(0), hi=mpf(0))
        for op in ("arcsec", "arccsc"):
            nar(op + suf, "-1<a<0", B(-O + 1, -1))
            nar(op + suf, "a=0", zero)
            nar(op + suf, "0<a<1", B(1, O - 1))
        r("arcsec" + suf, "a<=-1", B(-M, -O), lo=h, hi=pi, nz=True)
        r("arcsec" + suf, "a=1", B(O, O), lo=mpf(0), hi=mpf(0))
        r("arcsec" + suf, "a>1", B(O + 1, M), lo=mpf(0), hi=h, nz=True)
        r("arccsc" + suf, "a<=-1", B(-M, -O), lo=-h, hi=mpf(0), nz=True)
        r("arccsc" + suf, "a>=1", B(O, M), lo=mpf(0), hi=h, nz=True)
        r("arctan" + suf, "a<0", neg, lo=-h, hi=mpf(0), nz=True)
        r("arctan" + suf, "a=0", zero, lo=mpf(0), hi=mpf(0))
        r("arctan" + suf, "a>0", pos, lo=mpf(0), hi=h, nz=True)
        r("arccot" + suf, "a<0", neg, lo=h, hi=pi, nz=True)
        r("arccot" + suf, "a=0", zero, lo=h, hi=h, nz=True)
        r("arccot" + suf, "a>0", pos, lo=mpf(0), hi=h, nz=True)
    for op in ("sinh", "arsinh"):
        r(op, "a<0", neg, hi=mpf(0), nz=True)
        r(op, "a=0", zero, lo=mpf(0), hi=mpf(0))
        r(op, "a>0", pos, lo=mpf(0), nz=True)
    r("cosh", "a<0", neg, lo=mpf(1), nz=True)
    r("cosh", "a=0", zero, lo=mpf(1), hi=mpf(1), nz=True)
    r("cosh", "a>0", pos, lo=mpf(1), nz=True)
    r("sech", "a<0", neg, lo=mpf(0), hi=mpf(1), nz=True)
    r("sech", "a=0", zero, lo=mpf(1), hi=mpf(1), nz=True)
    r("sech", "a>0", pos, lo=mpf(0), hi=mpf(1), nz=True)
    r("tanh", "a<0", neg, lo=mpf(-1), hi=mpf(0), nz=True)
    r("tanh", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("tanh", "a>0", pos, lo=mpf(0), hi=mpf(1), nz=True)
    for op, b in (("coth", mpf(1)), ("csch", mpf(0)), ("arcsch", mpf(0))):
        nar(op, "a=0", zero)
        r(op, "a<0", neg, hi=-b, nz=True)
        r(op, "a>0", pos, lo=b, nz=True)
    nar("arcosh", "a<0", neg)
    nar("arcosh", "0<=a<1", B(0, O - 1))
    r("arcosh", "a=1", B(O, O), lo=mpf(0), hi=mpf(0))
    r("arcosh", "a>1", B(O + 1, M), lo=mpf(0), nz=True)
    nar("artanh", "a<=-1", B(-M, -O))
    nar("artanh", "a>=1", B(O, M))
    r("artanh", "-1<a<0", B(-O + 1, -1), hi=mpf(0), nz=True)
    r("artanh", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("artanh", "0<a<1", B(1, O - 1), lo=mpf(0), nz=True)
    nar("arcoth", "|a|<=1", B(-O, O))
    # the double precision kernel makes 64-bit arguments next to +-1 NaR (known finding of C03)
    near = O
    if n == 64:
        near = T.rnd(mpf(1) + mpf(2) ** -50, n, lin)
        r("arcoth", "a<-1 near", B(-near + 1, -O - 1), hi=mpf(0), nz=True, tags=("near1",))
        r("arcoth", "a>1 near", B(O + 1, near - 1), lo=mpf(0), nz=True, tags=("near1",))
        r("arcoth", "a<-1", B(-M, -near), hi=mpf(0), nz=True)
        r("arcoth", "a>1", B(near, M), lo=mpf(0), nz=True)
    else:
        r("arcoth", "a<-1", B(-M, -O - 1), hi=mpf(0), nz=True)
        r("arcoth", "a>1", B(O + 1, M), lo=mpf(0), nz=True)
    nar("arsech", "a<=0", B(-M, 0))
    nar("arsech", "a>1", B(O + 1, M))
    r("arsech", "0<a<1", B(1, O - 1), lo=mpf(0), nz=True)
    r("arsech", "a=1", B(O, O), lo=mpf(0), hi=mpf(0))
    # arithmetic
    r("absolute", "a<0", neg, lo=mpf(0), nz=True)
    r("absolute", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("absolute", "a>0", pos, lo=mpf(0), nz=True)
    r("sign", "a<0", neg, lo=mpf(-1), hi=mpf(-1), nz=True)
    r("sign", "a=0", zero, lo=mpf(0), hi=mpf(0))
    r("sign", "a>0", pos, lo=mpf(1), hi=mpf(1), nz=True)
    nar("inversion", "a=0", zero)
    r("inversion", "a<=-1", B(-M, -O), lo=mpf(-1), hi=mpf(0), nz=True)
    r("inversion", "-1<=a<0", B(-O, -1), hi=mpf(-1), nz=True)
    r("inversion", "0<a<=1", B(1, O), lo=mpf(1), nz=True)
    r("inversion", "a>=1", B(O, M), lo=mpf(0), hi=mpf(1), nz=True)
    return rows


def binary(n, lin):
    p = P(n)
    M, O = p.M, p.O
    cls = {"a<0": (-M, -1), "a=0": (0, 0), "a>0": (1, M)}
    rows = []

    def box(a, b):
        return [I(n, *a), I(n, *b)]

    def r(op, a, b, *x, **k):
        rows.append(Row(op, "a in %s, b in %s" % (nm(a), nm(b)), box(a, b), *x, **k))

    def nm(c):
        s = {-M: "-max", M: "max", O: "1", -O: "-1"}
        f = lambda v: s.get(v) or (s[v - 1] + "+" if v - 1 in s else s[v + 1] + "-" if v + 1 in s else str(v))
        return "[%s,%s]" % (f(c[0]), f(c[1]))
    N, Z, Q = (-M, -1), (0, 0), (1, M)
    sg = {N: -1, Z: 0, Q: 1}

    def signed(op, a, b, s, nz=True):
        if s > 0:
            r(op, a, b, lo=mpf(0), nz=nz)
        elif s < 0:
            r(op, a, b, hi=mpf(0), nz=nz)
        else:
            r(op, a, b, lo=mpf(0), hi=mpf(0))
    for a in (N, Z, Q):
        for b in (N, Z, Q):
            signed("multiplication", a, b, sg[a] * sg[b])
            if b == Z:
                r("division", a, b, "nar")
            else:
                signed("division", a, b, sg[a] * sg[b])
            if sg[a] * sg[b] < 0:
                r("addition", a, b)
            else:
                signed("addition", a, b, sg[a] or sg[b])
            if sg[a] * sg[b] > 0:
                r("subtraction", a, b)
            else:
                signed("subtraction", a, b, sg[a] or -sg[b])
            if a == Z and b == Z:
                signed("hypotenuse", a, b, 0)
            else:
                signed("hypotenuse", a, b, 1)
            for suf, q in (("", mpf(1)), ("_over_pi", PI)):
                op = "arctan2" + suf
                h, pi = H / q, PI / q
                if b == Q:
                    r(op, a, b, lo={1: mpf(0), 0: mpf(0), -1: -h}[sg[a]], hi={1: h, 0: mpf(0), -1: mpf(0)}[sg[a]])
                elif b == N:
                    r(op, a, b, lo={1: h, 0: pi, -1: -pi}[sg[a]], hi={1: pi, 0: pi, -1: -h}[sg[a]], nz=True)
                else:
                    r(op, a, b, lo={1: h, 0: mpf(0), -1: -h}[sg[a]], hi={1: h, 0: mpf(0), -1: -h}[sg[a]], nz=a != Z)
    op = "power"
    r(op, Z, N, "nar")
    r(op, Z, Z, "nar", tags=("pow00",))
    r(op, Z, Q, lo=mpf(0), hi=mpf(0))
    r(op, (1, O), N, lo=mpf(1), nz=True)
    r(op, (O, M), N, lo=mpf(0), hi=mpf(1), nz=True)
    r(op, Q, Z, lo=mpf(1), hi=mpf(1), nz=True)
    r(op, (1, O), Q, lo=mpf(0), hi=mpf(1), nz=True)
    r(op, (O, M), Q, lo=mpf(1), nz=True)
    # negative base: integral exponents
    r(op, N, (O, O), hi=mpf(0), nz=True)
    r(op, N, (-O, -O), hi=mpf(0), nz=True)
    r(op, N, Z, lo=mpf(1), hi=mpf(1), nz=True)
    r(op, N, (1, O - 1), "nar")
    r(op, N, (-O + 1, -1), "nar")
    if lin:
        for c in range(1, 250 if n > 16 else 40):
            # integers in [2^c, 2^(c+1)): even ones and odd ones
            b0, b1 = T.coord(mpf(2) ** c, n, 1), T.coord(mpf(2) ** (c + 1), n, 1)
            if b0 != int(b0) or b1 > M:
                break
            b0, b1 = int(b0), int(b1)
            pb = (b1 - b0).bit_length() - 1  # mantissa bits
            if pb - c >= 0:
                st = 1 << (pb - c)
                if b1 - b0 < 2 * st:
                    continue
                rows.append(Row(op, "a<0, odd b in [2^%d,2^%d)" % (c, c + 1), [I(n, *N), I(n, b0 + st, b1 - st, 2 * st)],
                                hi=mpf(0), nz=True, tags=("powint",)))
                rows.append(Row(op, "a<0, even b in [2^%d,2^%d)" % (c, c + 1), [I(n, *N), I(n, b0, b1 - 2 * st, 2 * st)],
                                lo=mpf(0), nz=True, tags=("powint",)))
                rows.append(Row(op, "a<0, odd b in (-2^%d,-2^%d]" % (c + 1, c), [I(n, *N), I(n, -b1 + st, -b0 - st, 2 * st)],
                                hi=mpf(0), nz=True, tags=("powint",)))
            else:
                # every takum here is an even integer
                if b1 - 1 < b0:
                    continue
                last = c >= 64 or b1 >= M
                rows.append(Row(op, "a<0, b>=2^%d" % c if last else "a<0, b in [2^%d,2^%d)" % (c, c + 1),
                                [I(n, *N), I(n, b0, M if last else b1 - 1)], lo=mpf(0), nz=True, tags=("powint",)))
                if last:
                    break
    return rows


NMAX = (1 << 63) - 1
NMIN = -(1 << 63)


def integer(n, lin):
    """root and integer_power: the second operand is an int64_t"""
    p = P(n)
    M, O = p.M, p.O
    rows = []
    N, Z, Q, S, B = (-M, -1), (0, 0), (1, M), (1, O), (O, M)
    an = {N: "a<0", Z: "a=0", Q: "a>0", S: "0<a<=1", B: "a>=1", (-B[1], -O): "a<=-1", (-O, -1): "-1<=a<0"}
    exps = {"n<0": (NMIN, -1, 1), "n=0": (0, 0, 1), "n>0": (1, NMAX, 1), "n=1": (1, 1, 1), "n=-1": (-1, -1, 1),
            "n even<0": (NMIN, -2, 2), "n odd<0": (NMIN + 1, -1, 2),
            "n even>0": (2, NMAX - 1, 2), "n odd>0": (1, NMAX, 2)}

    def r(op, a, e, *x, **k):
        lo, hi, st = exps[e]
        rows.append(Row(op, an[a] + ", " + e, [I(n, *a), I(64, lo, hi, st)], *x, tags=("int",), **k))
    op = "root"
    for a in (N, Z, Q):
        r(op, a, "n=0", "nar")
    r(op, Z, "n<0", "nar")
    r(op, Z, "n>0", lo=mpf(0), hi=mpf(0))
    r(op, N, "n even<0", "nar")
    r(op, N, "n even>0", "nar")
    op = "integer_power"
    r(op, Z, "n<0", "nar")
    r(op, Z, "n=0", "nar")
    r(op, Z, "n>0", lo=mpf(0), hi=mpf(0))
    r(op, N, "n=0", lo=mpf(1), hi=mpf(1), nz=True)
    r(op, Q, "n=0", lo=mpf(1), hi=mpf(1), nz=True)
    for par in ("even", "odd"):
        r(op, (-M, -O), "n %s<0" % par, **(dict(lo=mpf(0), hi=mpf(1)) if par == "even" else dict(lo=mpf(-1), hi=mpf(0))), nz=True)
        r(op, (-O, -1), "n %s<0" % par, **(dict(lo=mpf(1)) if par == "even" else dict(hi=mpf(-1))), nz=True)
        r(op, (-M, -O), "n %s>0" % par, **(dict(lo=mpf(1)) if par == "even" else dict(hi=mpf(-1))), nz=True)
        r(op, (-O, -1), "n %s>0" % par, **(dict(lo=mpf(0), hi=mpf(1)) if par == "even" else dict(lo=mpf(-1), hi=mpf(0))), nz=True)
    for op in ("root", "integer_power"):
        r(op, S, "n<0", lo=mpf(1), nz=True)
        r(op, B, "n<0", lo=mpf(0), hi=mpf(1), nz=True)
        r(op, S, "n>0", lo=mpf(0), hi=mpf(1), nz=True)
        r(op, B, "n>0", lo=mpf(1), nz=True)
    op = "root"
    r(op, (-M, -O), "n odd<0", lo=mpf(-1), hi=mpf(0), nz=True)
    r(op, (-O, -1), "n odd<0", hi=mpf(-1), nz=True)
    r(op, (-M, -O), "n odd>0", hi=mpf(-1), nz=True)
    r(op, (-O, -1), "n odd>0", lo=mpf(-1), hi=mpf(0), nz=True)
    return rows


FT = {"float32": "float", "float64": "double", "extended_float": "x86_fp80"}


def convert(n, lin):
    """conversions; the result of to_* is a float"""
    from absint import fl
    p = P(n)
    rows = []

    def r(op, label, args, *a, **k):
        rows.append(Row(op, label, args, *a, tags=("conv",), **k))
    for kn in ("", "_linear"):
        for m in (8, 16, 32, 64):
            if kn == ("_linear" if lin else "") and m == n:
                continue
            op = "from_takum%s%d" % (kn, m)
            q = P(m)
            r(op, "t<=-1", [I(m, -q.M, -q.O)], hi=mpf(-1), nz=True)
            r(op, "-1<=t<0", [I(m, -q.O, -1)], lo=mpf(-1), hi=mpf(0), nz=True)
            r(op, "t=0", [I(m, 0)], lo=mpf(0), hi=mpf(0))
            r(op, "0<t<=1", [I(m, 1, q.O)], lo=mpf(0), hi=mpf(1), nz=True)
            r(op, "t>=1", [I(m, q.O, q.M)], lo=mpf(1), nz=True)
    for f, ty in FT.items():
        op = "to_" + f
        # magnitudes beyond the range of float32 underflow or overflow there
        for label, lo, hi, kw in (("t<=-1", -p.M, -p.O, dict(hi=mpf(-1), nz=True)), ("-1<=t<0", -p.O, -1, dict(lo=mpf(-1), hi=mpf(0), nz=True)),
                                  ("t=0", 0, 0, dict(lo=mpf(0), hi=mpf(0))),
                                  ("0<t<=1", 1, p.O, dict(lo=mpf(0), hi=mpf(1), nz=True)), ("t>=1", p.O, p.M, dict(lo=mpf(1), nz=True))):
            r(op, label, [I(n, lo, hi)], ret=ty, **kw)
        op = "from_" + f
        one = fl.from_int(1)
        for label, lo, hi, kw in (("f<=-1", fl.mpf_neg(fl.maxfin(ty)), fl.mpf_neg(one), dict(hi=mpf(-1), nz=True)),
                                  ("-1<=f<0", fl.mpf_neg(one), fl.mpf_neg(fl.minsub(ty)), dict(lo=mpf(-1), hi=mpf(0), nz=True)),
                                  ("0<f<=1", fl.minsub(ty), one, dict(lo=mpf(0), hi=mpf(1), nz=True)),
                                  ("f>=1", one, fl.maxfin(ty), dict(lo=mpf(1), nz=True))):
            r(op, label, [("f", ty, lo, hi)], **kw)
        for s in (1, -1):
            r(op, "f=%s0" % "+-"[s < 0], [("zero", ty, s)], lo=mpf(0), hi=mpf(0))
            r(op, "f=%sinf" % "+-"[s < 0], [("inf", ty, s)], "nar")
        r(op, "f=NaN", [("nan", ty)], "nar")
    return rows


def nar_rows(n, lin, ops1, ops2):
    """C01: every operand NaR x classes of the other operand"""
    p = P(n)
    rows = []
    NR = I(n, p.NAR)
    cls = [("<0", -p.M, -1), ("=0", 0, 0), ("in (0,1)", 1, p.O - 1), ("=1", p.O, p.O), (">1", p.O + 1, p.M)]
    for op in ops1:
        rows.append(Row(op, "a NaR", [NR], "nar"))
    for op in ops2:
        rows.append(Row(op, "a NaR, b NaR", [NR, NR], "nar"))
        for nm, lo, hi in cls:
            rows.append(Row(op, "a NaR, b" + nm, [NR, I(n, lo, hi)], "nar"))
            rows.append(Row(op, "a%s, b NaR" % nm, [I(n, lo, hi), NR], "nar"))
    for op in ("root", "integer_power"):
        rows.append(Row(op, "a NaR, n<0", [NR, I(64, NMIN, -1)], "nar"))
        rows.append(Row(op, "a NaR, n=0", [NR, I(64, 0)], "nar"))
        rows.append(Row(op, "a NaR, n>0", [NR, I(64, 1, NMAX)], "nar"))
    for kn in ("", "_linear"):
        for m in (8, 16, 32, 64):
            if kn == ("_linear" if lin else "") and m == n:
                continue
            rows.append(Row("from_takum%s%d" % (kn, m), "t NaR", [I(m, P(m).NAR)], "nar"))
    for f, ty in FT.items():
        rows.append(Row("to_" + f, "t NaR", [NR], "nar", ret=ty))
        rows.append(Row("from_" + f, "f NaN", [("nan", ty)], "nar"))
        for s in (1, -1):
            rows.append(Row("from_" + f, "f=%sinf" % "+-"[s < 0], [("inf", ty, s)], "nar"))
    return rows
