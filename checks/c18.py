import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.kernel import T, P, W, KINDS, Region, I, mp, mpf, lazy
from checks.contract import ASSUME, name
from checks.driver import main, Job

RULE = ("at every distinguished argument (and, for the functions of multiples of pi, on strided boxes that contain exactly the "
        "takums equal to j/2 with j in one residue class modulo 4) the abstract result has to be the single exact takum")
NARS = "nar"


def specials(n, lin):
    """(op, args as reals, exact result or NARS)"""
    out = []

    def s(op, a, r):
        out.append((op, a if isinstance(a, tuple) else (a,), r))
    for op in ("exp", "2_raised", "10_raised", "cos", "cosh", "sech", "sec", "cos_pi_times", "sec_pi_times"):
        s(op, 0, 1)
    for op in ("exp_minus_1", "2_raised_minus_1", "10_raised_minus_1", "ln_1_plus", "lb_1_plus", "lg_1_plus", "sin", "tan", "sinh",
               "tanh", "arsinh", "artanh", "arcsin", "arctan", "arcsin_over_pi", "arctan_over_pi", "sin_pi_times", "tan_pi_times",
               "square_root", "absolute", "sign"):
        s(op, 0, 0)
    for op in ("ln", "lb", "lg", "arccos", "arccos_over_pi", "arcosh", "arsech", "arcsec", "arcsec_over_pi"):
        s(op, 1, 0)
    for op in ("square_root", "inversion", "absolute", "sign"):
        s(op, 1, 1)
    s("inversion", -1, -1)
    s("absolute", -1, 1)
    s("sign", -1, -1)
    for op in ("cot_pi_times", "csc_pi_times", "inversion", "coth", "csch", "arcsch", "cot", "csc", "ln", "lb", "lg"):
        s(op, 0, NARS)
    for op, r in (("sin_pi_times", 0), ("cos_pi_times", -1), ("tan_pi_times", 0), ("cot_pi_times", NARS), ("sec_pi_times", -1),
                  ("csc_pi_times", NARS)):
        s(op, 1, r)
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            s("multiplication", (a, b), a * b)
            s("division", (a, b), a * b if b else NARS)
            if not (a == 0 and b < 0) and not (a == b == 0):
                s("power", (a, b), (a ** abs(b)) if not (a == 0) else 0)
            if lin or a * b == 0 or a + b == 0:
                s("addition", (a, b), a + b)
            if lin or a * b == 0 or a - b == 0:
                s("subtraction", (a, b), a - b)
            if a * b == 0:
                s("hypotenuse", (a, b), abs(a + b))
    s("arctan2", (0, 1), 0)
    s("arctan2_over_pi", (0, 1), 0)
    s("arctan2_over_pi", (0, -1), 1)
    s("arccos_over_pi", -1, 1)
    s("arcsec_over_pi", -1, 1)
    if lin:
        H, Q = mpf(0.5), mpf(0.25)
        s("arcsin_over_pi", 1, H)
        s("arcsin_over_pi", -1, -H)
        s("arccsc_over_pi", 1, H)
        s("arccsc_over_pi", -1, -H)
        s("arccos_over_pi", 0, H)
        s("arccot_over_pi", 0, H)
        s("arctan_over_pi", 1, Q)
        s("arctan_over_pi", -1, -Q)
        s("arccot_over_pi", 1, Q)
        s("arctan2_over_pi", (1, 0), H)
        s("arctan2_over_pi", (-1, 0), -H)
        s("arctan2_over_pi", (1, 1), Q)
        for k in list(range(-16, 17)) + [-254, -127, -126, -100, -64, 31, 63, 64, 100, 126, 127, 128, 253]:
            if rep(mpf(k), n) and rep(mpf(2) ** k, n):
                s("2_raised", k, mpf(2) ** k)
                s("lb", mpf(2) ** k, k)
        for k in range(1, 12):
            if rep(mpf(2) ** k - 1, n):
                s("2_raised_minus_1", k, mpf(2) ** k - 1)
                if n < 64:   # LB_E * log1pl(): not exact within the model of libm
                    s("lb_1_plus", mpf(2) ** k - 1, k)
        for k in range(-100, 101, 7):
            if rep(mpf(4) ** k, n) and rep(mpf(2) ** k, n):
                s("square_root", mpf(4) ** k, mpf(2) ** k)
        for k in range(1, 40):
            if rep(mpf(k) ** 2, n):
                s("square_root", k * k, k)
        s("10_raised", 1, 10)
        s("10_raised_minus_1", 1, 9)
        if rep(mpf(10), n):
            s("lg", 10, 1)
        if rep(mpf(5), n):
            s("hypotenuse", (3, 4), 5)
            s("hypotenuse", (-4, 3), 5)
            s("addition", (2, 3), 5)
            s("subtraction", (2, 3), -1)
            s("power", (2, 3), 8)
            s("power", (-2, 3), -8)
            s("division", (8, 2), 4)
    return [(o, a, r) for o, a, r in out if r == NARS or lin or r in (-1, 0, 1)]


def rep(x, n):
    t = T.rnd(x, n, 1)
    return T.val(t, n, 1) == x


PIT = {"sin_pi_times": (0, 1, 0, -1), "cos_pi_times": (1, 0, -1, 0), "tan_pi_times": (0, NARS, 0, NARS),
       "cot_pi_times": (NARS, 0, NARS, 0), "sec_pi_times": (1, NARS, -1, NARS), "csc_pi_times": (NARS, 1, NARS, -1)}


def multiples(n):
    """boxes of linear takums that equal j/2, per residue class of j modulo 4"""
    p = P(n)
    for c in range(-1, 255):
        b0, b1 = T.coord(mpf(2) ** c, n, 1), T.coord(mpf(2) ** (c + 1), n, 1) if c < 254 else mpf(p.M + 1)
        if b0 != int(b0) or b1 != int(b1) or b1 <= b0:
            # the whole binade holds fewer than one takum per bit of characteristic
            lo, hi = int(mp.ceil(b0)), int(mp.ceil(b1)) - 1
            if lo <= hi:
                yield "2^%d" % c, 0, I(n, lo, hi)
            continue
        b0, b1 = int(b0), int(b1)
        pb = (b1 - b0).bit_length() - 1
        # takum b0+i has the value 2^c*(1+i/2^pb); in units of 1/2: 2^(c+1) + i*2^(c+1-pb)
        sh = pb - (c + 1)
        if sh >= 0:
            st = 1 << sh
            for res in range(4):
                # j = 2^(c+1) + i >> sh, i a multiple of st
                i0 = (res - (1 << (c + 1))) % 4
                lo = b0 + i0 * st
                cnt = (1 << (c + 1)) - 1
                if i0 > cnt:
                    continue
                k = (cnt - i0) // 4
                yield "2^%d" % c, res, I(n, lo, lo + 4 * st * k, 4 * st)
        elif sh == -1:
            # integers: j = 2*(2^c + i)
            for par in (0, 1):
                i0 = (par - (1 << c)) % 2
                if b0 + i0 >= b1:
                    continue
                k = (b1 - 1 - b0 - i0) // 2
                yield "2^%d" % c, 2 * par, I(n, b0 + i0, b0 + i0 + 2 * k, 2)
        else:
            yield "2^%d" % c, 0, I(n, b0, b1 - 1)


def regions(n, lin):
    mp.prec = 320
    p = P(n)
    k = "_linear" if lin else ""
    out = []
    for op, a, r in specials(n, lin):
        tr = p.NAR if r is NARS or r == NARS else T.rnd(mpf(r), n, lin)
        if op == "10_raised" and not rep(mpf(10), n) or op == "10_raised_minus_1" and a == (1,) and not rep(mpf(9), n):
            continue
        args = [I(n, T.rnd(mpf(x), n, lin)) for x in a]
        out.append(Region(name(k, n, op), "at " + ",".join(map(str, a)), args, [(tr, tr)], precise=False))
    if lin:
        for op, vals in PIT.items():
            for lab, res, box in multiples(n):
                v = vals[res]
                tr = p.NAR if v == NARS else T.rnd(mpf(v), n, lin)
                out.append(Region(name(k, n, op), "multiples in %s.., j=%d mod 4" % (lab, res), [box], [(tr, tr)], affine=True))
    return out


def build(tier):
    jobs = []
    for n in (64, 32, 16, 8):
        for k in KINDS:
            rs = regions(n, k != "")
            by = {}
            for r in rs:
                by.setdefault(r.fn, []).append(r)
            for fn, l in by.items():
                jobs.append(Job(fn, fn, [], deadline=60 if tier == "quick" else 300,
                                pyfn=lazy(lambda prog, l=l: l, 60, 5 if tier == "quick" else 30)))
    return [], jobs


if __name__ == "__main__":
    sys.exit(main("C18", build, RULE, libm=True, assumptions=ASSUME))
