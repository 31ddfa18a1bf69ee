"""Abstract models of the C math library (trusted base).

Assumptions about the library (documented in DESIGN.md): exact functions (fabs, floor, ldexp, frexp, fmod, sqrt, ...)
follow IEEE 754; exp, exp2, log, log2, log10, pow, atan, atan2, asin, cbrt and hypot are within 2 units and every
other function within 8 units in the last place of the real function, does not leave the
real function's range as rounded to the format, is exactly odd/even where the real function is, and is exact at the
listed special points.
"""
import mpmath
from mpmath import libmp
from mpmath.libmp import mpf_exp, mpf_log, mpf_pi, mpf_sin, mpf_cos, mpf_tan, mpf_atan, mpf_sqrt, mpf_pow
from . import lin as L
from .lin import Lin
from . import fl
from .fl import (FMT, rnd, from_man_exp, from_int, mpf_add, mpf_sub, mpf_mul, mpf_div, mpf_neg, mpf_cmp, mpf_abs,
                 fzero, finf, fninf, mpf_shift, fmin, fmax)
from .engine import Split, Unknown, Infeasible, FV, IV, BV, PV, fconst, fnan, finfv, fzerov, UBEvent

WP = 200
ONE = from_int(1)
# relative error 2^-MARG: 2 ulp for the functions glibc documents as accurate to 1 ulp, 8 ulp for the others
MARG = {"float": 22, "double": 51, "x86_fp80": 62}
ACCURATE = {"exp", "exp2", "log", "log2", "log10", "pow", "atan", "atan2", "asin", "cbrt", "hypot"}


def pi_(mode):
    return mpf_pi(WP, mode)


def half_pi(mode):
    return mpf_shift(mpf_pi(WP, mode), -1)


def widen(ty, lo, hi, b=None):
    """few-ulp relative margin, then round outwards to the format"""
    e = from_man_exp(1, -MARG[ty] + (0 if b in ACCURATE else 2))
    a = mpf_sub(lo, mpf_mul(mpf_abs(lo), e))
    b = mpf_add(hi, mpf_mul(mpf_abs(hi), e))
    a0, b0 = a, b
    a, b = rnd(ty, a, "f"), rnd(ty, b, "c")
    if a == fzero and fl.cmp(lo, fzero) > 0:
        a = fzero
    # conservative overflow: nearest rounding may give infinity
    if b != finf and fl.cmp(b, fl.maxfin(ty)) >= 0:
        b = finf
    if a != fninf and fl.cmp(a, mpf_neg(fl.maxfin(ty))) <= 0:
        a = fninf
    # round to nearest: certain overflow is infinite, certain underflow is zero
    big, tiny = mpf_shift(fl.maxfin(ty), 1), mpf_shift(fl.minsub(ty), -2)
    if fl.cmp(a0, big) > 0:
        a = finf
    if fl.cmp(b0, mpf_neg(big)) < 0:
        b = fninf
    if fl.cmp(a0, fzero) >= 0 and fl.cmp(b0, tiny) < 0:
        b = fzero
    if fl.cmp(b0, fzero) <= 0 and fl.cmp(a0, mpf_neg(tiny)) > 0:
        a = fzero
    return a, b


BIG = from_int(12000)


def e_exp(x, mode):
    if fl.cmp(x, from_int(20000)) > 0:
        return from_man_exp(1, 28000)
    if fl.cmp(x, from_int(-20000)) < 0:
        return from_man_exp(1, -28000)
    return mpf_exp(x, WP, mode)


LN2 = mpmath.libmp.mpf_ln2(300)
LN10 = mpmath.libmp.mpf_ln10(300)


def e_exp2(x, mode):
    return e_exp(mpf_mul(fmin(fmax(x, from_int(-40000)), from_int(40000)), LN2), mode)


def e_expm1(x, mode):
    if x == fzero:
        return fzero
    if fl.expo(x) < -40:
        # x + x^2/2 + x^3/6 : bracket
        h = mpf_shift(mpf_mul(x, x), -1)
        return mpf_add(x, h) if mode == "f" else mpf_add(x, mpf_add(h, mpf_shift(mpf_abs(mpf_mul(x, h)), 0)))
    return mpf_sub(e_exp(x, mode), ONE)


def e_log1p(x, mode):
    if x == fzero:
        return fzero
    return mpmath.libmp.mpf_log(mpf_add(ONE, x), 20000 if fl.expo(x) < -15000 else
                                (WP + (-fl.expo(x) if fl.expo(x) < 0 else 0)), mode)


def e_sinh(x, mode):
    if x == fzero:
        return fzero
    if x[0]:
        return mpf_neg(e_sinh(mpf_neg(x), "c" if mode == "f" else "f"))
    if fl.expo(x) < -40:
        c = mpf_mul(x, mpf_mul(x, x))
        return x if mode == "f" else mpf_add(x, c)
    a, b = e_exp(x, mode), e_exp(mpf_neg(x), "c" if mode == "f" else "f")
    return mpf_shift(mpf_sub(a, b), -1)


def e_cosh(x, mode):
    x = mpf_abs(x)
    a, b = e_exp(x, mode), e_exp(mpf_neg(x), mode)
    return mpf_shift(mpf_add(a, b), -1)


def e_tanh(x, mode):
    if x == fzero:
        return fzero
    if x[0]:
        return mpf_neg(e_tanh(mpf_neg(x), "c" if mode == "f" else "f"))
    if fl.cmp(x, from_int(200)) > 0:
        return ONE if mode == "c" else mpf_sub(ONE, from_man_exp(1, -250))
    o = "c" if mode == "f" else "f"
    return mpf_div(e_sinh(x, mode), e_cosh(x, o), WP, mode)


def e_asinh(x, mode):
    if x == fzero:
        return fzero
    if x[0]:
        return mpf_neg(e_asinh(mpf_neg(x), "c" if mode == "f" else "f"))
    if fl.expo(x) < -40:
        return x if mode == "c" else mpf_sub(x, mpf_mul(x, mpf_mul(x, x)))
    r = mpf_add(x, mpf_sqrt(mpf_add(mpf_mul(x, x), ONE), WP + 200, mode))
    return mpf_log(r, WP, mode)


def e_acosh(x, mode):
    if fl.cmp(x, ONE) <= 0:
        return fzero
    r = mpf_add(x, mpf_sqrt(mpf_sub(mpf_mul(x, x), ONE), WP + 200, mode))
    return mpf_log(r, WP, mode)


def e_atanh(x, mode):
    if x == fzero:
        return fzero
    if x[0]:
        return mpf_neg(e_atanh(mpf_neg(x), "c" if mode == "f" else "f"))
    if fl.cmp(x, ONE) >= 0:
        return finf
    if fl.expo(x) < -40:
        c = mpf_mul(x, mpf_mul(x, x))
        return x if mode == "f" else mpf_add(x, c)
    q = mpf_div(mpf_add(ONE, x), mpf_sub(ONE, x), WP + 200, mode)
    return mpf_shift(mpf_log(q, WP, mode), -1)


def e_asin(x, mode):
    if x == fzero:
        return fzero
    if fl.expo(x) < -40:
        c = mpf_mul(x, mpf_mul(x, x))
        if x[0]:
            return mpf_add(x, c) if mode == "f" else x
        return x if mode == "f" else mpf_add(x, c)
    d = mpf_sub(ONE, mpf_mul(x, x))
    if fl.cmp(d, fzero) <= 0:
        return mpf_neg(half_pi("c" if mode == "f" else "f")) if x[0] else half_pi(mode)
    # asin x = atan(x/sqrt(1-x^2)) increasing
    s = mpf_sqrt(d, WP + 200, "c" if (mode == "f") != bool(x[0]) else "f")
    return mpf_atan(mpf_div(x, s, WP + 200, mode), WP, mode)


def e_acos(x, mode):
    # decreasing
    d = mpf_sub(ONE, mpf_mul(x, x))
    if fl.cmp(d, fzero) <= 0:
        return fzero if not x[0] else pi_(mode)
    s = mpf_sqrt(d, WP + 200, mode)
    # acos x = atan2(s, x)
    if x == fzero:
        return half_pi(mode)
    t = mpf_atan(mpf_div(s, x, WP + 200, mode), WP, mode)
    return t if not x[0] else mpf_add(t, pi_(mode))


def e_atan(x, mode):
    return mpf_atan(x, WP, mode)


def e_ln(x, mode):
    return mpf_log(x, WP, mode)


def e_log2(x, mode):
    r = mpf_log(x, WP + 100, mode)
    return mpf_div(r, LN2, WP, mode)


def e_log10(x, mode):
    r = mpf_log(x, WP + 100, mode)
    return mpf_div(r, LN10, WP, mode)


def e_cbrt(x, mode):
    if x == fzero:
        return fzero
    if x[0]:
        return mpf_neg(e_cbrt(mpf_neg(x), "c" if mode == "f" else "f"))
    return e_exp(mpf_div(mpf_log(x, WP + 50, mode), from_int(3), WP + 50, mode), mode)


# name -> (monotone enclosure, parity, direction, fixed point map)
INC = {"exp": e_exp, "exp2": e_exp2, "expm1": e_expm1, "log1p": e_log1p, "sinh": e_sinh, "tanh": e_tanh,
       "asinh": e_asinh, "acosh": e_acosh, "atanh": e_atanh, "asin": e_asin, "atan": e_atan, "log": e_ln,
       "log2": e_log2, "log10": e_log10, "cbrt": e_cbrt}
ODD = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt"}
EVEN = {"cos", "cosh"}
TINYTRIG = from_man_exp(1, -140)

BASES = ["exp2", "expm1", "exp10", "exp", "log1p", "log10", "log2", "log", "sinh", "cosh", "tanh", "asinh", "acosh",
         "atanh", "asin", "acos", "atan2", "atan", "sin", "cos", "tan", "pow", "hypot", "sqrt", "cbrt", "fabs", "floor",
         "ceil", "trunc", "ldexp", "scalbn", "scalbln", "frexp", "fmod", "copysign", "fmax", "fmin", "modf", "rint",
         "nearbyint", "round", "lround", "lrint", "llrint", "llround", "ilogb", "logb", "fma", "remainder", "nan",
         "fdim", "sincos"]


def base_name(name):
    if name.startswith("llvm."):
        return name.split(".")[1]
    if name in BASES:
        return name
    if name[-1] in "fl" and name[:-1] in BASES:
        return name[:-1]
    return name


class Libm:
    def libm(self, st, fr, ins, name, a, ty):
        b = base_name(name)
        self.sites[b] = self.sites.get(b, 0) + 1
        m = getattr(self, "m_" + b.replace(".", "_"), None)
        if b == "is":
            return BV("fpclass", (a[0], int(a[1].lin.c)))
        if m is None:
            if b in INC or b in ("sin", "cos", "tan", "cosh", "acos"):
                return self.m_unary(st, ty, b, a[0])
            raise Unknown("no model for %s" % name)
        return m(st, fr, ins, a, ty)

    # exact functions
    def m_fabs(self, st, fr, ins, a, ty):
        return self.fabs(st, a[0])

    def m_floor(self, st, fr, ins, a, ty):
        return self.ffloor(st, ty, a[0])

    def m_ceil(self, st, fr, ins, a, ty):
        return self.ffloor(st, ty, a[0], up=True)

    def m_trunc(self, st, fr, ins, a, ty):
        v = a[0]
        if v.kind in ("nan", "inf"):
            return v
        if self.is_neg(st, v):
            return self.ffloor(st, ty, v, up=True)
        return self.ffloor(st, ty, v)

    def m_ldexp(self, st, fr, ins, a, ty):
        return self.fldexp(st, ty, a[0], a[1])
    m_scalbn = m_ldexp
    m_scalbln = m_ldexp

    def m_frexp(self, st, fr, ins, a, ty):
        m, q = self.ffrexp(st, ty, a[0])
        from .interp import store
        store(self, st, ins, a[1], "i32", IV(32, q))
        return m

    def m_copysign(self, st, fr, ins, a, ty):
        x = self.fabs(st, a[0])
        if a[1].kind == "nan":
            raise Unknown("copysign of NaN")
        return self.fneg(x) if self.signbit(st, a[1]) else x

    def m_fmax(self, st, fr, ins, a, ty):
        x, y = a
        if x.kind == "nan":
            return y
        if y.kind == "nan":
            return x
        return y if self.fcmp(st, "olt", x, y) else x

    def m_fmin(self, st, fr, ins, a, ty):
        x, y = a
        if x.kind == "nan":
            return y
        if y.kind == "nan":
            return x
        return x if self.fcmp(st, "olt", x, y) else y
    m_maxnum = m_fmax
    m_minnum = m_fmin

    def m_nan(self, st, fr, ins, a, ty):
        return fnan(ty)

    def m_modf(self, st, fr, ins, a, ty):
        v = a[0]
        if v.kind in ("nan", "inf"):
            raise Unknown("modf")
        neg = self.is_neg(st, v)
        i = self.ffloor(st, ty, v, up=neg)
        from .interp import store
        r = self.fadd(st, ty, v, self.fneg(i))
        store(self, st, ins, a[1], ty, i)
        return r

    def m_rint(self, st, fr, ins, a, ty):
        v = a[0]
        if v.kind != "lin":
            if v.kind in ("nan", "inf"):
                return v
            raise Unknown("rint of symbol")
        v = self.concE(st, v)
        if v.s <= 0:
            return v
        if self.is_neg(st, v):
            return self.fneg(self.m_rint(st, fr, ins, [self.fneg(v)], ty))
        q, r = self.divide(st, v.lin, 1 << v.s)
        h = 1 << (v.s - 1)
        if self.split_lt0(st, L.addc(r, -h)):
            pass
        elif self.split_eq0(st, L.addc(r, -h)):
            _, odd = self.divide(st, q, 2)
            q = L.add(q, odd)
        else:
            q = L.addc(q, 1)
        return self.round_lin(st, ty, q, 0, v.sg)
    m_nearbyint = m_rint

    def m_round(self, st, fr, ins, a, ty):
        v = a[0]
        if v.kind != "lin":
            if v.kind in ("nan", "inf"):
                return v
            raise Unknown("round of symbol")
        v = self.concE(st, v)
        if v.s <= 0:
            return v
        if self.is_neg(st, v):
            return self.fneg(self.m_round(st, fr, ins, [self.fneg(v)], ty))
        q, r = self.divide(st, v.lin, 1 << v.s)
        if not self.split_lt0(st, L.addc(r, -(1 << (v.s - 1)))):
            q = L.addc(q, 1)
        return self.round_lin(st, ty, q, 0, v.sg)

    def m_fmod(self, st, fr, ins, a, ty):
        x, y = a
        if x.kind == "nan" or y.kind == "nan" or x.kind == "inf":
            return fnan(ty)
        if y.kind == "inf":
            return x
        if self.is_zero(st, y):
            return fnan(ty)
        y = self.fabs(st, y)
        if self.is_neg(st, x):
            return self.fneg(self.m_fmod(st, fr, ins, [self.fneg(x), y], ty))
        y = self.concE(st, y)
        if y.kind != "lin" or st.norm(y.lin).t:
            raise Unknown("fmod by a variable")
        yc = st.norm(y.lin).c
        if x.kind == "lin":
            x = self.concE(st, x)
            s = max(x.s, y.s)
            X = L.scale(st.norm(x.lin), 1 << (s - x.s))
            q, r = self.divide(st, X, yc << (s - y.s))
            return self.round_lin(st, ty, r, s, x.sg)
        ym = from_man_exp(yc, -y.s)
        lo, hi = self.fbounds(st, x)
        if fl.cmp(hi, ym) < 0:
            return x
        n0 = fl.floor_int(mpf_div(lo, ym, 3000, "n"))
        n1 = fl.floor_int(mpf_div(hi, ym, 3000, "n"))
        if n0 == n1:
            sub = mpf_mul(ym, from_int(n0))
            return self.simplify(st, self.mk(st, ty, "fmod", (x, y), mpf_sub(lo, sub), mpf_sub(hi, sub)))
        if n0 == 0:
            self.cut(st, x, ym, True)
        return self.mk(st, ty, "fmod", (x, y), fzero, fl.nextafter(ty, ym, False))

    def m_sqrt(self, st, fr, ins, a, ty):
        v = a[0]
        if v.kind == "nan":
            return v
        if v.kind == "inf":
            return v if v.sg > 0 else fnan(ty)
        if self.is_zero(st, v):
            return v
        if self.is_neg(st, v):
            return fnan(ty)
        v = self.concE(st, v)
        if v.kind == "lin":
            x = st.norm(v.lin)
            if not x.t:
                r = rnd(ty, mpf_sqrt(from_man_exp(x.c, -v.s), 400, "n"))
                return self.fmk(ty, r)
        lo, hi = self.fbounds(st, v)
        lo, hi = rnd(ty, mpf_sqrt(lo, 300, "f")), rnd(ty, mpf_sqrt(hi, 300, "c"))
        return self.mk(st, ty, "sqrt", (v,), lo, hi)

    # approximated functions
    def rel(self, st, v, c):
        """sign of v - c, decided (c: ('num',m,e))"""
        cv = fconst(v.ty, c)
        if self.feq(st, v, cv):
            return 0
        return -1 if self.flt(st, v, cv) else 1

    def m_unary(self, st, ty, b, v):
        if v.kind == "nan":
            return fnan(ty)
        one = ("num", 1, 0)
        if b in ODD or b in EVEN:
            if v.kind != "inf" and not self.is_zero(st, v) and self.is_neg(st, v):
                r = self.m_unary(st, ty, b, self.fneg(v))
                return self.fneg(r) if b in ODD else r
            if v.kind == "inf" and v.sg < 0:
                r = self.m_unary(st, ty, b, finfv(v.ty, 1))
                return self.fneg(r) if b in ODD else r
        if v.kind == "inf":
            if b in ("sin", "cos", "tan", "asin", "acos", "atanh"):
                return fnan(ty)
            if b in ("exp", "exp2"):
                return v if v.sg > 0 else fzerov(ty)
            if b == "expm1":
                return v if v.sg > 0 else FV(ty, "lin", 1, Lin(-1), 0)
            if b in ("log", "log2", "log10", "log1p", "acosh"):
                return v if v.sg > 0 else fnan(ty)
            if b == "tanh":
                return FV(ty, "lin", 1, Lin(1), 0)
            if b == "atan":
                r = rnd(ty, half_pi("n"))
                return self.fmk(ty, r)
            if b in ("sinh", "asinh", "cosh", "cbrt"):
                return finfv(ty, 1)
            raise Unknown(b + " of inf")
        z = self.is_zero(st, v)
        if z:
            if b in ODD or b in ("expm1", "log1p"):
                return FV(ty, v.kind, v.sg, v.lin, v.s, v.E, v.id, v.e) if v.kind == "lin" else fzerov(ty)
            if b in ("exp", "exp2", "cos", "cosh"):
                return FV(ty, "lin", 1, Lin(1), 0)
            if b in ("log", "log2", "log10"):
                return finfv(ty, -1)
            if b == "acosh":
                return fnan(ty)
            if b == "acos":
                return self.fmk(ty, rnd(ty, half_pi("n")))
        cl = None
        if b in ("log", "log2", "log10"):
            if self.is_neg(st, v):
                return fnan(ty)
            c = self.rel(st, v, one)
            if c == 0:
                return fzerov(ty)
            cl = (fl.minsub(ty), finf) if c > 0 else (fninf, mpf_neg(fl.minsub(ty)))
        elif b == "acosh":
            c = self.rel(st, v, one)
            if c <= 0:
                return fzerov(ty) if c == 0 else fnan(ty)
            cl = (fl.minsub(ty), finf)
        elif b == "log1p":
            c = self.rel(st, v, ("num", -1, 0))
            if c <= 0:
                return finfv(ty, -1) if c == 0 else fnan(ty)
            cl = (fninf, mpf_neg(fl.minsub(ty))) if self.is_neg(st, v) else (fl.minsub(ty), finf)
        elif b in ("asin", "atanh"):
            c = self.rel(st, v, one)
            if c > 0:
                return fnan(ty)
            if c == 0:
                return finfv(ty, 1) if b == "atanh" else self.fmk(ty, rnd(ty, half_pi("n")))
            cl = (fl.minsub(ty), rnd(ty, half_pi("n"))) if b == "asin" else (fl.minsub(ty), finf)
        elif b == "acos":
            c = self.rel(st, v, one)
            if c >= 0:
                return fzerov(ty) if c == 0 else fnan(ty)
            c = self.rel(st, v, ("num", -1, 0))
            if c <= 0:
                return self.fmk(ty, rnd(ty, pi_("n"))) if c == 0 else fnan(ty)
            lo, hi = self.fbounds(st, v)
            l, h = widen(ty, e_acos(hi, "f"), e_acos(lo, "c"), b)
            return self.simplify(st, self.mk(st, ty, b, (v,), fmax(l, fl.minsub(ty)), fmin(h, rnd(ty, pi_("n")))))
        elif b == "expm1":
            cl = (from_int(-1), mpf_neg(fl.minsub(ty))) if self.is_neg(st, v) else (fl.minsub(ty), finf)
        elif b == "tanh":
            cl = (fl.minsub(ty), ONE)
        elif b in ("sinh", "asinh", "cbrt"):
            cl = (fl.minsub(ty), finf)
        elif b == "atan":
            cl = (fl.minsub(ty), rnd(ty, half_pi("n")))
        elif b == "exp":
            cl = (fzero, ONE) if self.is_neg(st, v) else (ONE, finf)
        elif b == "exp2":
            cl = (fzero, ONE) if self.is_neg(st, v) else (ONE, finf)
            if v.kind == "lin" and v.E is None:
                x = st.norm(v.lin)
                if not x.t and v.s <= 0 and abs(x.c << -v.s) < 20000:
                    return self.fmk(ty, rnd(ty, from_man_exp(1, x.c << -v.s)))
        elif b == "cosh":
            cl = (ONE, finf)
        elif b in ("sin", "cos", "tan"):
            return self.trig(st, ty, b, v)
        if b == "log2" and v.kind == "lin" and v.E is None:
            x = st.norm(v.lin)
            if not x.t and x.c > 0 and x.c & (x.c - 1) == 0:
                return self.round_lin(st, ty, Lin(x.c.bit_length() - 1 - v.s), 0)
        lo, hi = self.fbounds(st, v)
        if b == "cosh":
            l, h = widen(ty, e_cosh(lo, "f"), e_cosh(hi, "c"), b)
        else:
            f = INC[b]
            l, h = widen(ty, f(lo, "f"), f(hi, "c"), b)
        l, h = fmax(l, cl[0]), fmin(h, cl[1])
        if fl.cmp(l, h) > 0:
            l = h
        return self.simplify(st, self.mk(st, ty, b, (v,), l, h))

    def trig(self, st, ty, b, v):
        """v > 0 or (cos) any nonzero; |v| finite"""
        lo, hi = self.fbounds(st, v)
        wide = True
        if fl.cmp(mpf_sub(hi, lo), ONE) < 0:
            wp = 400 + max(0, fl.expo(hi))
            hp = mpf_shift(mpf_pi(wp, "n"), -1)
            k0 = fl.floor_int(mpf_div(lo, hp, wp, "n"))
            k1 = fl.floor_int(mpf_div(hi, hp, wp, "n"))
            wide = k1 - k0 > 1
        if b == "tan":
            if wide:
                pos = None
            else:
                if k0 == k1:
                    a, c = mpf_tan(lo, wp, "n"), mpf_tan(hi, wp, "n")
                    l, h = widen(ty, fmin(a, c), fmax(a, c), b)
                    return self.nz(st, self.mk(st, ty, b, (v,), l, h))
                if k1 % 2 == 0:  # crosses a multiple of pi: increasing through zero
                    a, c = mpf_tan(lo, wp, "n"), mpf_tan(hi, wp, "n")
                    l, h = widen(ty, a, c, b)
                    return self.nz(st, self.mk(st, ty, b, (v,), l, h))
            big = mpf_div(ONE, TINYTRIG, 100, "n")
            return self.nz(st, self.mk(st, ty, b, (v,), mpf_neg(big), big), lo)
        if wide:
            # small positive arguments keep the sign
            if fl.cmp(lo, fzero) > 0 and fl.cmp(hi, half_pi("f")) <= 0:
                if b == "sin":
                    l, h = widen(ty, e_small(mpf_sin, lo), e_small(mpf_sin, hi), b)
                else:
                    l, h = widen(ty, mpf_cos(hi, WP, "f"), ONE, b)
                return self.nz(st, self.mk(st, ty, b, (v,), fmax(l, fl.minsub(ty)), fmin(h, ONE)))
            return self.nz(st, self.mk(st, ty, b, (v,), from_int(-1), ONE), lo if b == "sin" else None)
        f = mpf_sin if b == "sin" else mpf_cos
        a, c = f(lo, wp, "n"), f(hi, wp, "n")
        l, h = widen(ty, fmin(a, c), fmax(a, c), b)
        if k0 != k1:
            # extremum or zero at k1*pi/2
            q = k1 % 4
            e = {0: 0, 1: 1, 2: 0, 3: -1}[q] if b == "sin" else {0: 1, 1: 0, 2: -1, 3: 0}[q]
            if e == 1:
                h = ONE
            elif e == -1:
                l = from_int(-1)
        l, h = fmax(l, from_int(-1)), fmin(h, ONE)
        return self.nz(st, self.mk(st, ty, b, (v,), l, h))

    def nz(self, st, r, arglo=None):
        """the value is known to be non-zero with magnitude at least TINYTRIG unless tiny by its own interval"""
        if r.kind != "sym":
            return r
        lo, hi = st.facts[r.id]
        sl, sh = fl.cmp(lo, fzero), fl.cmp(hi, fzero)
        if sl > 0 or sh < 0:
            return self.simplify(st, r)
        t = TINYTRIG
        if arglo is not None and fl.cmp(arglo, fzero) > 0:
            t = fmin(t, rnd(r.ty, mpf_shift(arglo, -1)))
            t = fmax(t, fl.minsub(r.ty))
        alts = []
        if sl < 0:
            alts.append([("fact", r.id, lo, fmax(lo, mpf_neg(t)))])
        if sh > 0:
            alts.append([("fact", r.id, fmin(hi, t), hi)])
        raise Split(alts, exact=False, why="trig sign")

    def m_atan2(self, st, fr, ins, a, ty):
        y, x = a
        if y.kind == "nan" or x.kind == "nan":
            return fnan(ty)
        if y.kind == "inf" or x.kind == "inf":
            raise Unknown("atan2 of inf")
        yz = self.is_zero(st, y)
        if yz:
            ys = -1 if self.signbit(st, y) else 1
        else:
            ys = -1 if self.is_neg(st, y) else 1
        if ys < 0:
            return self.fneg(self.m_atan2(st, fr, ins, [self.fneg(y), x], ty))
        xz = self.is_zero(st, x)
        if yz:
            if self.signbit(st, x):
                return self.fmk(ty, rnd(ty, pi_("n")))
            return fzerov(ty)
        if xz:
            return self.fmk(ty, rnd(ty, half_pi("n")))
        xn = self.is_neg(st, x)
        yl, yh = self.fbounds(st, y)
        xl, xh = self.fbounds(st, x)
        if not xn:
            q0 = mpf_div(yl, xh, WP, "f")
            q1 = mpf_div(yh, xl, WP, "c")
            l, h = e_atan(q0, "f"), e_atan(q1, "c")
            l, h = widen(ty, l, h, "atan2")
            l, h = fmax(l, fzero), fmin(h, rnd(ty, half_pi("n")))
        else:
            # pi - atan(y/|x|)
            q0 = mpf_div(yl, mpf_neg(xl), WP, "f")
            q1 = mpf_div(yh, mpf_neg(xh), WP, "c")
            l, h = mpf_sub(pi_("f"), e_atan(q1, "c")), mpf_sub(pi_("c"), e_atan(q0, "f"))
            l, h = widen(ty, l, h, "atan2")
            l, h = fmax(l, rnd(ty, half_pi("n"))), fmin(h, rnd(ty, pi_("n")))
        return self.simplify(st, self.mk(st, ty, "atan2", (y, x), l, h))

    def m_hypot(self, st, fr, ins, a, ty):
        x, y = a
        if x.kind == "inf" or y.kind == "inf":
            return finfv(ty, 1)
        if x.kind == "nan" or y.kind == "nan":
            return fnan(ty)
        x, y = self.fabs(st, x), self.fabs(st, y)
        if self.is_zero(st, x):
            return y
        if self.is_zero(st, y):
            return x
        xl, xh = self.fbounds(st, x)
        yl, yh = self.fbounds(st, y)
        l = mpf_sqrt(mpf_add(mpf_mul(xl, xl), mpf_mul(yl, yl)), WP, "f")
        h = mpf_sqrt(mpf_add(mpf_mul(xh, xh), mpf_mul(yh, yh)), WP, "c")
        l, h = widen(ty, l, h, "hypot")
        l = fmax(l, fmax(xl, yl))
        if fl.cmp(l, h) > 0:
            h = l
        return self.simplify(st, self.mk(st, ty, "hypot", (x, y), l, h))

    def parity(self, st, y):
        """'non' | 'even' | 'odd' for a finite nonzero y"""
        y = self.concE(st, y) if y.kind == "lin" and y.E is not None else y
        if y.kind == "lin":
            x = st.norm(y.lin)
            if y.s < 0:
                return "even"
            if y.s > 0:
                q, r = self.divide(st, x, 1 << y.s)
                if not self.split_eq0(st, r):
                    return "non"
                x = q
            q, r = self.divide(st, x, 2)
            return "even" if self.split_eq0(st, r) else "odd"
        key = ("par", y.id, y.e)
        p = st.floors.get(key)
        if p is not None:
            return p
        lo, hi = self.fbounds(st, self.fabs(st, y))
        if fl.cmp(lo, from_man_exp(1, FMT[y.ty][0])) >= 0:
            return "even"
        alts = ["non"]
        if fl.cmp(hi, ONE) >= 0:
            alts.append("odd")
        if fl.cmp(hi, from_int(2)) >= 0:
            alts.append("even")
        if len(alts) == 1:
            return "non"
        raise Split([[("set", key, p)] for p in alts], exact=False, why="parity")

    def m_pow(self, st, fr, ins, a, ty):
        x, y = a
        if y.kind not in ("nan", "inf") and self.is_zero(st, y):
            return FV(ty, "lin", 1, Lin(1), 0)
        if x.kind not in ("nan", "inf"):
            if self.feq(st, x, fconst(x.ty, ("num", 1, 0))):
                return FV(ty, "lin", 1, Lin(1), 0)
        if x.kind == "nan" or y.kind == "nan":
            return fnan(ty)
        if y.kind == "inf":
            if x.kind == "inf":
                return finfv(ty, 1) if y.sg > 0 else fzerov(ty)
            ax = self.fabs(st, x)
            c = self.rel(st, ax, ("num", 1, 0))
            if c == 0:
                return FV(ty, "lin", 1, Lin(1), 0)
            return finfv(ty, 1) if (c > 0) == (y.sg > 0) else fzerov(ty)
        yneg = self.is_neg(st, y)
        if x.kind == "inf":
            sg = 1
            if x.sg < 0 and self.parity(st, y) == "odd":
                sg = -1
            return fzerov(ty, sg) if yneg else finfv(ty, sg)
        if self.is_zero(st, x):
            sg = 1
            if self.signbit(st, x) and self.parity(st, y) == "odd":
                sg = -1
            return finfv(ty, sg) if yneg else fzerov(ty, sg)
        if self.is_neg(st, x):
            p = self.parity(st, y)
            if p == "non":
                return fnan(ty)
            r = self.powpos(st, ty, self.fneg(x), y)
            return self.fneg(r) if p == "odd" else r
        return self.powpos(st, ty, x, y)

    def powpos(self, st, ty, x, y):
        if y.kind == "lin":
            yl = st.norm(y.lin)
            if not yl.t and y.E is None:
                if yl.c == 1 and y.s == 0:
                    return FV(ty, x.kind, x.sg, x.lin, x.s, x.E, x.id, x.e)
                if x.kind == "lin" and x.E is None and not st.norm(x.lin).t and y.s <= 0:
                    xc = st.norm(x.lin).c
                    n = yl.c << -y.s
                    if abs(n) < 30000 and xc & (xc - 1) == 0:
                        return self.fmk(ty, rnd(ty, from_man_exp(1, (tz_(xc) - x.s) * n)))
        c = self.rel(st, x, ("num", 1, 0))
        if c == 0:
            return FV(ty, "lin", 1, Lin(1), 0)
        yneg = self.is_neg(st, y)
        xl, xh = self.fbounds(st, x)
        yl, yh = self.fbounds(st, y)
        ll, lh = mpf_log(xl, WP + 400, "f"), mpf_log(xh, WP + 400, "c")
        cs = [mpf_mul(p, q) for p in (ll, lh) for q in (yl, yh)]
        lo = hi = cs[0]
        for p in cs[1:]:
            lo, hi = fmin(lo, p), fmax(hi, p)
        l, h = widen(ty, e_exp(lo, "f"), e_exp(hi, "c"), "pow")
        if (c > 0) != yneg:
            l = fmax(l, ONE)
        else:
            h = fmin(h, ONE)
        l = fmax(l, fzero)
        if fl.cmp(l, h) > 0:
            l = h
        return self.simplify(st, self.mk(st, ty, "pow", (x, y), l, h))


def tz_(n):
    return (n & -n).bit_length() - 1


def e_small(f, x):
    if fl.expo(x) < -150:
        return x
    return f(x, WP, "n")
