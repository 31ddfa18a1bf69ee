"""Floating formats and exact endpoint arithmetic (mpmath.libmp raw mpf tuples)."""
from mpmath.libmp import (from_man_exp, from_int, mpf_add, mpf_sub, mpf_mul, mpf_div, mpf_neg, mpf_cmp, mpf_abs,
                          fzero, finf, fninf, fnan, fone, mpf_shift, to_str, mpf_pos, mpf_lt, mpf_le, mpf_sign,
                          to_rational, from_rational)

FMT = {"float": (24, -126, 127), "double": (53, -1022, 1023), "x86_fp80": (64, -16382, 16383)}
BITS = {"float": 32, "double": 64, "x86_fp80": 80}


def cmp(a, b):
    return mpf_cmp(a, b)


def fmax(a, b):
    return a if mpf_cmp(a, b) >= 0 else b


def fmin(a, b):
    return a if mpf_cmp(a, b) <= 0 else b


def maxfin(ty):
    p, emin, emax = FMT[ty]
    return from_man_exp((1 << p) - 1, emax - p + 1)


def minsub(ty):
    p, emin, emax = FMT[ty]
    return from_man_exp(1, emin - p + 1)


def minnorm(ty):
    p, emin, emax = FMT[ty]
    return from_man_exp(1, emin)


def expo(x):
    """floor(log2|x|) of nonzero finite mpf"""
    s, m, e, bc = x
    return e + bc - 1


def rnd(ty, x, mode="n"):
    """round mpf x to the format; mode n (nearest even), f (floor), c (ceiling). May return +-inf for mode n/f/c overflow."""
    if x == fzero or x in (finf, fninf):
        return x
    p, emin, emax = FMT[ty]
    s, m, e, bc = x
    ex = e + bc - 1
    if ex < emin:
        # subnormal: quantum 2^(emin-p+1)
        q = emin - p + 1
        r = quant(x, q, mode)
    else:
        r = mpf_pos(x, p, mode)
    if r == fzero:
        return r
    if expo(r) > emax:
        if mode == "n":
            return fninf if s else finf
        if s:
            return fninf if mode == "f" else mpf_neg(maxfin(ty))
        return finf if mode == "c" else maxfin(ty)
    return r


def quant(x, q, mode):
    s, m, e, bc = x
    if e >= q:
        return x
    sh = q - e
    lo = m >> sh
    rem = m - (lo << sh)
    half = 1 << (sh - 1)
    up = False
    if mode == "n":
        up = rem > half or (rem == half and lo & 1)
    elif mode == "f":
        up = s and rem
    elif mode == "c":
        up = (not s) and rem
    lo += 1 if up else 0
    return from_man_exp(-lo if s else lo, q)


def nextafter(ty, x, up):
    """neighbouring value of the format"""
    p, emin, emax = FMT[ty]
    if x == fzero:
        return minsub(ty) if up else mpf_neg(minsub(ty))
    s, m, e, bc = x
    ex = e + bc - 1
    q = max(ex, emin) - p + 1
    step = from_man_exp(1, q)
    if up:
        r = mpf_add(x, step)
        if s and ex > emin and m == 1:
            r = mpf_add(x, from_man_exp(1, q - 1))
        return r
    r = mpf_sub(x, step)
    if (not s) and ex > emin and m == 1:
        r = mpf_sub(x, from_man_exp(1, q - 1))
    return r


def floor_int(x):
    s, m, e, bc = x
    if m == 0:
        return 0
    v = -m if s else m
    return v << e if e >= 0 else v >> (-e)


def ceil_int(x):
    return -floor_int(mpf_neg(x))


def show(x):
    return to_str(x, 12)
