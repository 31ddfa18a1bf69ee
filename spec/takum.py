"""Reference semantics of the takum formats on mpmath reals (independent of the library)."""
from fractions import Fraction
import mpmath
from mpmath import mp, mpf

mp.prec = 700


def fields(t, n):
    """positive takum t of n bits -> (c, m) with characteristic c and mantissa m in [0,1) (Fraction)"""
    v = t << (64 - n)
    d = (v >> 62) & 1
    r3 = (v >> 59) & 7
    r = r3 if d else 7 - r3
    p = 59 - r
    cf = (v >> p) & ((1 << r) - 1)
    c = (1 << r) - 1 + cf if d else -(1 << (r + 1)) + 1 + cf
    return c, Fraction(v & ((1 << p) - 1), 1 << p)


def val(t, n, linear):
    """mpf value; exact for linear takums; t != NaR"""
    if t == 0:
        return mpf(0)
    if t < 0:
        return -val(-t, n, linear)
    c, m = fields(t, n)
    if linear:
        return mpmath.ldexp(mpf(m.numerator) / m.denominator + 1, c)
    return mpmath.exp(ell(t, n) / 2)


def ell(t, n):
    c, m = fields(t, n)
    return c + mpf(m.numerator) / m.denominator


def coord_cm(c, m, n):
    """real position of (c, m) on the axis of n-bit takum integers"""
    c = max(-255, min(254, c))
    if c >= 0:
        r = (c + 1).bit_length() - 1
        h = (1 << 4 | r << 1) // 2  # D=1, R=r (5-bit prefix S D RRR without S)
        h = 8 | r
        cf = c + 1 - (1 << r)
    else:
        r = (-c).bit_length() - 1
        h = 7 - r
        cf = c + (1 << (r + 1)) - 1
    H = (h << r) | cf
    return mpmath.ldexp(H + m, n - 5 - r)


def coord(x, n, linear):
    """position (an mpf) of the non-zero real x on the axis of the n-bit takum integers, unrounded and saturating"""
    if x < 0:
        return -coord(-x, n, linear)
    mx = mpf(2) ** (n - 1) - 1
    if linear:
        man, e = mpmath.frexp(x)
        c, m = int(e) - 1, man * 2 - 1
    else:
        l = 2 * mpmath.log(x)
        c = int(mpmath.floor(l))
        m = l - c
    if c < -255:
        return mpf(0)
    if c > 254:
        return mpf(2) ** (n - 1)
    return coord_cm(c, m, n)


def clamp(t, n):
    mx = (1 << (n - 1)) - 1
    s = -1 if t < 0 else 1
    return s * max(1, min(mx, abs(t)))


def rnd(x, n, linear):
    """takum integer nearest to the real x, ties to even, saturating"""
    if x == 0:
        return 0
    if x < 0:
        return -rnd(-x, n, linear)
    p = coord(x, n, linear)
    return clamp(int(mpmath.nint(p)), n)


def nar(n):
    return -(1 << (n - 1))


if __name__ == "__main__":
    for n in (8, 12, 16):
        for lin in (0, 1):
            for t in range(1, 1 << (n - 1)):
                assert rnd(val(t, n, lin), n, lin) == t, (n, lin, t)
                c, m = fields(t, n)
                assert abs(coord(val(t, n, lin), n, lin) - t) < 1e-50
    print("ok")
