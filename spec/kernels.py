"""The real functions behind the operations, independent of the library: value, domain and monotone pieces."""
import mpmath
from mpmath import mp, mpf

PI = +mp.pi
ONE = mpf(1)
BIG = mpf(2) ** 300


def _acot(x):
    return mpmath.atan(1 / x) if x > 0 else PI / 2 if x == 0 else PI + mpmath.atan(1 / x)


def _e(x):
    """keeps the exponent of exp finite: everything beyond saturates in every type"""
    return max(-mpf(2000), min(mpf(2000), x))


def _log1p(x):
    return mpmath.log1p(x) if abs(x) < 0.5 else mpmath.log(1 + x)


def _asinh(x):
    return mpmath.asinh(x) if abs(x) > mpf(2) ** -100 else x - x ** 3 / 6


def _atanh(x):
    return mpmath.atanh(x) if abs(x) > mpf(2) ** -100 else x + x ** 3 / 3


INF = mpmath.inf
# op: (function, [domain intervals (lo, hi, lo closed, hi closed)], monotone pieces (lo, hi))
ALL = [(-INF, INF)]
NEGPOS = [(-INF, mpf(0)), (mpf(0), INF)]
h = PI / 2
U = {
    "exp": (lambda x: mpmath.exp(_e(x)), ALL, ALL),
    "2_raised": (lambda x: mpmath.power(2, _e(x)), ALL, ALL),
    "10_raised": (lambda x: mpmath.power(10, _e(x)), ALL, ALL),
    "exp_minus_1": (lambda x: mpmath.expm1(_e(x)), ALL, ALL),
    "2_raised_minus_1": (lambda x: mpmath.expm1(_e(x) * mpmath.log(2)), ALL, ALL),
    "10_raised_minus_1": (lambda x: mpmath.expm1(_e(x) * mpmath.log(10)), ALL, ALL),
    "ln": (mpmath.log, [(mpf(0), INF)], ALL),
    "lb": (lambda x: mpmath.log(x) / mpmath.log(2), [(mpf(0), INF)], ALL),
    "lg": (lambda x: mpmath.log(x) / mpmath.log(10), [(mpf(0), INF)], ALL),
    "ln_1_plus": (_log1p, [(-ONE, INF)], ALL),
    "lb_1_plus": (lambda x: _log1p(x) / mpmath.log(2), [(-ONE, INF)], ALL),
    "lg_1_plus": (lambda x: _log1p(x) / mpmath.log(10), [(-ONE, INF)], ALL),
    "square_root": (mpmath.sqrt, [(mpf(0), INF)], ALL),
    "sin": (mpmath.sin, ALL, [(-h, h)]),
    "cos": (mpmath.cos, ALL, [(-PI, -h), (-h, mpf(0)), (mpf(0), h), (h, PI)]),
    "tan": (mpmath.tan, ALL, [(-h, h)]),
    "cot": (lambda x: 1 / mpmath.tan(x), NEGPOS, [(-PI, -h), (-h, mpf(0)), (mpf(0), h), (h, PI)]),
    "sec": (lambda x: 1 / mpmath.cos(x), ALL, [(-h, mpf(0)), (mpf(0), h)]),
    "csc": (lambda x: 1 / mpmath.sin(x), NEGPOS, [(-h, mpf(0)), (mpf(0), h)]),
    "arcsin": (mpmath.asin, [(-ONE, ONE)], ALL),
    "arccos": (mpmath.acos, [(-ONE, ONE)], ALL),
    "arctan": (mpmath.atan, ALL, ALL),
    "arccot": (_acot, ALL, ALL),
    "arcsec": (lambda x: mpmath.acos(1 / x), [(-INF, -ONE), (ONE, INF)], ALL),
    "arccsc": (lambda x: mpmath.asin(1 / x), [(-INF, -ONE), (ONE, INF)], ALL),
    "sinh": (lambda x: mpmath.sinh(_e(x)), ALL, ALL),
    "cosh": (lambda x: mpmath.cosh(_e(x)), ALL, NEGPOS),
    "tanh": (lambda x: mpmath.tanh(_e(x)), ALL, ALL),
    "coth": (lambda x: 1 / mpmath.tanh(_e(x)), NEGPOS, NEGPOS),
    "sech": (lambda x: 1 / mpmath.cosh(_e(x)), ALL, NEGPOS),
    "csch": (lambda x: 1 / mpmath.sinh(_e(x)), NEGPOS, NEGPOS),
    "arsinh": (_asinh, ALL, ALL),
    "arcosh": (mpmath.acosh, [(ONE, INF)], ALL),
    "artanh": (_atanh, [(-ONE, ONE)], ALL),
    "arcoth": (lambda x: _atanh(1 / x), [(-INF, -ONE), (ONE, INF)], ALL),
    "arsech": (lambda x: mpmath.acosh(1 / x), [(mpf(0), ONE)], ALL),
    "arcsch": (lambda x: _asinh(1 / x), NEGPOS, NEGPOS),
    "absolute": (abs, ALL, NEGPOS),
    "sign": (mpmath.sign, ALL, NEGPOS),
    "inversion": (lambda x: 1 / x, NEGPOS, NEGPOS),
}
for _o in ("arcsin", "arccos", "arctan", "arccot", "arcsec", "arccsc"):
    U[_o + "_over_pi"] = ((lambda f: lambda x: f(x) / PI)(U[_o][0]),) + U[_o][1:]


def _sinpi(x):
    return mpmath.sinpi(x)


def _pieces(ps):
    return [(a / PI, b / PI) for a, b in ps]


U["sin_pi_times"] = (mpmath.sinpi, ALL, _pieces(U["sin"][2]))
U["cos_pi_times"] = (mpmath.cospi, ALL, _pieces(U["cos"][2]))
U["tan_pi_times"] = (lambda x: mpmath.sinpi(x) / mpmath.cospi(x), ALL, _pieces(U["tan"][2]))
U["cot_pi_times"] = (lambda x: mpmath.cospi(x) / mpmath.sinpi(x), NEGPOS, _pieces(U["cot"][2]))
U["sec_pi_times"] = (lambda x: 1 / mpmath.cospi(x), ALL, _pieces(U["sec"][2]))
U["csc_pi_times"] = (lambda x: 1 / mpmath.sinpi(x), NEGPOS, _pieces(U["csc"][2]))

PERIODIC = {o for o in U if o.split("_")[0] in ("sin", "cos", "tan", "cot", "sec", "csc")}


def _pow(a, b):
    if a == 0:
        return mpf(0)
    if a < 0:
        v = mpmath.exp(_e(b * mpmath.log(-a)))
        return -v if int(b) % 2 else v
    return mpmath.exp(_e(b * mpmath.log(a)))


B = {
    "addition": lambda a, b: a + b,
    "subtraction": lambda a, b: a - b,
    "multiplication": lambda a, b: a * b,
    "division": lambda a, b: a / b,
    "hypotenuse": lambda a, b: mpmath.sqrt(a * a + b * b),
    "power": _pow,
    "arctan2": lambda a, b: mpmath.atan2(a, b),
    "arctan2_over_pi": lambda a, b: mpmath.atan2(a, b) / PI,
}
