import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("every path of takum_linearN_from_{float32,float64,extended_float} over all finite non-zero floats sig*2^e (all "
        "significands, all exponents, subnormals, both signs) is compared with the reference encoding of the exact value; "
        "+-0 gives 0, NaN and infinities give NaR")

SPEC = '''
/* c + m (59 + 5 fractional bits) of the linear takum of the real s * sig * 2^e with sig in [2^63, 2^64) */
#define LF 64
static int64_t linenc(bool s, uint64_t sig, int e, int n)
{
	/* |x| = (1 + g) 2^h */
	i128 one = (i128)1 << LF, g = ((i128)sig << (LF - 63)) - one, v;
	int h = e + 63;
	if (!s) {
		v = (i128)h * one + g;
	} else if (g == 0) {
		/* -(2 - f) 2^k, f = 1 - g; g = 0 is f = 0 one exponent below */
		v = -(i128)h * one;
	} else {
		v = -(i128)(h + 1) * one + (one - g);
	}
	return spec_encode(s, v, LF, n);
}
'''


def build(tier):
    src = HEAD + SPEC
    jobs = []
    for n in W:
        t = "takum_linear%d" % n
        for ty, nm, p, emin, emax in (("float", "float32", 24, -149, 127 - 23), ("double", "float64", 53, -1074, 1023 - 52),
                                      ("long double", "extended_float", 64, -16445, 16383 - 63)):
            ld = "ldexp%s" % {"float": "f", "double": "", "long double": "l"}[ty]
            if nm == "extended_float" and n == 64:
                chk = "(i128)r - x <= 1 && (i128)x - r <= 1"
            elif nm == "extended_float":
                chk = "(i128)r - x <= 1 && (i128)x - r <= 1"
            else:
                chk = "r == x"
            # sig in [2^(p-1), 2^p): normal; below: subnormal with the smallest exponent
            src += '''
void f%(n)d_%(nm)s(uint64_t sig, int e, uint8_t neg)
{
 bool s = neg != 0;
 %(ty)s f = %(ld)s((%(ty)s)sig, e);
 int64_t x = linenc(s, sig << (64 - %(p)d), e - (64 - %(p)d), %(n)d);
 %(t)s r = %(t)s_from_%(nm)s(s ? -f : f);
 CHECK(%(c)s);
}
void sub%(n)d_%(nm)s(uint64_t sig, uint8_t neg)
{
 %(ty)s f = %(ld)s((%(ty)s)sig, %(emin)d); bool s = neg != 0;
 int sh = 0; 
 %(t)s r = %(t)s_from_%(nm)s(s ? -f : f);
 %(subchk)s
}
void z%(n)d_%(nm)s(void) { %(ty)s z = 0; CHECK(%(t)s_from_%(nm)s(z) == 0); CHECK(%(t)s_from_%(nm)s(-z) == 0);
 CHECK(%(t)s_from_%(nm)s(NAN) == NAR%(n)d); CHECK(%(t)s_from_%(nm)s(INFINITY) == NAR%(n)d);
 CHECK(%(t)s_from_%(nm)s(-INFINITY) == NAR%(n)d); }
''' % dict(n=n, ty=ty, nm=nm, ld=ld, p=p, t=t, c=chk, emin=emin,
           subchk="CHECK(r == (s ? -1 : 1));" if nm != "float32" else "CHECK(s ? r < 0 && r != NAR%d : r > 0);" % n)
            lo, hi = max(emin, -300 - 63), min(emax, 300)
            jobs.append(Job("%s_from_%s" % (t, nm), "f%d_%s" % (n, nm),
                            [(64, 1 << p - 1, (1 << p) - 1), (32, emin, emax), (8, 0, 1)]))
            jobs.append(Job("%s_from_%s/subnormal" % (t, nm), "sub%d_%s" % (n, nm),
                            [(64, 1, (1 << p - 1) - 1), (8, 0, 1)]))
            jobs.append(Job("%s_from_%s/special" % (t, nm), "z%d_%s" % (n, nm), []))
    return [("c09.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C09", build, RULE))
