import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("every path of takum_linearN_to_{float32,float64,extended_float} over all bit patterns is compared with the value "
        "((1-3S)+f)*2^((-1)^S(c+S)) of the bit string, rounded once to the float type")

LINSPEC = '''
/* exact value of a non-zero, non-NaR linear takum left-aligned in 64 bits: integer significand times power of two */
static long double linval(int64_t t)
{
	i128 v = spec_cpm(t), one = (i128)1 << SF, c = v >> SF, f = v - c * one;
	int e = t < 0 ? -(int)(c + 1) : (int)c;
	int64_t sig = (int64_t)(t < 0 ? f - 2 * one : one + f);
	return ldexpl((long double)sig, e - SF);
}
'''


def build(tier):
    src = HEAD + LINSPEC
    jobs = []
    for n in W:
        for ty, nm, isn in (("float", "float32", "r != r"), ("double", "float64", "r != r"),
                            ("long double", "extended_float", "r != r")):
            src += '''
void z%(n)d_%(nm)s(void) { %(ty)s r = takum_linear%(n)d_to_%(nm)s(0); CHECK(r == 0);
 r = takum_linear%(n)d_to_%(nm)s(NAR%(n)d); CHECK(r != r); }
void f%(n)d_%(nm)s(takum_linear%(n)d t) { __vp_assume(t != 0 && t != NAR%(n)d);
 %(ty)s e = (%(ty)s)linval(L%(n)d(t)), r = takum_linear%(n)d_to_%(nm)s(t); CHECK(r == e); }
''' % dict(n=n, ty=ty, nm=nm)
            jobs.append(Job("takum_linear%d_to_%s" % (n, nm), "f%d_%s" % (n, nm), [full(n)]))
            jobs.append(Job("takum_linear%d_to_%s/special" % (n, nm), "z%d_%s" % (n, nm), []))
    return [("c08.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C08", build, RULE))
