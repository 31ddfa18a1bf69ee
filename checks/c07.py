import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("every path of takum{,_linear}M_from_takum{,_linear}N over all 2^N bit patterns is compared with zero extension "
        "(M > N) or round-to-nearest-even of the bit string with saturation (M < N)")


def build(tier):
    src = HEAD + '''
/* nearest-even truncation of an n-bit pattern (as signed integer) to m bits, saturating; written on integers only */
static int64_t narrow(int64_t t, int n, int m)
{
	i128 unit = (i128)1 << (n - m), q = (i128)t >> (n - m), r = (i128)t - q * unit, max = ((i128)1 << (m - 1)) - 1;
	if (t == 0) return 0;
	if (t == -((i128)1 << (n - 1))) return -((int64_t)((i128)1 << (m - 1)));
	if (2 * r > unit) q++; else if (2 * r == unit) { if (q & 1) q++; }
	if (q == 0) q = t < 0 ? -1 : 1;
	if (q > max) q = max;
	if (q < -max) q = -max;
	return (int64_t)q;
}
'''
    jobs = []
    for k in KINDS:
        for m in W:
            for n in W:
                if m == n:
                    continue
                a = dict(M=T(k, m), N=T(k, n), m=m, n=n, d=abs(m - n), f="c%s_%d_%d" % (k, m, n))
                src += "void %(f)s(%(N)s t) { %(M)s r = %(M)s_from_%(N)s(t);" % a
                if m > n:
                    src += " CHECK((i128)r == (i128)t * ((i128)1 << %(d)d)); }\n" % a
                else:
                    src += " CHECK(r == narrow(t, %(n)d, %(m)d)); }\n" % a
                jobs.append(Job("%s_from_%s" % (T(k, m), T(k, n)), a["f"], [full(n)]))
    return [("c07.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C07", build, RULE))
