import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("every path of precision() of all eight types over all bit patterns is compared with n-5-r computed from the "
        "direction and regime bits of the (left-aligned) bit string; n-12 for zero and NaR, at least 0")


def build(tier):
    src = HEAD + '''
static int prec(int64_t t, int n)
{
	uint64_t u = (uint64_t)t;
	int d = (int)((u >> 62) & 1), R = (int)((u >> 59) & 7), r = d ? R : 7 - R, p = n - 5 - r;
	return p < 0 ? 0 : p;
}
'''
    jobs = []
    for n in W:
        for k in KINDS:
            t = T(k, n)
            src += '''
void p%(k)s%(n)d(%(t)s t) { int r = %(t)s_precision(t);
 if (t == NAR%(n)d || t == 0) CHECK(r == %(w)d); else CHECK(r == prec(L%(n)d(t), %(n)d)); }
''' % dict(k=k, n=n, t=t, w=max(0, n - 12))
            jobs.append(Job(t + "_precision", "p%s%d" % (k, n), [full(n)]))
    return [("c14.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C14", build, RULE))
