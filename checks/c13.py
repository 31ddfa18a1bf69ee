import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("every path of absolute and sign (eight types) and of inversion (logarithmic types) over all bit patterns is "
        "compared with the exact integer definition (negation; one = 2^(n-2); 1/t is the bit string 2^(n-1) - t)")


def build(tier):
    src = HEAD
    jobs = []
    for n in W:
        for k in KINDS:
            t = T(k, n)
            src += '''
void abs%(k)s%(n)d(%(t)s t) { %(t)s r = %(t)s_absolute(t);
 if (t == NAR%(n)d) CHECK(r == NAR%(n)d); else CHECK((i128)r == (t < 0 ? -(i128)t : (i128)t)); }
void sign%(k)s%(n)d(%(t)s t) { %(t)s r = %(t)s_sign(t); int64_t one = (int64_t)1 << (%(n)d - 2);
 if (t == NAR%(n)d) CHECK(r == NAR%(n)d); else CHECK(r == (t > 0 ? one : t < 0 ? -one : 0)); }
''' % dict(k=k, n=n, t=t)
            jobs.append(Job(t + "_absolute", "abs%s%d" % (k, n), [full(n)]))
            jobs.append(Job(t + "_sign", "sign%s%d" % (k, n), [full(n)]))
        # the logarithmic value of 1/t is -l; same sign: bit string complement within the sign half
        src += '''
void inv%(n)d(takum%(n)d t) { takum%(n)d r = takum%(n)d_inversion(t); i128 h = (i128)1 << (%(n)d - 1);
 if (t == NAR%(n)d || t == 0) CHECK(r == NAR%(n)d);
 else CHECK((i128)r == (t > 0 ? h - (i128)t : -h - (i128)t)); }
void invl%(n)d(takum%(n)d t) { __vp_assume(t != NAR%(n)d && t != 0);
 i128 l = spec_cpm(L%(n)d(t));
 /* (c + m) of the inverse is -(c + m) */
 takum%(n)d r = takum%(n)d_inversion(t); CHECK(r == spec_encode(t < 0, -l, SF, %(n)d)); }
''' % dict(n=n)
        jobs.append(Job("takum%d_inversion" % n, "inv%d" % n, [full(n)]))
        jobs.append(Job("takum%d_inversion/value" % n, "invl%d" % n, [full(n)]))
    return [("c13.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C13", build, RULE))
