import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa

RULE = ("every path of takumN_{multiplication,division,square_root} over all operand bit patterns is compared with the "
        "reference rounding (spec_encode) of the exact sum/difference/half of the exact logarithmic values")


def build(tier):
    src = '#include "spec.h"\n'
    jobs = []
    for n in (8, 16, 32):
        for op, sgn in (("multiplication", "+"), ("division", "-")):
            src += '''
void %(op)s%(n)d(takum%(n)d a, takum%(n)d b) {
 __vp_assume(a != NAR%(n)d && b != NAR%(n)d && a != 0 && b != 0);
 i128 l = spec_l(L%(n)d(a)) %(s)s spec_l(L%(n)d(b)); bool s = (a < 0) != (b < 0);
 takum%(n)d r = takum%(n)d_%(op)s(a, b);
 CHECK(r == spec_encode(s, s ? -l : l, SF, %(n)d));
}
''' % dict(op=op, n=n, s=sgn)
            jobs.append(Job("takum%d_%s" % (n, op), "%s%d" % (op, n), [(n, -(1 << n - 1), (1 << n - 1) - 1)] * 2))
    # 64 bits: the sum of the logarithmic values may need more than the 64 bits of a long double significand. Two
    # families that together contain every regime pair: all bits for |l| < 16; multiples of 2^16 (of 2^k in the thorough
    # tier) for all regimes.
    for op, sgn in (("multiplication", "+"), ("division", "-")):
        src += '''
void %(op)s64a(takum64 a, takum64 b) {
 __vp_assume(a != NAR64 && b != NAR64 && a != 0 && b != 0);
 i128 la = spec_l(L64(a)), lb = spec_l(L64(b)), l = la %(s)s lb, B = (i128)16 << SF; bool s = (a < 0) != (b < 0);
 __vp_assume(la < B && la > -B); __vp_assume(lb < B && lb > -B);
 takum64 r = takum64_%(op)s(a, b); int64_t e = spec_encode(s, s ? -l : l, SF, 64);
 CHECK((i128)r - e <= 1 && (i128)e - r <= 1);
}
void %(op)s64b(takum64 a, takum64 b) {
 __vp_assume(a != NAR64 && b != NAR64 && a != 0 && b != 0);
 __vp_assume((a & 0x%(m)x) == 0 && (b & 0x%(m)x) == 0);
 i128 l = spec_l(L64(a)) %(s)s spec_l(L64(b)); bool s = (a < 0) != (b < 0);
 takum64 r = takum64_%(op)s(a, b); int64_t e = spec_encode(s, s ? -l : l, SF, 64);
 CHECK((i128)r - e <= 1 && (i128)e - r <= 1);
}
''' % dict(op=op, s=sgn, m=0xffff)
        for v in "ab":
            jobs.append(Job("takum64_%s/%s" % (op, v), "%s64%s" % (op, v), [(64, -(1 << 63), (1 << 63) - 1)] * 2))
    for n in (8, 16, 32, 64):
        src += '''
void sqrt%(n)d(takum%(n)d a) {
 __vp_assume(a > 0);
 i128 l = spec_l(L%(n)d(a));
 takum%(n)d r = takum%(n)d_square_root(a); int64_t e = spec_encode(0, l, SF + 1, %(n)d);
 CHECK(%(c)s);
}
void sqrt0%(n)d(void) { CHECK(takum%(n)d_square_root(0) == 0); }
''' % dict(n=n, c="r == e" if n < 64 else "(i128)r - e <= 1 && (i128)e - r <= 1")
        jobs.append(Job("takum%d_square_root" % n, "sqrt%d" % n, [(n, 0, (1 << n - 1) - 1)]))
        jobs.append(Job("takum%d_square_root/zero" % n, "sqrt0%d" % n, []))
    return [("c10.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C10", build, RULE, assumptions=[
        "takum64 multiplication/division: operands with |l| < 16, and operands of every regime whose 16 lowest bits are "
        "zero; the remaining operand pairs (whose exact sum needs more than 64 significant bits) are not covered"]))
