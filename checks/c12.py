import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa

RULE = ("one obligation per identity law, type and operand side: every path over all bit patterns of t ends with exactly the "
        "bit pattern the law demands")


def build(tier):
    src = HEAD
    jobs = []
    for n in W:
        for k in KINDS:
            t = T(k, n)
            one = "((%s)((int64_t)1 << (%d - 2)))" % (t, n)
            laws = {
                "mul1": ("", "%s_multiplication(t, %s) == t" % (t, one)),
                "1mul": ("", "%s_multiplication(%s, t) == t" % (t, one)),
                "div1": ("", "%s_division(t, %s) == t" % (t, one)),
                "mulm1": ("__vp_assume(t != NAR%d);" % n, "%s_multiplication(t, -%s) == -t" % (t, one)),
                "divm1": ("__vp_assume(t != NAR%d);" % n, "%s_division(t, -%s) == -t" % (t, one)),
                "mul0": ("__vp_assume(t != NAR%d);" % n, "%s_multiplication(t, 0) == 0" % t),
                "0mul": ("__vp_assume(t != NAR%d);" % n, "%s_multiplication(0, t) == 0" % t),
                "divself": ("__vp_assume(t != NAR%d && t != 0);" % n, "%s_division(t, t) == %s" % (t, one)),
            }
            if k:
                laws.update({
                    "add0": ("", "%s_addition(t, 0) == t" % t),
                    "0add": ("", "%s_addition(0, t) == t" % t),
                    "sub0": ("", "%s_subtraction(t, 0) == t" % t),
                    "subself": ("__vp_assume(t != NAR%d);" % n, "%s_subtraction(t, t) == 0" % t),
                    "rtl": ("", "%s_from_extended_float(%s_to_extended_float(t)) == t" % (t, t)),
                })
                if n < 64:
                    laws["rtd"] = ("", "%s_from_float64(%s_to_float64(t)) == t" % (t, t))
            for nm, (pre, c) in laws.items():
                f = "x%s%s%d" % (nm, k, n)
                src += "void %s(%s t) { %s CHECK(%s); }\n" % (f, t, pre, c)
                jobs.append(Job("%s/%s" % (t, nm), f, [full(n)]))
    return [("c12.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C12", build, RULE))
