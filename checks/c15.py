import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import regions  # noqa
from checks.regions import Region, I, NOUB  # noqa
from checks.contract import rows_of, c01_rows, name, ASSUME  # noqa
from checks.driver import *  # noqa
from checks.common import *  # noqa
from checks.table import P  # noqa

RULE = ("Every public function is abstractly interpreted, down to all its helpers, over operand boxes that together cover its whole "
        "operand space; along every abstract path each signed operation stays in range, each shift amount is smaller than the width and "
        "no negative value is shifted left, no divisor is zero, each float-to-integer conversion is in range, each table access is in "
        "bounds, nothing uninitialised is read, and the path ends (loops are unrolled to their end on every path)")
FLAGS = ("-fsanitize=shift,array-bounds,vla-bound,return,unreachable", "-fsanitize-trap=all")


def build(tier):
    by = {}
    for n in W:
        for k in KINDS:
            lin = k != ""
            seen = set()
            for r in list(rows_of(n, lin)) + list(c01_rows(n, lin)):
                fn = name(k, n, r.op)
                key = (fn, tuple(r.args))
                if key in seen:
                    continue
                seen.add(key)
                by.setdefault(fn, []).append(Region(fn, r.label, r.args, NOUB))
            fn = name(k, n, "precision")
            p = P(n)
            by.setdefault(fn, []).append(Region(fn, "all", [I(n, p.NAR, p.M)], NOUB))
    lim = (90, 45) if tier == "quick" else (400, 60)
    jobs = [Job(fn, fn, [], deadline=lim[0], pyfn=regions.run_regions(rs, *lim)) for fn, rs in by.items()]
    for j in jobs:
        # operations without libm calls are the easiest to find a definite input for
        j.prio = 0 if any(x in j.name for x in ("_from_", "_to_", "root", "integer_power", "multiplication", "division", "inversion", "absolute")) else 1
    jobs.sort(key=lambda j: (-("64" in j.name) - ("32" in j.name) * 0.5, j.name))
    return [], jobs


if __name__ == "__main__":
    sys.exit(main("C15", build, RULE, libm=True, assumptions=ASSUME, extra_flags=FLAGS))
