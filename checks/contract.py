"""C01-C06: turns the rows of table.py into region obligations"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.regions import Region, I, jobs_of, known_entries
from checks.table import unary, binary, integer, convert, nar_rows, P
from checks.common import W, KINDS, T as TN
from spec import takum as T
from mpmath import mpf
from absint import fl

ALLV = lambda p: [(p.NAR, p.M)]


def name(k, n, op):
    return "takum%s%d_%s" % (k, n, op)


def rows_of(n, lin):
    return unary(n, lin) + binary(n, lin) + integer(n, lin) + convert(n, lin)


def c01_rows(n, lin):
    ops1 = sorted({r.op for r in unary(n, lin)})
    ops2 = sorted({r.op for r in binary(n, lin)})
    return nar_rows(n, lin, ops1, ops2)


def is_exact(x):
    return x in (-1, 0, 1)


def sign_of(r):
    if r.lo is not None and r.lo >= 0:
        return 1
    if r.hi is not None and r.hi <= 0:
        return -1
    return 0


def allow_for(pid, r, n, lin, p):
    """allowed result intervals of row r for property pid; None: the property says nothing"""
    NAR, M = p.NAR, p.M
    if pid == "C01":
        return [(NAR, NAR)] if not r.ret else {"nan": True}
    if r.ret:
        return allow_float(pid, r)
    if r.kind == "nar":
        return [(NAR, NAR)] if pid == "C02" else None
    if "maybe_nar" in r.tags and pid != "C06":
        return None
    if pid == "C03":
        return [(-M, M)]
    if pid == "C04":
        return [(NAR, -1), (1, M)] if r.nz else None
    if pid == "C05":
        s = sign_of(r)
        if r.lo is not None and r.lo == r.hi == 0:
            return [(NAR, NAR), (0, 0)]
        if s > 0:
            return [(NAR, NAR), (0, M)]
        if s < 0:
            return [(NAR, 0)]
        return None
    if pid == "C06":
        if "mag1" in r.tags:
            return [(NAR, -p.O), (p.O, M)]
        if r.lo is None and r.hi is None:
            return None
        if (r.lo is None or r.lo == 0) and (r.hi is None or r.hi == 0):
            return None
        lo = -M if r.lo is None else T.rnd(r.lo, n, lin)
        hi = M if r.hi is None else T.rnd(r.hi, n, lin)
        # bounds that are not takums are rounded, and the double or long double kernels add up to one more unit of 64-bit
        # takums (the accuracy the property grants)
        tol = 2 if n == 64 else 0
        if r.lo is not None and not is_exact(r.lo):
            lo -= tol
        if r.hi is not None and not is_exact(r.hi):
            hi += tol
        return [(NAR, NAR), (lo, hi)]
    return None


def allow_float(pid, r):
    """IEEE 754 results of to_*"""
    inf = fl.finf
    rng = [(fl.mpf_neg(fl.maxfin("x86_fp80")), fl.maxfin("x86_fp80"))]
    every = {"nan": True, "inf+": True, "inf-": True, "zero": True, "rng": rng}
    if pid == "C03":
        return dict(every, nan=False)
    if pid == "C04":
        return dict(every, zero=False) if r.nz and r.ret != "float" else None
    if pid == "C05":
        s = sign_of(r)
        if r.lo is not None and r.lo == r.hi == 0:
            return {"nan": True, "zero": True}
        if s > 0:
            return {"nan": True, "inf+": True, "zero": True, "rng": [(fl.minsub("x86_fp80"), rng[0][1])]}
        return {"nan": True, "inf-": True, "zero": True, "rng": [(rng[0][0], fl.mpf_neg(fl.minsub("x86_fp80")))]}
    return None


def build(pid, select=None):
    out = []
    for n in W:
        for k in KINDS:
            lin = k != ""
            p = P(n)
            for r in (c01_rows if pid == "C01" else rows_of)(n, lin):
                if select and not select(r):
                    continue
                a = allow_for(pid, r, n, lin, p)
                if a is not None:
                    out.append(Region(name(k, n, r.op), r.label, r.args, a, affine="powint" in r.tags or "int" in r.tags))
                    out[-1].known = known_for(pid, k, n, r)
    return out


def known_for(pid, k, n, r):
    """text of the known finding (known_findings.json) that covers this row"""
    fn = name(k, n, r.op)
    for e in known_entries(pid):
        if re.fullmatch(e["functions"], fn) and re.fullmatch(e["region"], r.label):
            return "%s %s: %s" % (fn, r.label, e["what"])
    return None


COMMON = ("Every public function is abstractly interpreted over boxes of operand bit patterns that together cover its whole "
          "operand space (row table checks/table.py, derived from the manual's domain statements and from real analysis, "
          "independent of the implementation); the joined result set has to lie inside the set of results the property "
          "allows. ")
RULE = {
    "C01": COMMON + "Obligation: operand boxes with a NaR (NaN, infinite) operand in each position and every class of the other operand; allowed: only NaR (NaN for to_*).",
    "C02": COMMON + "Obligation: the complement of the documented domain; allowed: only NaR.",
    "C03": COMMON + "Obligation: the documented domain without NaR operands; allowed: everything but NaR.",
    "C04": COMMON + "Obligation: boxes on which the exact result is non-zero; allowed: everything but 0.",
    "C05": COMMON + "Obligation: boxes on which the exact result has a constant sign; allowed: results of that sign (or zero, NaR, which C04 and C03 judge).",
    "C06": COMMON + "Obligation: boxes on which the exact result is bounded; allowed: results inside the bounds as rounded to the type (2 units of tolerance in 64-bit types for bounds other than 0 and +-1).",
}
ASSUME = ["libm functions err by at most 2 ulp (exp, exp2, log, log2, log10, pow, atan, atan2, asin, cbrt, hypot) or 8 ulp (others), respect the range, sign and special values of Annex F and are exactly odd or even",
          "no takum or float argument other than 0 is closer to a zero of sin, cos or tan than 2^-140 relative to the format"]


def check(pid):
    from checks.driver import main

    def mk(tier):
        return [], jobs_of(build(pid), *((60, 15) if tier == "quick" else (400, 60)))
    main_rule = RULE.get(pid, "")
    sys.exit(main(pid, mk, main_rule, libm=True, assumptions=ASSUME))
