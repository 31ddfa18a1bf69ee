import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import *  # noqa
from checks.common import *  # noqa
from checks.regions import Region, I, Runner
from checks.kernel import points, few
from absint.herb import Norm, Paths, Cannot, consistent, same_where_pinned

RULE = ("value numbering: the paths of every operation (conditions and results as terms over the operands, internal helpers inlined) are "
        "compared with the paths of the exchanged or negated call; every pair of paths whose conditions do not exclude each other must end "
        "in the results the symmetry demands, equal as terms under the exact symmetries of IEEE arithmetic. The symmetry of the "
        "conversions under negation is an obligation of its own, proved over all bit patterns. Where the terms differ, both calls are "
        "abstractly interpreted at structured operands and a difference of the two exact results is reported")

ODD = ("sin tan sinh tanh arcsin arctan arsinh artanh arcsin_over_pi arctan_over_pi csc cot csch coth arcsch inversion "
       "arccsc arccsc_over_pi sign").split()
EVEN = "cos cosh sec sech absolute".split()
CONV = {8: ("float64", "double"), 16: ("float64", "double"), 32: ("float64", "double"), 64: ("extended_float", "long double")}
TO = {"takum_linear%d_to_%s" % (n, CONV[n][0]) for n in W}
FROM = {"takum_linear%d_from_%s" % (n, CONV[n][0]) for n in W}


def compare(prog, fn, n, sym):
    """(ok, number of paths, number of pairs, first difference)"""
    norm = Norm(TO, FROM)
    P = Paths(prog, norm)
    f = prog.func(fn)
    ty = "i%d" % n
    a, b = ("arg", 0, ty), ("arg", 1, ty)
    nar = norm.ci(-(1 << (n - 1)), n)
    na, nb = norm.neg(a, n), norm.neg(b, n)
    pre = []
    if sym == "comm":
        left, right, rel = (a, b), (b, a), "eq"
    else:
        pre = [(norm.icmp("eq", ty, x, nar), 0) for x in ((a, b) if len(f.params) > 1 else (a,))]
        left, right, rel = {"anti": ((a, b), (b, a), "neg"), "mneg": ((a, b), (na, b), "neg"), "mnegb": ((a, b), (a, nb), "neg"),
                            "odd": ((a,), (na,), "neg"), "even": ((a,), (na,), "eq")}[sym]
    S = P.run(f, left, pre)
    R = P.run(f, right, pre)
    pairs = 0
    for l1, r1 in S:
        want = r1 if rel == "eq" or r1 == nar else norm.neg(r1, n)
        for l2, r2 in R:
            if r2 == want:
                pairs += 1
                continue
            if consistent(l1 + l2) and not same_where_pinned(l1 + l2, want, r2):
                return False, len(S) + len(R), pairs, "results %s and %s" % (short(r1), short(r2)), P.seen
            pairs += 1
    return True, len(S) + len(R), pairs, None, P.seen


def short(t):
    if t[0] == "call":
        return "%s(%s)" % (t[1], ", ".join(short(x) for x in t[3]))
    if t[0] == "arg":
        return "ab"[t[1]]
    if t[0] in ("ci", "cf"):
        return str(t[2] if t[0] == "cf" else t[1])[:24]
    if t[0] in ("fneg", "neg", "not"):
        return "-" + short(t[1])
    return "%s(%s)" % (t[0], ", ".join(short(x) for x in t[1:] if isinstance(x, tuple)))


def samples(n, lin, arity):
    pts = [t for t in points(n, lin, 2)]
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    M = (1 << (n - 1)) - 1
    if arity == 1:
        return [(t,) for t in pts] + [(rnd.randint(1, M),) for _ in range(400)]
    fw = few(n, lin)
    out = [(x, y) for x in fw for y in fw if x != y]
    rnd.shuffle(out)
    out = out[:300]
    O = 1 << (n - 2)
    for _ in range(600):
        # of comparable magnitude
        x = O + rnd.randint(-O // 4, O // 4)
        y = max(1, min(M, x + rnd.randint(-O // 8, O // 8)))
        out.append((x, y))
    s = [(-x, y) if i % 3 == 1 else (x, -y) if i % 3 == 2 else (x, y) for i, (x, y) in enumerate(out)]
    return s


def obligation(fn, n, lin, arity, sym, hf):
    def go(prog, job):
        res = {"status": None, "detail": None, "paths": 0, "steps": 0, "splits": 0, "merges": 0, "functions": [], "regions": 1,
               "regions_ok": 0, "boxes": 0}
        why = None
        if True:
            try:
                ok, np, pairs, why, seen = compare(prog, fn, n, sym)
                res.update(paths=np, steps=pairs, functions=sorted(seen))
                if ok:
                    res.update(status="ok", regions_ok=1)
                    return res
            except (Cannot, KeyError) as e:
                why = "no terms: %s" % e
            res["status"] = "retry"
            res["left"] = [0]
            res["detail"] = {"status": "terms", "undecided": [why], "count": 1}
            if job.phase == 1:
                return res
        # candidates
        end = time.time() + job.deadline - 1
        R = Runner(prog)
        f = prog.func(hf)
        tried = 0
        for pt in samples(n, lin, arity):
            if time.time() > end:
                break
            v, outs, flags = R.eval(f, [I(n, t) for t in pt], [(1, 1)], 3)
            tried += 1
            if v == -1:
                r = Region(hf, "at %s" % (pt,), [I(n, t) for t in pt], [(1, 1)])
                d = R.detail(r, r.args, outs, flags)
                d["what"] = "%s is not symmetric (%s) at %s" % (fn, sym, ", ".join(map(str, pt)))
                d["where"] = fn
                res.update(status="violated", detail=d)
                break
        else:
            res["status"] = "undecided"
        if res["status"] != "violated":
            res["status"] = "undecided"
            res["detail"] = {"status": "terms differ, no definite counterexample among %d operands" % tried, "why": why}
        res.update(boxes=tried, paths=res["paths"] + R.base.paths, steps=res["steps"] + R.base.steps,
                   functions=sorted(set(res["functions"]) | R.base.funcs_seen))
        return res
    return go


def build(tier):
    src = HEAD
    jobs = []

    def add(t, n, lin, op, sym, arity):
        nonlocal src
        hf = "s_%s_%s_%s" % (sym, t, op)
        f = "%s_%s" % (t, op)
        par = "%s a" % t + (", %s b" % t if arity > 1 else "")
        N = "NAR%d" % n
        guard = "" if sym == "comm" else "if (a == %s%s) return 1;" % (N, " || b == %s" % N if arity > 1 else "")
        e = {"comm": "%s(a, b) == %s(b, a)" % (f, f), "anti": "NEG(%s(a, b)) == %s(b, a)" % (f, f),
             "mneg": "NEG(%s(a, b)) == %s(-a, b)" % (f, f), "mnegb": "NEG(%s(a, b)) == %s(a, -b)" % (f, f),
             "odd": "NEG(%s(a)) == %s(-a)" % (f, f), "even": "%s(a) == %s(-a)" % (f, f)}[sym]
        import re
        e = re.sub(r"NEG\((.*?\))\)", r"(%s)(0u - (uint%d_t)\1)" % (t, n), e)
        src += "int32_t %s(%s) { %s return %s; }\n" % (hf, par, guard, e)
        jobs.append(Job("%s/%s" % (f, sym), None, [], deadline=100, pyfn=obligation(f, n, lin, arity, sym, hf)))

    for n in W:
        for k in KINDS:
            t = T(k, n)
            lin = k != ""
            for op in ("addition", "multiplication", "hypotenuse"):
                add(t, n, lin, op, "comm", 2)
            if lin:
                add(t, n, lin, "subtraction", "anti", 2)
                add(t, n, lin, "multiplication", "mneg", 2)
                add(t, n, lin, "multiplication", "mnegb", 2)
                for op in ODD:
                    add(t, n, lin, op, "odd", 1)
                for op in EVEN:
                    add(t, n, lin, op, "even", 1)
                # the conversions
                for nm, ty, p, emin, emax in (("float64", "double", 53, -1074, 1023 - 52), ("extended_float", "long double", 64, -16445, 16383 - 63)):
                    if nm != CONV[n][0]:
                        continue
                    src += ("void to%d_%s(%s a) { __vp_assume(a > 0); %s x = %s_to_%s(a), y = %s_to_%s(-a); CHECK(x == -y); }\n"
                            % (n, nm, t, ty, t, nm, t, nm))
                    jobs.append(Job("%s_to_%s/negation" % (t, nm), "to%d_%s" % (n, nm), [full(n)]))
                    src += ("void fr%d_%s(uint64_t sig, int e) { %s f = ldexp%s((%s)sig, e); CHECK(%s_from_%s(-f) == -%s_from_%s(f)); }\n"
                            % (n, nm, ty, "l" if p == 64 else "", ty, t, nm, t, nm))
                    cuts = [emin + p - 1, -256, -128, -64, -16, 0, 16, 64, 128, 256, emax + p] if n == 64 else [emin + p - 1, emax + p]
                    for c0, c1 in zip(cuts, cuts[1:]):
                        jobs.append(Job("%s_from_%s/negation%s" % (t, nm, " of 2^%d.." % c0 if n == 64 else ""), "fr%d_%s" % (n, nm),
                                        [(64, 1 << p - 1, (1 << p) - 1), (32, c0 - p + 1, c1 - p)]))
    return [("c21.c", src)], jobs


if __name__ == "__main__":
    sys.exit(main("C21", build, RULE, level="proof", libm=True, assumptions=[
        "library functions of this repository are functions of their operands (C16)",
        "hypot is symmetric, and the odd and even libm functions are exactly odd and even (round to nearest)"]))
