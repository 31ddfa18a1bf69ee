import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.light import *  # noqa
from spec import takum as S
from mpmath import mp, mpf

RULE = ("one obligation per numeric macro of the public header, evaluated by the compiler's constant evaluation: its value equals "
        "the nearest (ties to even on the bit string, saturating) n-bit takum of the real number its name denotes, computed with "
        "700 bits from the format's definition; one obligation per pair (type, constant name) offered for any other type; one per "
        "macro that it fits its type and one that it keeps its value inside a larger expression")

PREF = re.compile(r"TAKUM(_LINEAR)?(8|16|32|64)_(\w+)$")


def meaning(nm):
    """the real number a constant's name states"""
    m = re.match(r"(?:(\d+)_)?PI(?:_OVER_(\d+))?$", nm)
    if m:
        return mpf(int(m.group(1) or 1)) * mp.pi / int(m.group(2) or 1)
    m = re.match(r"SQUARE_ROOT_(\d+)$", nm)
    if m:
        return mp.sqrt(int(m.group(1)))
    m = re.match(r"(LN|LB|LG)_(\d+|E|PI)$", nm)
    if m:
        x = {"E": mp.e, "PI": mp.pi}.get(m.group(2)) or mpf(int(m.group(2)))
        return mp.log(x) / {"LN": mpf(1), "LB": mp.log(2), "LG": mp.log(10)}[m.group(1)]
    m = re.match(r"(?:(\d+)_)?E(?:_OVER_(\d+))?$", nm)
    if m:
        return mpf(int(m.group(1) or 1)) * mp.e / int(m.group(2) or 1)
    m = re.match(r"(?:(\d+)_)?(ONE|TWO|THREE|TEN|HALF|ZERO|GAMMA|PHI|GOLDEN_RATIO|EULER)$", nm)
    if m:
        return {"ONE": mpf(1), "TWO": mpf(2), "THREE": mpf(3), "TEN": mpf(10), "HALF": mpf("0.5"), "ZERO": mpf(0),
                "GAMMA": mp.euler, "EULER": mp.euler, "PHI": mp.phi, "GOLDEN_RATIO": mp.phi}[m.group(2)]
    return None


def main():
    mp.prec = 700
    q = Query("C19", RULE, trusted=["clang 18 preprocessor and constant evaluation", "spec/takum.py", "mpmath 700 bit constants",
                                    "the reading of constant names in checks/c19.py:meaning"])
    try:
        ms = header_macros()
    except BuildError as ex:
        return q.broken(str(ex))
    known = {(e["constant"], e["value"]): e["what"] for e in known_entries("C19")}
    cs = {}
    for k, v in ms.items():
        m = PREF.match(k)
        if m:
            cs[k] = (1 if m.group(1) else 0, int(m.group(2)), m.group(3))
    tmp = tempfile.mkdtemp(prefix="vp_c19_")
    try:
        src = '#include "takum.h"\n'
        for i, k in enumerate(sorted(cs)):
            lin, n, nm = cs[k]
            src += "const long long vp_v%d = (long long)(%s);\n" % (i, k)
            src += "const takum%s%d vp_t%d = %s;\n" % ("_linear" if lin else "", n, i, k)
            src += "const int vp_f%d = (long long)(takum%s%d)(%s) == (long long)(%s) && (((%s) < 0) == ((long long)(%s) < 0));\n" % (
                i, "_linear" if lin else "", n, k, k, k, k)
            src += "const int vp_o%d = ~%s == ~(%s) && %s / 3 == (%s) / 3 && %s %% 7 == (%s) %% 7;\n" % (i, k, k, k, k, k, k)
        p = os.path.join(tmp, "c.c")
        open(p, "w").write(src)
        r = run(["clang", "-std=c99", "-D_ISOC99_SOURCE", "-I" + REPO, "-w", "-S", "-emit-llvm", "-o", "-", p])
        if r.returncode:
            return q.broken("constants do not evaluate: " + r.stderr)
    finally:
        shutil.rmtree(tmp)
    g = {m.group(1): int(m.group(2)) for m in re.finditer(r"@(vp_\w+) = (?:dso_local )?(?:local_unnamed_addr )?constant i\d+ (-?\d+)", r.stdout)}
    names = {}
    for i, k in enumerate(sorted(cs)):
        lin, n, nm = cs[k]
        names.setdefault(nm, set()).add((lin, n))
        v = g.get("vp_v%d" % i)
        if v is None:
            q.check(k, False, "no constant value", "takum.h", undecided=True)
            continue
        if nm == "NAR":
            want = S.nar(n)
        elif nm in ("POSITIVE_MINIMUM", "MINIMUM_POSITIVE"):
            want = 1
        elif nm in ("POSITIVE_MAXIMUM", "MAXIMUM_POSITIVE"):
            want = (1 << n - 1) - 1
        elif nm in ("NEGATIVE_MAXIMUM", "MAXIMUM_NEGATIVE"):
            want = -1
        elif nm in ("NEGATIVE_MINIMUM", "MINIMUM_NEGATIVE"):
            want = -((1 << n - 1) - 1)
        else:
            x = meaning(nm)
            if x is None:
                q.check(k, False, "the name of the constant is not understood", "takum.h", undecided=True)
                continue
            want = S.rnd(x, n, lin)
        q.check(k, v == want, "%s is %d, the correctly rounded encoding is %d" % (k, v, want), "takum.h: " + k, known=known.get((k, v)))
        q.check(k + "/operand", g.get("vp_o%d" % i) == 1, "%s does not denote its value as an operand of a larger expression" % k, "takum.h: " + k)
        q.check(k + "/fits", g.get("vp_f%d" % i) == 1, "%s does not fit its type" % k, "takum.h: " + k)
    for nm, ts in sorted(names.items()):
        for lin in (0, 1):
            for n in (8, 16, 32, 64):
                k = "TAKUM%s%d_%s" % ("_LINEAR" if lin else "", n, nm)
                q.check("offers " + k, (lin, n) in ts, "%s is defined for other types only" % nm, "takum.h: " + k)
    q.check("constants present", len(names) >= 30 or len(cs) >= 240, "only %d constants found in the header" % len(cs), "takum.h")
    q.extra["constants"] = len(cs)
    return q.finish()


if __name__ == "__main__":
    sys.exit(main())
