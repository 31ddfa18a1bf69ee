import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.light import *  # noqa
from absint.prog import Prog

RULE = ("effect analysis over the LLVM IR of every library function: every store (and memory-writing library call) targets an object "
        "local to the call (provenance: allocas, followed through pointer parameters of internal helpers), no load reads a mutable "
        "object outside the call, every external callee is an effect-free C library function or LLVM intrinsic, every indirect call "
        "can only reach library functions and effect-free ones, no inline assembly, no constructors; one obligation per function, "
        "per store, per external callee, per indirect call and per global object, plus the call-graph closure of each public function")

M = ("acos asin atan atan2 cos sin tan sincos acosh asinh atanh cosh sinh tanh exp exp2 exp10 expm1 frexp ldexp log log10 log1p log2 logb ilogb "
     "modf scalbn scalbln cbrt fabs hypot pow sqrt erf erfc ceil floor nearbyint rint lrint llrint round lround llround trunc fmod "
     "remainder remquo copysign nan nextafter nexttoward fdim fmax fmin fma tgamma isnan isinf finite drem significand "
     "sinpi cospi tanpi roundeven pown rootn powr rsqrt").split()
PURE = {m + s for m in M for s in ("", "f", "l")}
PURE |= set("abs labs llabs imaxabs div ldiv lldiv imaxdiv memcmp memchr strlen strcmp strncmp ffs ffsl ffsll __isnan __isnanl __isnanf "
            "__isinf __isinfl __isinff __finite __finitel __finitef __signbit __signbitl __signbitf __fpclassify __fpclassifyl "
            "__fpclassifyf abort __builtin_trap __stack_chk_fail".split())
# write only through the pointer they are given
OUT = {"frexp": [1], "modf": [1], "remquo": [2], "sincos": [1, 2], "memcpy": [0], "memset": [0], "memmove": [0]}
OUTP = {k + s: v for k, v in OUT.items() for s in ("", "f", "l")}
LLPURE = re.compile(r"llvm\.(dbg|lifetime|fabs|copysign|floor|ceil|trunc|rint|nearbyint|round|roundeven|lround|llround|lrint|llrint|"
                    r"sqrt|fma|fmuladd|minnum|maxnum|minimum|maximum|canonicalize|"
                    r"pow|powi|exp|exp2|exp10|log|log2|log10|sin|cos|tan|ldexp|frexp|ctlz|cttz|ctpop|bswap|bitreverse|fshl|fshr|abs|smax|smin|"
                    r"umax|umin|[us](add|sub|mul)\.(with\.overflow|sat)|sshl\.sat|ushl\.sat|is\.fpclass|is\.constant|expect|assume|objectsize|"
                    r"trap|ubsantrap|debugtrap|stacksave|stackrestore|experimental\.noalias|donothing|vector\.reduce|var\.annotation)\b")
LLOUT = re.compile(r"llvm\.(memcpy|memset|memmove)\b")


class An:
    def __init__(self, prog):
        self.p = prog
        self.fs = [f for m in prog.mods for f in m.funcs.values() if f.blocks]
        self.memo = {}
        self.callers = {}
        self.addr = set()
        for f in self.fs:
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == "call":
                        c = ins.a[0]
                        if c[0] == "glob":
                            self.callers.setdefault(self.key(c[1], f), []).append((f, ins))
                        ops = [v for _, v in ins.a[1] if v is not None]
                    elif ins.op == "phi":
                        ops = [v for v, _ in ins.a]
                    else:
                        from absint.irparse import operands
                        ops = operands(ins)
                    for v in ops:
                        self.taken(v, f.module)
        for m in prog.mods:
            for g in m.globals.values():
                self.taken(g.get("init"), m)

    def taken(self, v, m):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "glob" and isinstance(v[1], str):
                if self.p.resolve(v[1], m) or v[1] in m.decls:
                    self.addr.add((v[1], m))
                return
            for x in v:
                self.taken(x, m)
        elif isinstance(v, list):
            for x in v:
                self.taken(x, m)

    def key(self, name, f):
        t = self.p.resolve(name, f.module)
        return id(t) if t is not None else name

    def defs(self, f):
        d = self.memo.get(id(f))
        if d is None:
            d = self.memo[id(f)] = {i.dst: i for b in f.order for i in f.blocks[b] if i.dst}
        return d

    def roots(self, f, v, seen=None):
        """objects a pointer may point into: ("alloca",), ("glob", name), ("unknown", why)"""
        seen = set() if seen is None else seen
        if v is None:
            return set()
        if v[0] in ("null", "undef", "poison", "zero", "zeroinitializer"):
            return set()
        if v[0] == "glob":
            return {("glob", v[1], f.module)}
        if v[0] == "reg":
            k = (id(f), v[1])
            if k in seen:
                return set()
            seen.add(k)
            i = self.defs(f).get(v[1])
            if i is None:
                # parameter
                names = [nm for _, nm in f.params]
                if v[1] not in names:
                    return {("unknown", "register %s" % v[1])}
                n = names.index(v[1])
                cs = self.callers.get(id(f), [])
                out = set()
                if (f.name, f.module) in self.addr or any(a[0] == f.name for a in self.addr):
                    out.add(("unknown", "pointer parameter of the address-taken function %s" % f.name))
                if not f.internal and not cs and f.name.startswith("takum"):
                    out.add(("caller", "pointer parameter of %s" % f.name))
                for c, ins in cs:
                    out |= self.roots(c, ins.a[1][n][1], seen)
                return out
            if i.op == "alloca":
                return {("alloca",)}
            if i.op == "getelementptr":
                return self.roots(f, i.a[0], seen)
            if i.op == "phi":
                return set().union(*[self.roots(f, x, seen) for x, _ in i.a])
            if i.op == "select":
                return self.roots(f, i.a[1], seen) | self.roots(f, i.a[2], seen)
            if i.op in ("bitcast", "addrspacecast"):
                return self.roots(f, i.a[1], seen)
            if i.op == "freeze":
                return self.roots(f, i.a[0], seen)
            if i.op == "load":
                # pointer kept in memory: everything stored into the objects it may be loaded from
                out = set()
                for r in self.roots(f, i.a[0], seen):
                    if r[0] == "glob":
                        g = self.p.glob(r[2], r[1])
                        if g is not None and is_const(g):
                            out |= self.globs(g.get("init"), r[2])
                            continue
                        return {("unknown", "pointer loaded from %s" % r[1])}
                    elif r[0] == "alloca":
                        for b in f.order:
                            for s in f.blocks[b]:
                                if s.op == "store" and s.ty == "ptr":
                                    out |= self.roots(f, s.a[0], seen)
                    else:
                        out.add(r)
                return out
            if i.op == "call":
                t = self.p.resolve(i.a[0][1], f.module) if i.a[0][0] == "glob" else None
                if t is not None and t.blocks:
                    out = set()
                    for b in t.order:
                        for s in t.blocks[b]:
                            if s.op == "ret" and s.a[0]:
                                out |= self.roots(t, s.a[0], seen)
                    return out
                return {("unknown", "pointer returned by %s" % (i.a[0],))}
            return {("unknown", i.op)}
        if v[0] in ("cexpr", "gep", "constexpr"):
            g = self.globs(v, f.module)
            return g or {("unknown", "constant expression")}
        g = self.globs(v, f.module)
        return g or {("unknown", str(v)[:60])}

    def globs(self, v, m):
        out = set()
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "glob" and isinstance(v[1], str):
                return {("glob", v[1], m)}
            for x in v:
                out |= self.globs(x, m)
        elif isinstance(v, list):
            for x in v:
                out |= self.globs(x, m)
        return out


def constant(p, r):
    g = p.glob(r[2], r[1])
    if g is None:
        return bool(p.resolve(r[1], r[2]))
    return is_const(g)


def is_const(g):
    return g.get("kind") == "constant"


def main():
    q = Query("C16", RULE, trusted=["clang 18 front end and IR parser absint/irparse.py", "the table of effect-free C library functions in "
                                    "checks/c16.py (they may set errno and floating-point status flags, nothing else)"],
              assumptions=["libm functions depend on nothing but their arguments and the (unchanged) rounding mode",
                           "errno and the floating-point status flags are not part of a function's result"])
    try:
        p = Prog()
    except (BuildError, ValueError) as ex:
        return q.broken(str(ex))
    a = An(p)
    written = {}
    bad = {}
    calls = {}
    nst = nld = 0

    def loc(f, ins):
        return "%s:%s %s()" % (f.module.path, line(f, ins), f.name)

    def line(f, ins):
        m = f.module.meta.get(ins.line) if isinstance(getattr(f.module, "meta", None), dict) else None
        if m is None:
            return ins.line
        return m if not isinstance(m, (tuple, dict)) else (m[0] if isinstance(m, tuple) else m.get("line"))

    def dest(f, ins, v, what):
        rs = a.roots(f, v)
        for r in rs:
            if r[0] == "alloca":
                continue
            if r[0] == "glob":
                written.setdefault((r[1], id(p.glob(r[2], r[1]))), []).append(loc(f, ins))
                return False, "%s the object %s, which outlives the call" % (what, r[1])
            if r[0] == "caller":
                return False, "%s through a %s" % (what, r[1])
            return None, "%s: provenance of the address not determined (%s)" % (what, r[1])
        return True, ""

    for f in a.fs:
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == "store":
                    nst += 1
                    ok, w = dest(f, ins, ins.a[1], "writes")
                    q.check("store %s #%d" % (loc(f, ins), nst), ok is True, w, loc(f, ins), undecided=ok is None)
                elif ins.op == "load":
                    nld += 1
                    ok, w = True, ""
                    for r in a.roots(f, ins.a[0]):
                        if r[0] == "glob" and not constant(p, r):
                            g = p.glob(r[2], r[1])
                            if g is None or g.get("init") is None:
                                ok, w = False, "reads the external mutable object %s" % r[1]
                        elif r[0] == "unknown":
                            ok, w = None, "provenance not determined (%s)" % r[1]
                    q.check("load %s #%d" % (loc(f, ins), nld), ok is True, w, loc(f, ins), undecided=ok is None)
                elif ins.op == "asm":
                    q.check("asm %s" % loc(f, ins), False, "inline assembly", loc(f, ins), undecided=True)
                elif ins.op == "call":
                    c = ins.a[0]
                    if c[0] != "glob":
                        tg = a.addr
                        cand = a.roots(f, c)
                        if cand and all(x[0] == "glob" for x in cand):
                            tg = {(x[1], x[2]) for x in cand}
                        for nm, m in tg:
                            t = p.resolve(nm, m)
                            if t is None:
                                calls.setdefault(nm, []).append((f, ins))
                        q.check("indirect call %s" % loc(f, ins), bool(tg), "indirect call with no known target", loc(f, ins), undecided=True)
                        continue
                    t = p.resolve(c[1], f.module)
                    if t is not None and t.blocks:
                        continue
                    calls.setdefault(c[1], []).append((f, ins))
    for nm, cs in sorted(calls.items()):
        f, ins = cs[0]
        if nm.startswith("llvm."):
            ok = bool(LLPURE.match(nm) or LLOUT.match(nm))
            outs = [0] if LLOUT.match(nm) else []
        else:
            ok = nm in PURE or nm in OUTP
            outs = OUTP.get(nm, [])
        q.check("callee " + nm, ok, "calls %s, which is not known to be free of effects and to depend on its arguments only (also called by: %s)"
                % (nm, ", ".join(sorted({x.name for x, _ in cs}))[:200]), loc(f, ins))
        for k, (f, ins) in enumerate(cs):
            for o in outs:
                if ins.a[0][0] == "glob" and o < len(ins.a[1]):
                    ok, w = dest(f, ins, ins.a[1][o][1], "writes through %s to" % nm)
                    q.check("output of %s at %s #%d" % (nm, loc(f, ins), k), ok is True, w, loc(f, ins), undecided=ok is None)
    ng = 0
    for m in p.mods:
        for n, g in m.globals.items():
            if n.startswith("llvm."):
                q.check("global %s in %s" % (n, m.path), n in ("llvm.used", "llvm.compiler.used"), "%s: code runs outside the calls" % n, m.path)
                continue
            ng += 1
            if g.get("kind") == "other":
                q.check("global %s in %s" % (n, m.path), False, "global object not understood", m.path, undecided=True)
                continue
            w = written.get((n, id(g)))
            q.check("global %s in %s" % (n, m.path), not w, "mutable object %s is written by %s" % (n, (w or [""])[0]), m.path)
    # closure
    pub = [f for n, f in p.ext.items() if n.startswith("takum")]
    sizes = []
    for f in pub:
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            for b in x.order:
                for ins in x.blocks[b]:
                    if ins.op == "call" and ins.a[0][0] == "glob":
                        t = p.resolve(ins.a[0][1], x.module)
                        if t is not None and t.blocks:
                            todo.append(t)
        sizes.append(len(seen))
    q.extra.update(functions_analysed=len(a.fs), stores=nst, loads=nld, external_callees=len(calls), globals=ng, public_functions=len(pub),
                   largest_closure=max(sizes or [0]), functions=sorted(f.name for f in a.fs)[:2000],
                   callees=sorted(calls))
    q.check("library present", len(pub) >= 500, "only %d public functions found" % len(pub), "src", undecided=True)
    return q.finish()


if __name__ == "__main__":
    sys.exit(main())
