"""Value numbering along the paths of loop-free functions: every path is a set of branch conditions and a result, both terms
over the operands, normalised with the algebraic laws that hold exactly in binary floating point (commutativity of +, * and
hypot, the symmetry of every operation under negation, odd and even library functions).  Library functions of this repository
are kept as uninterpreted symbols (their results depend on nothing but their operands, property C16); internal helpers are
inlined.
"""
from fractions import Fraction
from .irparse import BIN, CAST

FLT = ("float", "double", "x86_fp80")


class Cannot(Exception):
    pass


COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}
SYMM2 = {"hypot", "hypotf", "hypotl", "fmax", "fmaxl", "fmin", "fminl"}
ODDF = {f + s for f in "sin tan sinh tanh asin atan asinh atanh cbrt expm1_not trunc rint nearbyint round erf sinpi tanpi".split() for s in ("", "f", "l")}
EVENF = {f + s for f in "cos cosh fabs cospi".split() for s in ("", "f", "l")}
for _t in ("f32", "f64", "f80"):
    EVENF.add("llvm.fabs." + _t)
    EVENF.add("llvm.cos." + _t)
    ODDF |= {"llvm.sin." + _t, "llvm.tan." + _t, "llvm.trunc." + _t, "llvm.rint." + _t, "llvm.round." + _t}
ODD1 = {"fmod", "fmodf", "fmodl"}      # odd in the first operand, even in the second
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
FSWAP = {}
for o in "ou":
    FSWAP.update({o + "lt": o + "gt", o + "gt": o + "lt", o + "le": o + "ge", o + "ge": o + "le", o + "eq": o + "eq", o + "ne": o + "ne"})
FSWAP.update({"ord": "ord", "uno": "uno", "true": "true", "false": "false"})


def width(ty):
    return int(ty[1:]) if isinstance(ty, str) and ty[0] == "i" and ty[1:].isdigit() else None


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def order(x):
    return repr(x)


class Norm:
    """to_float, from_float: names of conversions proved to commute with negation"""

    def __init__(self, to_float=(), from_float=()):
        self.to_float, self.from_float = set(to_float), set(from_float)

    # -- integers
    def ci(self, v, w):
        return ("ci", wrap(v, w) if w > 1 else v & 1, w)

    def neg(self, x, w):
        if x[0] == "ci":
            return self.ci(-x[1], w)
        if x[0] == "neg":
            return x[1]
        return ("neg", x, w)

    def bin(self, op, ty, a, b):
        if op == "fsub":
            return self.bin("fadd", ty, a, self.fneg(b))
        if op == "fadd":
            a, b = sorted((a, b), key=lambda t: order(t[1] if t[0] == "fneg" else t))
            if a[0] == "fneg":
                return self.fneg(("fadd", ty, a[1], self.fneg(b)))
            return ("fadd", ty, a, b)
        if op in ("fmul", "fdiv"):
            s = False
            if self.isneg(a):
                a, s = self.fneg(a), not s
            if self.isneg(b):
                b, s = self.fneg(b), not s
            if op == "fmul":
                a, b = sorted((a, b), key=order)
            t = (op, ty, a, b)
            return self.fneg(t) if s else t
        if op == "frem":
            return self.fneg(("frem", ty, a[1], b)) if a[0] == "fneg" else ("frem", ty, a, b)
        w = width(ty)
        if w is None:
            raise Cannot("binary %s %s" % (op, ty))
        if a[0] == "ci" and b[0] == "ci":
            x, y = a[1], b[1]
            m = (1 << w) - 1
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                 "xor": lambda: x ^ y, "shl": lambda: x << y if 0 <= y < w else None, "ashr": lambda: x >> y if 0 <= y < w else None,
                 "lshr": lambda: (x & m) >> y if 0 <= y < w else None}.get(op)
            r = r() if r else None
            if r is not None:
                return self.ci(r, w)
        if op == "sub" and a[0] == "ci" and a[1] == 0:
            return self.neg(b, w)
        if op == "sub":
            return self.bin("add", ty, a, self.neg(b, w))
        if op == "add" and a[0] == "ci" and a[1] == 0:
            return b
        if op == "add" and b[0] == "ci" and b[1] == 0:
            return a
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x[0] == "ci" and x[1] == 0:
                    return x
                if x[0] == "ci" and x[1] == 1:
                    return y
                if x[0] == "ci" and x[1] == -1:
                    return self.neg(y, w)
        if op == "xor" and w == 1:
            for x, y in ((a, b), (b, a)):
                if x[0] == "ci":
                    return self.notb(y) if x[1] & 1 else y
        if op in COMM:
            a, b = sorted((a, b), key=order)
        return (op, ty, a, b)

    def notb(self, x):
        if x[0] == "not":
            return x[1]
        if x[0] == "ci":
            return self.ci(1 - x[1], 1)
        return ("not", x)

    # -- floats
    def isneg(self, x):
        return x[0] == "fneg" or (x[0] == "cf" and self.cneg(x[2]))

    def cneg(self, v):
        return v in ("-inf", "-0") or (isinstance(v, Fraction) and v < 0)

    def fneg(self, x):
        if x[0] == "fneg":
            return x[1]
        if x[0] == "cf":
            v = x[2]
            if isinstance(v, Fraction):
                v = "-0" if v == 0 else -v
            else:
                v = {"inf": "-inf", "-inf": "inf", "-0": Fraction(0), "nan": "nan"}.get(v, v)
            return ("cf", x[1], v)
        return ("fneg", x)

    def cast(self, op, t0, t1, x):
        if x[0] == "fneg" and op in ("fpext", "fptrunc"):
            return self.fneg((op, t0, t1, x[1]))
        if x[0] == "cf" and op == "fpext":
            return ("cf", t1, x[2])
        if x[0] == "ci" and op in ("sext",):
            return self.ci(x[1] if x[2] > 1 else -(x[1] & 1), width(t1))
        if x[0] == "ci" and op == "zext":
            return self.ci(x[1] & ((1 << x[2]) - 1), width(t1))
        if x[0] == "ci" and op == "trunc":
            return self.ci(x[1], width(t1))
        if op == "sext" and x[0] == "neg":
            return self.neg(self.cast(op, t0, t1, x[1]), width(t1))
        if op == "trunc" and x[0] == "neg":
            return self.neg(self.cast(op, t0, t1, x[1]), width(t1))
        if op == "trunc" and x[0] in ("sext", "zext") and x[1] == t1:
            return x[3]
        if op == "trunc" and x[0] == "add" and width(t1):
            return self.bin("add", t1, self.cast(op, t0, t1, x[2]), self.cast(op, t0, t1, x[3]))
        if op in ("sitofp", "uitofp") and x[0] == "ci" and t1 in FLT and abs(x[1]) < 2 ** 24 and (x[1] >= 0 or x[2] > 1):
            return ("cf", t1, Fraction(x[1]) if x[2] > 1 or op == "uitofp" else -Fraction(x[1]))
        if op in ("sitofp",) and x[0] == "neg":
            return self.fneg((op, t0, t1, x[1]))
        return (op, t0, t1, x)

    def icmp(self, pred, ty, a, b):
        w = width(ty) or 64
        if a[0] == "ci" and b[0] == "ci":
            x, y = a[1], b[1]
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            return self.ci(int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": ux < uy,
                                "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[pred]), 1)
        if a[0] == "ci":
            a, b, pred = b, a, SWAP[pred]
        if pred in ("ne", "sge", "sle", "uge", "ule"):
            return self.notb(self.icmp({"ne": "eq", "sge": "slt", "sle": "sgt", "uge": "ult", "ule": "ugt"}[pred], ty, a, b))
        if b[0] == "ci" and a[0] == "zext" and a[1] == "i1":
            # comparison of a truth value with a constant
            if pred == "eq" and b[1] in (0, 1):
                return a[3] if b[1] == 1 else self.notb(a[3])
        if b[0] != "ci":
            if pred in ("sgt", "ugt"):
                a, b, pred = b, a, SWAP[pred]
            if pred == "eq":
                a, b = sorted((a, b), key=order)
        if pred == "eq" and ty == "i1" and b[0] == "ci":
            return a if b[1] else self.notb(a)
        return ("icmp", pred, ty, a, b)

    def fcmp(self, pred, ty, a, b):
        if pred in ("true", "false"):
            return self.ci(pred == "true", 1)
        if a[0] == "cf" or (b[0] != "cf" and order(a) > order(b)):
            a, b, pred = b, a, FSWAP[pred]
        return ("fcmp", pred, ty, a, b)

    def call(self, name, rty, args):
        args = list(args)
        if name in SYMM2:
            if name.startswith("hypot"):
                args = [self.fneg(x) if self.isneg(x) else x for x in args]
            args.sort(key=order)
        elif name in ODDF and self.isneg(args[0]):
            return self.fneg(("call", name, rty, (self.fneg(args[0]),)))
        elif name in EVENF and self.isneg(args[0]):
            args[0] = self.fneg(args[0])
        elif name in ODD1:
            if self.isneg(args[1]):
                args[1] = self.fneg(args[1])
            if self.isneg(args[0]):
                return self.fneg(("call", name, rty, (self.fneg(args[0]), args[1])))
        elif name in self.to_float and args[0][0] == "neg":
            return self.fneg(("call", name, rty, (args[0][1],)))
        elif name in self.from_float and self.isneg(args[0]):
            return self.neg(("call", name, rty, (self.fneg(args[0]),)), width(rty))
        return ("call", name, rty, tuple(args))


# -- atoms -------------------------------------------------------------------------------------------------------------

def base(t):
    """the single opaque term a truth value depends on, or None"""
    k = t[0]
    if k in ("ci", "cf"):
        return ()
    if k == "not":
        return base(t[1])
    if k in ("icmp", "fcmp"):
        a, b = base(t[3]), base(t[4])
        if a == ():
            return b
        return a if b == () or a == b else None
    if k in ("fneg", "neg"):
        return base(t[1])
    if k in ("and", "or", "xor") and t[1] == "i1":
        a, b = base(t[2]), base(t[3])
        if a == ():
            return b
        return a if b == () or a == b else None
    if k == "call" and t[1].startswith(("llvm.fabs", "llvm.is.fpclass", "fabs")):
        return base(t[3][0])
    if k == "bitcast" and t[1] in FLT:
        return base(t[3])
    if k in ("zext", "sext", "fpext"):
        return base(t[3])
    return t


def fval(v):
    """a floating-point sample: (sign, magnitude, 'inf' or 'nan')"""
    if v == "nan":
        return (0, "nan")
    if v == "inf":
        return (0, "inf")
    if v == "-inf":
        return (1, "inf")
    if v == "-0":
        return (1, Fraction(0))
    return (1, -v) if v < 0 else (0, Fraction(v))


def key(v):
    s, m = v
    k = (1, 0) if m == "inf" else (0, m)
    return (-k[0], -k[1]) if s else k


def ev(t, b, x):
    if t == b:
        return x
    k = t[0]
    if k == "ci":
        return t[1]
    if k == "cf":
        return fval(t[2])
    if k == "not":
        return 1 - (ev(t[1], b, x) & 1)
    if k == "neg":
        return wrap(-ev(t[1], b, x), t[2])
    if k == "fneg":
        v = ev(t[1], b, x)
        return (1 - v[0], v[1])
    if k == "icmp":
        p, q = ev(t[3], b, x), ev(t[4], b, x)
        w = width(t[2]) or 64
        if t[1][0] == "u":
            p, q = p & ((1 << w) - 1), q & ((1 << w) - 1)
        return int({"eq": p == q, "slt": p < q, "sgt": p > q, "ult": p < q, "ugt": p > q}[t[1]])
    if k == "fcmp":
        p, q = ev(t[3], b, x), ev(t[4], b, x)
        un = p[1] == "nan" or q[1] == "nan"
        if t[1] == "ord":
            return int(not un)
        if t[1] == "uno":
            return int(un)
        if un:
            return int(t[1][0] == "u")
        p, q = key(p), key(q)
        return int({"eq": p == q, "ne": p != q, "lt": p < q, "gt": p > q, "le": p <= q, "ge": p >= q}[t[1][1:]])
    if k in ("and", "or", "xor"):
        p, q = ev(t[2], b, x), ev(t[3], b, x)
        return p & q if k == "and" else p | q if k == "or" else p ^ q
    if k == "call" and t[1].startswith(("llvm.fabs", "fabs")):
        v = ev(t[3][0], b, x)
        return (0, v[1])
    if k == "call" and t[1].startswith("llvm.is.fpclass"):
        # llvm.is.fpclass: snan qnan -inf -normal -sub -0 +0 +sub +normal +inf; subnormals count as normal or subnormal
        v = ev(t[3][0], b, x)
        m = ev(t[3][1], b, x)
        s, g = v
        if g == "nan":
            return int(bool(m & 3))
        bits = (4 if s else 512) if g == "inf" else (32 if s else 64) if g == 0 else (8 | 16 if s else 128 | 256)
        if g not in ("inf", 0) and (m & bits) not in (0, bits):
            raise Cannot("class test for subnormals")
        return int(bool(m & bits))
    if k == "bitcast":
        # only the sign is modelled
        v = ev(t[3], b, x)
        w = width(t[2])
        s, g = v
        if s == 0 and g == 0:
            return 0
        return -(1 << (w - 1)) + (0 if g == 0 else 1) if s else 1
    if k == "zext":
        v = ev(t[3], b, x)
        return v & ((1 << width(t[1])) - 1)
    if k == "sext":
        v = ev(t[3], b, x)
        return -(v & 1) if t[1] == "i1" else v
    if k == "fpext":
        return ev(t[3], b, x)
    if k == "fptrunc":
        v = ev(t[3], b, x)
        if v[1] in (0, "inf", "nan"):
            return v
    if k in ("fdiv", "fmul", "fadd"):
        p, q = ev(t[2], b, x), ev(t[3], b, x)
        if "nan" in (p[1], q[1]):
            return (0, "nan")
        if k != "fadd":
            s, p, q = p[0] ^ q[0], p[1], q[1]
            if k == "fmul":
                p, q = (p, q) if p == "inf" else (q, p)
                if p == "inf":
                    return (s, "nan" if q == 0 else "inf")
                if p == 0 or q == 0:
                    return (s, Fraction(0))
            else:
                if p == "inf":
                    return (s, "nan" if q == "inf" else "inf")
                if q == "inf":
                    return (s, Fraction(0))
                if q == 0:
                    return (s, "nan" if p == 0 else "inf")
                if p == 0:
                    return (s, Fraction(0))
        else:
            if p[1] == "inf" or q[1] == "inf":
                if p[1] == q[1] and p[0] != q[0]:
                    return (0, "nan")
                return p if p[1] == "inf" else q
            if p[1] == 0 and q[1] == 0:
                return (p[0] & q[0], Fraction(0))
    if k == "call" and (t[1] in ODDF or t[1] in EVENF) and len(t[3]) == 1:
        v = ev(t[3][0], b, x)
        if v[1] == "nan":
            return v
        if v[1] == 0:
            return v if t[1] in ODDF else (0, Fraction(1))
    raise Cannot("atom %s" % k)


def consts(t, out):
    if t[0] in ("ci", "cf"):
        out.add(t)
        return
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], (str, tuple)):
            if isinstance(x[0], tuple):
                for y in x:
                    consts(y, out)
            else:
                consts(x, out)


def isfloat(b):
    k = b[0]
    if k == "arg":
        return b[2] in FLT
    if k == "call":
        return b[2] in FLT
    if k in ("fadd", "fmul", "fdiv", "frem"):
        return True
    if k in ("fpext", "fptrunc", "sitofp", "uitofp", "bitcast"):
        return b[2] in FLT
    return False


def consistent(lits):
    """False only when the conditions (atom, value) exclude each other"""
    seen = {}
    groups = {}
    for t, v in lits:
        if t[0] == "not":
            t, v = t[1], 1 - v
        if t[0] == "ci":
            if t[1] != v:
                return False
            continue
        if seen.setdefault(t, v) != v:
            return False
        b = base(t)
        if b not in (None, ()) and b != t:
            groups.setdefault(b, []).append((t, v))
    for b, ls in groups.items():
        good, exact = candidates(b, ls)
        if good is None:
            continue
        if exact and len(good) <= 4:
            # the operand is one of few known values: look at the other conditions on it as well
            rest = []
            for x in good:
                bad = False
                for t, v in lits:
                    try:
                        if (ev(t, b, x) & 1) != v:
                            bad = True
                            break
                    except Cannot:
                        pass
                if not bad:
                    rest.append(x)
            good = rest
        if not good:
            return False
    return True


def candidates(b, ls):
    """sample values of the term b, one per class the conditions can tell apart, that satisfy them; exact: the samples are the
    only values that do"""
    cs = set()
    for t, _ in ls:
        consts(t, cs)
    if isfloat(b):
        c = {abs(x[2]) for x in cs if x[0] == "cf" and isinstance(x[2], Fraction)} | {Fraction(0)}
        c = sorted(c)
        mags = list(c) + [(p + q) / 2 for p, q in zip(c, c[1:])] + [c[-1] + 1, "inf", "nan"]
        cand = [(s, m) for m in mags for s in (0, 1)]
        special = set((s, m) for m in c + ["inf", "nan"] for s in (0, 1))
    else:
        if b[0] == "neg":
            w = b[2]
        elif b[0] == "arg" or b[0] in ("call", "sext", "zext", "trunc", "fptosi", "fptoui", "bitcast"):
            w = width(b[2])
        else:
            w = width(b[1])
        if not w:
            return None, False
        vals = {x[1] for x in cs if x[0] == "ci"}
        vals |= {-x for x in vals} | {0, 1, -1, (1 << (w - 1)) - 1, -(1 << (w - 1))}
        special = {wrap(x, w) if w > 1 else x & 1 for x in vals}
        cand = {wrap(x + d, w) if w > 1 else (x + d) & 1 for x in vals for d in (-1, 0, 1)}
        srt = sorted(cand)
        special |= {x for k, x in enumerate(srt) if 0 < k < len(srt) - 1 and srt[k - 1] == x - 1 and srt[k + 1] == x + 1}
        cand |= {(p + q) // 2 for p, q in zip(srt, srt[1:])}
    good = []
    for x in cand:
        try:
            if all((ev(t, b, x) & 1) == v for t, v in ls):
                good.append(x)
        except Cannot:
            return None, False
    return good, all(x in special for x in good)


def same_where_pinned(lits, r1, r2):
    """the results agree because the conditions leave a term only known values, for each of which both results are the same"""
    groups = {}
    for t, v in lits:
        b = base(t)
        if b not in (None, ()) and b != t:
            groups.setdefault(b, []).append((t, v))
    for b, ls in groups.items():
        good, exact = candidates(b, ls)
        if good and exact and len(good) <= 4:
            try:
                if all(ev(r1, b, x) == ev(r2, b, x) for x in good):
                    return True
            except Cannot:
                pass
    return False


# -- paths -------------------------------------------------------------------------------------------------------------

class Paths:
    def __init__(self, prog, norm, limit=400):
        self.p, self.n, self.limit = prog, norm, limit
        self.count = 0
        self.seen = set()

    def const(self, v, ty):
        if v[0] == "int":
            return self.n.ci(v[1], width(ty) or 64)
        if v[0] == "flt":
            x = v[1]
            if x[0] == "inf":
                return ("cf", ty, "inf" if x[1] > 0 else "-inf")
            if x[0] == "nan":
                return ("cf", ty, "nan")
            if x[0] == "zero":
                return ("cf", ty, "-0" if x[1] else Fraction(0))
            return ("cf", ty, Fraction(x[1]) * Fraction(2) ** x[2])
        if v[0] in ("undef", "glob", "null", "zero"):
            return (v[0],) + tuple(map(str, v[1:]))
        raise Cannot("constant %s" % (v,))

    def run(self, f, args, lits, depth=0):
        """list of (conditions, result)"""
        if depth > 6:
            raise Cannot("call depth")
        self.seen.add(f.name)
        out = []
        env0 = {nm: a for (ty, nm), a in zip(f.params, args)}
        work = [(f.order[0], None, 0, env0, tuple(lits), frozenset())]
        while work:
            blk, prev, i, env, ls, visited = work.pop()
            self.count += 1
            if self.count > 20000 or len(out) > self.limit:
                raise Cannot("too many paths")
            ins_list = f.blocks[blk]
            if i == 0:
                if blk in visited:
                    raise Cannot("loop in %s" % f.name)
                visited = visited | {blk}
                phis = [x for x in ins_list if x.op == "phi"]
                new = {}
                for x in phis:
                    for v, pb in x.a:
                        if pb == prev:
                            new[x.dst] = self.val(env, v, x.ty)
                env = dict(env)
                env.update(new)
                i = len(phis)
            env = dict(env)
            while True:
                x = ins_list[i]
                i += 1
                o = x.op
                V = lambda v, ty: self.val(env, v, ty)
                if o in BIN:
                    env[x.dst] = self.n.bin(o, x.ty, V(x.a[0], x.ty), V(x.a[1], x.ty))
                elif o == "fneg":
                    env[x.dst] = self.n.fneg(V(x.a[0], x.ty))
                elif o in ("zext", "sext", "uitofp", "sitofp") and x.a[0] == "i1" and V(x.a[1], "i1")[0] != "ci":
                    # a truth value used as a number: one path per value
                    c = V(x.a[1], "i1")
                    opts = [ls + ((c, v),) for v in (1, 0)]
                    opts = [l for l in opts if consistent(l)]
                    if not opts:
                        break

                    def num(l):
                        return self.n.cast(o, "i1", x.ty, self.n.ci(l[-1][1], 1))
                    for l in opts[1:]:
                        e2 = dict(env)
                        e2[x.dst] = num(l)
                        work.append((blk, prev, i, e2, l, visited))
                    ls = opts[0]
                    env[x.dst] = num(ls)
                elif o in CAST:
                    env[x.dst] = self.n.cast(o, x.a[0], x.ty, V(x.a[1], x.a[0]))
                elif o == "icmp":
                    env[x.dst] = self.n.icmp(x.a[0], x.ty, V(x.a[1], x.ty), V(x.a[2], x.ty))
                elif o == "fcmp":
                    env[x.dst] = self.n.fcmp(x.a[0], x.ty, V(x.a[1], x.ty), V(x.a[2], x.ty))
                elif o == "freeze":
                    env[x.dst] = V(x.a[0], x.ty)
                elif o == "select":
                    c = V(x.a[0], "i1")
                    opts = []
                    for v, k in ((1, 1), (0, 2)):
                        l2 = ls + ((c, v),)
                        if consistent(l2):
                            opts.append((l2, k))
                    for l2, k in opts[1:]:
                        e2 = dict(env)
                        e2[x.dst] = V(x.a[k], x.ty)
                        work.append((blk, prev, i, e2, l2, visited))
                    if not opts:
                        break
                    ls = opts[0][0]
                    env[x.dst] = V(x.a[opts[0][1]], x.ty)
                elif o == "call":
                    cal = x.a[0]
                    if cal[0] != "glob":
                        raise Cannot("indirect call in %s" % f.name)
                    nm = cal[1]
                    if nm.startswith(("llvm.dbg", "llvm.lifetime")):
                        continue
                    args2 = [V(v, ty) for ty, v in x.a[1]]
                    t = self.p.resolve(nm, f.module)
                    if t is not None and t.blocks and t.internal:
                        rs = self.run(t, args2, ls, depth + 1)
                        for l2, r in rs[1:]:
                            e2 = dict(env)
                            if x.dst:
                                e2[x.dst] = r
                            work.append((blk, prev, i, e2, l2, visited))
                        if not rs:
                            break
                        ls = rs[0][0]
                        if x.dst:
                            env[x.dst] = rs[0][1]
                    else:
                        if any(a and a[0] == "ptr" for a in args2):
                            raise Cannot("pointer argument of %s" % nm)
                        if x.dst:
                            env[x.dst] = self.n.call(nm, x.ty, args2)
                elif o == "br":
                    work.append((x.a[0], blk, 0, env, ls, visited))
                    break
                elif o == "cbr":
                    c = V(x.a[0], "i1")
                    for v, b in ((1, x.a[1]), (0, x.a[2])):
                        l2 = ls + ((c, v),) if c[0] != "ci" else ls
                        if c[0] == "ci" and (c[1] & 1) != v:
                            continue
                        if consistent(l2):
                            work.append((b, blk, 0, env, l2, visited))
                    break
                elif o == "switch":
                    s = V(x.a[0], x.ty)
                    neg = ()
                    for cv, b in x.a[2]:
                        c = self.n.icmp("eq", x.ty, s, self.n.ci(cv, width(x.ty)))
                        l2 = ls + ((c, 1),)
                        if consistent(l2):
                            work.append((b, blk, 0, env, l2, visited))
                        neg += ((c, 0),)
                    if consistent(ls + neg):
                        work.append((x.a[1], blk, 0, env, ls + neg, visited))
                    break
                elif o == "ret":
                    out.append((ls, V(x.a[0], x.ty) if x.a[0] else None))
                    break
                elif o == "unreachable":
                    break
                else:
                    raise Cannot("%s in %s" % (o, f.name))
        return out

    def val(self, env, v, ty):
        if v[0] == "reg":
            if v[1] not in env:
                raise Cannot("register %s" % v[1])
            return env[v[1]]
        return self.const(v, ty)
