"""Parser for the subset of LLVM 18 textual IR that clang -O0 + sroa/mem2reg emits for C99 code."""
import re, struct
from fractions import Fraction


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "flags", "line")

    def __init__(self, op, dst, ty, a, flags=(), line=None):
        self.op, self.dst, self.ty, self.a, self.flags, self.line = op, dst, ty, a, flags, line

    def __repr__(self):
        return f"{self.dst} = {self.op} {self.ty} {self.a}"


class Func:
    __slots__ = ("name", "rty", "params", "blocks", "order", "rpo", "preds", "livein", "internal", "file", "line",
                 "module", "varargs", "zext")


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.structs = {}
        self.meta = {}


TOK = re.compile(r'''\s*(c"(?:[^"])*"|"[^"]*"|[%@](?:[-a-zA-Z$._0-9]+|"[^"]*")|![-a-zA-Z$._0-9]*|#\d+|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+|\.\.\.|[a-zA-Z_$][-a-zA-Z$._0-9]*|[][(){}<>,=*:|])''')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ValueError("tokenize: %r" % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError(f"expected {x} got {y} in {self.t}")


ATTRS = {"noundef", "zeroext", "signext", "nocapture", "readonly", "writeonly", "nonnull", "noalias", "returned",
         "immarg", "inreg", "readnone", "nofree", "dso_local", "internal", "external", "private", "unnamed_addr",
         "local_unnamed_addr", "hidden", "linkonce_odr", "weak", "common", "inbounds", "nsw", "nuw", "exact", "fast",
         "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "tail", "musttail", "notail", "disjoint",
         "nneg", "volatile", "fastcc", "ccc", "appending", "available_externally", "thread_local", "noreturn"}


def parse_type(p):
    t = p.next()
    if t == "[":
        n = int(p.next())
        p.expect("x")
        e = parse_type(p)
        p.expect("]")
        r = ("arr", n, e)
    elif t == "{":
        fs = []
        while not p.eat("}"):
            fs.append(parse_type(p))
            p.eat(",")
        r = ("struct", tuple(fs), False)
    elif t == "<":
        if p.peek() == "{":
            p.next()
            fs = []
            while not p.eat("}"):
                fs.append(parse_type(p))
                p.eat(",")
            p.expect(">")
            r = ("struct", tuple(fs), True)
        else:
            n = int(p.next())
            p.expect("x")
            e = parse_type(p)
            p.expect(">")
            r = ("vec", n, e)
    elif t.startswith("%"):
        r = ("named", t[1:])
    else:
        r = t
    while p.peek() == "(":
        # function type
        p.next()
        args = []
        while not p.eat(")"):
            if p.eat("..."):
                pass
            else:
                args.append(parse_type(p))
            p.eat(",")
        r = ("fn", r, tuple(args))
    while p.eat("*"):
        r = "ptr"
    return r


def fp80_bits_to_fraction(h):
    v = int(h, 16)
    s = v >> 79
    e = (v >> 64) & 0x7fff
    m = v & ((1 << 64) - 1)
    if e == 0x7fff:
        if m << 1 & ((1 << 64) - 1) == 0:
            return ("inf", -1 if s else 1)
        return ("nan",)
    if e == 0:
        e = 1
    if m == 0:
        return ("zero", s)
    return ("num", -m if s else m, e - 16383 - 63)


def f64_to(d):
    v = struct.unpack("<Q", struct.pack("<d", d))[0]
    return f64bits(v)


def f64bits(v):
    s = v >> 63
    e = (v >> 52) & 0x7ff
    m = v & ((1 << 52) - 1)
    if e == 0x7ff:
        return ("inf", -1 if s else 1) if m == 0 else ("nan",)
    if e == 0:
        e = 1
    else:
        m |= 1 << 52
    if m == 0:
        return ("zero", s)
    return ("num", -m if s else m, e - 1023 - 52)


def parse_value(p, ty):
    """returns ('reg',name) ('glob',name) ('int',v) ('flt',..) ('null',) ('undef',) ('agg',[..]) ('str',bytes)"""
    t = p.next()
    if t.startswith("%"):
        return ("reg", t[1:].strip('"'))
    if t.startswith("@"):
        return ("glob", t[1:].strip('"'))
    if t == "true":
        return ("int", 1)
    if t == "false":
        return ("int", 0)
    if t in ("null",):
        return ("null",)
    if t in ("undef", "poison"):
        return ("undef",)
    if t == "zeroinitializer":
        return ("zero",)
    if t.startswith('c"'):
        return ("str", unescape(t[2:-1]))
    if t == "[" or t == "{" or t == "<":
        close = {"[": "]", "{": "}", "<": ">"}[t]
        if t == "<" and p.peek() == "{":
            p.next()
            close = "}>"
        el = []
        while True:
            if close == "}>" and p.peek() == "}":
                p.next()
                p.expect(">")
                break
            if p.peek() == close:
                p.next()
                break
            ety = parse_type(p)
            el.append((ety, parse_value(p, ety)))
            p.eat(",")
        return ("agg", el)
    if t in ("getelementptr", "bitcast", "ptrtoint", "inttoptr", "trunc", "add", "sub"):
        while p.peek() in ATTRS:
            p.next()
        p.expect("(")
        depth = 1
        toks = []
        while depth:
            x = p.next()
            if x == "(":
                depth += 1
            elif x == ")":
                depth -= 1
                if not depth:
                    break
            toks.append(x)
        return ("cexpr", t, toks)
    if ty in ("float", "double", "x86_fp80") or t.startswith("0x"):
        if t.startswith("0xK"):
            return ("flt",) + (fp80_bits_to_fraction(t[3:]),)
        if t.startswith("0x"):
            return ("flt", f64bits(int(t[2:], 16)))
        return ("flt", f64_to(float(t)))
    return ("int", int(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


BIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "fpext", "fptrunc", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "ptrtoint",
        "inttoptr"}


def skip_attrs(p, flags=None):
    while True:
        t = p.peek()
        if t in ATTRS:
            if flags is not None:
                flags.append(t)
            p.next()
        elif t in ("align", "dereferenceable", "dereferenceable_or_null", "addrspace"):
            p.next()
            if p.eat("("):
                p.next()
                p.expect(")")
            else:
                p.next()
        elif t is not None and t in ("nofpclass", "range", "captures", "sret", "byval"):
            p.next()
            d = 0
            while True:
                x = p.next()
                d += x == "("
                d -= x == ")"
                if d == 0:
                    break
        else:
            break


def parse_instr(toks):
    dst = None
    p = P(toks)
    if len(toks) > 1 and toks[1] == "=":
        dst = toks[0][1:].strip('"')
        p.i = 2
    # debug location
    dbg = None
    for j in range(len(toks) - 1):
        if toks[j] == "!dbg":
            dbg = toks[j + 1][1:]
    op = p.next()
    fl = []
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN or op == "fneg":
        skip_attrs(p, fl)
        ty = parse_type(p)
        a = parse_value(p, ty)
        if op == "fneg":
            return Instr(op, dst, ty, (a,), fl, dbg)
        p.expect(",")
        b = parse_value(p, ty)
        return Instr(op, dst, ty, (a, b), fl, dbg)
    if op in CAST:
        skip_attrs(p, fl)
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect("to")
        t2 = parse_type(p)
        return Instr(op, dst, t2, (ty, a), fl, dbg)
    if op in ("icmp", "fcmp"):
        skip_attrs(p, fl)
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(",")
        b = parse_value(p, ty)
        return Instr(op, dst, ty, (pred, a, b), fl, dbg)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Instr("br", None, None, (p.next()[1:].strip('"'),), fl, dbg)
        p.expect("i1")
        c = parse_value(p, "i1")
        p.expect(",")
        p.expect("label")
        x = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        y = p.next()[1:].strip('"')
        return Instr("cbr", None, None, (c, x, y), fl, dbg)
    if op == "switch":
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(",")
        p.expect("label")
        d = p.next()[1:].strip('"')
        p.expect("[")
        cs = []
        while not p.eat("]"):
            t2 = parse_type(p)
            cv = parse_value(p, t2)
            p.expect(",")
            p.expect("label")
            cs.append((cv[1], p.next()[1:].strip('"')))
        return Instr("switch", None, ty, (v, d, cs), fl, dbg)
    if op == "ret":
        ty = parse_type(p)
        if ty == "void":
            return Instr("ret", None, "void", (None,), fl, dbg)
        return Instr("ret", None, ty, (parse_value(p, ty),), fl, dbg)
    if op == "unreachable":
        return Instr(op, None, None, (), fl, dbg)
    if op == "phi":
        skip_attrs(p, fl)
        ty = parse_type(p)
        inc = []
        while True:
            p.expect("[")
            v = parse_value(p, ty)
            p.expect(",")
            inc.append((v, p.next()[1:].strip('"')))
            p.expect("]")
            if not p.eat(","):
                break
            if p.peek() != "[":
                break
        return Instr(op, dst, ty, inc, fl, dbg)
    if op == "select":
        skip_attrs(p, fl)
        parse_type(p)
        c = parse_value(p, "i1")
        p.expect(",")
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(",")
        ty2 = parse_type(p)
        b = parse_value(p, ty2)
        return Instr(op, dst, ty, (c, a, b), fl, dbg)
    if op == "alloca":
        skip_attrs(p, fl)
        ty = parse_type(p)
        return Instr(op, dst, ty, (), fl, dbg)
    if op == "load":
        skip_attrs(p, fl)
        ty = parse_type(p)
        p.expect(",")
        pt = parse_type(p)
        return Instr(op, dst, ty, (parse_value(p, pt),), fl, dbg)
    if op == "store":
        skip_attrs(p, fl)
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(",")
        pt = parse_type(p)
        return Instr(op, None, ty, (v, parse_value(p, pt)), fl, dbg)
    if op == "getelementptr":
        skip_attrs(p, fl)
        ty = parse_type(p)
        p.expect(",")
        pt = parse_type(p)
        base = parse_value(p, pt)
        idx = []
        while p.eat(","):
            if p.peek() and p.peek().startswith("!"):
                break
            it = parse_type(p)
            idx.append((it, parse_value(p, it)))
        return Instr(op, dst, ty, (base, idx), fl, dbg)
    if op == "extractvalue":
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(",")
        return Instr(op, dst, ty, (v, int(p.next())), fl, dbg)
    if op == "insertvalue":
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(",")
        t2 = parse_type(p)
        v2 = parse_value(p, t2)
        p.expect(",")
        return Instr(op, dst, ty, (v, v2, int(p.next())), fl, dbg)
    if op == "freeze":
        ty = parse_type(p)
        return Instr(op, dst, ty, (parse_value(p, ty),), fl, dbg)
    if op == "call":
        skip_attrs(p, fl)
        rty = parse_type(p)
        if isinstance(rty, tuple) and rty[0] == "fn":
            rty = rty[1]
        callee = p.next()
        if callee.startswith("@"):
            cal = ("glob", callee[1:].strip('"'))
        elif callee.startswith("%"):
            cal = ("reg", callee[1:].strip('"'))
        elif callee == "asm":
            return Instr("asm", dst, rty, (), fl, dbg)
        else:
            raise ValueError("callee %s" % callee)
        p.expect("(")
        args = []
        while not p.eat(")"):
            ty = parse_type(p)
            skip_attrs(p)
            if ty == "metadata":
                # skip metadata operand
                d = 0
                while True:
                    x = p.peek()
                    if d == 0 and x in (",", ")"):
                        break
                    d += x in "([{"
                    d -= x in ")]}"
                    p.next()
                args.append(("metadata", None))
            else:
                args.append((ty, parse_value(p, ty)))
            p.eat(",")
        return Instr("call", dst, rty, (cal, args), fl, dbg)
    raise ValueError("unsupported instruction: " + " ".join(toks))


def parse_module(text, path):
    m = Module(path)
    lines = text.split("\n")
    i = 0
    n = len(lines)
    di_loc = {}
    di_sub = {}
    di_file = {}
    pend = []
    while i < n:
        L = lines[i]
        i += 1
        if not L or L[0] == ";":
            continue
        if L.startswith("define"):
            f = Func()
            hdr = L
            mm = re.match(r"define\s+(.*?)@([-a-zA-Z$._0-9]+|\"[^\"]*\")\((.*)$", hdr)
            pre, name, rest = mm.group(1), mm.group(2).strip('"'), mm.group(3)
            f.internal = bool(re.search(r"\b(internal|private)\b", pre))
            f.name = name
            pt = P(tokenize(pre))
            skip_attrs(pt)
            f.rty = parse_type(pt)
            q = P(tokenize("(" + rest.rstrip("{").rstrip()))
            q.next()
            f.params = []
            f.varargs = False
            f.zext = []
            while not q.eat(")"):
                if q.eat("..."):
                    f.varargs = True
                    continue
                ty = parse_type(q)
                fl = []
                skip_attrs(q, fl)
                nm = q.next()[1:].strip('"')
                f.params.append((ty, nm))
                f.zext.append("zeroext" in fl)
                q.eat(",")
            f.file = None
            f.line = None
            mdbg = re.search(r"!dbg !(\d+)", hdr)
            f.line = mdbg.group(1) if mdbg else None
            f.blocks = {}
            f.order = []
            cur = None
            while True:
                L = lines[i]
                i += 1
                if L.startswith("}"):
                    break
                if not L.strip() or L.lstrip().startswith(";"):
                    continue
                mlab = re.match(r"([-a-zA-Z$._0-9]+|\"[^\"]*\"):", L)
                if mlab:
                    cur = mlab.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                if cur is None:
                    cur = "0"
                    f.blocks[cur] = []
                    f.order.append(cur)
                s = L
                if s.strip().startswith("switch"):
                    while "]" not in s:
                        s += " " + lines[i].strip()
                        i += 1
                toks = tokenize(s)
                f.blocks[cur].append(parse_instr(toks))
            f.module = m
            m.funcs[name] = f
            continue
        if L.startswith("declare"):
            mm = re.match(r"declare\s+(.*?)@([-a-zA-Z$._0-9]+|\"[^\"]*\")\((.*)$", L)
            m.decls[mm.group(2).strip('"')] = L
            continue
        if L.startswith("@"):
            mm = re.match(r"@([-a-zA-Z$._0-9]+|\"[^\"]*\")\s*=\s*(.*)$", L)
            name, rest = mm.group(1).strip('"'), mm.group(2)
            mm2 = re.match(r"((?:[a-z_]+(?:\([a-z]+\))?\s+)*?)(constant|global)\s+(.*)$", rest)
            if not mm2:
                m.globals[name] = dict(kind="other", raw=rest)
                continue
            attrs = mm2.group(1).split()
            toks = tokenize(mm2.group(3))
            p = P(toks)
            ty = parse_type(p)
            init = None
            if p.peek() not in (None, ","):
                init = parse_value(p, ty)
            m.globals[name] = dict(kind=mm2.group(2), ty=ty, init=init, attrs=attrs,
                                   tls=any(a.startswith("thread_local") for a in attrs))
            continue
        if L.startswith("%"):
            mm = re.match(r"%([-a-zA-Z$._0-9]+)\s*=\s*type\s+(.*)$", L)
            if mm:
                if mm.group(2).strip() == "opaque":
                    m.structs[mm.group(1)] = None
                else:
                    m.structs[mm.group(1)] = parse_type(P(tokenize(mm.group(2))))
            continue
        if L.startswith("!"):
            mm = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: (\d+))?, scope: !(\d+)", L)
            if mm:
                di_loc[mm.group(1)] = (int(mm.group(2)), mm.group(4))
                continue
            mm = re.match(r"!(\d+) = (?:distinct )?!DISubprogram\(", L)
            if mm:
                fm = re.search(r"file: !(\d+)", L)
                lm = re.search(r"line: (\d+)", L)
                di_sub[mm.group(1)] = (fm.group(1) if fm else None, int(lm.group(1)) if lm else 0)
                continue
            mm = re.match(r"!(\d+) = !DIFile\(filename: \"([^\"]*)\"", L)
            if mm:
                di_file[mm.group(1)] = mm.group(2)
            continue
    for f in m.funcs.values():
        sub = di_sub.get(f.line) if f.line else None
        f.file = di_file.get(sub[0]) if sub else None
        f.line = sub[1] if sub else 0
        for b in f.blocks.values():
            for ins in b:
                if ins.line is not None:
                    loc = di_loc.get(ins.line)
                    ins.line = loc[0] if loc else f.line
                else:
                    ins.line = f.line
        finish(f)
    return m


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == "br":
        return [t.a[0]]
    if t.op == "cbr":
        return [t.a[1], t.a[2]]
    if t.op == "switch":
        return [t.a[1]] + [x[1] for x in t.a[2]]
    return []


def operands(ins):
    if ins.op in ("phi",):
        return []
    if ins.op in BIN or ins.op == "fneg":
        return [x for x in ins.a]
    if ins.op in CAST:
        return [ins.a[1]]
    if ins.op in ("icmp", "fcmp"):
        return [ins.a[1], ins.a[2]]
    if ins.op == "cbr":
        return [ins.a[0]]
    if ins.op == "switch":
        return [ins.a[0]]
    if ins.op == "ret":
        return [ins.a[0]] if ins.a[0] else []
    if ins.op == "select":
        return list(ins.a)
    if ins.op in ("load", "freeze"):
        return [ins.a[0]]
    if ins.op == "store":
        return list(ins.a)
    if ins.op == "getelementptr":
        return [ins.a[0]] + [v for _, v in ins.a[1]]
    if ins.op == "extractvalue":
        return [ins.a[0]]
    if ins.op == "insertvalue":
        return [ins.a[0], ins.a[1]]
    if ins.op == "call":
        if ins.a[0][0] == "glob" and ins.a[0][1].startswith(("llvm.lifetime", "llvm.dbg")):
            return []
        return [ins.a[0]] + [v for _, v in ins.a[1] if v is not None]
    return []


def finish(f):
    # rpo, predecessors, liveness
    f.preds = {b: [] for b in f.order}
    for b in f.order:
        for s in succs(f, b):
            f.preds[s].append(b)
    seen = set()
    post = []
    stack = [(f.order[0], iter(succs(f, f.order[0])))]
    seen.add(f.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(f, s))))
                break
        else:
            post.append(b)
            stack.pop()
    f.rpo = {b: k for k, b in enumerate(reversed(post))}
    use, deff, phiuse = {}, {}, {}
    for b in f.order:
        u, d = set(), set()
        for ins in f.blocks[b]:
            if ins.op == "phi":
                d.add(ins.dst)
                for v, pb in ins.a:
                    if v[0] == "reg":
                        phiuse.setdefault(pb, set()).add(v[1])
                continue
            for v in operands(ins):
                if v and v[0] == "reg" and v[1] not in d:
                    u.add(v[1])
            if ins.dst:
                d.add(ins.dst)
        use[b], deff[b] = u, d
    livein = {b: set() for b in f.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            out = set(phiuse.get(b, ()))
            for s in succs(f, b):
                phid = {i.dst for i in f.blocks[s] if i.op == "phi"}
                out |= livein[s] - phid
            # values defined in b used by phi in successors count as live-out
            new = use[b] | (out - deff[b])
            # phi results of b are live in after phis
            if new != livein[b]:
                livein[b] = new
                changed = True
    # live after phis: livein plus phi dsts
    f.livein = {b: tuple(sorted(livein[b] | {i.dst for i in f.blocks[b] if i.op == "phi"})) for b in f.order}
