"""Interpreter loop over the abstract domain of engine.py, and interprocedural summaries (coarse mode)."""
import time
import heapq
from . import lin as L
from .lin import Lin
from . import fl
from .fl import FMT, rnd, fzero, finf, fninf, mpf_neg
from . import irparse as IR
from . import engine as EN
from .engine import (Engine, State, Frame, IV, BV, PV, FV, TRUE, FALSE, Split, Unknown, Infeasible, UBEvent, Done,
                     fconst, fnan, finfv, fzerov)
from .libm import Libm
from .merge import merge_bucket

FLT = ("float", "double", "x86_fp80")


class Leaf:
    __slots__ = ("outcome", "info", "val", "st", "grp")

    def __init__(self, outcome, info, val, st, grp):
        self.outcome, self.info, self.val, self.st, self.grp = outcome, info, val, st, grp


class Budget(Exception):
    pass


class Interp(Libm, Engine):
    # ---- operands -----------------------------------------------------
    def val(self, st, fr, v, ty):
        k = v[0]
        if k == "reg":
            x = fr.env.get(v[1])
            if x is None:
                raise Unknown("undefined register %s" % v[1])
            if type(x) is Unk:
                raise Unknown("uninitialised value")
            if type(x) is FV and x.kind == "raw":
                x = self.round_lin(st, x.ty, x.lin, x.s, x.sg)
                fr.env[v[1]] = x
            return x
        if k == "int":
            w = int(ty[1:])
            if w == 1:
                return TRUE if v[1] & 1 else FALSE
            return IV(w, Lin(v[1]))
        if k == "flt":
            return fconst(ty, v[1])
        if k == "glob":
            return PV(("g", v[1]), 0)
        if k == "null":
            return PV(None, 0)
        if k == "zero":
            if ty in FLT:
                return fzerov(ty)
            if isinstance(ty, str) and ty[0] == "i":
                return IV(int(ty[1:]), L.ZERO)
        if k == "undef":
            return UNDEF
        raise Unknown("operand %r" % (v,))

    def sizeof(self, ty):
        if isinstance(ty, str):
            if ty == "ptr":
                return 8
            if ty == "x86_fp80":
                return 16
            if ty in ("float",):
                return 4
            if ty == "double":
                return 8
            return max(1, int(ty[1:]) // 8)
        if ty[0] == "arr":
            return ty[1] * self.sizeof(ty[2])
        if ty[0] == "struct":
            return sum(self.sizeof(x) for x in ty[1])
        if ty[0] == "named":
            t = self.cur.f.module.structs.get(ty[1])
            return self.sizeof(t)
        raise Unknown("sizeof")

    # ---- running ------------------------------------------------------
    def run(self, fname, args, st=None):
        """explore all paths of fname(args) from state st; returns list of leaves"""
        f = self.prog.func(fname)
        st = st or State()
        base = len(st.frames)
        fr = Frame(f)
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames.append(fr)
        return self.explore(st, base)

    def explore(self, st0, base):
        leaves = []
        work = []
        seq = [0]
        merge = self.merge

        def key(st, ph):
            return tuple([(fr.f.rpo[fr.b], fr.i) for fr in st.frames]), ph

        def push(st, ph):
            seq[0] += 1
            if merge:
                heapq.heappush(work, (key(st, ph), -seq[0], st))
            else:
                work.append(st)
        push(st0, 1)
        while work:
            if merge:
                k, _, st = heapq.heappop(work)
                if k[1] == 0:
                    same = [st]
                    while work and work[0][0] == k:
                        same.append(heapq.heappop(work)[2])
                    if len(same) > 1:
                        n0 = len(same)
                        same = merge_bucket(self, same, merge > 1)
                        self.merges += n0 - len(same)
                    st = same.pop()
                    for s2 in same:
                        push(s2, 1)
            else:
                st = work.pop()
            try:
                while True:
                    if self.step(st, base) and work and merge:
                        push(st, 0)
                        break
            except Split as sp:
                self.lazy_ok = False
                self.splits += 1
                alts = sp.alts
                if st.depth > 4000:
                    self.leaf(leaves, st, "unk", "split depth")
                    continue
                grp = st.grp
                if (st.dep or not sp.exact) and len(alts) > 1 and grp is None:
                    self.ngrp += 1
                    grp = self.ngrp
                n = len(alts)
                kids = []
                for j, alt in enumerate(alts):
                    s2 = st if j == n - 1 else st.copy()
                    s2.grp = grp
                    s2.depth += 1
                    try:
                        self.apply(s2, alt)
                    except Infeasible:
                        continue
                    kids.append(s2)
                kids.reverse()
                for s2 in kids:
                    push(s2, 1)
            except DoneRet as d:
                self.leaf(leaves, st, "ret", None, d.v)
            except Done as d:
                self.leaf(leaves, st, d.outcome, d.info)
            except Infeasible:
                pass
            except Unknown as u:
                self.leaf(leaves, st, "unk", "%s [%s]" % (u, self.where(st)))
            except UBEvent as u:
                self.leaf(leaves, st, "ub", u.what)
        return leaves

    def where(self, st):
        if not st.frames:
            return "?"
        fr = st.frames[-1]
        try:
            ins = fr.f.blocks[fr.b][fr.i]
            return "%s:%s %s" % (fr.f.file, ins.line, fr.f.name)
        except Exception:
            return fr.f.name

    def leaf(self, leaves, st, outcome, info, val=None):
        self.paths += 1
        leaves.append(Leaf(outcome, info, val, st, self.group(st.grp)))
        if self.paths > self.max_paths:
            raise Budget("paths")
        if self.deadline and (self.paths & 15) == 0 and time.time() > self.deadline:
            raise Budget("time")

    def apply(self, st, alt):
        for op in alt:
            k = op[0]
            if k == "rng":
                st.rng[op[1]] = (op[2], op[3])
            elif k == "sub":
                for a, r in op[3].items():
                    st.rng[a] = r
                st.sub[op[1]] = op[2]
            elif k == "fact":
                if fl.cmp(op[2], op[3]) > 0:
                    raise Infeasible()
                st.facts[op[1]] = (op[2], op[3])
            elif k == "cls":
                st.floors[("cls", op[1])] = op[2]
            elif k == "zs":
                st.floors[("zs", op[1])] = op[2]
            elif k == "lump":
                st.floors[("lump", op[1], op[2])] = True
            elif k == "blump":
                st.floors[("blump", op[1])] = True
            elif k == "fcmp":
                st.floors[("lt", op[1], op[2])] = op[3]
            elif k == "fcmpeq":
                st.floors[("eq", op[1], op[2])] = op[3]
            elif k == "set":
                st.floors[op[1]] = op[2]
            elif k == "hull":
                st.hull = True
            elif k == "proj":
                st.trace = st.trace + ((op[1], op[2], op[3]),)
            else:
                raise ValueError(k)

    # ---- one instruction ----------------------------------------------
    def step(self, st, base):
        fr = st.frames[-1]
        self.cur = fr
        blk = fr.f.blocks[fr.b]
        n = len(blk)
        env = fr.env
        while True:
            ins = blk[fr.i]
            self.steps += 1
            op = ins.op
            if op == "br":
                self.jump(st, fr, ins.a[0])
                if self.steps > self.next_tick:
                    self.next_tick = self.steps + 2000
                    self.tick()
                return len(fr.f.preds[fr.b]) > 1
            if op == "cbr":
                c = self.val(st, fr, ins.a[0], "i1")
                t = self.decide(st, c)
                self.jump(st, fr, ins.a[1] if t else ins.a[2])
                if st.depth > 100000:
                    raise Unknown("loop")
                return len(fr.f.preds[fr.b]) > 1
            if op == "switch":
                v, d, cs = ins.a
                x = self.u(st, self.val(st, fr, v, ins.ty))
                w = int(ins.ty[1:])
                for c, t in cs:
                    if self.split_eq0(st, L.addc(x, -(c & ((1 << w) - 1)))):
                        d = t
                        break
                self.jump(st, fr, d)
                return len(fr.f.preds[fr.b]) > 1
            if op == "unreachable":
                raise Unknown("unreachable")
            if op == "ret":
                v = None
                if ins.a[0] is not None:
                    v = self.val(st, fr, ins.a[0], ins.ty)
                    if isinstance(v, BV) and v.op != "const":
                        v = self.force(st, v)
                self.ret(st, fr, v, base)
                return True
            if op == "call":
                r = self.call(st, fr, ins, base)
                if r is CALLED:
                    return True
                if ins.dst:
                    env[ins.dst] = r
                fr.i += 1
                continue
            h = DISPATCH.get(op)
            if h is None:
                raise Unknown("instruction " + op)
            h(self, st, fr, ins)
            fr.i += 1

    def tick(self):
        if self.steps > self.max_steps:
            raise Budget("steps")
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    def jump(self, st, fr, tgt):
        f = fr.f
        blk = f.blocks[tgt]
        prev = fr.b
        if f.rpo[tgt] <= f.rpo[prev]:
            k = ("loop", len(st.frames), tgt)
            c = st.floors.get(k, 0) + 1
            if c > 300:
                raise Unknown("loop bound not established at %s" % self.where(st))
            st.floors[k] = c
        new = {}
        i = 0
        for ins in blk:
            if ins.op != "phi":
                break
            for v, pb in ins.a:
                if pb == prev:
                    if v[0] == "undef":
                        new[ins.dst] = UNDEF
                    else:
                        new[ins.dst] = self.val(st, fr, v, ins.ty)
                    break
            i += 1
        env = fr.env
        live = f.livein[tgt]
        ne = {}
        for r in live:
            if r in new:
                ne[r] = new[r]
            elif r in env:
                ne[r] = env[r]
        ne.update(new)
        fr.env = ne
        fr.prev, fr.b, fr.i = prev, tgt, i

    def ret(self, st, fr, v, base):
        for o in fr.allocas:
            st.mem.pop(o, None)
        k = len(st.frames)
        for key in [x for x in st.floors if x[0] == "loop" and x[1] == k]:
            del st.floors[key]
        st.frames.pop()
        if len(st.frames) == base:
            raise DoneRet(v)
        c = st.frames[-1]
        if fr.dst:
            c.env[fr.dst] = v
        c.i += 1

    # ---- calls --------------------------------------------------------
    def call(self, st, fr, ins, base):
        cal, args = ins.a
        if cal[0] != "glob":
            raise Unknown("indirect call")
        name = cal[1]
        if name.startswith("llvm."):
            if name.startswith(("llvm.dbg", "llvm.lifetime")):
                return None
            if name == "llvm.ubsantrap" or name == "llvm.trap":
                if self.ub_as_outcome:
                    raise UBEvent("undefined behaviour trap (%s:%s, function %s)" % (fr.f.file, ins.line, fr.f.name))
                raise Unknown("trap")
        if name == "__vp_fail":
            a = self.val(st, fr, args[0][1], args[0][0]) if args else None
            raise Done("viol", int(a.lin.c) if a is not None else 0)
        if name == "__vp_assume":
            c = self.val(st, fr, args[0][1], args[0][0])
            if not self.decide(st, c):
                raise Done("skip")
            return None
        if name == "__vp_conc":
            c = self.val(st, fr, args[0][1], args[0][0])
            self.conc(st, self.u(st, c))
            return None
        vals = [self.val(st, fr, v, ty) for ty, v in args]
        f = self.prog.resolve(name, fr.f.module)
        if f is not None and f.blocks:
            self.funcs_seen.add(f.name)
            vals = [self.force(st, v) if isinstance(v, BV) and v.op != "const" else v for v in vals]
            if self.coarse and not any(isinstance(v, PV) for v in vals) and \
                    (f.rty in FLT or any(ty in FLT for ty, _ in f.params)):
                return self.summary_call(st, fr, ins, f, vals)
            if len(st.frames) > 60:
                raise Unknown("recursion")
            nf = Frame(f, ins.dst)
            for (ty, nm), a in zip(f.params, vals):
                if ty == "i1" and isinstance(a, IV):
                    a = IV(1, a.lin)
                nf.env[nm] = a
            st.frames.append(nf)
            return CALLED
        return self.libm(st, fr, ins, name, vals, ins.ty)

    # summaries: call-by-abstract-value, results joined per class
    def abskey_arg(self, st, v):
        if isinstance(v, BV):
            v = self.force(st, v)
        if isinstance(v, IV):
            x = st.norm(self.s(st, v) if v.w > 1 else self.u(st, v))
            lo, hi = st.range(x)
            if self.keep_affine and lo < hi:
                a = self.progression(st, x)
                if a and a[1] > 1:
                    return ("i", v.w, lo, hi, a[1])
            return ("i", v.w, lo, hi)
        if isinstance(v, FV):
            if v.kind == "nan":
                return ("nan", v.ty)
            if v.kind == "inf":
                return ("inf", v.ty, v.sg)
            if v.kind == "lin":
                x = st.norm(v.lin)
                if not x.t and (v.E is None or not st.norm(v.E).t):
                    if x.c == 0:
                        return ("zero", v.ty, v.sg)
                    v = self.concE(st, v)
                    return ("c", v.ty, x.c, v.s)
                # keep zero apart
                if self.is_zero(st, v):
                    return ("zero", v.ty, v.sg)
            a = self.affine_key(st, v)
            if a:
                return a
            lo, hi = self.fbounds(st, v)
            if lo == hi and lo != fzero:
                sg, man, ex, bc = lo
                return ("c", v.ty, -int(man) if sg else int(man), -ex)
            return ("f", v.ty, lo, hi)
        return ("x",)

    keep_affine = False

    def affine_key(self, st, v):
        """key of an affine float c + k*j, 0 <= j <= n, times 2^-s"""
        if not self.keep_affine or v.kind != "lin":
            return None
        if v.E is not None and st.norm(v.E).t:
            return None
        v = self.concE(st, v)
        x = st.norm(v.lin)
        a = self.progression(st, x)
        if not a:
            return None
        c, k, n = a
        if c <= 0 <= c + k * n:
            return None
        return ("a", v.ty, c, k, v.s, n)

    def progression(self, st, x):
        """x takes exactly the values c, c+k, .., c+n*k (mixed-radix atoms are put together)"""
        if not x.t:
            return None
        c = x.c
        at = []
        for t, k in x.t.items():
            lo, hi = st.rng[t]
            c += k * (lo if k > 0 else hi)
            at.append((abs(k), hi - lo))
        at.sort()
        k, n = at[0]
        for k2, n2 in at[1:]:
            if k2 % k or k2 // k > n + 1:
                return None
            n += k2 // k * n2
        return c, k, n

    def arg_from_key(self, st, k):
        if k[0] == "a":
            return FV(k[1], "lin", 1, L.addc(L.scale(self.atom_in(st, 0, k[5]), k[3]), k[2]), k[4])
        if k[0] == "i" and len(k) == 5:
            n = (k[3] - k[2]) // k[4]
            return IV(k[1], L.addc(L.scale(self.atom_in(st, 0, n), k[4]), k[2]))
        if k[0] == "i":
            return IV(k[1], self.atom_in(st, k[2], k[3]))
        if k[0] == "nan":
            return fnan(k[1])
        if k[0] == "inf":
            return finfv(k[1], k[2])
        if k[0] == "zero":
            return fzerov(k[1], k[2])
        if k[0] == "c":
            return FV(k[1], "lin", 1, Lin(k[2]), k[3])
        return self.fresh_sym(st, k[1], k[2], k[3])

    def summary_call(self, st, fr, ins, f, vals):
        keys = tuple(self.abskey_arg(st, v) for v in vals)
        keys = self.widen_keys(f, keys)
        mk = (id(f), keys)
        res = self.memo.get(mk)
        if res is None:
            res = self.summarise(f, keys)
            self.memo[mk] = res
        outs, flags = res
        sel = st.floors.pop("sel", None)
        tot = len(outs) + len(flags)
        if tot == 0:
            raise Infeasible()
        if sel is None and tot > 1:
            raise Split([[("set", "sel", i)] for i in range(tot)], exact=False, why="summary")
        i = sel if sel is not None else 0
        if i >= len(outs):
            fo = flags[i - len(outs)]
            if fo[0] == "ub":
                raise UBEvent(fo[1])
            raise Unknown(fo[1])
        return self.arg_from_key(st, outs[i])

    def widen_keys(self, f, keys):
        return keys

    def summarise(self, f, keys):
        st = State()
        args = [self.arg_from_key(st, k) for k in keys]
        save = self.cur
        fr = Frame(f)
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames.append(fr)
        leaves = self.explore(st, 0)
        self.cur = save
        classes = {}
        flags = {}
        for lf in leaves:
            if lf.outcome == "ret":
                self.join_ret(classes, lf.st, lf.val)
            elif lf.outcome in ("skip",):
                pass
            else:
                flags.setdefault(lf.outcome, lf.info)
        outs = []
        for c, v in classes.items():
            outs.append(v)
        return outs, list(flags.items())

    def join_ret(self, classes, st, v):
        if v is None:
            classes["void"] = ("x",)
            return
        if isinstance(v, BV):
            raise Unknown("lazy ret")
        if isinstance(v, IV):
            if v.w == 1:
                lo, hi = st.range(st.norm(v.lin))
                for x in range(lo, hi + 1):
                    classes[("b", x & 1)] = ("i", 1, x & 1, x & 1)
                return
            M = 1 << v.w
            h = M >> 1
            x = self.red(st, v)
            lo, hi = st.range(x)
            k0, k1 = (lo + h) // M, (hi + h) // M
            if k0 == k1:
                segs = [(lo - k0 * M, hi - k0 * M)]
            elif k1 == k0 + 1:
                segs = [(lo - k0 * M, h - 1), (-h, hi - k1 * M)]
            else:
                segs = [(-h, h - 1)]
            for lo, hi in segs:
                for c, a, b in (("nar", -h, -h), ("neg", -h + 1, -1), ("zero", 0, 0), ("pos", 1, h - 1)):
                    l, r = max(lo, a), min(hi, b)
                    if l <= r:
                        if self.enum and l == r and len(classes) < 64:
                            classes[(c, v.w, l)] = ("i", v.w, l, r)
                            continue
                        o = classes.get((c, v.w))
                        if o:
                            l, r = min(l, o[2]), max(r, o[3])
                        classes[(c, v.w)] = ("i", v.w, l, r)
            return
        if isinstance(v, FV):
            if v.kind == "nan":
                classes["nan"] = ("nan", v.ty)
                return
            if v.kind == "inf":
                classes["inf", v.sg] = ("inf", v.ty, v.sg)
                return
            lo, hi = self.fbounds(st, v)
            sl, sh = fl.cmp(lo, fzero), fl.cmp(hi, fzero)
            if self.enum and lo == hi and sl and len(classes) < 64:
                classes["one", lo] = self.fkeyi(v.ty, lo, hi)
                return
            if sl <= 0 <= sh:
                z = v.sg if v.kind == "lin" else 1
                classes["zero", z] = ("zero", v.ty, z)
            if sh > 0:
                l = lo if sl > 0 else fl.minsub(v.ty)
                o = classes.get("pos")
                a = self.affine_key(st, v) if o is None or o[0] == "a" else None
                if a and (o is None or o == a):
                    classes["pos"] = a
                else:
                    if o:
                        o = self.kb(o)
                        l, hi = fl.fmin(l, o[0]), fl.fmax(hi, o[1])
                    classes["pos"] = self.fkeyi(v.ty, l, hi)
            if sl < 0:
                h = hi if sh < 0 else mpf_neg(fl.minsub(v.ty))
                o = classes.get("neg")
                a = self.affine_key(st, v) if o is None or o[0] == "a" else None
                if a and (o is None or o == a):
                    classes["neg"] = a
                else:
                    if o:
                        o = self.kb(o)
                        lo, h = fl.fmin(lo, o[0]), fl.fmax(h, o[1])
                    classes["neg"] = self.fkeyi(v.ty, lo, h)

    def kb(self, k):
        if k[0] == "c":
            x = fl.from_man_exp(k[2], -k[3])
            return x, x
        if k[0] == "a":
            return fl.from_man_exp(k[2], -k[4]), fl.from_man_exp(k[2] + k[3] * k[5], -k[4])
        return k[2], k[3]

    def fkeyi(self, ty, lo, hi):
        if lo == hi:
            sg, man, ex, bc = lo
            return ("c", ty, -int(man) if sg else int(man), -ex)
        return ("f", ty, lo, hi)


class DoneRet(Done):
    def __init__(self, v):
        self.outcome, self.info, self.v = "ret", None, v


class Unk:
    pass


UNDEF = Unk()
CALLED = object()


# ---- simple instructions ---------------------------------------------------------------------------------------
def i_bin(self, st, fr, ins):
    ty = ins.ty
    a = self.val(st, fr, ins.a[0], ty)
    b = self.val(st, fr, ins.a[1], ty)
    if ty in FLT:
        op = ins.op
        self.lazy_ok = self.merge > 1 and op != "fdiv"
        if op == "fadd":
            r = self.fadd(st, ty, a, b)
        elif op == "fsub":
            r = self.fadd(st, ty, a, self.fneg(b))
        elif op == "fmul":
            r = self.fmul(st, ty, a, b)
        elif op == "fdiv":
            r = self.fdiv(st, ty, a, b)
        else:
            raise Unknown(op)
        self.lazy_ok = False
    else:
        r = self.ibin(st, ins, a, b)
    fr.env[ins.dst] = r


def i_fneg(self, st, fr, ins):
    fr.env[ins.dst] = self.fneg(self.val(st, fr, ins.a[0], ins.ty))


def i_cmp(self, st, fr, ins):
    pred, a, b = ins.a
    fr.env[ins.dst] = BV(ins.op, (pred, self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty)))


def i_select(self, st, fr, ins):
    c = self.val(st, fr, ins.a[0], "i1")
    t = self.decide(st, c)
    fr.env[ins.dst] = self.val(st, fr, ins.a[1] if t else ins.a[2], ins.ty)


def i_cast(self, st, fr, ins):
    sty, v = ins.a
    x = self.val(st, fr, v, sty)
    ty = ins.ty
    op = ins.op
    if op in ("zext", "sext", "trunc"):
        w = int(ty[1:])
        if isinstance(x, BV) and (op == "zext" or op == "sext"):
            t = self.decide(st, x)
            r = IV(w, Lin((1 if op == "zext" else -1) if t else 0))
        elif op == "trunc":
            if isinstance(x, BV):
                r = x
            else:
                r = IV(w, x.lin)
                if w == 1:
                    r = BV("icmp", ("ne", IV(x.w, self.iand(st, x, 1)), IV(x.w, L.ZERO)))
        elif op == "zext":
            r = IV(w, self.u(st, x))
        else:
            r = IV(w, self.s(st, x))
    elif op == "sitofp":
        if isinstance(x, BV):
            x = self.force(st, x)
        x = IV(x.w, self.s(st, x))
        self.lazy_ok = self.merge > 1
        r = self.round_lin(st, ty, x.lin, 0)
        self.lazy_ok = False
    elif op == "uitofp":
        if isinstance(x, BV):
            x = self.force(st, x)
        r = self.round_lin(st, ty, self.u(st, x), 0)
    elif op == "fpext":
        r = self.fpext(x, ty)
    elif op == "fptrunc":
        self.lazy_ok = self.merge > 1
        r = self.fptrunc(st, ty, x)
        self.lazy_ok = False
    elif op in ("fptosi", "fptoui"):
        r = self.fptoi(st, ins, x, int(ty[1:]), op == "fptosi")
    elif op == "bitcast":
        if isinstance(x, FV) and ty[0] == "i":
            r = FBits(x, int(ty[1:]))
        elif isinstance(x, IV) and ty in FLT:
            raise Unknown("bits to float")
        elif isinstance(x, FBits) and ty in FLT:
            r = x.v
        else:
            r = x
    else:
        raise Unknown(op)
    fr.env[ins.dst] = r


class FBits(IV):
    """lazily materialised bit pattern of a float"""
    __slots__ = ("v",)

    def __init__(self, v, w):
        self.v, self.w = v, w


def _fb(self, st, x):
    if type(x) is FBits:
        return self.fbits(st, x.v.ty, x.v)
    return x


def i_load(self, st, fr, ins):
    p = self.val(st, fr, ins.a[0], "ptr")
    fr.env[ins.dst] = self.load(st, fr, ins, p, ins.ty)


def load(self, st, fr, ins, p, ty):
    if p.obj is None:
        self.ubhit(st, ins, "null dereference")
        raise Unknown("null")
    if p.obj[0] == "g":
        return self.load_global(st, fr, ins, p, ty)
    o = st.mem.get(p.obj)
    if o is None:
        self.ubhit(st, ins, "use of dead object")
        raise Unknown("dead object")
    off = p.off
    if not isinstance(off, int):
        off = self.conc(st, off)
    e = o.get(off)
    if e is not None:
        t, v = e
        if t == ty:
            if v is UNDEF:
                self.ubhit(st, ins, "uninitialised read")
            return v
        if ty[0] == "i" and isinstance(t, str):
            w = int(ty[1:])
            if t in FLT:
                return IV(w, self.fbits(st, t, v).lin)
            if int(t[1:]) >= w:
                return IV(w, v.lin)
    # sub-field of a stored float/int
    for o2, (t, v) in o.items():
        if o2 < off < o2 + self.sizeof(t) and ty[0] == "i":
            w = int(ty[1:])
            b = self.fbits(st, t, v) if t in FLT else v
            sh = 8 * (off - o2)
            if sh + w <= b.w:
                return IV(w, self.field(st, b, sh, sh + w))
    self.ubhit(st, ins, "uninitialised read")
    raise Unknown("uninitialised or reinterpreted load")


def gconst(self, m, name):
    g = m.globals.get(name)
    if g is None:
        raise Unknown("global " + name)
    return g


def load_global(self, st, fr, ins, p, ty):
    m, name = p.obj[2] if len(p.obj) > 2 else fr.f.module, p.obj[1]
    g = self.prog.glob(m, name)
    if g is None or g["kind"] != "constant":
        raise Unknown("load from writable global " + name)
    off = p.off
    es = self.sizeof(ty)
    if not isinstance(off, int):
        off = st.norm(off)
        lo, hi = st.range(off)
        size = self.sizeof(g["ty"])
        if lo < 0 or hi + es > size:
            bad = False
            if lo < 0 and self.split_lt0(st, off):
                bad = True
            elif not self.split_lt0(st, L.addc(off, -(size - es + 1))):
                bad = True
            if bad:
                self.ubhit(st, ins, "index out of bounds of %s" % name)
                raise Unknown("out of bounds")
        off = self.conc(st, off, 4096)
    v = flat_const(self, g["ty"], g["init"], off, ty)
    if v is None:
        self.ubhit(st, ins, "index out of bounds of %s" % name)
        raise Unknown("out of bounds")
    return v


def flat_const(self, ty, init, off, want):
    if init is None or off < 0:
        return None
    if isinstance(ty, tuple) and ty[0] == "arr":
        es = self.sizeof(ty[2])
        i = off // es
        if i >= ty[1]:
            return None
        if init[0] == "zero":
            return flat_const(self, ty[2], ("zero",), off - i * es, want)
        if init[0] == "str":
            return IV(8, Lin(init[1][i]))
        return flat_const(self, ty[2], init[1][i][1], off - i * es, want)
    if isinstance(ty, tuple):
        raise Unknown("struct constant")
    if off != 0 or ty != want:
        return None
    if ty in FLT:
        return fzerov(ty) if init[0] == "zero" else fconst(ty, init[1])
    if init[0] == "zero":
        return IV(int(ty[1:]), L.ZERO)
    if init[0] == "int":
        return IV(int(ty[1:]), Lin(init[1]))
    raise Unknown("constant")


def i_store(self, st, fr, ins):
    v = self.val(st, fr, ins.a[0], ins.ty)
    p = self.val(st, fr, ins.a[1], "ptr")
    store(self, st, ins, p, ins.ty, v)


def store(self, st, ins, p, ty, v):
    if p.obj is None or p.obj[0] == "g":
        raise Unknown("store to global")
    o = st.mem.get(p.obj)
    if o is None:
        raise Unknown("dead object")
    off = p.off
    if not isinstance(off, int):
        off = self.conc(st, off)
    sz = 10 if ty == "x86_fp80" else self.sizeof(ty)
    for k in [k for k, (t, _) in o.items() if k < off + sz and off < k + (10 if t == "x86_fp80" else self.sizeof(t))]:
        del o[k]
    o[off] = (ty, v)


def i_alloca(self, st, fr, ins):
    st.nobj += 1
    obj = ("s", st.nobj)
    st.mem[obj] = {}
    fr.allocas.append(obj)
    fr.env[ins.dst] = PV(obj, 0)


def i_gep(self, st, fr, ins):
    base, idx = ins.a
    p = self.val(st, fr, base, "ptr")
    off = Lin(p.off) if isinstance(p.off, int) else p.off
    ty = ins.ty
    first = True
    for it, iv in idx:
        v = self.val(st, fr, iv, it)
        if first:
            sz = self.sizeof(ty)
            off = L.add(off, L.scale(self.s(st, v), sz))
            first = False
            continue
        if isinstance(ty, tuple) and ty[0] == "named":
            ty = fr.f.module.structs[ty[1]]
        if ty[0] == "arr":
            sz = self.sizeof(ty[2])
            off = L.add(off, L.scale(self.s(st, v), sz))
            ty = ty[2]
        else:
            k = self.s(st, v).c
            off = L.addc(off, sum(self.sizeof(x) for x in ty[1][:k]))
            ty = ty[1][k]
    off = st.norm(off)
    obj = p.obj
    if obj and obj[0] == "g" and len(obj) < 3:
        obj = ("g", obj[1], fr.f.module)
    fr.env[ins.dst] = PV(obj, off.c if not off.t else off)


def i_freeze(self, st, fr, ins):
    fr.env[ins.dst] = self.val(st, fr, ins.a[0], ins.ty)


Interp.load = load
Interp.load_global = load_global
DISPATCH = {op: i_bin for op in IR.BIN}
DISPATCH.update({op: i_cast for op in IR.CAST})
DISPATCH.update({"fneg": i_fneg, "icmp": i_cmp, "fcmp": i_cmp, "select": i_select, "load": i_load, "store": i_store,
                 "alloca": i_alloca, "getelementptr": i_gep, "freeze": i_freeze})

# materialise float bit patterns on demand
_red = Engine.red


def red(self, st, v):
    if type(v) is FBits:
        v = self.fbits(st, v.v.ty, v.v)
    return _red(self, st, v)


Interp.red = red
_icmp = Engine.icmp


def icmp(self, st, pred, x, y):
    for p, q, prs in ((x, y, {"slt": True, "sge": False}), (y, x, {"sgt": True, "sle": False})):
        if type(p) is FBits and pred in prs and isinstance(q, IV) and not q.lin.t and q.lin.c == 0:
            return self.signbit(st, p.v) == prs[pred]
    if type(x) is FBits:
        x = self.fbits(st, x.v.ty, x.v)
    if type(y) is FBits:
        y = self.fbits(st, y.v.ty, y.v)
    if type(x) is IV and type(y) is IV and not x.lin.t and not y.lin.t:
        M = 1 << x.w
        a, b = x.lin.c % M, y.lin.c % M
        if pred == "eq":
            return a == b
        if pred == "ne":
            return a != b
        if pred[0] == "s":
            h = M >> 1
            a, b = (a ^ h), (b ^ h)
        p = pred[1:]
        return a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b
    return _icmp(self, st, pred, x, y)


Interp.icmp = icmp
_ibin = Engine.ibin


def ibin(self, st, ins, x, y):
    if type(x) is FBits:
        x = self.fbits(st, x.v.ty, x.v)
    if type(y) is FBits:
        y = self.fbits(st, y.v.ty, y.v)
    if type(x) is IV and type(y) is IV and not x.lin.t and not y.lin.t and not ins.flags:
        w = x.w
        M = 1 << w
        a, b = x.lin.c % M, y.lin.c % M
        op = ins.op
        if op == "add":
            return IV(w, Lin(a + b))
        if op == "sub":
            return IV(w, Lin(a - b))
        if op == "mul":
            return IV(w, Lin(a * b))
        if op == "and":
            return IV(w, Lin(a & b))
        if op == "or":
            return IV(w, Lin(a | b))
        if op == "xor":
            return IV(w, Lin(a ^ b))
        if b < w:
            if op == "shl":
                return IV(w, Lin((a << b) % M))
            if op == "lshr":
                return IV(w, Lin(a >> b))
            if op == "ashr":
                return IV(w, Lin((a - M if a >> (w - 1) else a) >> b))
    return _ibin(self, st, ins, x, y)


Interp.ibin = ibin


def i_trunc_fb(self, st, fr, ins):
    sty, v = ins.a
    x = self.val(st, fr, v, sty)
    if type(x) is FBits:
        fr.env[v[1]] = self.fbits(st, x.v.ty, x.v)
    i_cast(self, st, fr, ins)


DISPATCH["trunc"] = i_trunc_fb
DISPATCH["zext"] = i_trunc_fb
DISPATCH["sext"] = i_trunc_fb
