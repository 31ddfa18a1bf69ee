"""Trace-partitioned abstract interpreter over LLVM IR.

Abstract domain
  integers   affine forms (lin.Lin) over bounded integer atoms, modulo 2^w
  floats     nan | +-inf | dyadic affine form lin*2^-s*2^E | symbolic real with an enclosing interval
  state      boxes of atom ranges, exact substitutions (field splits), intervals of symbolic reals, stack memory
Undecided branches partition the state.  A partition step is *exact* when the alternatives split the set of
concrete states (box splitting, field splitting) and *inexact* when an alternative may be empty (a decision about an
over-approximated value).  A violation is definite only when reached through exact steps, or when every leaf below the
first inexact step violates.
"""
from . import lin as L
from .lin import Lin
from . import fl
from .fl import (FMT, rnd, from_man_exp, from_int, mpf_add, mpf_sub, mpf_mul, mpf_div, mpf_neg, mpf_cmp, mpf_abs,
                 fzero, finf, fninf, mpf_shift)
from . import irparse as IR

PREC = 160


class Split(Exception):
    """alts: list of refinements; a refinement is a list of ops
       ('rng',a,lo,hi) ('sub',a,Lin,{new:(lo,hi)}) ('fact',id,lo,hi) ('call',fn(state))"""

    def __init__(self, alts, exact=True, why=None):
        self.alts, self.exact, self.why = alts, exact, why


class Unknown(Exception):
    """the analysis cannot follow this construct; the path is undecided"""


class Infeasible(Exception):
    pass


class UBEvent(Exception):
    """the whole current state executes undefined behaviour"""

    def __init__(self, what):
        self.what = what


class Done(Exception):
    def __init__(self, outcome, info=None):
        self.outcome, self.info = outcome, info


class IV:
    __slots__ = ("w", "lin")

    def __init__(self, w, lin):
        self.w, self.lin = w, lin

    def __repr__(self):
        return "i%d(%r)" % (self.w, self.lin)


class BV:
    """lazy boolean"""
    __slots__ = ("op", "a")

    def __init__(self, op, a):
        self.op, self.a = op, a


# functions of IEEE 754 whose underflow is to +0
POSZERO = {"exp", "exp2", "pow", "hypot"}
TRUE = BV("const", True)
FALSE = BV("const", False)


class PV:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


class FV:
    """kind: nan; inf (sg); lin (lin,s,E,zs); sym (sg,id,e)   value of lin: lin*2^-s*2^E ; of sym: sg*sym*2^e"""
    __slots__ = ("ty", "kind", "sg", "lin", "s", "E", "id", "e")

    def __init__(self, ty, kind, sg=0, lin=None, s=0, E=None, id=None, e=0):
        self.ty, self.kind, self.sg, self.lin, self.s, self.E, self.id, self.e = ty, kind, sg, lin, s, E, id, e

    def __repr__(self):
        if self.kind == "lin":
            return "%s(%r*2^-%d%s)" % (self.ty, self.lin, self.s, "" if self.E is None else "*2^(%r)" % self.E)
        if self.kind == "sym":
            return "%s(%+d*sym%d*2^%d)" % (self.ty, self.sg, self.id, self.e)
        return "%s(%s%s)" % (self.ty, self.kind, self.sg)


def fnan(ty):
    return FV(ty, "nan")


def finfv(ty, s):
    return FV(ty, "inf", s)


def fzerov(ty, sg=1):
    return FV(ty, "lin", sg, L.ZERO, 0)


def fconst(ty, c):
    k = c[0]
    if k == "nan":
        return fnan(ty)
    if k == "inf":
        return finfv(ty, c[1])
    if k == "zero":
        return fzerov(ty, -1 if c[1] else 1)
    m, e = c[1], c[2]
    while m and m & 1 == 0:
        m >>= 1
        e += 1
    return FV(ty, "lin", 1, Lin(m), -e)


class Frame:
    __slots__ = ("f", "b", "i", "prev", "env", "dst", "allocas")

    def __init__(self, f, dst=None):
        self.f, self.b, self.i, self.prev, self.env, self.dst = f, f.order[0], 0, None, {}, dst
        self.allocas = []

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.b, n.i, n.prev, n.env, n.dst = self.f, self.b, self.i, self.prev, dict(self.env), self.dst
        n.allocas = list(self.allocas)
        return n


class State:
    __slots__ = ("frames", "rng", "sub", "facts", "mem", "grp", "floors", "trace", "depth", "nobj", "hull",
                 "merged", "dep")

    def __init__(self):
        self.frames = []
        self.rng = {}
        self.sub = {}
        self.facts = {}
        self.mem = {}
        self.floors = {}
        self.grp = None
        self.trace = ()
        self.depth = 0
        self.nobj = 0
        self.hull = False
        self.merged = False
        self.dep = False  # holds an opaque value that is a function of the inputs: no split is exact any more

    def copy(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.rng = dict(self.rng)
        n.sub = dict(self.sub)
        n.facts = dict(self.facts)
        n.mem = {k: dict(v) for k, v in self.mem.items()}
        n.floors = dict(self.floors)
        n.grp = self.grp
        n.trace = self.trace
        n.depth = self.depth
        n.nobj = self.nobj
        n.hull = self.hull
        n.merged = self.merged
        n.dep = self.dep
        return n

    # ---- affine forms -------------------------------------------------
    def res(self, x):
        sub = self.sub
        if not sub or not x.t:
            return x
        while True:
            for a in x.t:
                if a in sub:
                    x = L.subst(x, a, sub[a])
                    break
            else:
                break
            if not x.t:
                break
        # inline singleton atoms
        return self.fold(x)

    def fold(self, x):
        rng = self.rng
        for a in x.t:
            r = rng[a]
            if r[0] == r[1]:
                c = x.c
                t = {}
                for b, k in x.t.items():
                    rb = rng[b]
                    if rb[0] == rb[1]:
                        c += k * rb[0]
                    else:
                        t[b] = k
                return Lin(c, t)
        return x

    def norm(self, x):
        if not x.t:
            return x
        x = self.res(x)
        return self.fold(x)

    def range(self, x):
        lo = hi = x.c
        rng = self.rng
        for a, k in x.t.items():
            r = rng[a]
            if k > 0:
                lo += k * r[0]
                hi += k * r[1]
            else:
                lo += k * r[1]
                hi += k * r[0]
        return lo, hi


def tz(n):
    return (n & -n).bit_length() - 1


class SymTab:
    """global (per run) table of symbolic reals"""

    def __init__(self):
        self.key2id = {}
        self.info = []  # id -> (ty, op, args)

    def get(self, key, ty, op, args):
        i = self.key2id.get(key)
        if i is None:
            i = len(self.info)
            self.info.append((ty, op, args))
            if key is not None:
                self.key2id[key] = i
        return i


# ----------------------------------------------------------------------------------------------------------------
class Engine:
    def __init__(self, prog, roundfork=True, coarse=False, max_paths=200000, max_steps=20_000_000, deadline=None,
                 concl=4096):
        self.prog = prog
        self.roundfork = roundfork
        self.coarse = coarse
        self.max_paths, self.max_steps, self.deadline = max_paths, max_steps, deadline
        self.natoms = 0
        self.syms = SymTab()
        self.steps = 0
        self.next_tick = 0
        self.lazy_ok = False
        self.paths = 0
        self.splits = 0
        self.ngrp = 0
        self.gpar = {}
        self.funcs_seen = set()
        self.ub = []
        self.stack_cur = None
        self.memo = {}
        self.ubsites = set()
        self.sites = {}
        self.ub_as_outcome = False
        self.track_prec = False
        self.in_summary = 0
        self.merge = 0  # 0 none, 1 exact merging, 2 hull merging
        self.merges = 0

    # ---- atoms / syms -------------------------------------------------
    def group(self, g):
        if g is not None:
            while g in self.gpar:
                g = self.gpar[g]
        return g

    def new_atom(self):
        self.natoms += 1
        return self.natoms

    def atom_in(self, st, lo, hi):
        if lo == hi:
            return Lin(lo)
        st.dep = True
        a = self.new_atom()
        st.rng[a] = (lo, hi)
        return L.atom(a)

    enum = 0

    def fresh_sym(self, st, ty, lo, hi, op="fresh", args=()):
        i = self.syms.get(None, ty, op, args)
        st.facts[i] = (lo, hi)
        st.dep = True
        return FV(ty, "sym", 1, id=i)

    # ---- splitting ----------------------------------------------------
    def alt_rng(self, a, lo, hi):
        return [("rng", a, lo, hi)]

    def split_lt0(self, st, x):
        """returns True/False for x<0 or raises Split"""
        lo, hi = st.range(x)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        x = st.norm(x)
        lo, hi = st.range(x)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        if len(x.t) == 1:
            (a, k), = x.t.items()
            alo, ahi = st.rng[a]
            if k > 0:  # x.c + k a < 0  <=> a < -c/k  <=> a <= ceil(-c/k)-1
                m = -((x.c) // k) - 1 if x.c % k == 0 else (-x.c) // k
                # largest a with c+k a <0
                m = (-x.c - 1) // k
                raise Split([self.alt_rng(a, alo, m), self.alt_rng(a, m + 1, ahi)])
            else:
                kk = -k  # c - kk a < 0 <=> a > c/kk <=> a >= floor(c/kk)+1
                m = x.c // kk + 1
                raise Split([self.alt_rng(a, m, ahi), self.alt_rng(a, alo, m - 1)])
        # dominant atom
        items = sorted(x.t.items(), key=lambda p: -abs(p[1]))
        a, k = items[0]
        rest = Lin(x.c, dict(items[1:]))
        rlo, rhi = st.range(rest)
        alo, ahi = st.rng[a]
        if k < 0:
            # substitute b = -a view
            # true when rest + k a <0 for all rest: rhi + k a < 0 -> a > rhi/(-k)
            kk = -k
            tmin = rhi // kk + 1  # a >= tmin -> true
            fmax = rlo // kk  # a <= fmax -> rlo - kk a >= 0 -> false
            t_rng = (max(tmin, alo), ahi)
            f_rng = (alo, min(fmax, ahi))
            mid = (max(fmax + 1, alo), min(tmin - 1, ahi))
        else:
            tmax = (-rhi - 1) // k  # a<=tmax -> true
            fmin = -(rlo // k) if rlo % k == 0 else -(rlo // k)
            fmin = (-rlo + k - 1) // k  # a>=fmin -> false
            t_rng = (alo, min(tmax, ahi))
            f_rng = (max(fmin, alo), ahi)
            mid = (max(tmax + 1, alo), min(fmin - 1, ahi))
        alts = []
        if t_rng[0] <= t_rng[1]:
            alts.append(self.alt_rng(a, *t_rng))
        if f_rng[0] <= f_rng[1]:
            alts.append(self.alt_rng(a, *f_rng))
        nmid = mid[1] - mid[0] + 1
        if nmid <= 8:
            for v in range(mid[0], mid[1] + 1):
                alts.append(self.alt_rng(a, v, v))
            raise Split(alts)
        pr = self.project(st, x)
        if pr is not None:
            raise Split([pr])
        if alts:
            alts.append(self.alt_rng(a, *mid))
            raise Split(alts)
        self.bisect(st, x)

    def live_atoms(self, st, skip=None):
        """set of atoms (after substitution) appearing in live values"""
        out = set()

        def addl(x):
            if x is not None and x.t:
                for a in st.res(x).t:
                    out.add(a)

        def addv(v):
            if isinstance(v, IV):
                addl(v.lin)
            elif isinstance(v, FV):
                if v.kind == "lin" or v.kind == "raw":
                    addl(v.lin)
                    addl(v.E)
            elif isinstance(v, BV):
                for y in v.a if isinstance(v.a, (tuple, list)) else ():
                    addv(y)
        forms = []
        self.gc(st)
        for fr in st.frames:
            for v in fr.env.values():
                addv(v)
                forms.append(v)
        for o in st.mem.values():
            for ty, v in o.values():
                addv(v)
                forms.append(v)
        return out, forms

    def gc(self, st):
        """forget registers that are dead and the contents of stack objects no live pointer refers to"""
        top = len(st.frames) - 1
        roots = []
        for k, fr in enumerate(st.frames):
            live = self.live_now(fr, k < top)
            env = fr.env
            dead = [r for r in env if r not in live]
            for r in dead:
                del env[r]
            if st.mem:
                for v in env.values():
                    if type(v) is PV and v.obj is not None:
                        roots.append(v.obj)
        if st.mem:
            seen = set()
            while roots:
                o = roots.pop()
                o = o[:2]
                if o in seen or o not in st.mem:
                    continue
                seen.add(o)
                for _, v in st.mem[o].values():
                    if type(v) is PV and v.obj is not None:
                        roots.append(v.obj)
            for o in st.mem:
                if o not in seen and st.mem[o]:
                    st.mem[o] = {}

    def live_now(self, fr, pending=False):
        """registers possibly used from fr.i on (conservative); pending: the call at fr.i is being executed"""
        f = fr.f
        if pending:
            ck = (id(f), fr.b, fr.i, 1)
            c = self.prog.livecache.get(ck)
            if c is None:
                fr.i += 1
                try:
                    c = set(self.live_now(fr))
                finally:
                    fr.i -= 1
                c.discard(f.blocks[fr.b][fr.i].dst)
                self.prog.livecache[ck] = c
            return c
        c = self.prog.livecache.get((id(f), fr.b, fr.i))
        if c is not None:
            return c
        out = set()
        blk = f.blocks[fr.b]
        for s in IR.succs(f, fr.b):
            out |= set(f.livein[s])
            for ins in f.blocks[s]:
                if ins.op == "phi":
                    out.discard(ins.dst)
            for ins in f.blocks[s]:
                if ins.op == "phi":
                    for v, pb in ins.a:
                        if pb == fr.b and v[0] == "reg":
                            out.add(v[1])
        for ins in reversed(blk[fr.i:]):
            if ins.dst:
                out.discard(ins.dst)
            if ins.op != "phi":
                for v in IR.operands(ins):
                    if v and v[0] == "reg":
                        out.add(v[1])
        self.prog.livecache[(id(f), fr.b, fr.i)] = out
        return out

    def project(self, st, x):
        """replace a multi-atom combination by one atom when it is the only live view of its atoms"""
        g = 0
        from math import gcd
        for v in x.t.values():
            g = gcd(g, v)
        items = sorted(((a, v // g) for a, v in x.t.items()), key=lambda p: abs(p[1]))
        if abs(items[0][1]) != 1:
            return None
        width = 0
        gap = False
        for a, k in items:
            lo, hi = st.rng[a]
            if abs(k) > width + 1:
                if self.merge < 2:
                    return None
                gap = True
            width += abs(k) * (hi - lo)
        atoms = {a for a, _ in items}
        # every live form must involve these atoms only through a multiple of the combination
        _, forms = self.live_atoms(st)
        comb = dict(items)

        def ok(l):
            if l is None or not l.t:
                return True
            l = st.res(l)
            inter = [a for a in l.t if a in atoms]
            if not inter:
                return True
            if len(inter) != len(atoms):
                return False
            k0, r0 = divmod(l.t[items[0][0]], items[0][1])
            if r0:
                return False
            return all(l.t[a] == k0 * comb[a] for a in atoms)

        def okv(v):
            if isinstance(v, IV):
                return ok(v.lin)
            if isinstance(v, FV) and v.kind in ("lin", "raw"):
                return ok(v.lin) and ok(v.E)
            if isinstance(v, FV) and v.kind == "sym":
                return self.sym_ok(v.id, okv)
            if isinstance(v, BV):
                return all(okv(y) for y in v.a) if isinstance(v.a, (tuple, list)) else True
            return True
        for v in forms:
            if not okv(v):
                return None
        b, kb = items[0]
        rest = Lin(0, {a: k for a, k in items[1:]})
        lo, hi = st.range(Lin(0, comb))
        s = self.new_atom()
        # kb*b = S - rest
        l = L.sub(L.atom(s), rest)
        if kb < 0:
            l = L.neg(l)
        r = [("sub", b, l, {s: (lo, hi)}), ("proj", s, comb, {a: st.rng[a] for a in atoms})]
        if gap:
            r.append(("hull",))
        return r

    def sym_ok(self, i, okv):
        ty, op, args = self.syms.info[i]
        return all(okv(a) for a in args if isinstance(a, (IV, FV)))

    def split_eq0(self, st, x):
        """True/False for x==0 or Split"""
        x = st.norm(x)
        lo, hi = st.range(x)
        if lo > 0 or hi < 0:
            return False
        if not x.t:
            return x.c == 0
        from math import gcd
        g = 0
        for v in x.t.values():
            g = gcd(g, v)
        if x.c % g:
            return False
        if len(x.t) == 1:
            (a, k), = x.t.items()
            v = -x.c // k
            alo, ahi = st.rng[a]
            alts = [self.alt_rng(a, v, v)]
            if alo < v:
                alts.append(self.alt_rng(a, alo, v - 1))
            if v < ahi:
                alts.append(self.alt_rng(a, v + 1, ahi))
            raise Split(alts)
        if self.split_lt0(st, x):
            return False
        if self.split_lt0(st, L.neg(x)):
            return False
        return True

    def split_atom_pow2(self, st, a, k):
        """a = 2^k*h + l, exact cells"""
        self.split_atom_div(st, a, 1 << k)

    def split_atom_div(self, st, a, d):
        lo, hi = st.rng[a]
        h0, l0 = divmod(lo, d)
        h1, l1 = divmod(hi, d)
        cells = []
        if h0 == h1:
            cells.append((h0, h0, l0, l1))
        else:
            if l0 != 0:
                cells.append((h0, h0, l0, d - 1))
                h0 += 1
            last = None
            if l1 != d - 1:
                last = (h1, h1, 0, l1)
                h1 -= 1
            if h0 <= h1:
                cells.append((h0, h1, 0, d - 1))
            if last:
                cells.append(last)
        alts = []
        for hl, hh, ll, lh in cells:
            new = {}
            l = L.ZERO
            if hl == hh:
                l = Lin(hl * d)
            else:
                h = self.new_atom()
                new[h] = (hl, hh)
                l = Lin(0, {h: d})
            if ll == lh:
                l = L.addc(l, ll)
            else:
                q = self.new_atom()
                new[q] = (ll, lh)
                l = L.add(l, L.atom(q))
            alts.append([("sub", a, l, new)])
        raise Split(alts)

    def divide(self, st, x, d):
        """floor division of the (exact integer) form x by constant d>0: returns (q,r) forms with 0<=r<d, or Split"""
        x = st.norm(x)
        if d == 1:
            return x, L.ZERO
        qt, rt = {}, {}
        for a, k in x.t.items():
            q, r = divmod(k, d)
            if not r:
                qt[a] = q
            elif abs(k) > d:
                qt[a] = q
                rt[a] = r
            else:
                rt[a] = k
        qc, rc = divmod(x.c, d)
        R = Lin(rc, rt)
        Q = Lin(qc, qt)
        lo, hi = st.range(R)
        if lo >= 0 and hi < d:
            return Q, R
        # constant offset cells
        c0, c1 = lo // d, hi // d
        if c0 == c1:
            return L.addc(Q, c0), L.addc(R, -c0 * d)
        if len(rt) == 1:
            (a, k), = rt.items()
            if k < 0:
                # flip atom
                alo, ahi = st.rng[a]
                n = self.new_atom()
                raise Split([[("sub", a, Lin(alo + ahi, {n: -1}), {n: (alo, ahi)})]])
            g = d
            if k < d and d % k == 0:
                w = d // k
                alo, ahi = st.rng[a]
                if ahi - alo + 1 > 2 * w or (alo % w == 0 and ahi - alo + 1 >= w) or c1 - c0 > 3:
                    if not (ahi // w == alo // w):
                        self.split_atom_div(st, a, w)
        elif len(rt) > 1:
            # several atoms: orient them upwards, then split the ones crossing the boundary
            for a, k in rt.items():
                if k < 0:
                    alo, ahi = st.rng[a]
                    n = self.new_atom()
                    raise Split([[("sub", a, Lin(alo + ahi, {n: -1}), {n: (alo, ahi)})]])
            for a, k in sorted(rt.items(), key=lambda p: -abs(p[1])):
                if 0 < k < d and d % k == 0:
                    w = d // k
                    alo, ahi = st.rng[a]
                    if ahi // w != alo // w:
                        self.split_atom_div(st, a, w)
        if c1 - c0 <= 16:
            # cut at multiples
            for c in range(c0 + 1, c1 + 1):
                if self.split_lt0(st, L.addc(R, -c * d)):
                    break
            else:
                c = c1 + 1
            return L.addc(Q, c - 1), L.addc(R, -(c - 1) * d)
        if len(rt) == 1:
            (a, k), = rt.items()
            if abs(k) == 1:
                self.split_atom_div(st, a, d)
            # k > d or not dividing: reduce k mod d by splitting range
            raise Unknown("divide by %d of %r" % (d, x))
        pr = self.project(st, R)
        if pr is not None:
            raise Split([pr])
        self.bisect(st, R)

    def bisect(self, st, x):
        """last resort: halve the atom that contributes most to the width of x (an exact step)"""
        a = max(x.t, key=lambda a: abs(x.t[a]) * (st.rng[a][1] - st.rng[a][0]))
        lo, hi = st.rng[a]
        m = (lo + hi) // 2
        raise Split([self.alt_rng(a, lo, m), self.alt_rng(a, m + 1, hi)])

    # ---- integers -----------------------------------------------------
    def red(self, st, v):
        """reduce coefficients of v modulo 2^w"""
        w = v.w
        M = 1 << w
        h = M >> 1
        x = st.norm(v.lin)
        bad = False
        for k in x.t.values():
            if not (-h < k <= h):
                bad = True
                break
        if bad:
            t = {}
            for a, k in x.t.items():
                k = ((k + h - 1) % M) - h + 1
                if k:
                    t[a] = k
            x = Lin(x.c, t)
        return x

    def u(self, st, v):
        """unsigned interpretation of v as exact form"""
        return self._norm(st, v, 0)

    def s(self, st, v):
        return self._norm(st, v, 1 << (v.w - 1))

    def _norm(self, st, v, off):
        if isinstance(v, BV):
            v = self.force(st, v)
        M = 1 << v.w
        x = self.red(st, v)
        lo, hi = st.range(x)
        k0, k1 = (lo + off) // M, (hi + off) // M
        if k0 == k1:
            return L.addc(x, -k0 * M)
        # try to use both representations of large coefs
        if k1 - k0 > 4:
            # big span: field view
            q, r = self.divide(st, L.addc(x, off), M)
            return L.addc(r, -off)
        self.split_lt0(st, L.addc(x, off - (k0 + 1) * M))
        raise Unknown("norm")

    def force(self, st, b):
        """lazy boolean to IV of width 1"""
        return IV(1, Lin(1 if self.decide(st, b) else 0))

    def conc(self, st, x, limit=4096):
        """force exact form x to a constant"""
        x = st.norm(x)
        if not x.t:
            return x.c
        a, k = min(x.t.items(), key=lambda p: st.rng[p[0]][1] - st.rng[p[0]][0])
        lo, hi = st.rng[a]
        if hi - lo + 1 > limit:
            raise Unknown("too many values for %r: %d" % (x, hi - lo + 1))
        raise Split([self.alt_rng(a, v, v) for v in range(lo, hi + 1)])

    def decide(self, st, b):
        if isinstance(b, IV):
            x = self.u(st, b)
            return not self.split_eq0(st, x)
        op, a = b.op, b.a
        if op == "const":
            return a
        if op == "icmp":
            return self.icmp(st, *a)
        if op == "fcmp":
            return self.fcmp(st, *a)
        if op == "not":
            return not self.decide(st, a[0])
        if op == "and":
            return self.decide(st, a[0]) and self.decide(st, a[1])
        if op == "or":
            return self.decide(st, a[0]) or self.decide(st, a[1])
        if op == "xor":
            return self.decide(st, a[0]) != self.decide(st, a[1])
        if op == "fpclass":
            return self.fpclass(st, *a)
        if op == "signbit":
            return self.signbit(st, a[0])
        raise Unknown("cond " + op)

    def icmp(self, st, pred, x, y):
        if isinstance(x, PV) or isinstance(y, PV):
            if isinstance(x, PV) and isinstance(y, PV):
                if pred == "eq":
                    return (x.obj, x.off) == (y.obj, y.off)
                if pred == "ne":
                    return (x.obj, x.off) != (y.obj, y.off)
            raise Unknown("pointer comparison")
        if isinstance(x, BV):
            x = self.force(st, x)
        if isinstance(y, BV):
            y = self.force(st, y)
        if pred in ("eq", "ne"):
            M = 1 << x.w
            d = self.red(st, IV(x.w, L.sub(x.lin, y.lin)))
            lo, hi = st.range(d)
            m0, m1 = -(-lo // M), hi // M
            if m0 > m1:
                r = False
            elif m0 == m1:
                r = self.split_eq0(st, L.addc(d, -m0 * M))
            else:
                xs, ys = self.u(st, x), self.u(st, y)
                r = self.split_eq0(st, L.sub(xs, ys))
            return r if pred == "eq" else not r
        n = self.s if pred[0] == "s" else self.u
        xs, ys = n(st, x), n(st, y)
        p = pred[1:]
        if p == "lt":
            return self.split_lt0(st, L.sub(xs, ys))
        if p == "ge":
            return not self.split_lt0(st, L.sub(xs, ys))
        if p == "gt":
            return self.split_lt0(st, L.sub(ys, xs))
        return not self.split_lt0(st, L.sub(ys, xs))

    def field(self, st, v, j, k):
        """bits [j,k) of v as exact form in [0,2^(k-j))"""
        w = v.w
        x = self.red(st, v)
        if k < w:
            x = self.red(st, IV(k, x))
            q, r = self.divide(st, x, 1 << k)
            x = r
        else:
            x = self.u(st, IV(w, x))
        if j:
            x, r = self.divide(st, x, 1 << j)
        return x

    def iand(self, st, v, c):
        c &= (1 << v.w) - 1
        if c == 0:
            return L.ZERO
        out = L.ZERO
        j = 0
        while c >> j:
            if not (c >> j) & 1:
                j += 1
                continue
            k = j
            while (c >> k) & 1:
                k += 1
            out = L.add(out, L.scale(self.field(st, v, j, k), 1 << j))
            j = k
        return out

    def ibin(self, st, ins, x, y):
        op, w = ins.op, int(ins.ty[1:])
        if w == 1:
            bx, by = x, y
            if op in ("and", "or", "xor"):
                if op == "xor":
                    for p, q in ((bx, by), (by, bx)):
                        if isinstance(p, BV) and p.op == "const":
                            return BV("not", (q,)) if p.a else q
                return BV(op, (bx, by))
        if isinstance(x, BV):
            x = self.force(st, x)
        if isinstance(y, BV):
            y = self.force(st, y)
        M = 1 << w
        if op in ("add", "sub", "mul"):
            if op == "mul":
                xl, yl = self.red(st, x), self.red(st, y)
                if xl.t and yl.t:
                    # fork the smaller range
                    rx, ry = st.range(xl), st.range(yl)
                    if min(rx[1] - rx[0], ry[1] - ry[0]) <= 64:
                        if rx[1] - rx[0] <= ry[1] - ry[0]:
                            self.conc(st, xl)
                        else:
                            self.conc(st, yl)
                    raise Unknown("nonlinear integer product")
                if xl.t:
                    xl, yl = yl, xl
                # xl constant
                if "nsw" in ins.flags:
                    a, b = self.s(st, IV(w, xl)), self.s(st, IV(w, yl))
                    r = L.scale(b, a.c)
                    self.chk_ovf(st, r, w, ins)
                    return IV(w, r)
                return IV(w, L.scale(yl, xl.c))
            f = L.add if op == "add" else L.sub
            if "nsw" in ins.flags:
                a, b = self.s(st, x), self.s(st, y)
                r = f(a, b)
                self.chk_ovf(st, r, w, ins)
                return IV(w, r)
            return IV(w, f(x.lin, y.lin))
        if op in ("shl", "lshr", "ashr"):
            yl = self.u(st, y)
            if yl.t:
                k = self.conc(st, yl, 256)
            else:
                k = yl.c
            if k >= w:
                # poison
                self.ubhit(st, ins, "shift amount %d out of range for i%d" % (k, w))
                return IV(w, self.atom_in(st, 0, M - 1))
            if op == "shl":
                return IV(w, L.scale(x.lin, 1 << k))
            if op == "lshr":
                return IV(w, self.field(st, x, k, w))
            xs = self.s(st, x)
            q, r = self.divide(st, xs, 1 << k)
            return IV(w, q)
        if op == "and":
            xl, yl = self.red(st, x), self.red(st, y)
            if not yl.t:
                return IV(w, self.iand(st, x, yl.c))
            if not xl.t:
                return IV(w, self.iand(st, y, xl.c))
            if st.norm(L.sub(xl, yl)).t == {} and L.sub(xl, yl).c == 0:
                return x
            xu, yu = self.u(st, x), self.u(st, y)
            # complementary masks etc: fork small one
            return self.forksmall(st, ins, xu, yu, w, lambda c, v: IV(w, self.iand(st, v, c)))
        if op == "or":
            xu, yu = self.u(st, x), self.u(st, y)
            if self.disjoint(st, xu, yu):
                return IV(w, L.add(xu, yu))
            if not yu.t:
                a = self.iand(st, IV(w, xu), yu.c)
                return IV(w, L.addc(L.sub(xu, a), yu.c))
            if not xu.t:
                a = self.iand(st, IV(w, yu), xu.c)
                return IV(w, L.addc(L.sub(yu, a), xu.c))
            return self.forksmall(st, ins, xu, yu, w,
                                  lambda c, v: IV(w, L.addc(L.sub(v.lin, self.iand(st, v, c)), c)))
        if op == "xor":
            xl, yl = self.red(st, x), self.red(st, y)
            if not xl.t:
                x, y, xl, yl = y, x, yl, xl
            if not yl.t:
                c = yl.c & (M - 1)
                if c == M - 1:
                    return IV(w, L.addc(L.neg(xl), -1))
                a = self.iand(st, x, c)
                return IV(w, L.addc(L.sub(xl, L.scale(a, 2)), c))
            xu, yu = self.u(st, x), self.u(st, y)
            return self.forksmall(st, ins, xu, yu, w,
                                  lambda c, v: IV(w, L.addc(L.sub(v.lin, L.scale(self.iand(st, v, c), 2)), c)))
        if op in ("udiv", "urem", "sdiv", "srem"):
            sg = op[0] == "s"
            xs = self.s(st, x) if sg else self.u(st, x)
            ys = self.s(st, y) if sg else self.u(st, y)
            if ys.t:
                ys = Lin(self.conc(st, ys, 256))
            d = ys.c
            if d == 0:
                self.ubhit(st, ins, "division by zero")
                return IV(w, self.atom_in(st, 0, M - 1))
            if sg and d == -1 and self.split_eq0(st, L.addc(xs, 1 << (w - 1))):
                self.ubhit(st, ins, "signed division overflow")
                return IV(w, xs)
            neg = False
            if sg and self.split_lt0(st, xs):
                xs = L.neg(xs)
                neg = True
            q, r = self.divide(st, xs, abs(d))
            if op.endswith("rem"):
                return IV(w, L.neg(r) if neg else r)
            if neg != (d < 0):
                q = L.neg(q)
            return IV(w, q)
        raise Unknown("int op " + op)

    def forksmall(self, st, ins, xu, yu, w, fn):
        rx, ry = st.range(xu), st.range(yu)
        if not xu.t:
            return fn(xu.c, IV(w, yu))
        if not yu.t:
            return fn(yu.c, IV(w, xu))
        if min(rx[1] - rx[0], ry[1] - ry[0]) <= 256:
            if rx[1] - rx[0] <= ry[1] - ry[0]:
                self.conc(st, xu)
            else:
                self.conc(st, yu)
        # low-order periodic case, e.g. two values that are multiples of 2^k with few values above
        raise Unknown("bit operation on two wide values")

    def gran(self, x):
        """largest k with 2^k dividing every value of x"""
        k = 10 ** 9
        if x.c:
            k = tz(x.c)
        for v in x.t.values():
            k = min(k, tz(v))
        return k

    def disjoint(self, st, x, y):
        lx, hx = st.range(x)
        ly, hy = st.range(y)
        if hx == 0 or hy == 0:
            return True
        if hx < (1 << min(self.gran(y), 200)):
            return True
        if hy < (1 << min(self.gran(x), 200)):
            return True
        # termwise bit supports
        sx, sy = self.support(st, x), self.support(st, y)
        return sx is not None and sy is not None and (sx & sy) == 0

    def support(self, st, x):
        """mask of possibly set bits if the terms of x occupy disjoint bit fields, else None"""
        m = x.c
        if m < 0:
            return None
        for a, k in x.t.items():
            lo, hi = st.rng[a]
            if lo < 0 or k < 0 or k & (k - 1):
                return None
            f = ((1 << hi.bit_length()) - 1) * k
            if m & f:
                return None
            m |= f
        return m

    def chk_ovf(self, st, r, w, ins):
        h = 1 << (w - 1)
        r = st.norm(r)
        lo, hi = st.range(r)
        if lo >= -h and hi < h:
            return
        if hi >= h and not self.split_lt0(st, L.addc(r, -h)):
            self.ubhit(st, ins, "signed integer overflow in %s" % ins.op)
            return
        if lo < -h and self.split_lt0(st, L.addc(r, h)):
            self.ubhit(st, ins, "signed integer overflow in %s" % ins.op)

    def ubhit(self, st, ins, what):
        fr = st.frames[-1]
        if self.ub_as_outcome:
            raise UBEvent("%s (%s:%s, function %s)" % (what, fr.f.file, ins.line, fr.f.name))

    # ---- floats -------------------------------------------------------
    def fbounds(self, st, v):
        """enclosing interval (mpf lo, hi) of a finite value"""
        if v.kind == "lin":
            x = st.norm(v.lin)
            lo, hi = st.range(x)
            a, b = from_man_exp(lo, -v.s), from_man_exp(hi, -v.s)
            if v.E is not None:
                e0, e1 = st.range(st.norm(v.E))
                c = [mpf_shift(p, e) for p in (a, b) for e in (e0, e1)]
                a = c[0]
                b = c[0]
                for p in c[1:]:
                    a, b = fl.fmin(a, p), fl.fmax(b, p)
            return a, b
        if v.kind == "sym":
            lo, hi = st.facts[v.id]
            lo, hi = mpf_shift(lo, v.e), mpf_shift(hi, v.e)
            if v.sg < 0:
                lo, hi = mpf_neg(hi), mpf_neg(lo)
            return lo, hi
        raise Unknown("bounds of " + v.kind)

    def is_zero(self, st, v):
        """decide v == 0 for a finite v"""
        if v.kind == "lin":
            return self.split_eq0(st, st.norm(v.lin))
        lo, hi = st.facts[v.id]
        sl, sh = fl.cmp(lo, fzero), fl.cmp(hi, fzero)
        if sl > 0 or sh < 0:
            return False
        if sl == 0 and sh == 0:
            return True
        ty = self.syms.info[v.id][0]
        alts = [[("fact", v.id, fzero, fzero)]]
        if sl < 0:
            alts.append([("fact", v.id, lo, mpf_neg(fl.minsub(ty)))])
        if sh > 0:
            alts.append([("fact", v.id, fl.minsub(ty), hi)])
        raise Split(alts, exact=False, why="zero?")

    def is_neg(self, st, v):
        """decide v < 0 for finite v"""
        if v.kind == "lin":
            return self.split_lt0(st, st.norm(v.lin))
        lo, hi = st.facts[v.id]
        sl, sh = fl.cmp(lo, fzero), fl.cmp(hi, fzero)
        if v.sg > 0:
            if sh < 0:
                return True
            if sl >= 0:
                return False
        else:
            if sl > 0:
                return True
            if sh <= 0:
                return False
        ty = self.syms.info[v.id][0]
        alts = []
        if sl < 0:
            alts.append([("fact", v.id, lo, mpf_neg(fl.minsub(ty)))])
        if sl <= 0 <= sh:
            alts.append([("fact", v.id, fzero, fzero)])
        if sh > 0:
            alts.append([("fact", v.id, fl.minsub(ty), hi)])
        raise Split(alts, exact=False, why="sign?")

    def signbit(self, st, v):
        if v.kind == "nan":
            k = st.floors.get(("nansign",))
            if k is None:
                raise Split([[("set", ("nansign",), True)], [("set", ("nansign",), False)]], exact=False, why="NaN sign")
            return k
        if v.kind == "inf":
            return v.sg < 0
        if self.is_neg(st, v):
            return True
        if self.is_zero(st, v):
            if v.kind == "lin":
                return v.sg < 0
            z = st.floors.get(("zs", v.id))
            if z is None and self.syms.info[v.id][1] in POSZERO:
                z = 1
            if z is None:
                raise Split([[("zs", v.id, 1)], [("zs", v.id, -1)]], exact=False, why="zero sign")
            return z * v.sg < 0
        return False

    def fneg(self, v):
        if v.kind == "nan":
            return v
        if v.kind == "inf":
            return finfv(v.ty, -v.sg)
        if v.kind == "lin":
            return FV(v.ty, "lin", -v.sg, L.neg(v.lin), v.s, v.E)
        return FV(v.ty, "sym", -v.sg, id=v.id, e=v.e)

    def fabs(self, st, v):
        if v.kind == "nan":
            return v
        if v.kind == "inf":
            return finfv(v.ty, 1)
        if self.is_neg(st, v):
            return self.fneg(v)
        if v.kind == "lin":
            return FV(v.ty, "lin", 1, v.lin, v.s, v.E)
        if v.kind == "sym" and v.sg < 0 and fl.cmp(st.facts[v.id][1], fzero) == 0 \
                and fl.cmp(st.facts[v.id][0], fzero) == 0:
            return fzerov(v.ty)
        return v

    def fpclass(self, st, v, mask):
        if v.kind == "nan":
            return bool(mask & 3)
        if v.kind == "inf":
            return bool(mask & (512 if v.sg > 0 else 4))
        fin = mask & 0b0111111000
        if fin == 0:
            return False
        if fin == 0b0111111000:
            return True
        z = fin & 0b0001100000
        if self.is_zero(st, v):
            if z == 0b0001100000:
                return True
            if z == 0:
                return False
            return bool(mask & (32 if self.signbit(st, v) else 64))
        ng = self.is_neg(st, v)
        bits = (mask >> (3 if ng else 7)) & 3
        n, s = (bits & 1, bits >> 1) if ng else (bits >> 1, bits & 1)
        if n == s:
            return bool(n)
        a = self.fabs(st, v)
        sub = self.flt(st, a, fconst(v.ty, ("num", 1, FMT[v.ty][1])))
        return bool(s) if sub else bool(n)

    def lin_diff(self, st, a, b):
        """common-scale difference form a-b of two lin values without symbolic exponents"""
        s = max(a.s, b.s)
        return L.sub(L.scale(a.lin, 1 << (s - a.s)), L.scale(b.lin, 1 << (s - b.s)))

    def flt(self, st, a, b):
        """decide a<b for finite a,b"""
        if a.kind == "lin" and b.kind == "lin":
            if a.E is not None or b.E is not None:
                # quick decisions
                al, ah = self.fbounds(st, a)
                bl, bh = self.fbounds(st, b)
                if fl.cmp(ah, bl) < 0:
                    return True
                if fl.cmp(al, bh) >= 0:
                    return False
                a, b = self.concE(st, a), self.concE(st, b)
            if abs(a.s - b.s) > 40000:
                raise Unknown("scale")
            return self.split_lt0(st, st.norm(self.lin_diff(st, a, b)))
        al, ah = self.fbounds(st, a)
        bl, bh = self.fbounds(st, b)
        if fl.cmp(ah, bl) < 0:
            return True
        if fl.cmp(al, bh) >= 0:
            return False
        if a.kind == "sym" and b.kind == "sym":
            if a.id == b.id and a.sg == b.sg and a.e == b.e:
                return False
            if self.same_sym(st, a, b):
                return False
            raise Split([[("fcmp", self.fkey(st, a), self.fkey(st, b), True)],
                         [("fcmp", self.fkey(st, a), self.fkey(st, b), False)]], exact=False, why="sym<sym")
        # sym against lin
        if a.kind == "sym":
            # a<b
            if fl.cmp(bl, bh) == 0:
                self.cut(st, a, bl, True)
            raise Split([[("fcmp", self.fkey(st, a), self.fkey(st, b), True)],
                         [("fcmp", self.fkey(st, a), self.fkey(st, b), False)]], exact=False, why="sym<lin")
        if fl.cmp(al, ah) == 0:
            self.cut(st, b, al, False)
        raise Split([[("fcmp", self.fkey(st, a), self.fkey(st, b), True)],
                     [("fcmp", self.fkey(st, a), self.fkey(st, b), False)]], exact=False, why="lin<sym")

    def cut(self, st, v, c, strict_lt):
        """split the interval of sym v at constant c: {v<c | v>=c} if strict_lt else {v<=c | v>c}"""
        ty = v.ty
        lo, hi = st.facts[v.id]
        c = mpf_shift(c, -v.e)
        if v.sg < 0:
            c = mpf_neg(c)
            strict_lt = not strict_lt
        # now split sym value x at c: strict_lt: x<c | x>=c ; else x<=c | x>c
        tyx = self.syms.info[v.id][0]
        if strict_lt:
            cc = rnd(tyx, c, "c")  # smallest representable >= c
            left = fl.nextafter(tyx, cc, False)
            right = cc
        else:
            cc = rnd(tyx, c, "f")
            left = cc
            right = fl.nextafter(tyx, cc, True)
        alts = []
        if fl.cmp(lo, left) <= 0:
            alts.append([("fact", v.id, lo, fl.fmin(left, hi))])
        if fl.cmp(hi, right) >= 0:
            alts.append([("fact", v.id, fl.fmax(right, lo), hi)])
        if len(alts) == 1:
            n = alts[0][0]
            if fl.cmp(n[2], lo) == 0 and fl.cmp(n[3], hi) == 0:
                raise Unknown("cut")
            raise Split(alts)
        raise Split(alts, exact=False, why="cut")

    def same_sym(self, st, a, b):
        if a.sg * 1 != b.sg or a.e != b.e:
            return False
        return a.id == b.id or self.fkey(st, FV(a.ty, "sym", 1, id=a.id)) == self.fkey(st, FV(b.ty, "sym", 1, id=b.id))

    def fkey(self, st, v, depth=0):
        """canonical key of a value in the current state"""
        if isinstance(v, IV):
            return ("i", st.norm(v.lin).key())
        if not isinstance(v, FV):
            return ("x", v)
        if v.kind == "nan":
            return ("nan",)
        if v.kind == "inf":
            return ("inf", v.sg)
        if v.kind == "lin":
            x = st.norm(v.lin)
            s = v.s
            if not x.t and x.c == 0:
                return ("z",)
            g = self.gran(x)
            if g:
                x = Lin(x.c >> g, {a: k >> g for a, k in x.t.items()})
                s -= g
            return ("l", x.key(), s, None if v.E is None else st.norm(v.E).key())
        ty, op, args = self.syms.info[v.id]
        if op == "fresh":
            k = ("s", v.id)
        else:
            k = (op, ty) + tuple(self.fkey(st, a, depth + 1) for a in args)
            if op in ("fadd", "fmul", "hypot", "hypotl"):
                k = k[:2] + tuple(sorted(k[2:], key=repr))
        return ("y", v.sg, v.e, k)

    def feq(self, st, a, b):
        if a.kind == "lin" and b.kind == "lin":
            if a.E is not None or b.E is not None:
                if a.E is not None and b.E is not None and self.fkey(st, a) == self.fkey(st, b):
                    return True
                # zero comparison needs no exponent
                for p, q in ((a, b), (b, a)):
                    x = st.norm(q.lin)
                    if not x.t and x.c == 0:
                        return self.is_zero(st, p)
                a, b = self.concE(st, a), self.concE(st, b)
            if abs(a.s - b.s) > 40000:
                raise Unknown("scale")
            return self.split_eq0(st, self.lin_diff(st, a, b))
        al, ah = self.fbounds(st, a)
        bl, bh = self.fbounds(st, b)
        if fl.cmp(ah, bl) < 0 or fl.cmp(al, bh) > 0:
            return False
        if fl.cmp(al, ah) == 0 and fl.cmp(bl, bh) == 0:
            return True
        if a.kind == "sym" and b.kind == "sym" and (self.same_sym(st, a, b)):
            return True
        if a.kind == "sym" and fl.cmp(bl, bh) == 0:
            return self.eqcut(st, a, bl)
        if b.kind == "sym" and fl.cmp(al, ah) == 0:
            return self.eqcut(st, b, al)
        raise Split([[("fcmpeq", self.fkey(st, a), self.fkey(st, b), True)],
                     [("fcmpeq", self.fkey(st, a), self.fkey(st, b), False)]], exact=False, why="feq")

    def eqcut(self, st, v, c):
        c = mpf_shift(c, -v.e)
        if v.sg < 0:
            c = mpf_neg(c)
        lo, hi = st.facts[v.id]
        ty = self.syms.info[v.id][0]
        if fl.cmp(rnd(ty, c, "n"), c) != 0:
            return False
        ne = st.floors.get(("ne", v.id))
        if ne is not None and c in ne:
            return False
        alts = [[("fact", v.id, c, c)]]
        if fl.cmp(lo, c) < 0:
            alts.append([("fact", v.id, lo, fl.nextafter(ty, c, False))])
        if fl.cmp(hi, c) > 0:
            alts.append([("fact", v.id, fl.nextafter(ty, c, True), hi)])
        raise Split(alts, exact=False, why="eqcut")

    def fcmp(self, st, pred, a, b):
        if pred == "true":
            return True
        if pred == "false":
            return False
        un = a.kind == "nan" or b.kind == "nan"
        if pred == "ord":
            return not un
        if pred == "uno":
            return un
        if un:
            return pred[0] == "u"
        p = pred[1:]
        if a.kind == "inf" or b.kind == "inf":
            va = a.sg * 2 if a.kind == "inf" else 0
            vb = b.sg * 2 if b.kind == "inf" else 0
            return {"eq": va == vb, "ne": va != vb, "lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb}[p]
        # remembered decisions on symbolic comparisons
        if a.kind == "sym" or b.kind == "sym":
            if p in ("lt", "ge", "gt", "le"):
                x, y = (a, b) if p in ("lt", "ge") else (b, a)
                k = st.floors.get(("lt", self.fkey(st, x), self.fkey(st, y)))
                if k is not None:
                    return k if p in ("lt", "gt") else not k
            else:
                k = st.floors.get(("eq", self.fkey(st, a), self.fkey(st, b)))
                if k is not None:
                    return k if p == "eq" else not k
        if p == "eq":
            return self.feq(st, a, b)
        if p == "ne":
            return not self.feq(st, a, b)
        if p == "lt":
            return self.flt(st, a, b)
        if p == "ge":
            return not self.flt(st, a, b)
        if p == "gt":
            return self.flt(st, b, a)
        return not self.flt(st, b, a)

    def concE(self, st, v):
        if v.kind != "lin" or v.E is None:
            return v
        e = self.conc(st, v.E)
        return FV(v.ty, "lin", v.sg, v.lin, v.s - e, None)

    def round_lin(self, st, ty, x, s, zs=1):
        """round the dyadic form x*2^-s to format ty; when the partition is not fine enough and the caller allows it, the
        rounding is postponed to the first use (kind 'raw'), when the operands are dead"""
        if self.lazy_ok:
            self.lazy_ok = False
            try:
                return self.round_lin(st, ty, x, s, zs)
            except Split:
                return FV(ty, "raw", zs, st.norm(x), s)
        x = st.norm(x)
        if not x.t and x.c == 0:
            return fzerov(ty, zs)
        p, emin, emax = FMT[ty]
        g = self.gran(x)
        if g:
            x = Lin(x.c >> g, {a: k >> g for a, k in x.t.items()})
            s -= g
        lo, hi = st.range(x)
        m = max(abs(lo), abs(hi))
        quantum = emin - p + 1
        top = m.bit_length() - 1 - s
        if m.bit_length() <= p and -s >= quantum and top <= emax:
            return FV(ty, "lin", zs, x, s)
        # one constant
        if not x.t:
            r = rnd(ty, from_man_exp(x.c, -s))
            if r == fzero:
                return fzerov(ty, -1 if x.c < 0 else 1)
            if r in (finf, fninf):
                return finfv(ty, 1 if r == finf else -1)
            sg, man, ex, bc = r
            return FV(ty, "lin", 1, Lin(-int(man) if sg else int(man)), -ex)
        if not self.roundfork:
            return self.rnd_sym(st, ty, FV(ty, "lin", zs, x, s))
        # sign
        if lo < 0 and hi >= 0:
            self.split_lt0(st, x)
            raise Unknown("round sign")
        if hi < 0:
            return self.fneg(self.round_lin(st, ty, L.neg(x), s, zs))
        # exact below 2^p (if the granularity is fine)
        b1 = hi.bit_length()
        b0 = lo.bit_length()
        if hi.bit_length() - 1 - s > emax:
            # overflow threshold: 2^emax*(2-2^-p)
            thr = ((1 << (p + 1)) - 1)
            e = emax - p  # thr*2^e
            # x*2^-s >= thr*2^e <=> x >= thr*2^(e+s)
            if e + s >= 0:
                T = thr << (e + s)
            else:
                T = -((-thr) >> (-(e + s)))
            if not self.split_lt0(st, L.addc(x, -T)):
                return finfv(ty, 1)
        # binade with lower exponents merged while exact
        cutb = max(p, quantum + s + p if quantum + s > 0 else 0)
        if b1 != b0:
            # choose boundary: highest binade first
            if b1 > p:
                B = max(b1 - 1, p)
                if b1 - 1 >= p and lo < (1 << (b1 - 1)):
                    if not (quantum > b1 - 1 - p + 1 - s):
                        self.split_lt0(st, L.addc(x, -(1 << (b1 - 1))))
        k = max(b1 - p, quantum + s)
        if k <= 0:
            return FV(ty, "lin", zs, x, s)
        if b0 != b1 and (b1 - p) > (quantum + s) and lo < (1 << (b1 - 1)):
            self.split_lt0(st, L.addc(x, -(1 << (b1 - 1))))
        if self.coarse and any(abs(c) & (abs(c) - 1) for c in x.t.values()):
            return self.rnd_sym(st, ty, FV(ty, "lin", zs, x, s))
        try:
            H, R = self.divide(st, x, 1 << k)
        except Unknown:
            return self.rnd_sym(st, ty, FV(ty, "lin", zs, x, s))
        half = 1 << (k - 1)
        if self.split_lt0(st, L.addc(R, -half)):
            r = H
        elif self.split_eq0(st, L.addc(R, -half)):
            q, odd = self.divide(st, H, 2)
            r = L.add(H, odd)
        else:
            r = L.addc(H, 1)
        r = st.norm(r)
        if r.t or r.c:
            return self.round_lin(st, ty, r, s - k, zs)
        return fzerov(ty, zs)

    def rnd_sym(self, st, ty, v):
        """symbolic rounding of finite v (lin or sym) to ty"""
        lo, hi = self.fbounds(st, v)
        lo2, hi2 = rnd(ty, lo), rnd(ty, hi)
        if v.kind == "sym":
            sg = v.sg
            base = FV(v.ty, "sym", 1, id=v.id, e=v.e)
            t0 = self.syms.info[v.id][0]
            if FMT[t0][0] <= FMT[ty][0] and (FMT[t0][1] >= FMT[ty][1]) and self.inrange(ty, lo, hi):
                return FV(ty, "sym", v.sg, id=v.id, e=v.e)
        else:
            if hi2 == fzero and lo2 == fzero:
                return fzerov(ty, v.sg)
            sg = 1
            base = v
            x = st.norm(v.lin)
            # sign normalisation: leading coefficient positive
            lead = x.t[min(x.t)] if x.t else x.c
            if lead < 0:
                sg = -1
                base = self.fneg(v)
        return self.mk(st, ty, "rnd", (base,), lo2, hi2, sg)

    def inrange(self, ty, lo, hi):
        """is every nonzero value in [lo,hi] inside the normal range of ty"""
        p, emin, emax = FMT[ty]
        for x in (lo, hi):
            if x == fzero:
                return False
            if fl.expo(x) < emin or fl.expo(x) > emax:
                return False
        return fl.cmp(lo, fzero) == fl.cmp(hi, fzero)

    def mk(self, st, ty, op, args, lo, hi, sg=1):
        """symbol for op(args) with value interval of sg*sym in [lo,hi] (already rounded to ty; may be infinite)"""
        if sg < 0:
            lo, hi = mpf_neg(hi), mpf_neg(lo)
        key = (op, ty) + tuple(self.fkey(st, a) for a in args)
        if op in ("fadd", "fmul", "hypot", "hypotl"):
            key = key[:2] + tuple(sorted(key[2:], key=repr))
        i = self.syms.get(key, ty, op, tuple(args))
        cl = st.floors.get(("cls", i))
        infs = []
        if hi == finf:
            infs.append(1)
        if lo == fninf:
            infs.append(-1)
        if infs and cl is None:
            if lo == finf:
                return finfv(ty, sg)
            if hi == fninf:
                return finfv(ty, -sg)
            alts = [[("cls", i, "fin")]] + [[("cls", i, "+inf" if s > 0 else "-inf")] for s in infs]
            raise Split(alts, exact=False, why="overflow")
        if cl == "+inf":
            return finfv(ty, sg)
        if cl == "-inf":
            return finfv(ty, -sg)
        if hi == finf:
            hi = fl.maxfin(ty)
        if lo == fninf:
            lo = mpf_neg(fl.maxfin(ty))
        old = st.facts.get(i)
        if old:
            lo, hi = fl.fmax(lo, old[0]), fl.fmin(hi, old[1])
            if fl.cmp(lo, hi) > 0:
                raise Infeasible()
        st.facts[i] = (lo, hi)
        if lo != hi:
            if self.enum and op not in ("fadd", "fsub") and fl.cmp(lo, fzero) * fl.cmp(hi, fzero) > 0:
                # few representable values: one state for each
                vs = [lo]
                while len(vs) <= self.enum and fl.cmp(vs[-1], hi) < 0:
                    vs.append(fl.nextafter(ty, vs[-1], True))
                if len(vs) <= self.enum and vs[-1] == hi:
                    raise Split([[("fact", i, x, x)] for x in vs], exact=False, why="enumeration")
            st.dep = True
            return FV(ty, "sym", sg, id=i)
        if self.enum:
            return self.simplify(st, FV(ty, "sym", sg, id=i))
        return FV(ty, "sym", sg, id=i)

    def simplify(self, st, v):
        """constant-interval symbol to constant"""
        if v.kind == "sym":
            lo, hi = st.facts[v.id]
            if lo == hi and lo != fzero:
                sg, man, ex, bc = lo
                m = -int(man) if sg else int(man)
                return FV(v.ty, "lin", 1, Lin(m * v.sg), -ex - v.e)
        return v

    def fadd(self, st, ty, a, b):
        if a.kind == "nan" or b.kind == "nan":
            return fnan(ty)
        if a.kind == "inf":
            if b.kind == "inf" and b.sg != a.sg:
                return fnan(ty)
            return a
        if b.kind == "inf":
            return b
        for p, q in ((a, b), (b, a)):
            if p.kind == "lin":
                x = st.norm(p.lin)
                if not x.t and x.c == 0:
                    if q.kind == "lin":
                        y = st.norm(q.lin)
                        if not y.t and y.c == 0:
                            return fzerov(ty, 1 if p.sg > 0 or q.sg > 0 else -1)
                        return FV(q.ty, "lin", 1, q.lin, q.s, q.E)
                    return q
        if a.kind == "lin" and b.kind == "lin":
            a, b = self.concE(st, a), self.concE(st, b)
            if abs(a.s - b.s) < 3000:
                s = max(a.s, b.s)
                x = L.add(L.scale(a.lin, 1 << (s - a.s)), L.scale(b.lin, 1 << (s - b.s)))
                return self.round_lin(st, ty, x, s, 1)
        # floor relation: x - floor(x)
        for p, q in ((a, b), (b, a)):
            if p.kind == "sym" and q.kind == "lin" and p.e == 0:
                fr = st.floors.get(("floor", p.id, p.sg))
                if fr is not None and q.E is None:
                    N, phi = fr
                    d = self.lin_diff(st, FV(ty, "lin", 1, L.neg(q.lin), q.s), FV(ty, "lin", 1, N, 0))
                    d = st.norm(d)
                    if not d.t and d.c == 0:
                        return FV(ty, "sym", 1, id=phi)
        if a.kind == "sym" and b.kind == "sym" and a.id == b.id and a.e == b.e and a.sg == -b.sg:
            return fzerov(ty)
        al, ah = self.fbounds(st, a)
        bl, bh = self.fbounds(st, b)
        lo, hi = rnd(ty, mpf_add(al, bl)), rnd(ty, mpf_add(ah, bh))
        sg = 1
        # sign normalise on the operand with smaller key
        ka, kb = self.abskey(st, a), self.abskey(st, b)
        if repr(ka[1]) > repr(kb[1]):
            a, b, ka, kb = b, a, kb, ka
        if ka[0] < 0:
            sg = -1
            a, b = self.fneg(a), self.fneg(b)
        return self.simplify(st, self.mk(st, ty, "fadd", (a, b), lo, hi, sg))

    def abskey(self, st, v):
        if v.kind == "sym":
            return v.sg, self.fkey(st, FV(v.ty, "sym", 1, id=v.id, e=v.e))
        x = st.norm(v.lin)
        lead = x.t[min(x.t)] if x.t else x.c
        sg = -1 if lead < 0 else 1
        return sg, self.fkey(st, v if sg > 0 else self.fneg(v))

    def fmul(self, st, ty, a, b):
        if a.kind == "nan" or b.kind == "nan":
            return fnan(ty)
        if a.kind == "inf" or b.kind == "inf":
            for p, q in ((a, b), (b, a)):
                if p.kind == "inf" and q.kind != "inf":
                    if self.is_zero(st, q):
                        return fnan(ty)
                    return finfv(ty, p.sg * (-1 if self.is_neg(st, q) else 1))
            return finfv(ty, a.sg * b.sg)
        for p, q in ((a, b), (b, a)):
            if p.kind == "lin" and p.E is None:
                x = st.norm(p.lin)
                if not x.t:
                    if x.c == 0:
                        sg = p.sg
                        if q.kind == "lin":
                            y = st.norm(q.lin)
                            if not y.t and y.c == 0:
                                sg *= q.sg
                            else:
                                # sign of zero
                                sg *= self.zsign(st, q)
                        else:
                            sg *= self.zsign(st, q)
                        return fzerov(ty, sg)
                    if q.kind == "lin":
                        if q.E is not None:
                            if abs(x.c) & (abs(x.c) - 1) == 0:
                                pass
                            q = self.concE(st, q)
                        zs = q.sg * (1 if x.c > 0 else -1)
                        return self.round_lin(st, ty, L.scale(q.lin, x.c), p.s + q.s, zs)
                    m = abs(x.c)
                    if m & (m - 1) == 0:
                        return self.scale_sym(st, ty, q, tz(m) - p.s, -1 if x.c < 0 else 1)
        al, ah = self.fbounds(st, a)
        bl, bh = self.fbounds(st, b)
        c = [mpf_mul(p, q) for p in (al, ah) for q in (bl, bh)]
        lo = hi = c[0]
        for p in c[1:]:
            lo, hi = fl.fmin(lo, p), fl.fmax(hi, p)
        lo, hi = rnd(ty, lo), rnd(ty, hi)
        ka, kb = self.abskey(st, a), self.abskey(st, b)
        sg = ka[0] * kb[0]
        if ka[0] < 0:
            a = self.fneg(a)
        if kb[0] < 0:
            b = self.fneg(b)
        return self.simplify(st, self.mk(st, ty, "fmul", (a, b), lo, hi, sg))

    def zsign(self, st, q):
        lo, hi = self.fbounds(st, q)
        if fl.cmp(lo, fzero) > 0:
            return 1
        if fl.cmp(hi, fzero) < 0:
            return -1
        return -1 if self.signbit(st, q) else 1

    def scale_sym(self, st, ty, q, e, sg):
        """sg * q * 2^e for a symbolic q, exact when in range"""
        lo, hi = self.fbounds(st, q)
        lo, hi = mpf_shift(lo, e), mpf_shift(hi, e)
        ok = True
        p, emin, emax = FMT[ty]
        if fl.cmp(lo, fzero) < 0 < fl.cmp(hi, fzero) or fl.cmp(lo, fzero) == 0 or fl.cmp(hi, fzero) == 0:
            ok = e >= 0
        else:
            ok = min(fl.expo(lo), fl.expo(hi)) >= emin or e >= 0
        ok = ok and fl.cmp(hi, fl.maxfin(ty)) <= 0 and fl.cmp(mpf_neg(fl.maxfin(ty)), lo) <= 0
        if ok:
            return FV(ty, "sym", q.sg * sg, id=q.id, e=q.e + e)
        v = FV(ty, "sym", q.sg, id=q.id, e=q.e + e)
        r = self.mk(st, ty, "rnd", (FV(ty, "sym", 1, id=q.id, e=q.e + e),), rnd(ty, lo), rnd(ty, hi), q.sg)
        return self.fneg(r) if sg < 0 else r

    def fdiv(self, st, ty, a, b):
        if a.kind == "nan" or b.kind == "nan":
            return fnan(ty)
        if a.kind == "inf":
            if b.kind == "inf":
                return fnan(ty)
            return finfv(ty, a.sg * self.zsign(st, b))
        if b.kind == "inf":
            return fzerov(ty, b.sg * (-1 if self.signbit(st, a) else 1))
        if self.is_zero(st, b):
            if self.is_zero(st, a):
                return fnan(ty)
            s = -1 if self.signbit(st, b) else 1
            return finfv(ty, s * (-1 if self.is_neg(st, a) else 1))
        a, b = self.concE(st, a), self.concE(st, b)
        if b.kind == "lin":
            y = st.norm(b.lin)
            if not y.t:
                m = abs(y.c)
                sg = -1 if y.c < 0 else 1
                if m & (m - 1) == 0:
                    if a.kind == "lin":
                        return self.round_lin(st, ty, L.scale(a.lin, sg), a.s - b.s + tz(m), a.sg * sg)
                    return self.scale_sym(st, ty, a, b.s - tz(m), sg)
                if a.kind == "lin":
                    x = st.norm(a.lin)
                    if not x.t:
                        if x.c == 0:
                            return fzerov(ty, a.sg * sg)
                        v = mpf_div(from_man_exp(x.c, -a.s), from_man_exp(y.c, -b.s), 300, "n")
                        r = rnd(ty, v)
                        return self.fmk(ty, r)
        if a.kind == "lin" and b.kind == "lin":
            # equal or opposite operands
            d = st.norm(self.lin_diff(st, a, b)) if abs(a.s - b.s) < 40000 else None
            if d is not None and not d.t and d.c == 0:
                return FV(ty, "lin", 1, Lin(1), 0)
            d = st.norm(self.lin_diff(st, self.fneg(a), b)) if abs(a.s - b.s) < 40000 else None
            if d is not None and not d.t and d.c == 0:
                return FV(ty, "lin", 1, Lin(-1), 0)
        if a.kind == "sym" and b.kind == "sym" and a.id == b.id:
            return FV(ty, "lin", 1, Lin(a.sg * b.sg), -(a.e - b.e))
        if self.is_neg(st, b):
            return self.fneg(self.fdiv(st, ty, a, self.fneg(b)))
        al, ah = self.fbounds(st, a)
        bl, bh = self.fbounds(st, b)
        c = [(mpf_div(p, q, PREC, "f"), mpf_div(p, q, PREC, "c")) for p in (al, ah) for q in (bl, bh)]
        lo, hi = c[0]
        for p, q in c[1:]:
            lo, hi = fl.fmin(lo, p), fl.fmax(hi, q)
        lo, hi = rnd(ty, lo), rnd(ty, hi)
        ka, kb = self.abskey(st, a), self.abskey(st, b)
        sg = ka[0] * kb[0]
        if ka[0] < 0:
            a = self.fneg(a)
        if kb[0] < 0:
            b = self.fneg(b)
        return self.simplify(st, self.mk(st, ty, "fdiv", (a, b), lo, hi, sg))

    def fmk(self, ty, r):
        if r == fzero:
            return fzerov(ty)
        if r == finf:
            return finfv(ty, 1)
        if r == fninf:
            return finfv(ty, -1)
        sg, man, ex, bc = r
        return FV(ty, "lin", 1, Lin(-int(man) if sg else int(man)), -ex)

    def fptrunc(self, st, ty, v):
        if v.kind == "nan":
            return fnan(ty)
        if v.kind == "inf":
            return finfv(ty, v.sg)
        if v.kind == "lin":
            if v.E is not None:
                p, emin, emax = FMT[ty]
                x = st.norm(v.lin)
                g = self.gran(x)
                lo, hi = st.range(x)
                m = max(abs(lo), abs(hi)) >> g
                e0, e1 = st.range(st.norm(v.E))
                if m.bit_length() <= p and e0 - v.s + g >= emin - p + 1 and \
                        e1 - v.s + g + m.bit_length() - 1 <= emax:
                    return FV(ty, "lin", v.sg, v.lin, v.s, v.E)
                v = self.concE(st, v)
            return self.round_lin(st, ty, v.lin, v.s, v.sg)
        if fl.FMT[v.ty][0] <= FMT[ty][0]:
            return FV(ty, "sym", v.sg, id=v.id, e=v.e)
        return self.simplify(st, self.rnd_sym(st, ty, v))

    def fpext(self, v, ty):
        return FV(ty, v.kind, v.sg, v.lin, v.s, v.E, v.id, v.e)

    def ffloor(self, st, ty, v, up=False):
        if v.kind in ("nan", "inf"):
            return v
        if v.kind == "lin":
            v = self.concE(st, v)
            if v.s <= 0:
                return v
            x = v.lin if not up else L.neg(v.lin)
            q, r = self.divide(st, x, 1 << v.s)
            if up:
                q = L.neg(q)
            return self.round_lin(st, ty, q, 0, v.sg)
        if up:
            return self.fneg(self.ffloor(st, ty, self.fneg(v)))
        lo, hi = self.fbounds(st, v)
        n0, n1 = fl.floor_int(lo), fl.floor_int(hi)
        if v.e:
            # materialise scaled symbol
            v = self.simplify(st, self.mk(st, ty, "scale", (FV(v.ty, "sym", 1, id=v.id, e=v.e),), lo, hi, 1)
                              if v.sg > 0 else
                              self.mk(st, ty, "scale", (FV(v.ty, "sym", 1, id=v.id, e=v.e),), lo, hi, -1))
            if v.kind == "lin":
                return self.ffloor(st, ty, v)
        fr = st.floors.get(("floor", v.id, v.sg))
        if fr is not None:
            return FV(ty, "lin", 1, fr[0], 0)
        if n0 == n1:
            N = Lin(n0)
            flo, fhi = mpf_sub(lo, from_int(n0)), mpf_sub(hi, from_int(n0))
            i = self.syms.get(None, ty, "fresh", ())
            st.facts[i] = (rnd(ty, flo), rnd(ty, fhi))
            st.floors[("floor", v.id, v.sg)] = (N, i)
            return self.round_lin(st, ty, N, 0)
        if abs(n0) >= 1 << 40 or abs(n1) >= 1 << 40:
            raise Unknown("floor of huge symbolic value")
        if n1 - n0 <= 3:
            self.cut(st, v, from_int(n1), True)
        # three cells: first, last, middle lump
        if fl.cmp(lo, from_int(n0)) > 0 or fl.cmp(hi, fl.nextafter(ty, from_int(n1 + 1), False)) < 0 or True:
            lump = st.floors.get(("lump", v.id, v.sg))
            if not lump:
                alts = []
                tyx = self.syms.info[v.id][0]

                def rng(a, b):
                    if v.sg < 0:
                        a, b = mpf_neg(b), mpf_neg(a)
                    return a, b
                c1 = fl.nextafter(tyx, from_int(n0 + 1), False)
                c2 = fl.nextafter(tyx, from_int(n1), False)
                alts.append([("fact", v.id) + rng(lo, c1)])
                alts.append([("fact", v.id) + rng(from_int(n1), hi)])
                alts.append([("fact", v.id) + rng(from_int(n0 + 1), c2), ("lump", v.id, v.sg)])
                raise Split(alts, exact=False, why="floor")
        N = self.atom_in(st, n0, n1)
        i = self.syms.get(None, ty, "fresh", ())
        one = from_int(1)
        st.facts[i] = (fzero, one if n0 <= -1 <= n1 else fl.nextafter(ty, one, False))
        st.floors[("floor", v.id, v.sg)] = (N, i)
        return self.round_lin(st, ty, N, 0)

    def binade_split(self, st, ty, v):
        """force |v| (v finite nonzero) into one binade; returns (v>0 view, exponent k, sign) ; exact for lin"""
        if self.is_neg(st, v):
            r = self.binade_split(st, ty, self.fneg(v))
            return r[0], r[1], -r[2]
        if v.kind == "lin":
            x = st.norm(v.lin)
            lo, hi = st.range(x)
            b0, b1 = lo.bit_length(), hi.bit_length()
            if b0 != b1:
                # multiway split when a single atom
                if len(x.t) == 1:
                    (a, k), = x.t.items()
                    alo, ahi = st.rng[a]
                    alts = []
                    if k > 0:
                        cur = alo
                        for b in range(b0, b1):
                            # values < 2^b : a <= (2^b-1-c)//k
                            m = ((1 << b) - 1 - x.c) // k
                            m = min(m, ahi)
                            if m >= cur:
                                alts.append(self.alt_rng(a, cur, m))
                                cur = m + 1
                        if cur <= ahi:
                            alts.append(self.alt_rng(a, cur, ahi))
                        raise Split(alts)
                self.split_lt0(st, L.addc(x, -(1 << (b1 - 1))))
                raise Unknown("binade")
            return FV(v.ty, "lin", 1, x, v.s, v.E), b1 - 1 - v.s, 1
        lo, hi = self.fbounds(st, v)
        e0, e1 = fl.expo(lo), fl.expo(hi)
        if e0 == e1:
            return v, e0, 1
        if e1 - e0 <= 3:
            self.cut(st, v, from_man_exp(1, e1), True)
        if not st.floors.get(("blump", v.id)):
            alts = []
            tyx = self.syms.info[v.id][0]

            def rng(a, b):
                a, b = mpf_shift(a, -v.e), mpf_shift(b, -v.e)
                if v.sg < 0:
                    a, b = mpf_neg(b), mpf_neg(a)
                return a, b
            c1 = from_man_exp(1, e0 + 1)
            c2 = from_man_exp(1, e1)
            alts.append([("fact", v.id) + rng(lo, fl.nextafter("x86_fp80", c1, False))])
            alts.append([("fact", v.id) + rng(c2, hi)])
            alts.append([("fact", v.id) + rng(c1, fl.nextafter("x86_fp80", c2, False)), ("blump", v.id)])
            raise Split(alts, exact=False, why="binade")
        return v, None, 1

    def ffrexp(self, st, ty, v):
        """returns (mantissa FV, exponent Lin)"""
        if v.kind in ("nan", "inf"):
            return v, self.atom_in(st, -(1 << 31), (1 << 31) - 1)
        if self.is_zero(st, v):
            return v, L.ZERO
        x, k, sg = self.binade_split(st, ty, v)
        if k is None:
            lo, hi = self.fbounds(st, x)
            q = self.atom_in(st, fl.expo(lo) + 1, fl.expo(hi) + 1)
            half = from_man_exp(1, -1)
            m = self.fresh_sym(st, ty, half, fl.nextafter(ty, from_int(1), False))
            st.floors[("fx", x.id, x.sg, x.e)] = (q, m.id)
            return (m if sg > 0 else self.fneg(m)), q
        if x.kind == "lin":
            m = FV(ty, "lin", 1, x.lin, x.s + k + 1, None)
            q = Lin(k + 1) if x.E is None else L.addc(x.E, k + 1)
        else:
            m = FV(ty, "sym", x.sg, id=x.id, e=x.e - k - 1)
            q = Lin(k + 1)
        return (m if sg > 0 else self.fneg(m)), q

    def fldexp(self, st, ty, v, n):
        if v.kind in ("nan", "inf"):
            return v
        n = self.s(st, n)
        if v.kind == "lin":
            x = st.norm(v.lin)
            if not x.t and x.c == 0:
                return v
            E = n if v.E is None else L.add(v.E, n)
            E = st.norm(E)
            if not E.t:
                return self.round_lin(st, ty, v.lin, v.s - E.c, v.sg)
            p, emin, emax = FMT[ty]
            g = self.gran(x)
            lo, hi = st.range(x)
            m = max(abs(lo), abs(hi)) >> g
            e0, e1 = st.range(E)
            if m.bit_length() <= p and e0 - v.s + g >= emin - p + 1 and e1 - v.s + g + m.bit_length() - 1 <= emax:
                return FV(ty, "lin", v.sg, v.lin, v.s, E)
            k = self.conc(st, E)
            raise Unknown("ldexp")
        if n.t:
            n = Lin(self.conc(st, n))
        return self.scale_sym(st, ty, v, n.c, 1)

    def fbits(self, st, ty, v):
        """IEEE bit pattern as IV"""
        w = fl.BITS[ty]
        p, emin, emax = FMT[ty]
        bias = emax
        mant = p - 1 if ty != "x86_fp80" else 64
        if v.kind == "nan":
            raise Unknown("bits of NaN")
        if v.kind == "inf":
            e = (2 * bias + 1) << mant
            if ty == "x86_fp80":
                e += 1 << 63
            return IV(w, Lin(e + ((1 << (w - 1)) if v.sg < 0 else 0)))
        if self.is_zero(st, v):
            return IV(w, Lin((1 << (w - 1)) if self.signbit(st, v) else 0))
        v = self.concE(st, v)
        x, k, sg = self.binade_split(st, ty, v)
        hi = (1 << (w - 1)) if sg < 0 else 0
        if k is None or x.kind == "sym":
            key = ("bits", x.id, x.e, ty)
            b = st.floors.get(key)
            if b is None:
                lo_, hi_ = self.fbounds(st, x)
                if k is not None and k >= emin:
                    a0 = self.mbits(ty, lo_, k, "f")
                    a1 = self.mbits(ty, hi_, k, "c")
                    a1 = min(a1, (1 << p) - 1)
                    m = self.atom_in(st, a0, a1)
                    b = L.addc(m, ((k + bias) << mant) - (0 if ty == "x86_fp80" else (1 << mant)))
                else:
                    if ty == "x86_fp80":
                        e0, e1 = fl.expo(lo_), fl.expo(hi_)
                        m = self.atom_in(st, 1 << 63, (1 << 64) - 1)
                        ee = self.atom_in(st, e0 + bias, e1 + bias)
                        b = L.add(m, L.scale(ee, 1 << 64))
                    else:
                        b = self.atom_in(st, 1, ((2 * bias + 1) << mant) - 1)
                st.floors[key] = b
            return IV(w, L.addc(b, hi))
        if k < emin:
            # subnormal
            x2 = self.scaled_int(st, x, -(emin - p + 1))
            return IV(w, L.addc(x2, hi))
        m = self.scaled_int(st, x, p - 1 - k)
        if ty == "x86_fp80":
            return IV(w, L.addc(m, ((k + bias) << 64) + hi))
        return IV(w, L.addc(m, ((k + bias - 1) << mant) + hi))

    def mbits(self, ty, x, k, mode):
        p = FMT[ty][0]
        y = mpf_shift(x, p - 1 - k)
        return fl.floor_int(y) if mode == "f" else fl.ceil_int(y)

    def scaled_int(self, st, v, e):
        """v*2^e as exact integer form"""
        n = e - v.s
        x = st.norm(v.lin)
        if n >= 0:
            return L.scale(x, 1 << n)
        q, r = self.divide(st, x, 1 << -n)
        if r.t or r.c:
            # representable value must be integral here
            if not self.split_eq0(st, r):
                raise Unknown("non-integral significand")
        return q

    def fptoi(self, st, ins, v, w, signed):
        if v.kind in ("nan", "inf"):
            self.ubhit(st, ins, "float to integer conversion of NaN or infinity")
            return IV(w, self.atom_in(st, 0, (1 << w) - 1))
        if v.kind == "sym":
            lo, hi = self.fbounds(st, v)
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            l, h = fl.ceil_int(lo) if fl.cmp(lo, fzero) < 0 else fl.floor_int(lo), \
                fl.floor_int(hi) if fl.cmp(hi, fzero) > 0 else fl.ceil_int(hi)
            if h > mx or l < mn:
                if l > mx or h < mn:
                    self.ubhit(st, ins, "float to integer conversion out of range")
                    return IV(w, self.atom_in(st, mn, mx))
                if h > mx:
                    self.cut(st, v, from_int(mx + 1), True)
                self.cut(st, v, from_int(mn - 1), False)
            return IV(w, self.atom_in(st, l, h))
        v = self.concE(st, v)
        if v.s <= 0:
            q = L.scale(st.norm(v.lin), 1 << -v.s)
        else:
            if self.split_lt0(st, st.norm(v.lin)):
                q, r = self.divide(st, L.neg(v.lin), 1 << v.s)
                q = L.neg(q)
            else:
                q, r = self.divide(st, v.lin, 1 << v.s)
        lo, hi = st.range(st.norm(q))
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if hi > mx:
            if not self.split_lt0(st, L.addc(q, -mx - 1)):
                self.ubhit(st, ins, "float to integer conversion out of range")
                return IV(w, self.atom_in(st, mn, mx))
        if lo < mn:
            if self.split_lt0(st, L.addc(q, -mn)):
                self.ubhit(st, ins, "float to integer conversion out of range")
                return IV(w, self.atom_in(st, mn, mx))
        return IV(w, q)
