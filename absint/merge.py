"""Merging of abstract states at control-flow joins (trace partitions are re-joined when nothing distinguishes them).

exact merge   two states whose live values are the same affine forms and which differ in the range of one atom, with
              adjacent ranges
hull merge    two states whose live values agree except along one direction; the direction is re-parametrised by a fresh
              atom on the common grid (over-approximation; the merged state belongs to an inexact group)
"""
from math import gcd
from . import lin as L
from .lin import Lin
from . import fl
from .engine import IV, BV, PV, FV


class NoMerge(Exception):
    pass


def walk(eng, st, v, fn):
    """map every affine form of value v through fn(form, scale); returns (signature, new value)"""
    from .interp import FBits, Unk
    if type(v) is FBits:
        s, nv = walk(eng, st, v.v, fn)
        return ("fb", v.w, s), FBits(nv, v.w)
    if isinstance(v, IV):
        x = fn(eng.red(st, v), 0)
        return ("i", v.w), IV(v.w, x)
    if isinstance(v, FV):
        if v.kind == "nan":
            return ("nan", v.ty), v
        if v.kind == "inf":
            return ("inf", v.ty, v.sg), v
        if v.kind == "lin":
            x = st.norm(v.lin)
            lo, hi = st.range(x)
            sg = v.sg if lo <= 0 <= hi else 1
            s = v.s
            r = fn(x, s)
            if isinstance(r, tuple):
                r, s = r
            E = None
            if v.E is not None:
                E = fn(st.norm(v.E), 0)
                if isinstance(E, tuple):
                    E = E[0]
            return ("fl", v.ty, sg, v.E is not None), FV(v.ty, "lin", sg, r, s, E)
        if v.kind == "raw":
            r = fn(st.norm(v.lin), v.s)
            s = v.s
            if isinstance(r, tuple):
                r, s = r
            return ("raw", v.ty, v.sg), FV(v.ty, "raw", v.sg, r, s)
        f = st.facts[v.id]
        return ("fs", v.ty, v.sg, v.id, v.e, f), v
    if isinstance(v, BV):
        if v.op == "const":
            return ("bc", v.a), v
        sig = []
        na = []
        for y in v.a:
            if isinstance(y, (IV, FV, BV, PV)):
                s, ny = walk(eng, st, y, fn)
                sig.append(s)
                na.append(ny)
            else:
                sig.append(y)
                na.append(y)
        return ("b", v.op, tuple(sig)), BV(v.op, tuple(na))
    if isinstance(v, PV):
        if isinstance(v.off, int):
            return ("p", v.obj[:2] if v.obj else None, v.off), v
        x = fn(st.norm(v.off), 0)
        return ("px", v.obj[:2] if v.obj else None), PV(v.obj, x)
    if type(v) is Unk:
        return ("undef",), v
    raise NoMerge()


def slots(eng, st):
    """live storage locations in a fixed order"""
    out = []
    eng.gc(st)
    for k, fr in enumerate(st.frames):
        for r in sorted(fr.env):
            out.append(("r", k, r))
    for o in sorted(st.mem, key=repr):
        for off in sorted(st.mem[o]):
            out.append(("m", o, off))
    return out


class View:
    __slots__ = ("st", "slots", "sig", "forms")

    def __init__(self, eng, st):
        self.st = st
        self.slots = slots(eng, st)
        forms = []

        def fn(x, s):
            forms.append((x, s))
            return x
        sig = []
        for sl in self.slots:
            if sl[0] == "r":
                s, _ = walk(eng, st, st.frames[sl[1]].env[sl[2]], fn)
            else:
                ty, v = st.mem[sl[1]][sl[2]]
                s, _ = walk(eng, st, v, fn)
                s = (ty, s)
            sig.append((sl, s))
        fk = frozenset((k, v) for k, v in ((k, hk(v)) for k, v in st.floors.items()) if k[0] != "loop")
        self.sig = (tuple(sig), fk)
        self.forms = forms

    def rebuild(self, eng, new):
        """write the new (form, scale) list back"""
        it = iter(new)
        st = self.st

        def fn(x, s):
            return next(it)

        def fn2(x, s):
            r = next(it)
            return r
        for sl in self.slots:
            if sl[0] == "r":
                env = st.frames[sl[1]].env
                env[sl[2]] = wb(eng, st, env[sl[2]], it)
            else:
                ty, v = st.mem[sl[1]][sl[2]]
                st.mem[sl[1]][sl[2]] = (ty, wb(eng, st, v, it))


def wb(eng, st, v, it):
    """same traversal order as walk, replacing forms"""
    from .interp import FBits, Unk
    if type(v) is FBits:
        return FBits(wb(eng, st, v.v, it), v.w)
    if isinstance(v, IV):
        return IV(v.w, next(it)[0])
    if isinstance(v, FV):
        if v.kind not in ("lin", "raw"):
            return v
        x, s = next(it)
        if v.kind == "raw":
            return FV(v.ty, "raw", v.sg, x, s)
        E = next(it)[0] if v.E is not None else None
        return FV(v.ty, "lin", v.sg, x, s, E)
    if isinstance(v, BV):
        if v.op == "const":
            return v
        return BV(v.op, tuple(wb(eng, st, y, it) if isinstance(y, (IV, FV, BV, PV)) else y for y in v.a))
    if isinstance(v, PV):
        if isinstance(v.off, int):
            return v
        return PV(v.obj, next(it)[0])
    return v


def hk(v):
    if isinstance(v, (tuple, list)):
        return tuple(hk(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, hk(x)) for k, x in v.items()))
    if isinstance(v, set):
        return frozenset(v)
    return v


def merge_bucket(eng, states, hull):
    """merge a list of states at the same program point; returns the reduced list"""
    groups = {}
    out = []
    for st in states:
        try:
            v = View(eng, st)
            groups.setdefault(v.sig, []).append(v)
        except NoMerge:
            out.append(st)
    for vs in groups.values():
        if len(vs) == 1:
            out.append(vs[0].st)
            continue
        out.extend(merge_views(eng, vs, hull))
    return out


def merge_views(eng, vs, hull):
    n = len(vs[0].forms)
    # common scales
    smax = [max(v.forms[i][1] for v in vs) for i in range(n)]
    for v in vs:
        f2 = []
        for i, (x, s) in enumerate(v.forms):
            if smax[i] != s:
                if smax[i] - s > 4000:
                    return [w.st for w in vs]
                x = L.scale(x, 1 << (smax[i] - s))
            f2.append(x)
        v.forms = f2
    # exact merging: identical forms
    byform = {}
    for v in vs:
        byform.setdefault(tuple(x.key() for x in v.forms), []).append(v)
    cur = []
    for k, g in byform.items():
        if len(g) > 1:
            g = exact(eng, g)
        cur.extend(g)
    if hull and len(cur) > 1:
        cur = hulls(eng, cur)
    res = []
    for v in cur:
        v.rebuild(eng, [(x, smax[i]) for i, x in enumerate(v.forms)])
        res.append(v.st)
    return res


def vatoms(v):
    s = set()
    for x in v.forms:
        s.update(x.t)
    return sorted(s)


def symatoms(eng, v):
    """atoms referenced by live symbolic reals"""
    return any("fs" == sg[1][0] or (isinstance(sg[1], tuple) and "fs" in repr(sg[1])) for sg in v.sig[0])


def exact(eng, g):
    atoms = vatoms(g[0])
    changed = True
    while changed and len(g) > 1:
        changed = False
        # identical ranges / one differing atom
        for a in atoms or [None]:
            buckets = {}
            for v in g:
                key = tuple(v.st.rng[b] for b in atoms if b != a)
                buckets.setdefault(key, []).append(v)
            if len(buckets) == len(g):
                continue
            ng = []
            for b in buckets.values():
                if a is None:
                    m = b[0]
                    for o in b[1:]:
                        absorb(eng, m, o)
                    ng.append(m)
                    continue
                b.sort(key=lambda v: v.st.rng[a])
                m = b[0]
                for o in b[1:]:
                    ml, mh = m.st.rng[a]
                    ol, oh = o.st.rng[a]
                    if ol <= mh + 1:
                        m.st.rng[a] = (ml, max(mh, oh))
                        absorb(eng, m, o)
                    else:
                        ng.append(m)
                        m = o
                ng.append(m)
            if len(ng) < len(g):
                changed = True
            g = ng
    return g


def absorb(eng, m, o):
    # inexact groups flow together: a violation is definite when all leaves of the union fail
    a, b = eng.group(m.st.grp), eng.group(o.st.grp)
    if a != b:
        if a is None:
            m.st.grp = b
        elif b is not None:
            eng.gpar[b] = a
    m.st.dep = m.st.dep or o.st.dep
    m.st.hull = m.st.hull or o.st.hull
    for k, c in o.st.floors.items():
        if k[0] == "loop":
            m.st.floors[k] = max(c, m.st.floors.get(k, 0))
    m.st.depth = max(m.st.depth, o.st.depth)
    m.st.merged = True
    # what is known about symbols (also dead ones, which may be evaluated again) has to hold for both
    mf, of = m.st.facts, o.st.facts
    if mf is not of:
        nf = {}
        for k, a in mf.items():
            b = of.get(k)
            if b is not None:
                nf[k] = a if a == b else (fl.fmin(a[0], b[0]), fl.fmax(a[1], b[1]))
        m.st.facts = nf


class Dec:
    """a view as  c + sum_j K_j*z_j  with z_j in lo_j + G_j*[0..]  (one direction K_j per group of parallel atoms)"""
    __slots__ = ("v", "c", "dirs", "done")


def decompose(v):
    n = len(v.forms)
    cols = {}
    for i, x in enumerate(v.forms):
        for a, k in x.t.items():
            cols.setdefault(a, []).append((i, k))
    dirs = {}
    for a, col in cols.items():
        g = 0
        for _, k in col:
            g = gcd(g, k)
        if col[0][1] < 0:
            g = -g
        K = tuple((i, k // g) for i, k in col)
        lo, hi = v.st.rng[a]
        if g < 0:
            lo, hi = g * hi, g * lo
        else:
            lo, hi = g * lo, g * hi
        d = dirs.get(K)
        if d is None:
            dirs[K] = [lo, hi, abs(g), 1]
        else:
            # dense sums stay exact
            d[0] += lo
            d[1] += hi
            d[2] = gcd(d[2], g)
            d[3] += 1
    D = Dec()
    D.v = v
    D.done = False
    c = [x.c for x in v.forms]
    for K in sorted(dirs):
        d = dirs[K]
        p, kp = K[0]
        t = c[p] // kp
        if t:
            for i, k in K:
                c[i] -= t * k
            d[0] += t
            d[1] += t
    D.c = tuple(c)
    D.dirs = dirs
    return D


def hulls(eng, vs):
    if symatoms(eng, vs[0]):
        return vs
    buckets = {}
    for v in vs:
        D = decompose(v)
        buckets.setdefault((D.c, frozenset(D.dirs)), []).append(D)
    out = []
    for (c, ks), ds in buckets.items():
        out.extend(sweep(eng, sorted(ks), ds))
    res = []
    for D in out:
        if D.done:
            st = D.v.st
            forms = [Lin(x, {}) for x in D.c]
            ts = [dict() for _ in forms]
            for K, d in D.dirs.items():
                if d[0] == d[1]:
                    for i, k in K:
                        forms[i].c += k * d[0]
                    continue
                y = eng.new_atom()
                G = d[2]
                st.rng[y] = (0, (d[1] - d[0]) // G)
                for i, k in K:
                    ts[i][y] = k * G
                    forms[i].c += k * d[0]
            D.v.forms = [Lin(f.c, t) for f, t in zip(forms, ts)]
            st.hull = True
        res.append(D.v)
    if 1 < len(res) <= 24:
        res = pairs(eng, res)
    return res


def sweep(eng, ks, ds):
    changed = True
    while changed and len(ds) > 1:
        changed = False
        for K in ks:
            groups = {}
            for D in ds:
                groups.setdefault(tuple(tuple(D.dirs[k][:3]) for k in ks if k != K), []).append(D)
            nd = []
            for g in groups.values():
                g.sort(key=lambda D: (D.dirs[K][0], -D.dirs[K][1]))
                m = g[0]
                for o in g[1:]:
                    dm, do = m.dirs[K], o.dirs[K]
                    step = max(dm[2], do[2])
                    if do[0] <= dm[1] + step:
                        G = gcd(gcd(dm[2], do[2]), do[0] - dm[0])
                        dm[1] = max(dm[1], do[1])
                        dm[2] = G
                        absorb(eng, m.v, o.v)
                        m.done = True
                        changed = True
                    else:
                        nd.append(m)
                        m = o
                nd.append(m)
            ds = nd
    return ds


def pairs(eng, vs):
    """merge the few leftovers, where one side is a single point"""
    vs.sort(key=lambda v: tuple(v.st.range(x)[0] for x in v.forms))
    changed = True
    while changed and len(vs) > 1:
        changed = False
        out = []
        for v in vs:
            for w in out:
                if hull2(eng, w, v):
                    changed = True
                    break
            else:
                out.append(v)
        vs = out
    return vs


def hull2(eng, p, q):
    """try to merge view q into view p"""
    sp, sq = p.st, q.st
    n = len(p.forms)
    # common atoms: same coefficient everywhere, same range
    ap, aq = set(vatoms(p)), set(vatoms(q))
    com = set()
    for a in ap & aq:
        if sp.rng[a] == sq.rng[a] and all(p.forms[i].t.get(a) == q.forms[i].t.get(a) for i in range(n)):
            com.add(a)
    rp = [{a: k for a, k in x.t.items() if a not in com} for x in p.forms]
    rq = [{a: k for a, k in x.t.items() if a not in com} for x in q.forms]

    def direction(r):
        """forms are k_i*w ; returns (w, [k_i]) or None"""
        w = None
        ks = []
        for t in r:
            if not t:
                ks.append(0)
                continue
            g = 0
            for c in t.values():
                g = gcd(g, c)
            a0 = min(t)
            if t[a0] < 0:
                g = -g
            u = {a: c // g for a, c in t.items()}
            if w is None:
                w = u
            elif w != u:
                return None
            ks.append(g)
        return w, ks
    dp, dq = direction(rp), direction(rq)
    if dp is None or dq is None:
        return False
    wp, kp = dp
    wq, kq = dq
    dc = [q.forms[i].c - p.forms[i].c for i in range(n)]
    # common direction K
    if wp is not None:
        base = kp
    elif wq is not None:
        base = kq
    else:
        return False
    g = 0
    for k in base:
        g = gcd(g, k)
    K = [k // g for k in base]

    def factor(vec):
        f = None
        for i in range(n):
            if K[i] == 0:
                if vec[i] != 0:
                    return None
            else:
                t, r = divmod(vec[i], K[i])
                if r:
                    return None
                if f is None:
                    f = t
                elif f != t:
                    return None
        return f
    bp = factor(kp) if wp is not None else 0
    bq = factor(kq) if wq is not None else 0
    off = factor(dc)
    if bp is None or bq is None or off is None:
        return False

    def zr(st, w, b, o):
        if w is None:
            return o, o
        lo, hi = st.range(Lin(0, w))
        lo, hi = lo * b, hi * b
        if lo > hi:
            lo, hi = hi, lo
        return lo + o, hi + o
    pl, ph = zr(sp, wp, bp, 0)
    ql, qh = zr(sq, wq, bq, off)
    step = max(abs(bp), abs(bq))
    # no gaps wider than the coarser grid
    if ql > ph + step or pl > qh + step:
        return False
    # z = anchor + G*y on the common grid
    G = gcd(bp, bq)
    # offsets: p values = bp*w, q values = off + bq*w'
    G = gcd(G, off)
    if G == 0:
        return False
    lo, hi = min(pl, ql), max(ph, qh)
    y = eng.new_atom()
    y0 = lo // G
    y1 = -((-hi) // G)
    m = p
    m.st.rng[y] = (y0, y1)
    nf = []
    for i in range(n):
        t = {a: k for a, k in p.forms[i].t.items() if a in com}
        if K[i]:
            t[y] = K[i] * G
        nf.append(Lin(p.forms[i].c, t))
    m.forms = nf
    absorb(eng, m, q)
    m.st.hull = True
    return True
