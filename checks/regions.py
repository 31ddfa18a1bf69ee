"""Region obligations: for every public function and every box of operands, the set of possible results computed by the
abstract interpreter (functions summarised per abstract operand, results joined per class NaR/negative/zero/positive) has to
lie inside the set the property allows.

  R(B) inside the allowed set       -> discharged
  R(B) disjoint from the allowed set -> definite violation (R over-approximates, so every operand in B fails)
  otherwise                          -> B is bisected, down to single operands, which are also evaluated without summaries
"""
import sys, os, time, heapq
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import Job, Eng, State, Budget, IV, FV, L, fl, known_entries  # noqa
from absint.engine import Lin, fnan, finfv, fzerov, Unknown  # noqa
from absint.fl import fzero, finf, mpf_neg  # noqa


def I(w, lo, hi=None, step=1):
    """integer operand lo, lo+step, .., hi"""
    return ("i", w, lo, lo if hi is None else hi, step)


def Fc(ty, man, ex):
    """floating-point constant man * 2^ex"""
    while man % 2 == 0:
        man, ex = man // 2, ex + 1
    return ("c", ty, man, -ex)


def Fi(ty, lo, hi):
    """floating-point operand between two representable raw mpf values of one sign"""
    return ("f", ty, lo, hi)


class Region:
    __slots__ = ("fn", "label", "args", "allow", "known", "affine", "precise")

    def __init__(self, fn, label, args, allow, known=None, precise=False, affine=False):
        self.fn, self.label, self.args, self.allow, self.known = fn, label, tuple(args), allow, known
        self.precise, self.affine = precise, affine


class Keyed(Eng):
    cur = None


def results(e, f, args, limit):
    """(result class keys, flags)"""
    e.deadline = time.time() + limit
    try:
        outs, flags = e.summarise(f, args)
    except Budget as b:
        return [], [("unk", "budget")]
    except Unknown as u:
        return [], [("unk", str(u))]
    return outs, flags


def inside(o, allow):
    """1 inside, -1 disjoint, 0 overlaps"""
    if o[0] == "i":
        lo, hi = o[2], o[3]
        inter = False
        for a, b in allow:
            if a <= lo and hi <= b:
                return 1
            if lo <= b and a <= hi:
                inter = True
        return 0 if inter else -1
    # floats: allow is a dict {"nan":bool,"inf+":..,"inf-":..,"zero":..,"rng":[(lo,hi)] of mpf}
    if o[0] == "nan":
        return 1 if allow.get("nan") else -1
    if o[0] == "inf":
        return 1 if allow.get("inf+" if o[2] > 0 else "inf-") else -1
    if o[0] == "zero":
        return 1 if allow.get("zero") else -1
    if o[0] == "a":
        lo, hi = fl.from_man_exp(o[2], -o[4]), fl.from_man_exp(o[2] + o[3] * o[5], -o[4])
    elif o[0] == "c":
        lo = hi = fl.from_man_exp(o[2], -o[3])
    else:
        lo, hi = o[2], o[3]
    inter = False
    for a, b in allow.get("rng", ()):
        if fl.cmp(a, lo) <= 0 and fl.cmp(hi, b) <= 0:
            return 1
        if fl.cmp(lo, b) <= 0 and fl.cmp(a, hi) <= 0:
            inter = True
    return 0 if inter else -1


NOUB = "no undefined behaviour"


def verdict(outs, flags, allow):
    if allow is NOUB:
        if not any(f[0] != "skip" for f in flags):
            return 1
        return -1 if not outs and all(f[0] in ("ub", "skip") for f in flags) else 0
    if any(f[0] not in ("skip",) for f in flags):
        # unknown or undefined behaviour: nothing can be concluded
        return 0
    v = [inside(o, allow) for o in outs]
    if not v:
        return 1
    if all(x == 1 for x in v):
        return 1
    if all(x == -1 for x in v):
        return -1
    return 0


def count(a):
    if a[0] == "i":
        return (a[3] - a[2]) // a[4] + 1
    if a[0] == "f":
        # in units of the larger end's last place
        q = fl.expo(fl.fmax(fl.mpf_abs(a[2]), fl.mpf_abs(a[3]))) - fl.FMT[a[1]][0] + 1
        return int(fl.floor_int(fl.mpf_shift(fl.mpf_sub(a[3], a[2]), -q))) + 1
    return 1


def split(args):
    best, bw = None, 1
    for i, a in enumerate(args):
        w = count(a)
        if w > bw:
            best, bw = i, w
    if best is None:
        return None
    if args[best][0] == "f":
        _, ty, lo, hi = args[best]
        m = fl.rnd(ty, fl.mpf_shift(fl.mpf_add(lo, hi), -1))
        if m in (lo, hi):
            return None
        l, r = list(args), list(args)
        l[best], r[best] = ("f", ty, lo, m), ("f", ty, m, hi)
        return [tuple(l), tuple(r)]
    _, w, lo, hi, step = args[best]
    n = (hi - lo) // step
    m = lo + (n // 2) * step
    l, r = list(args), list(args)
    l[best] = ("i", w, lo, m, step)
    r[best] = ("i", w, m + step, hi, step)
    return [tuple(l), tuple(r)]


def split_corner(args):
    """single end points first: boundaries are where guards go wrong"""
    out = []
    for i, a in enumerate(args):
        if count(a) > 1 and a[0] == "i":
            for v in (a[2], a[3]):
                b = list(args)
                b[i] = ("i", a[1], v, v, a[4])
                out.append(tuple(b))
    return out


class Runner:
    def __init__(self, prog):
        self.prog = prog
        self.co = Keyed(prog, coarse=True)
        self.co.max_steps = 10 ** 12
        self.co.max_paths = 10 ** 7
        self.af = None
        self.base = self.co
        self.boxes = 0

    def fine(self, f, args, limit):
        e = Keyed(self.prog)
        e.max_steps = 10 ** 12
        e.max_paths = 10 ** 7
        e.enum = 6
        e.ub_as_outcome = self.co.ub_as_outcome
        r = results(e, f, args, limit)
        self.co.steps += e.steps
        self.co.paths += e.paths
        self.co.funcs_seen |= e.funcs_seen
        return r

    def eval(self, f, args, allow, limit, fine=False):
        self.boxes += 1
        outs, flags = results(self.co, f, args, limit)
        v = verdict(outs, flags, allow)
        if v == 0 and (fine or all(count(a) == 1 for a in args)):
            o2, f2 = self.fine(f, args, limit)
            v2 = verdict(o2, f2, allow)
            if v2 != 0 or f2 == []:
                return v2, o2, f2
        return v, outs, flags

    def region(self, r, limit, first_only=False):
        """returns (status, detail)"""
        f = self.prog.ext.get(r.fn)
        if f is None or not f.blocks:
            return "undecided", {"status": "no definition of %s" % r.fn}
        self.co = self.base
        self.co.ub_as_outcome = r.allow is NOUB
        if r.affine:
            if self.af is None:
                self.af = Keyed(self.prog, coarse=True)
                self.af.keep_affine = True
                self.af.max_steps, self.af.max_paths = 10 ** 12, 10 ** 7
                self.af.funcs_seen = self.base.funcs_seen
                self.af.ub_as_outcome = r.allow is NOUB
            self.co = self.af
        end = time.time() + limit
        v, outs, flags = self.eval(f, r.args, r.allow, min(limit, 40), r.precise)
        if v == 1:
            return "ok", None
        if v == -1:
            return "violated", self.detail(r, r.args, outs, flags)
        first = {"status": "possible", "region": r.label, "args": show(r.args), "results": show(outs)[:6],
                 "flags": [str(x)[:160] for x in flags][:3]}
        if first_only:
            return "undecided", first
        # corners, then bisection
        for c in split_corner(r.args):
            if time.time() > end:
                break
            v, outs, flags = self.eval(f, c, r.allow, 3)
            if v == -1:
                return "violated", self.detail(r, c, outs, flags)
        heap = []
        cnt = 0
        left = 0
        h = split(r.args)
        if h is None:
            return "undecided", first
        for b in h:
            cnt += 1
            heapq.heappush(heap, (0.0, cnt, b))
        while heap:
            if time.time() > end:
                left += len(heap)
                break
            d, _, b = heapq.heappop(heap)
            v, outs, flags = self.eval(f, b, r.allow, 5)
            if v == 1:
                continue
            if v == -1:
                return "violated", self.detail(r, b, outs, flags)
            h = split(b)
            if h is None:
                left += 1
                continue
            # prefer boxes where something outside the allowed set is certain to remain possible
            bad = any(f[0] == "ub" for f in flags) if r.allow is NOUB else any(inside(o, r.allow) == -1 for o in outs)
            for x in h:
                cnt += 1
                heapq.heappush(heap, (d - (1.0 if bad else 0.5), cnt, x))
        if left == 0:
            return "ok", None
        first["boxes_left"] = left
        return "undecided", first

    def detail(self, r, args, outs, flags=()):
        return {"outcome": "region", "what": "%s %s" % (r.fn, r.label), "partition": show(args), "results": show(outs),
                "flags": [str(x) for x in flags or ()][:3],
                "allowed": str(r.allow)[:300], "where": r.fn}


def show(keys):
    out = []
    for k in keys:
        if k[0] == "i":
            out.append([k[2], k[3]] if k[2] != k[3] else k[2])
        elif k[0] == "f":
            import mpmath
            out.append(["real", mpmath.nstr(mpmath.mpf(k[2]), 20), mpmath.nstr(mpmath.mpf(k[3]), 20)])
        elif k[0] == "c":
            out.append(["const", str(k[2]), -k[3]])
        else:
            out.append(list(map(str, k)))
    return out


def run_regions(regions, limit_total, per_region):
    """phase 1 evaluates every region once; phase 2 bisects the regions phase 1 left open"""
    def fn(prog, job):
        t0 = time.time()
        R = Runner(prog)
        und, left = [], []
        n = ok = 0
        res = {"status": None, "detail": None}
        first = job.phase == 1
        todo = range(len(regions)) if job.left is None else job.left
        for i in todo:
            r = regions[i]
            n += 1
            rem = job.deadline - (time.time() - t0)
            if rem < 1:
                und.append({"status": "no time left", "region": r.label})
                left.append(i)
                continue
            st, d = R.region(r, min(per_region, rem), first)
            if st == "ok":
                ok += 1
            elif st == "violated":
                res["status"], res["detail"] = "violated", d
                break
            else:
                und.append(d)
                left.append(i)
        if res["status"] is None:
            res["status"] = ("retry" if first else "undecided") if und else "ok"
            if und:
                res["detail"] = {"status": "regions", "undecided": und[:4], "count": len(und)}
                res["left"] = left
        es = [R.base] + ([R.af] if R.af else [])
        res.update(paths=sum(e.paths for e in es), steps=sum(e.steps for e in es), splits=sum(e.splits for e in es), merges=0,
                   functions=sorted(R.base.funcs_seen), regions=n, regions_ok=ok, boxes=R.boxes)
        return res
    return fn


def jobs_of(regions, limit=90, per_region=20):
    """one job per function (plus one per known finding)"""
    by = {}
    for r in regions:
        by.setdefault((r.fn, r.known), []).append(r)
    out = []
    for (fn, kn), rs in by.items():
        nm = fn + ("/known:" + rs[0].label if kn else "")
        out.append(Job(nm, fn, [], deadline=4 if kn else limit, known=kn, pyfn=run_regions(rs, limit, per_region)))
    # the long ones first
    out.sort(key=lambda j: (-("64" in j.name) - ("32" in j.name) * 0.5, j.name))
    return out
