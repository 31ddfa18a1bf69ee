"""Runs the obligations of one property on /repo's current source and writes the evidence.

An obligation is a C function of a harness (compiled to IR together with the library, never executed) whose parameters
range over boxes of bit patterns; it is discharged when the abstract interpreter shows that no path reaches a failing
CHECK.  A violation is only reported when it is definite, i.e. found on a path all of whose steps are exact (or when every
path below an inexact step fails).  Anything else is recorded as undecided.
"""
import json, os, sys, time, signal, traceback, resource
import multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)

from absint.prog import Prog, BuildError, REPO  # noqa: E402
from absint.interp import Interp, State, IV, Budget, DoneRet, FV  # noqa: E402
from absint.engine import Lin  # noqa: E402
from absint import lin as L, fl  # noqa: E402

TRUSTED = [
    "clang 18 front end (C to LLVM IR at -O0 + mem2reg) and the IR parser absint/irparse.py",
    "transfer functions of the abstract interpreter absint/{engine,interp,merge}.py",
    "reference semantics of the takum format in spec/spec.h",
    "x86-64 System V data layout, 64-bit-significand long double, round-to-nearest-even mode, SSE arithmetic for double",
]
LIBM_TB = "libm model absint/libm.py: each libm function returns a value within its stated error of the exact result, " \
          "and is exact where the C standard's Annex F requires it"


class Job:
    def __init__(self, name, fn, args, deadline=200, merge=2, engine=None, post=None, known=None, roundfork=True,
                 refine=True, coarse=False, where="", pyfn=None):
        self.name, self.fn, self.args, self.deadline, self.merge = name, fn, args, deadline, merge
        self.engine = engine or {}
        self.post, self.known, self.roundfork, self.refine = post, known, roundfork, refine
        self.coarse = coarse
        self.where = where
        self.pyfn = pyfn
        self.phase, self.left, self.prio, self.part = (1 if pyfn and not known else 0), None, 0, None


class Found(Exception):
    def __init__(self, leaf):
        self.leaf = leaf


class Eng(Interp):
    stop = False
    badoutcomes = ("viol", "ub")

    def leaf(self, leaves, st, outcome, info, val=None):
        if outcome in self.badoutcomes and st.grp is None and not st.hull and self.stop and not self.in_summary:
            Interp.leaf(self, leaves, st, outcome, info, val)
            raise Found(leaves[-1])
        Interp.leaf(self, leaves, st, outcome, info, val)


def mkargs(e, st, args):
    out = []
    for a in args:
        if a[0] == "f":
            out.append(a[1](e, st))
        else:
            w, lo, hi = a
            out.append(IV(w, e.atom_in(st, lo, hi)))
    return out


def analyse(prog, job, args, merge, deadline, stop, max_paths=10 ** 7):
    """returns (status, leaves, engine, found)"""
    e = Eng(prog, roundfork=job.roundfork, coarse=job.coarse)
    for k, v in job.engine.items():
        setattr(e, k, v)
    e.merge = merge
    e.deadline = time.time() + deadline
    e.max_steps = 10 ** 12
    e.max_paths = max_paths
    e.stop = stop
    st = State()
    a = mkargs(e, st, args)
    st.dep = False
    leaves = []
    try:
        leaves = e.run(job.fn, a, st)
    except Found as f:
        return "found", [f.leaf], e, (f.leaf, a)
    except Budget as b:
        return "budget", leaves, e, None
    # inexact groups all of whose leaves fail
    bad = [l for l in leaves if l.outcome in e.badoutcomes]
    for l in bad:
        if l.grp is None and not l.st.hull:
            return "found", leaves, e, (l, a)
    if bad:
        groups = {}
        for l in leaves:
            if l.grp is not None:
                groups.setdefault(e.group(l.grp), []).append(l)
        for g, ls in groups.items():
            if all(l.outcome in e.badoutcomes and not l.st.hull for l in ls):
                return "found", leaves, e, (ls[0], a)
        return "viol?", leaves, e, None
    if any(l.outcome == "unk" for l in leaves):
        return "unk", leaves, e, None
    return "ok", leaves, e, None


def describe(job, e, leaf, a):
    st = leaf.st
    part = []
    wit = []
    for v in a:
        if isinstance(v, IV):
            x = st.res(v.lin)
            try:
                lo, hi = st.range(x)
            except KeyError:
                part.append("?")
                continue
            part.append([lo, hi])
            wit.append(x.c + sum(k * st.rng[t][0] for t, k in x.t.items()))
        else:
            part.append(repr(v))
    return {"outcome": leaf.outcome, "check": leaf.info, "partition": part, "witness": wit,
            "functions": sorted(e.funcs_seen)[:40]}


def run_job(prog, job):
    t0 = time.time()
    res = {"job": job.name, "fn": job.fn, "status": None, "detail": None, "paths": 0, "steps": 0, "splits": 0,
           "merges": 0, "functions": []}
    if job.pyfn:
        res.update(job.pyfn(prog, job))
        res["wall"] = round(time.time() - t0, 2)
        return res
    deadline = job.deadline
    total = t0 + deadline

    def acc(e, leaves):
        res["paths"] += e.paths
        res["steps"] += e.steps
        res["splits"] += e.splits
        res["merges"] += e.merges
        fs = set(res["functions"]) | e.funcs_seen
        res["functions"] = sorted(fs)

    def found(e, f):
        res["status"] = "violated"
        res["detail"] = describe(job, e, *f)

    boxes = [list(job.args)]
    st, leaves, e, f = analyse(prog, job, job.args, job.merge, deadline * 0.6, True)
    acc(e, leaves)
    undec = Counter()
    if st == "found":
        found(e, f)
    elif st == "ok":
        res["status"] = "ok"
        res["outcomes"] = dict(Counter(l.outcome for l in leaves))
    else:
        for l in leaves:
            if l.outcome == "unk":
                undec[l.info] += 1
        res["status"] = "undecided"
        res["detail"] = {"status": st, "reasons": [list(map(str, x)) for x in undec.most_common(5)],
                         "possible": [str(l.info) for l in leaves if l.outcome in e.badoutcomes][:3]}
        if job.refine:
            refine(prog, job, total, acc, found, res)
    res["wall"] = round(time.time() - t0, 2)
    return res


def halves(args):
    """split the widest integer box; bit-pattern halves"""
    best, bw = None, 1
    for i, a in enumerate(args):
        if a[0] == "f":
            continue
        wd = a[2] - a[1] + 1
        if wd > bw:
            best, bw = i, wd
    if best is None:
        return None
    w, lo, hi = args[best]
    m = (lo + hi) // 2
    l, r = list(args), list(args)
    l[best] = (w, lo, m)
    r[best] = (w, m + 1, hi)
    return [l, r]


def size(args):
    n = 1
    for a in args:
        if a[0] != "f":
            n *= a[2] - a[1] + 1
    return n


def refine(prog, job, total, acc, found, res):
    """search the input boxes that were not discharged for a definite violation"""
    # exact exploration of the whole box first
    now = time.time()
    if total - now > 5 and job.merge != 0:
        st, leaves, e, f = analyse(prog, job, job.args, 0, min(30, (total - now) * 0.3), True)
        acc(e, leaves)
        if st == "found":
            return found(e, f)
        if st == "ok":
            res["status"] = "ok"
            res["detail"] = None
            return
    import heapq
    cnt = 0
    heap = [(0, 0, list(job.args))]
    left = []
    while heap and time.time() < total:
        d, _, args = heapq.heappop(heap)
        hs = halves(args)
        if hs is None:
            left.append(args)
            continue
        for h in hs:
            now = time.time()
            if now > total:
                left.append(h)
                continue
            st, leaves, e, f = analyse(prog, job, h, job.merge, min(20, total - now), True)
            acc(e, leaves)
            if st == "found":
                return found(e, f)
            if st == "ok":
                continue
            if -d >= 6 or size(h) <= 256:
                st2, leaves, e, f = analyse(prog, job, h, 0, min(6, max(0.5, total - time.time())), True)
                acc(e, leaves)
                if st2 == "found":
                    return found(e, f)
                if st2 == "ok":
                    continue
            cnt += 1
            # depth first, boxes with a possible violation before unknown ones
            heapq.heappush(heap, (d - 1 if st == "viol?" else d - 0.5, cnt, h))
    left += [h for _, _, h in heap]
    if not left:
        res["status"] = "ok"
        res["detail"] = None
    else:
        res["detail"]["boxes_left"] = len(left)
        res["detail"]["example_box"] = [list(a[:3]) if a[0] != "f" else "float" for a in left[0]]


def worker(prog, job, q, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.alarm(int(limit))
        r = run_job(prog, job)
    except BaseException as ex:  # an internal failure leaves the obligation undecided
        r = {"job": job.name, "fn": job.fn, "status": "undecided", "paths": 0, "steps": 0, "splits": 0, "merges": 0,
             "functions": [], "wall": 0,
             "detail": {"status": "internal", "reasons": [traceback.format_exc()[-700:]]}}
    q.put(r)


def blank(j, why, wall=0):
    return {"job": j.name, "fn": j.fn, "status": "undecided", "paths": 0, "steps": 0, "splits": 0, "merges": 0, "functions": [],
            "wall": wall, "detail": {"status": why}}


def merge_res(a, b):
    """results of the two phases of one job"""
    for k in ("paths", "steps", "splits", "merges", "regions_ok", "boxes"):
        b[k] = (a.get(k) or 0) + (b.get(k) or 0)
    b["regions"] = a.get("regions") or b.get("regions")
    b["wall"] = round((a.get("wall") or 0) + (b.get("wall") or 0), 2)
    b["functions"] = sorted(set(a.get("functions") or ()) | set(b.get("functions") or ()))
    return b


GRACE = 20   # seconds for the other jobs once a violation is found


def run_jobs(prog, jobs, budget, nproc=8):
    ctx = mp.get_context("fork")
    pending = list(jobs)
    second = []
    running = {}
    out = []
    t0 = time.time()
    stop = None
    import queue
    q = ctx.Queue()

    def take(r):
        nonlocal stop
        p, j, ts = running.pop(r["job"])
        if j.part is not None:
            r = merge_res(j.part, r)
        if r["status"] == "retry":
            j.phase, j.left, j.part = 2, r.get("left"), r
            second.append(j)
            return
        out.append(r)
        if r["status"] == "violated" and not j.known and stop is None:
            stop = time.time() + GRACE

    while pending or running or second:
        now = time.time()
        if stop is not None and now > stop:
            for nm, (p, j, ts) in running.items():
                p.terminate()
                out.append(blank(j, "stopped after a violation was found", round(now - ts, 1)))
            for j in pending + second:
                out.append(blank(j, "stopped after a violation was found"))
            break
        if not pending and second and not any(v[1].phase == 1 for v in running.values()):
            # second phase: the most promising obligations first, the time shared out
            second.sort(key=lambda j: j.prio)
            share = (budget - (now - t0)) * nproc / len(second)
            for j in second:
                j.deadline = min(j.deadline, max(25, share))
            pending, second = second, []
        while pending and len(running) < nproc:
            j = pending.pop(0)
            rem = budget - (time.time() - t0)
            if rem < 3:
                out.append(blank(j, "no time left"))
                continue
            j.deadline = min(j.deadline, rem)
            p = ctx.Process(target=worker, args=(prog, j, q, j.deadline + 30), daemon=True)
            p.start()
            running[j.name] = (p, j, time.time())
        try:
            r = q.get(timeout=0.5)
            p = running[r["job"]][0]
            take(r)
            p.join(5)
            continue
        except queue.Empty:
            pass
        for nm in list(running):
            if nm not in running:
                continue
            p, j, ts = running[nm]
            if not p.is_alive():
                # drained?
                try:
                    while True:
                        r = q.get(timeout=0.3)
                        take(r)
                except queue.Empty:
                    pass
                if nm in running:
                    running.pop(nm)
                    out.append(blank(j, "worker ended (time or memory limit)", round(time.time() - ts, 1)))
    return out


def known_entries(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return [k for k in json.load(open(p))["known"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def finish(pid, tier, t0, results, rule, extra=None, level="proof", assumptions=None, libm=False):
    """prints the verdict, writes evidence, returns the exit code"""
    viol = [r for r in results if r["status"] == "violated" and not r.get("known")]
    und = [r for r in results if r["status"] == "undecided" and not r.get("known")]
    kn = [r for r in results if r.get("known") and r["status"] != "ok"]
    okc = [r for r in results if r["status"] == "ok"]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    funcs = set()
    for r in results:
        funcs |= set(r.get("functions", ()))
    cov = {
        "obligations": len(results),
        "discharged": len(okc),
        "checker_cmd": "python3-vt /verif/checks/%s.py %s" % (pid.lower(), tier),
        "trusted_base": TRUSTED + ([LIBM_TB] if libm else []),
        "rule": rule,
        "abstract_paths": sum(r.get("paths", 0) for r in results),
        "abstract_steps": sum(r.get("steps", 0) for r in results),
        "partition_splits": sum(r.get("splits", 0) for r in results),
        "joins": sum(r.get("merges", 0) for r in results),
        "functions_analysed": len(funcs),
        "functions": sorted(funcs)[:400],
        "undecided": [{"job": r["job"], "detail": r.get("detail")} for r in und][:60],
        "known_findings": [r["known"] for r in kn],
        "samples": [{k: r.get(k) for k in ("job", "status", "paths", "steps", "splits", "wall")} for r in
                    sorted(results, key=lambda r: -r.get("paths", 0))[:12]],
        "per_obligation": [[r["job"], r["status"], r.get("wall")] for r in results],
    }
    if any("regions" in r for r in results):
        cov["regions"] = sum(r.get("regions", 0) for r in results)
        cov["regions_discharged"] = sum(r.get("regions_ok", 0) for r in results)
        cov["boxes_evaluated"] = sum(r.get("boxes", 0) for r in results)
    if level == "other":
        cov["explanation"] = rule
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": assumptions or [], "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d abstract paths; %.1fs" % (
        pid, len(results), len(okc), len(und), len(kn), len(viol), cov["abstract_paths"], time.time() - t0))
    for r in und[:15]:
        print("UNDECIDED %s: %s" % (r["job"], json.dumps(r.get("detail"), default=str)[:300]))
    for r in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, r["known"]))
    for i, r in enumerate(viol):
        os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
        p = os.path.join(ev_dir, "replay", "%s-%d.json" % (pid, i))
        with open(p, "w") as f:
            json.dump(r, f, indent=1, default=str)
        d = r.get("detail") or {}
        print("  %s: %s" % (r["job"], json.dumps({k: d.get(k) for k in ("outcome", "check", "partition", "where", "what")
                                                   if d.get(k) is not None}, default=str)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    sys.stdout.flush()
    return 1 if viol else 0


def tier_of(argv):
    t = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def main(pid, build, rule, level="proof", libm=False, assumptions=None, extra_flags=(), budget=(420, 3000)):
    """build(tier) -> (harness [(name, text)], jobs)"""
    t0 = time.time()
    tier = tier_of(sys.argv)
    only = sys.argv[2:] if len(sys.argv) > 2 else None
    harness, jobs = build(tier)
    if only:
        jobs = [j for j in jobs if any(o in j.name for o in only)]
    try:
        prog = Prog(extra_flags=extra_flags, harness=harness)
    except BuildError as ex:
        print("%s: the library (or the harness against its public header) does not compile: %s" % (pid, str(ex)[-600:]))
        return 2
    res = run_jobs(prog, jobs, budget[0] if tier == "quick" else budget[1])
    byname = {j.name: j for j in jobs}
    for r in res:
        j = byname.get(r["job"])
        if j is not None and j.known:
            r["known"] = j.known
            r["functions"] = r.get("functions", [])
    # a known finding that no longer fails is simply discharged
    return finish(pid, tier, t0, res, rule, level=level, libm=libm, assumptions=assumptions)
