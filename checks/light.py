"""Checks that are queries over the preprocessed header, the AST or the IR (no abstract interpretation)."""
import sys, os, re, subprocess, tempfile, shutil, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.driver import finish, tier_of, known_entries  # noqa
from absint.prog import REPO, BuildError, make_units  # noqa

TYPES = ["takum8", "takum16", "takum32", "takum64", "takum_linear8", "takum_linear16", "takum_linear32", "takum_linear64"]


class Query:
    def __init__(self, pid, rule, level="proof", assumptions=None, trusted=None):
        self.pid, self.rule, self.level, self.assumptions = pid, rule, level, assumptions
        self.trusted = trusted or []
        self.res = []
        self.t0 = time.time()
        self.tier = tier_of(sys.argv)
        self.extra = {}

    def check(self, name, ok, what="", where="", undecided=False, known=None):
        """one obligation"""
        if known and not ok:
            self.res.append({"job": name, "fn": name, "status": "violated", "known": known, "paths": 0, "steps": 0, "splits": 0,
                             "merges": 0, "functions": [], "wall": 0})
            return
        self.res.append({"job": name, "fn": name, "status": "ok" if ok else "undecided" if undecided else "violated",
                         "detail": None if ok else {"outcome": "query", "what": what, "where": where},
                         "paths": 0, "steps": 0, "splits": 0, "merges": 0, "functions": [], "wall": 0})

    def finish(self):
        x = {"trusted_base": self.trusted}
        x.update(self.extra)
        return finish(self.pid, self.tier, self.t0, self.res, self.rule, extra=x, level=self.level, assumptions=self.assumptions)

    def broken(self, msg):
        print("%s: %s" % (self.pid, msg[-600:]))
        return 2


def run(cmd, text=None, cwd=REPO):
    r = subprocess.run(cmd, input=text, capture_output=True, text=True, cwd=cwd)
    return r


def header_macros():
    """(name, replacement) of the object-like macros the public header defines"""
    r = run(["clang", "-std=c99", "-D_ISOC99_SOURCE", "-dM", "-E", "-include", "takum.h", "-x", "c", "/dev/null", "-I" + REPO])
    if r.returncode:
        raise BuildError(r.stderr)
    base = run(["clang", "-std=c99", "-D_ISOC99_SOURCE", "-dM", "-E", "-include", "stdint.h", "-x", "c", "/dev/null"])
    old = set(base.stdout.split("\n"))
    out = {}
    for l in r.stdout.split("\n"):
        m = re.match(r"#define (\w+)(\(.*?\))?\s*(.*)", l)
        if m and l not in old and not m.group(2):
            out[m.group(1)] = m.group(3)
    return out
