"""Front end: builds LLVM IR of every library source (as the Makefile compiles it) and resolves symbols."""
import os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from . import irparse as IR

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CF = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ffp-contract=off", "-gline-tables-only",
      "-S", "-emit-llvm", "-w"]


class BuildError(Exception):
    pass


def make_units():
    """(source, flags) of every object of the static library, from the build's own dry run"""
    r = subprocess.run(["make", "-n", "-B", "libtakum.a"], cwd=REPO, capture_output=True, text=True)
    units = []
    if r.returncode == 0:
        for line in r.stdout.split("\n"):
            toks = line.split()
            if not toks or "-c" not in toks:
                continue
            srcs = [t for t in toks if t.endswith(".c")]
            if len(srcs) != 1:
                continue
            fl = [t for t in toks if re.match(r"-(D|U|I|std=)", t)]
            units.append((srcs[0], fl))
    return units


def compile_ir(src, flags, out, cwd, extra=()):
    r = subprocess.run(["clang"] + list(flags) + CF + list(extra) + [src, "-o", out + ".0"], cwd=cwd,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s: %s" % (src, r.stderr[-800:]))
    r = subprocess.run(["opt", "-S", "-passes=sroa,mem2reg", out + ".0", "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s: %s" % (src, r.stderr[-800:]))
    os.unlink(out + ".0")
    return open(out).read()


class Prog:
    def __init__(self, extra_flags=(), harness=None, only=None):
        """harness: list of (name, C text) compiled against /repo's header and /verif/spec"""
        self.units = make_units()
        if len(self.units) < 20:
            raise BuildError("only %d library units found in the Makefile dry run" % len(self.units))
        self.mods = []
        self.livecache = {}
        tmp = tempfile.mkdtemp(prefix="vp_ir_")
        try:
            jobs = []
            for k, (s, fl) in enumerate(self.units):
                if only is not None and not only(s):
                    continue
                jobs.append((s, fl, os.path.join(tmp, "u%d.ll" % k), REPO, extra_flags))
            for k, (nm, text) in enumerate(harness or []):
                p = os.path.join(tmp, nm)
                with open(p, "w") as f:
                    f.write(text)
                jobs.append((p, ["-std=c99", "-D_ISOC99_SOURCE", "-I" + REPO, "-I" + os.path.join(VERIF, "spec")],
                             os.path.join(tmp, "h%d.ll" % k), tmp, ()))
            with ThreadPoolExecutor(8) as ex:
                texts = list(ex.map(lambda j: compile_ir(*j), jobs))
            for j, t in zip(jobs, texts):
                m = IR.parse_module(t, j[0])
                m.src = j[0]
                self.mods.append(m)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.index()

    def index(self):
        self.ext = {}
        self.gext = {}
        self.dups = []
        for m in self.mods:
            for f in m.funcs.values():
                if not f.internal:
                    if f.name in self.ext:
                        self.dups.append(f.name)
                    self.ext[f.name] = f
            for n, g in m.globals.items():
                if "internal" not in g.get("attrs", ()) and "private" not in g.get("attrs", ()) \
                        and "external" not in g.get("attrs", ()):
                    self.gext[n] = g

    def add_module(self, text, path):
        m = IR.parse_module(text, path)
        m.src = path
        self.mods.append(m)
        self.index()
        return m

    def func(self, name):
        f = self.ext.get(name)
        if f is None:
            raise KeyError(name)
        return f

    def resolve(self, name, module):
        f = module.funcs.get(name)
        if f is not None:
            return f
        return self.ext.get(name)

    def glob(self, module, name):
        g = module.globals.get(name)
        if g is not None and (g.get("init") is not None):
            return g
        return self.gext.get(name)

    def noinline(self, f):
        return False
