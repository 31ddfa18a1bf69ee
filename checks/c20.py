import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.light import *  # noqa
from concurrent.futures import ThreadPoolExecutor

RULE = ("over the clang AST of the public header and of every source file, and the object list of the Makefile (its own dry run): "
        "each declared function has exactly one external definition, in a file that is part of the library, of the same canonical "
        "type; every external takum* definition is declared in the header; every other external symbol starts with a library prefix "
        "(takum, codec_, util_, libtakum); the eight types offer the same operations with corresponding prototypes; the archive and the "
        "shared library are built from the same objects; every called symbol is defined in the library or by libc/libm")
PFX = re.compile(r"(lib)?takum|codec_|util_")
TY = re.compile(r"takum(_linear)?(8|16|32|64)")
CANON = [("takum_linear8", "signed char"), ("takum_linear16", "short"), ("takum_linear32", "int"), ("takum_linear64", "long"),
         ("takum8", "signed char"), ("takum16", "short"), ("takum32", "int"), ("takum64", "long"),
         ("uint_fast8_t", "unsigned char"), ("uint8_t", "unsigned char"), ("uint16_t", "unsigned short"),
         ("uint32_t", "unsigned int"), ("uint64_t", "unsigned long"),
         ("int8_t", "signed char"), ("int16_t", "short"), ("int32_t", "int"), ("int64_t", "long"),
         ("_Bool", "bool"), ("float32_t", "float")]


def ast(path, flags, cwd=REPO):
    r = run(["clang"] + flags + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", path], cwd=cwd)
    if r.returncode:
        raise BuildError("%s: %s" % (path, r.stderr))
    return json.loads(r.stdout)


def canon(t):
    t = re.sub(r"\b(const|volatile|restrict)\b ?", "", t)
    for a, b in CANON:
        t = re.sub(r"\b%s\b" % a, b, t)
    return t.replace("long long", "long").replace(" ", "")


def canonf(d):
    t = d["type"]
    return canon(t.get("desugaredQualType") or t["qualType"])


def main():
    q = Query("C20", RULE, trusted=["clang 18 AST dump", "make -n (the Makefile's own dry run)"])
    try:
        tmp = tempfile.mkdtemp(prefix="vp_c20_")
        try:
            p = os.path.join(tmp, "h.c")
            open(p, "w").write('#include "takum.h"\n')
            hast = ast(p, ["-std=c99", "-D_ISOC99_SOURCE", "-I" + REPO])
        finally:
            shutil.rmtree(tmp)
        units = make_units()
        if len(units) < 20:
            raise BuildError("only %d library units found" % len(units))
        with ThreadPoolExecutor(8) as ex:
            asts = list(ex.map(lambda u: ast(u[0], u[1]), units))
    except BuildError as ex:
        return q.broken(str(ex))
    decl, dval = {}, {}
    for d in hast["inner"]:
        if d["kind"] == "FunctionDecl" and not d["name"].startswith("__"):
            # only the header's own declarations: <stdint.h> declares no functions
            decl.setdefault(d["name"], []).append(d)
        if d["kind"] == "VarDecl":
            dval[d["name"]] = d
    q.extra["declared_functions"] = len(decl)
    q.extra["units"] = len(units)
    defs, data, called = {}, {}, {}
    for (src, fl), a in zip(units, asts):
        internal = set()
        for d in a["inner"]:
            if d["kind"] == "FunctionDecl":
                body = any(x.get("kind") == "CompoundStmt" for x in d.get("inner", ()))
                if d.get("storageClass") == "static":
                    internal.add(d["name"])
                elif body and d["name"] not in internal:
                    if d.get("inline") and d.get("storageClass") != "extern":
                        continue   # C99 inline definition: not external
                    defs.setdefault(d["name"], []).append((src, d))
            elif d["kind"] == "VarDecl" and d.get("storageClass") not in ("static", "extern"):
                data.setdefault(d["name"], []).append((src, d))
    for nm, ds in sorted(decl.items()):
        t = {canonf(d) for d in ds}
        q.check("declared consistently: " + nm, len(t) == 1, "conflicting declarations of %s" % nm, "takum.h: " + nm)
        df = defs.get(nm, [])
        inl = any(any(x.get("kind") == "CompoundStmt" for x in d.get("inner", ())) for d in ds)
        if inl:
            q.check("defined once: " + nm, len(df) <= 1, "%s is defined in the header and in a source" % nm, nm)
            continue
        q.check("defined once: " + nm, len(df) == 1,
                "%s has %d definitions in the library (%s)" % (nm, len(df), ", ".join(s for s, _ in df)),
                ", ".join(s for s, _ in df) or "takum.h: " + nm)
        for s, d in df:
            q.check("prototype: %s in %s" % (nm, s), canonf(d) in t and not d.get("variadic"),
                    "%s is declared %s but defined %s" % (nm, ds[0]["type"]["qualType"], d["type"]["qualType"]), "%s: %s" % (s, nm))
        q.check("typed by kind: " + nm, proto_ok(nm, ds[0]["type"]["qualType"]),
                "the prototype of %s (%s) does not use the type in its name" % (nm, ds[0]["type"]["qualType"]), "takum.h: " + nm)
    for nm, ds in sorted(defs.items()):
        where = ", ".join(s for s, _ in ds)
        if nm not in decl:
            q.check("no undeclared public function: " + nm, not nm.startswith("takum"),
                    "%s is exported by the library but not declared in takum.h" % nm, where)
            q.check("name space: " + nm, bool(PFX.match(nm)), "external function %s lies outside the library's name space" % nm, where)
            q.check("defined once: " + nm, len(ds) == 1, "%s is defined more than once" % nm, where)
    for nm, ds in sorted(data.items()):
        where = ", ".join(s for s, _ in ds)
        q.check("name space: " + nm, bool(PFX.match(nm)) and (nm in dval or not nm.startswith("takum")),
                "external object %s lies outside the library's name space or is not declared" % nm, where)
    # siblings
    fam = {}
    for nm, ds in decl.items():
        m = re.match(r"(takum(?:_linear)?(?:8|16|32|64))_(\w+)$", nm)
        if not m:
            q.check("named by type: " + nm, False, "%s does not name one of the eight types" % nm, "takum.h: " + nm)
            continue
        fam.setdefault(m.group(2), {})[m.group(1)] = ds[0]["type"]["qualType"]
    for op, f in sorted(fam.items()):
        m = re.match(r"from_(takum.*)$", op)
        for t in TYPES:
            if m and m.group(1) == t:
                continue
            q.check("offers %s_%s" % (t, op), t in f, "%s_%s is missing although other types offer it" % (t, op), "takum.h")
        sig = {}
        for t, y in f.items():
            sig.setdefault(re.sub(r"\b%s\b" % t, "T", y), []).append(t)
        q.check("siblings of " + op, len(sig) == 1, "prototypes of %s differ: %s" % (op, sig), "takum.h: " + op)
    for t in TYPES:
        for s in TYPES:
            if s != t:
                q.check("conversion %s_from_%s" % (t, s), "%s_from_%s" % (t, s) in decl, "no conversion from %s to %s" % (s, t), "takum.h")
        for s in ("float32", "float64", "extended_float"):
            q.check("conversion %s_from/to_%s" % (t, s), "%s_from_%s" % (t, s) in decl and "%s_to_%s" % (t, s) in decl,
                    "conversion between %s and %s is missing" % (t, s), "takum.h")
    # archive and shared library come from the same objects
    objs = {}
    for tgt in ("libtakum.a",):
        r = run(["make", "-n", "-B", tgt])
        for l in r.stdout.split("\n"):
            tk = l.split()
            o = sorted(x for x in tk if x.endswith(".o"))
            if "-c" in tk or len(o) < 5:
                continue
            objs.setdefault("ar" if tk[0].endswith("ar") else "so" if "-shared" in tk else tk[0], set()).update(o)
    want = {re.sub(r"\.c$", ".o", s) for s, _ in units}
    for k, o in objs.items():
        q.check("objects of the %s" % k, o == want, "built from other objects: %s" % sorted(o ^ want), "Makefile")
    return q.finish()


PLAIN = {"float": "float32", "double": "float64", "long double": "extended_float"}


def proto_ok(nm, t):
    m = re.match(r"(takum(?:_linear)?(?:8|16|32|64))_(\w+)$", nm)
    if not m:
        return True
    ty, op = m.groups()
    r, a = re.match(r"(.*?) ?\((.*)\)$", t).groups()
    a = [x.strip() for x in a.split(",")]
    fl = {v: k for k, v in PLAIN.items()}
    x = re.match(r"from_(\w+)$", op)
    if x:
        s = fl.get(x.group(1), x.group(1))
        return r == ty and a == [s]
    x = re.match(r"to_(\w+)$", op)
    if x:
        return r == fl.get(x.group(1), x.group(1)) and a == [ty]
    if op == "precision":
        return a == [ty] and r in ("uint8_t", "uint_fast8_t", "int", "unsigned int", "uint16_t", "uint32_t")
    if op in ("root", "integer_power"):
        return r == ty and a == [ty, "int64_t"]
    return r == ty and all(y == ty for y in a) and len(a) in (1, 2)


if __name__ == "__main__":
    sys.exit(main())
