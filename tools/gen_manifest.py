"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiled LLVM IR (affine/interval domain, trace partitioning) against a reference semantics"
N_AI = ("Proof by abstract interpretation over all operand bit patterns of the listed obligations; trusts clang's front end, "
        "the interpreter's transfer functions and spec/spec.h. Alarms only on paths reached by exact steps.")
N_LM = N_AI + " Values of libm functions are modelled by enclosures with their documented error."
RG = ("abstract interpretation of the compiled LLVM IR over operand regions: joined result sets (function summaries per sign "
      "class) compared with the set the mathematical contract allows, regions bisected on overlap")
N_RG = ("Every operand tuple is covered; result sets are over-approximated, a violation is only reported when a whole box of "
        "operands yields results disjoint from the allowed set. libm functions are modelled by enclosures with their documented error.")
checks = {
    "C01": (RG, "proof", N_RG + " power(NaR,0) and power(1,NaR) are known findings."),
    "C02": (RG, "proof", N_RG + " power(0,0) is a known finding."),
    "C03": (RG, "proof", N_RG + " arcoth of the 64-bit types next to +-1 is a known finding; arguments of *_pi_times beyond |a|<1/2 are covered by C18."),
    "C04": (RG, "proof", N_RG + " 2^a-1 and 10^a-1 for tiny a are known findings; float32 targets underflow by nature."),
    "C05": (RG, "proof", N_RG),
    "C06": (RG, "proof", N_RG),
    "C07": (AI, "proof", N_AI),
    "C08": (AI, "proof", N_AI),
    "C09": (AI, "proof", N_AI + " Long double sources: within one unit in the last place."),
    "C10": (AI, "proof", N_AI + " takum64 multiplication/division: operands with |l|<16, and all operands whose low 16 bits are zero."),
    "C11": (RG, "proof", N_RG + " t^1 of takum64 is decided within units in the last place, not bit for bit."),
    "C12": (AI, "proof", N_AI),
    "C13": (AI, "proof", N_AI),
    "C14": (AI, "proof", N_AI),
    "C15": (RG, "proof", "All operand boxes of all public functions; signed overflow, shifts, division, conversions, table bounds, uninitialised "
            "reads and termination. libm functions are modelled by enclosures with their documented error."),
    "C16": ("interprocedural effect analysis over the LLVM IR (pointer provenance of every store, whitelist of external callees)", "proof",
            "All library functions; errno and floating-point status flags are not counted as effects."),
    "C19": ("compile-time evaluation of every header macro compared with 700-bit reference encodings", "proof",
            "Every numeric macro; two off-by-one takum64 constants are known findings (locked by test/constants.c)."),
    "C20": ("query over the clang ASTs of header and sources and the Makefile's dry run", "proof",
            "Complete enumeration of declarations, definitions and sibling operations."),
    "C17": (RG, "other", "Operand points and cells around the kernels' discriminating arguments: the result enclosure obtained by "
            "abstract interpretation is compared with the exact function; not a proof for all operands. libm functions are modelled by "
            "enclosures with their documented error. arcoth/arcsch of the 64-bit types (double kernels) are known findings."),
    "C18": (RG, "proof", N_RG),
    "C21": ("value numbering over the IR: path conditions and results as terms, normalised with the exact symmetries of IEEE "
            "arithmetic, compared between the call and the exchanged or negated call; conversions proved symmetric by abstract "
            "interpretation", "proof",
            "All operands. Assumes the symmetry of hypot and the exact oddness or evenness of libm functions, and purity (C16)."),
    "C22": (RG, "other", "Structured operands (every regime and binade) and the cells between them, all operands of 8-bit types; "
            "result enclosures compared with the exact value. libm functions are modelled by enclosures with their documented error."),
}
na = {
    "C24": "one-ULP accuracy of transcendental results for every argument needs rigorous error bounds of glibc's libm for all "
           "inputs; libm is outside the repository and no static argument in reach bounds it",
    "C25": "monotonicity after rounding of two nearby results depends on the monotonicity of glibc's libm kernels, which is "
           "not guaranteed by any specification and not decidable from this repository's source",
}
import glob
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from manifest_more import MORE, NA
    checks.update(MORE)
    na.update(NA)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q absint checks", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks:
        t, lv, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "python3-vt checks/%s.py quick" % i.lower(),
                            "thorough_cmd": "python3-vt checks/%s.py thorough" % i.lower(),
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
m["notes"] = "All checks are static: /repo is compiled to LLVM IR (never executed) and analysed. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
