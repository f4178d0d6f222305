from .. import driver, elements, mem
TECHNIQUE = "path-sensitive ownership analysis (abstract interpretation of LLVM IR)"
NOTE = ("Every public operation except those listed in the evidence is summarised over all paths with every allocation and system-call outcome branched; "
        "loops by havoc plus invariants with a per-iteration leak check. Trusts the typed-pointee facts about objects on entry (DESIGN.md) and the libc models.")
RULE = "ownership: at every return each obtained block is released, returned or reachable from the caller's objects, and each owned pointer replaced or abandoned was released"
EXPLAIN = "path-sensitive ownership analysis (abstract interpretation of LLVM IR) of every public operation, all allocation/system-call failures branched"
def rule(ctx): mem.leaks(ctx)
def check(o, tier):
    driver.run(o, rule)
    cov = dict(o.coverage)
    driver.run(o, elements.elements, elements.FNS, {"merge": False})
    o.coverage["element_release_functions"] = o.coverage["functions"]; o.coverage.update(cov)
