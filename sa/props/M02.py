from .. import driver, mem
TECHNIQUE = "path-sensitive block life-cycle typestate analysis (abstract interpretation of LLVM IR)"
NOTE = ("Every public operation except those listed in the evidence is summarised over all paths with every allocation and system-call outcome branched. "
        "Trusts the typed-pointee facts about objects on entry (DESIGN.md) and the libc models.")
RULE = "typestate: no access to or second release of a released block; at every return no reachable slot refers to a released block"
EXPLAIN = "path-sensitive life-cycle typestate analysis (abstract interpretation of LLVM IR) of every public operation, all allocation/system-call failures branched"
def rule(ctx): mem.uses(ctx)
def check(o, tier):
    driver.run(o, rule)
