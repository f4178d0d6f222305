from .. import driver, api
TECHNIQUE = "error-state effect analysis over all paths (abstract interpretation of LLVM IR)"
NOTE = ("Every failing path must contain an error-state write (directly or through a callee) that is not reset afterwards; lookup answers must leave the error state alone. Exempt: rejected allocators, "
        "operations documented to report on stderr, unknown user handlers (inconclusive).")
RULE = "failing status implies the error state is set on that path; documented lookup answers never touch it"
EXPLAIN = "error-state flag at each failing return of each status-returning public operation"
def rule(ctx): api.a03(ctx)
def check(o, tier): driver.run(o, rule)
