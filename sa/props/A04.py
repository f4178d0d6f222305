from .. import driver, api, results
TECHNIQUE = "failure propagation analysis over all paths (abstract interpretation of LLVM IR, every internal step's outcome branched)"
NOTE = ("Allocation, system call, formatting and status-returning steps are branched into success and failure; a path with a failed step must not report success. Exempt: documented fallbacks "
        "(hash map growth, mkdir on an existing directory, zero-sized requests, constant plain formats).")
RULE = "no path with a failed step returns success"
EXPLAIN = "uses of the result of every fallible internal call (SSA def-use); result of every path with a failed internal step, for every public operation"
def rule(ctx): api.a04(ctx)
def check(o, tier):
    driver.run(o, rule); results.check(o)
