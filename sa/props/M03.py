from .. import driver, api
TECHNIQUE = "path-sensitive failure propagation analysis (abstract interpretation of LLVM IR, every allocation outcome branched)"
NOTE = ("On every path summary with a failed allocation the null result must not be dereferenced and the return value must be the failing one (out-of-memory status). "
        "Exempt: growing the bucket array of a hash map (documented to go on) and requests of zero bytes. Functions listed under HEAVY in the evidence are not summarised.")
RULE = "a path with a failed allocation returns a failure (BAD_ALLOC where a status is returned) and never dereferences the null result"
EXPLAIN = "all paths of every public operation, each allocation forked into success and failure; return value of each failing path compared with the failure value"
def rule(ctx): api.m03(ctx)
def check(o, tier): driver.run(o, rule)
