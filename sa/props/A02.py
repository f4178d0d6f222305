from .. import driver, api, statuses
TECHNIQUE = "return-value set analysis (abstract interpretation of LLVM IR) against the documented status lists; compile-time constant evaluation"
NOTE = ("The set of statuses of each operation over all path summaries is compared with the documented set; null argument / uninitialised object paths must give the documented status; status macros are pairwise distinct. "
        "The third clause (no success when a step failed) is decided by A04.")
RULE = "returned status is in the documented set, matches the failing condition, and status values are pairwise distinct"
EXPLAIN = "status of every path of every status-returning public operation; values of all RCUTILS_RET_* macros as the compiler evaluates them"
def rule(ctx): api.a02(ctx); api.a04(ctx)
def check(o, tier):
    driver.run(o, rule); statuses.check(o)
