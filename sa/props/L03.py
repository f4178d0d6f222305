from .. import driver, logsys
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): value provenance of logger levels through the severity map, induction over the ancestor walk"
NOTE = "The severity map is used through its own specified operations (decided by C03); levels carry the user mark in their low bit."
RULE = ("effective level: own entry first, each walk step cuts the name at its last separator and passes only names that are missing or unset, the value returned is the unmarked entry of the name reached or the default; "
        "levels set are stored marked under the logger's own name, only documented levels, nothing another logger was given is removed; enabled exactly when severity >= level")
EXPLAIN = "every path summary of the level getters, setters and the enabled test, including every iteration summary of the ancestor walk and the cache purge"
def check(o, tier): driver.run(o, logsys.l03, list(logsys.L03), {"merge": False}, mk=logsys.mk)
