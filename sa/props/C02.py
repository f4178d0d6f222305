from .. import driver, failures
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): every failing path of every modifying operation, fields and stored/released regions compared with entry"
NOTE = "Growing the bucket table or the pair storage before a later step fails is allowed. Contents of character arrays (not their length, capacity and ownership) may be scribbled on by a failed formatting; uint8 arrays, whose resize gives up the storage on failure, are not covered."
RULE = "on every path that returns an error with an initialised first argument: all bookkeeping fields and storage pointers as at entry, the object's invariants hold, nothing it still holds is released, no held element is overwritten"
EXPLAIN = "failing path summaries of the modifying container operations"
def check(o, tier): driver.run(o, failures.c02, list(failures.OPS), {"merge": False})
