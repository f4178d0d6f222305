from .. import driver, api
TECHNIQUE = "nullness and validity analysis over all paths (abstract interpretation of LLVM IR)"
NOTE = ("Null arguments, uninitialised objects (null impl) and allocators with a missing function: no dereference, failing result, nothing written; success requires every listed pointer to have been "
        "established (sa/required.py, audited against the headers). Documented preconditions are exempt (api.PRECOND).")
RULE = "no access through an unchecked argument; a null/uninitialised/invalid argument leads to the failure value without writes; success implies all required pointers checked"
EXPLAIN = "nullness facts at every dereference and at every return of every public operation"
def rule(ctx): api.a01(ctx)
def check(o, tier): driver.run(o, rule)
