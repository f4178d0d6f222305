from .. import driver, api, heap
TECHNIQUE = "allocator provenance analysis (abstract interpretation) plus call-graph effect analysis for the C heap"
NOTE = ("Each allocate/reallocate/deallocate call of every path is attributed to the allocator object it was called through; state argument and releasing allocator must match. "
        "The call graph shows every C heap call site is only reachable through the default allocator's functions.")
RULE = "allocator functions get their own state; blocks are released through the allocator they came from; C heap functions are only reachable from the default allocator"
EXPLAIN = "provenance of every allocator call on every path of every public operation; every call site of a C heap function with its callers"
def rule(ctx): api.m04(ctx)
def check(o, tier):
    driver.run(o, rule); heap.check(o)
