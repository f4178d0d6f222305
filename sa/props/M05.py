from .. import driver, bounds
TECHNIQUE = "symbolic-interval bounds analysis (abstract interpretation of LLVM IR with linear constraints)"
NOTE = ("Every load, store, string and memory operation of every analysed public operation is an obligation offset+size <= extent of its block; accesses through pointers "
        "of unknown provenance are counted as inconclusive. Trusts the documented caller obligations (sa/pre.py) and object invariants that C01-C06 re-establish.")
RULE = "every access lies inside the extent of the block it addresses, reads only initialised bytes and only terminated strings"
EXPLAIN = "interval/linear bounds analysis of every memory access on every path of every public operation"
def rule(ctx): bounds.oobs(ctx)
def check(o, tier):
    driver.run(o, rule)
