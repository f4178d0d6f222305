from .. import driver, arrays, elements
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) with covered slot ranges of loops, fills and releases"
NOTE = "Texts in slots are assumed null-terminated. Exactly-once release is shared with M02 (double release)."
RULE = ("init: every slot null; resize: kept slots carried over and not written, new ones null, every removed text released, nothing changed on failure; fini: every slot released, storage forgotten; "
        "cmp: sign of the first unequal pair, or of the sizes when all common pairs were found equal; sort comparison: consistent order with empty slots last")
EXPLAIN = "every path summary of the string array operations; slot ranges covered by per-iteration facts"
def check(o, tier):
    driver.run(o, arrays.c05, list(arrays.OPS), {"merge": False})
    cov = dict(o.coverage)
    driver.run(o, elements.elements, ("rcutils_string_array_fini",), {"merge": False}); o.coverage.update(cov)
