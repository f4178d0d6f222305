from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): call-argument identity and guard facts on every path"
NOTE = "Trusts the C library's qsort. Every path of rcutils_qsort is an obligation."
RULE = "success: the sort receives exactly (ptr, count, size, comp) with both pointers known non-null, or count <= 1; failure: a pointer is null and the sort is not reached"
EXPLAIN = "value identity and null facts over all path summaries of rcutils_qsort"
def check(o, tier): driver.run(o, os_rules.x03, ["rcutils_qsort"], {"merge": False})
