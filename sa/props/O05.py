from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow with linear value expressions (abstract interpretation of LLVM IR)"
NOTE = "The stored value is compared as a linear expression over the clock reading's two fields; acceptance and rejection ranges follow from the path constraints. Trusts clock_gettime and 64-bit time_t."
RULE = "success: the right clock id, value == 10^9*sec + nsec of a successful reading proved not negative; failure: clock failed or reading out of range or null output, nothing stored"
EXPLAIN = "clock identifier, linear conversion and range facts over all path summaries of both clock operations"
def check(o, tier): driver.run(o, os_rules.o05, list(os_rules.CLOCK), {"merge": False})
