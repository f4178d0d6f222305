from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): call-argument and stored-value identity on every path"
NOTE = "On every path of both comparison operations the platform comparison receives exactly the given operands and the stored value is its result; rejected calls write nothing. Trusts the platform's strcasecmp/strncasecmp."
RULE = "success: one platform comparison of (s1, s2[, n]) whose result is stored unchanged; failure: some pointer is null and nothing is stored"
EXPLAIN = "value identity of call operands and stored results over all path summaries of rcutils_strcasecmp and rcutils_strncasecmp"
def check(o, tier): driver.run(o, os_rules.s04, list(os_rules.CASE), {"merge": False})
