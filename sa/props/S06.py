from .. import driver, scan
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) with coverage ranges of the lookup loops"
NOTE = "Arguments in the range are assumed to be texts; the slot after the match may be null."
RULE = "presence only with an argument in range that equals the option, absence only if all of [0,n) were refuted; a value only from the slot after the first argument that begins with the option and only inside the range, null otherwise"
EXPLAIN = "every path summary of the two lookups; comparison facts (strcmp/strncmp/memcmp) over covered argument ranges"
def check(o, tier): driver.run(o, scan.option, ["rcutils_cli_option_exist", "rcutils_cli_get_option"], {"merge": False})
