from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) evaluated over every file type and owner-permission class"
NOTE = "91 mode classes (7 file types x 13 permission sets) are pushed through the path conditions of each predicate. Trusts stat() and getcwd()."
RULE = "a predicate returns true exactly for the modes its name promises, from stat() of the given path; false when the status cannot be read; sizes are st_size of regular files only"
EXPLAIN = "value-class enumeration of st_mode over all path summaries of the path predicates"
def check(o, tier): driver.run(o, os_rules.o07, sorted(os_rules.PRED) + sorted(os_rules.OTHER), {"merge": False})
