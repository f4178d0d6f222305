from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): string provenance of the returned block"
NOTE = "Trusts the C library's basename and program_invocation_name."
RULE = "a returned name is a live block of its own holding a complete terminated copy of basename(copy of the invocation path); the process id is getpid()'s result"
EXPLAIN = "string provenance over all path summaries of rcutils_get_executable_name and rcutils_get_pid"
def check(o, tier): driver.run(o, os_rules.x04, ["rcutils_get_executable_name", "rcutils_get_pid"], {"merge": False})
