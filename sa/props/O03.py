from .. import driver, os_rules
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): value identity of environment reads and writes on every path"
NOTE = "Trusts that the C library rejects empty names and names containing '=' without changing the environment, and reports it; the rule requires that report to become a failure."
RULE = "get_env: the stored pointer is getenv's result, or an empty constant when it is null; set_env: only setenv(name, value)/unsetenv(name) as selected, failures are returned, an existing variable is kept when asked; home directory: non-empty HOME only"
EXPLAIN = "environment reads/writes and stored values over all path summaries of the environment operations"
def check(o, tier): driver.run(o, os_rules.o03, ["rcutils_get_env", "rcutils_set_env", "rcutils_set_env_overwrite", "rcutils_get_home_dir"], {"merge": False})
