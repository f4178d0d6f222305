from .. import driver, logsys
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): call events of the handler pointer and typestate of argument lists"
NOTE = "Only the calling thread is considered; a message whose timestamp cannot be obtained is not delivered, as documented in the code."
RULE = ("a message that is enabled calls the handler stored in the logging state exactly once with its own location, severity, name (empty for none), the time just read in nanoseconds, format and started argument list; a disabled one calls nothing; "
        "set/get handler write and read that same variable; every argument list started or copied is ended once and used at most once")
EXPLAIN = "every path summary of the log entry points, the handler accessors and every public function that starts or copies an argument list"
MINE = ["rcutils_log", "rcutils_log_internal", "rcutils_logging_set_output_handler", "rcutils_logging_get_output_handler"]
def check(o, tier):
    driver.run(o, logsys.l06, MINE, {"merge": False}, mk=logsys.mk)
    cov = dict(o.coverage)
    driver.run(o, logsys.l06, logsys.variadic(driver.load()[0]), {"merge": False})
    o.coverage["log_entry_points"] = cov
