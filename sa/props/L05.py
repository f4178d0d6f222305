from .. import driver, logsys, startup
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): typestate of the logging system and ownership of the names in its severity map"
NOTE = "The severity map is used through its own specified operations (decided by C03)."
RULE = ("starting twice and stopping twice do nothing; a successful start makes the map, the default handler and level and marks both; a failed one leaves no map; stopping takes out and releases every name until the map is empty, "
        "finalises the map and clears the marks; names put into the map are owned copies, names taken out are released exactly once")
EXPLAIN = "every path summary of start-up, shutdown and the two functions that fill the severity map, including every iteration summary of their loops"
def check(o, tier):
    driver.run(o, startup.l05, ["rcutils_logging_shutdown", startup.INIT], {"merge": False, "barrier": True})
    cov = dict(o.coverage)
    driver.run(o, startup.l05, ["rcutils_logging_set_logger_level", "rcutils_logging_get_logger_effective_level"], {"merge": False}, mk=logsys.mk)
    o.coverage["start_and_stop"] = cov
