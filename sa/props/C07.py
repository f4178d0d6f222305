from .. import driver, lifecycle
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): object typestate empty/initialised at entry and return of every create and destroy operation"
NOTE = "Objects are in one of the states the operations themselves leave behind; only operations on the same thread are considered."
RULE = ("zero-initialised getters return all-zero objects; create operations of maps and libraries succeed only when the object was found empty, refuse otherwise without touching it, and leave nothing behind on failure; "
        "destroy operations leave the state create accepts, are harmless on an empty object; logging start-up and shutdown likewise")
EXPLAIN = "every path summary of the getters, init, fini, load/unload and logging start-up/shutdown functions"
def check(o, tier):
    names = [n for n in driver.public(driver.load()[0]) if "_get_zero_initialized_" in n]
    driver.run(o, lifecycle.c07, names + list(lifecycle.CREATE) + list(lifecycle.DESTROY), {"merge": False})
    cov = dict(o.coverage)
    driver.run(o, lifecycle.c07, list(lifecycle.LOGS))
    o.coverage["containers_and_libraries"] = cov
