from .. import driver, handles
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): handle typestate open/closed with reachability from the caller's objects"
NOTE = "System calls are modelled: each open may fail, each close closes whatever it returns."
RULE = "every handle opened is closed exactly once, or reachable from the object returned or handed in by an operation that succeeds; no handle is used after it was closed; ending an object closes the handle it holds"
EXPLAIN = "every path summary of every public operation that opens, uses or closes a directory stream, directory iterator or library handle, loops included"
def check(o, tier):
    M = driver.load()[0]
    driver.run(o, handles.o01, [n for n in driver.public(M) if any(k in n for k in ("dir", "shared_library", "symbol", "file", "path", "process", "env"))], {"merge": False})
