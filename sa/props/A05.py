from .. import driver, api
TECHNIQUE = "side-effect (mod) analysis of memory reachable through const-qualified parameters (abstract interpretation of LLVM IR)"
NOTE = "Any store to, or release of, memory reached through an argument declared pointer-to-const, on any path, is a violation, including memory the object owns."
RULE = "no path writes or releases memory reached through a pointer-to-const argument"
EXPLAIN = "memory logs of all paths of every public operation with a pointer-to-const argument"
def rule(ctx): api.a05(ctx)
def check(o, tier): driver.run(o, rule)
