from .. import errtext
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): flag states left by one operation against the conditions under which the others branch"
NOTE = "One thread's state; its isolation from other threads is E01."
RULE = ("setting with a message and a file leaves the error flag set, the given message, file (each complete or cut only at its capacity, terminated) and line in the state, and every flag such that reading the text makes it anew; "
        "with a null message or file nothing is stored; reading stores neither to the state nor to its flag; resetting leaves the flag clear, an empty state, and reading returns \"error not set\"")
EXPLAIN = "every path summary of setting, reading, resetting and asking; their effects are composed through the flags they share"
def check(o, tier): errtext.e03(o)
