from .. import logtext
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): enumeration of the constant tables through the functions that consult them, provenance of every field appended"
NOTE = "Texts appended are identified by provenance (the message's own field, a literal, a formatted number or time), not by content."
RULE = ("every severity name is accepted with its value regardless of case and nothing else is; every documented token leads to the function appending exactly its own field of the message; "
        "each severity starts with its color and ends with the reset sequence exactly when colors are on, the message is composed from its own fields and printed once to the selected stream")
EXPLAIN = "every path of the name lookup, the token lookup, each function the token table refers to, the console handler; the color settings are those found for start-up (L07)"
def check(o, tier): logtext.l04(o)
