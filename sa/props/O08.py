from .. import paths
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): the parts and the size limit of every text written into a returned path"
NOTE = "The conversion to native delimiters goes through the substring replacement, whose text is not decided (S07)."
RULE = ("on every path that returns a joined path the fresh block receives the first path, one separator and the second path from its start, and the size given to the formatting (or the copied lengths) covers all of it; "
        "a path without a leading tilde is copied whole; the tilde is replaced by the value of HOME followed by the rest; nothing is returned only for null arguments, a missing home directory or a failure")
EXPLAIN = "every return of the two functions, with the sequence of writes into the returned block"
def check(o, tier): paths.check(o)
