from .. import dirs
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): which entry an iterator shows, and per turn of the listing loop how each entry is counted"
NOTE = "That the list of pending directories is visited without loss is decided only through ownership (M01)."
RULE = ("an iterator shows the name of exactly the entry just read and the answer of a step says whether there was one; in the size computation the paths of entries are built from the directory being listed, `.` and `..` are left out, "
        "each entry that is no directory is counted exactly once on top of the size so far, directories are remembered when the depth is not limited and never beyond the limit, and the size starts at zero")
EXPLAIN = "every return of the iteration functions, every join and every write of the size in the size computation, and every turn of its listing loop"
def check(o, tier): dirs.check(o)
