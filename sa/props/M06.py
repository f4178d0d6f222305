from .. import sizes
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): sizes of requested blocks as linear forms over unbounded integers, compared with the machine value"
NOTE = "Lengths of texts and objects in memory are at most half the address space. The members of the default allocator are analysed themselves; a zero-initialising allocate function of the caller multiplies on its own account. Sizes that went through a division or a mask after wrapping are reported as inconclusive."
RULE = ("on every path to a request for memory the machine value of the requested size is at least the number meant: an addition, multiplication or shift that can exceed the representable range, or a conversion to a narrower type that can cut the value, must not reach an allocator")
EXPLAIN = "requested sizes on every path of every public operation"
def check(o, tier): sizes.check(o)
