from .. import split
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): start, end and block of every copied piece, with induction over the scanning loop for where pieces start"
NOTE = "That the number of slots equals the number of tokens of the full split (two counters driven by the same test in two loops) is not decided; leaks on the failure paths are M01's subject."
RULE = ("every copied piece ends in front of a delimiter or at the end of the text and starts at its beginning or behind a delimiter; no piece of the full split is empty; pieces fill their slots from the start of a fresh block; "
        "after success with a fixed number of slots each of them holds a token, the first in front of the second; after a failure the output array is empty")
EXPLAIN = "every copy made by the two splitting functions on every path, and the output array at every return"
def check(o, tier): split.check(o)
