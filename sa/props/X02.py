from .. import sha
TECHNIQUE = "value graphs over LLVM IR in a normal form (bits as exclusive-or of products, sums by their summands), partitioned by the fill level of the block buffer, compared with the graph of FIPS 180-4; induction over the loop of an update for any length"
NOTE = "Constants of the standard are computed from their definition (roots of primes). The induction covers implementations whose update is a single loop; others are decided for the listed lengths only (reported as inconclusive)."
RULE = ("initialisation sets the standard's initial value, an empty buffer and a zero count; for each of the 64 fill levels the digest written by final is the value graph of the padded message; one step of the loop of an update takes in exactly the bytes it advances by, in order, "
        "compresses exactly when 64 bytes are there and counts the block, and the loop ends only when no byte is left, for each fill level and every number of remaining bytes")
EXPLAIN = "cells: (operation, fill level, length) with the message, the chaining value and the bit count left open; steps: (fill level, remaining bytes) of the induction"
def check(o, tier): sha.x02(o, tier)
