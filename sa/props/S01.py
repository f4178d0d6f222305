from .. import driver, scan
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) with coverage ranges of scan loops and library scans"
NOTE = "Fixed to the build's configuration (_GNU_SOURCE). Trusts the models of memchr/memrchr/strlen."
RULE = "absent only if every position in [0,n) is covered by 'differs' facts (or the text is null); a returned position lies in [0,n), holds the delimiter, and every earlier (first) or later (last) position is covered by 'differs' facts"
EXPLAIN = "every path summary of the four searches; positions covered by loops (counter, shift, per-iteration fact), single comparisons and library scans"
def check(o, tier): driver.run(o, scan.find, list(scan.FIND), {"merge": False})
