from .. import errtext
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): provenance, length and position of every part of the text; loop facts for the decimal digits"
NOTE = "That a 64-bit number has at most twenty decimal digits is taken as given."
RULE = ("the stored message and file are the given ones, complete or cut exactly at the capacity, and terminated; the text is the message, \", at \", the file, \":\" and the line number, in this order, each part complete or cut exactly at the capacity, and terminated where it ends; "
        "the digits are the remainders by ten of the line number and its quotients until nothing is left, put in order by exchanging them from both ends")
EXPLAIN = "every path of setting an error and of making its text"
def check(o, tier): errtext.e02(o)
