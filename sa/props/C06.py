from .. import driver, buffers
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): fields and stored byte ranges at return, ownership typestate"
NOTE = "The text already in a character array is assumed to end one byte before its recorded length, as every operation leaves it. Formatting is modelled by the C standard's contract of vsnprintf."
RULE = ("length <= capacity = real storage at every return; requested capacity and cut length after resize with the content carried over; memcpy/strcpy/strcat/strncat/vsprintf leave exactly the requested bytes, the terminator and the matching length; "
        "nothing changes on failure; storage with owns_buffer unset is neither freed nor reallocated, new storage is recorded as owned")
EXPLAIN = "every path summary of the char and uint8 array operations, ownership decided per path"
def check(o, tier):
    driver.run(o, buffers.c06, buffers.NAMES, {"merge": False})
