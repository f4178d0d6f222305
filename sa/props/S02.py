from .. import strings
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): provenance and length of the copied text, and of what the formatting wrappers pass on and return"
NOTE = "The formatting function of the C library is assumed to behave as the C standard says. String replacement is the subject of S07."
RULE = ("a duplicate is a fresh block holding the bytes from the start of the source up to its terminator or the given maximum, whichever comes first, with a null character behind them; it is refused only for a null source, an invalid allocator or an allocation failure; "
        "a formatted string is fresh, made with the caller's format and arguments, complete or cut exactly at the limit; the formatting wrappers pass on buffer, size, format and arguments unchanged and return the full length, a negative number with errno EINVAL for invalid calls, and a negative number when formatting fails")
EXPLAIN = "every path of the functions that duplicate strings and of the formatting functions"
def check(o, tier): strings.s02(o)
