from .. import driver, timefmt
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): pieces of the formatted text as quotients of the given value"
NOTE = "The C library's own conversions (printf, strftime, localtime_r) are trusted to do what the format says."
RULE = ("on every successful path the text written to the caller's buffer is: for nanoseconds the signed value in at least 19 digits; for seconds a minus sign for negative values only, floor(|t|/10^9) in at least 10 digits, a point and |t| mod 10^9 in 9 digits; "
        "for dates the local date and time of floor(|t|/10^9) followed by a point and three digits of milliseconds; every write is limited to exactly the caller's buffer; failures are reported and only failures are")
EXPLAIN = "every path summary of the three rendering functions, for non-negative and negative values separately"
def check(o, tier): driver.run(o, timefmt.o06, timefmt.O06, {"merge": False})
