from .. import driver, startup
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): every combination of environment values, tracked from getenv to the setting it selects"
NOTE = "Start-up is followed up to the first loop it enters (the decoding of the format text), after all variables have been read; a variable read later is reported as inconclusive."
RULE = ("each of RCUTILS_LOGGING_USE_STDOUT, RCUTILS_LOGGING_BUFFERED_STREAM, RCUTILS_COLORIZED_OUTPUT is compared so that exactly nothing, 0 and 1 get through and anything else returns an invalid-argument status; "
        "1/other selects stdout/stderr, 0/1/nothing sets the selected stream unbuffered/line buffered/leaves it, the three color values are distinct settings; an empty output format selects the default text, any other is used; nothing accepted makes start-up fail")
EXPLAIN = "every path summary of logging start-up: all combinations of presence and value classes of the environment variables and of failing calls"
def check(o, tier): driver.run(o, startup.l07, [startup.INIT], {"merge": False, "barrier": False}, mk=startup.mk)
