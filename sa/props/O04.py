from .. import driver, handles
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): object typestate loaded/empty, pieces and bounds of the formatted file name"
NOTE = "Linux branch of the platform conditionals, as built here; the dynamic linker is modelled (each call may fail)."
RULE = ("load succeeds only with the handle of the named library and an owned path, and otherwise leaves neither; unload clears both whatever the system reports, releases the path once and reports the system's error; "
        "the file name is lib<name>[d].so, written completely within the caller's size or refused; symbols are looked up by name in the object's own library")
EXPLAIN = "every path summary of the shared library operations"
def check(o, tier): driver.run(o, handles.o04, list(handles.O04), {"merge": False})
