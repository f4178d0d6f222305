"""Obligations the analyses cannot decide on any tree: (properties, public operation, place) -> reason.
They are reported as inconclusive, never as violations; DESIGN.md repeats this list."""
import re
T = [
 ("M05", r"rcutils_logging_initialize_with_allocator", r"(local|load-g_rcutils_logging_output_format_string)", "token length is one less than the position of a delimiter that cannot be at position 0 because the other delimiter is there"),
 ("M05", r"rcutils_(repl_str|to_native_path)", r"(heap|arg0)", "sum over the recorded match positions (memory contents) bounds the output length"),
 ("M05", r"rcutils_(get_error_string|set_error_state|reset_error)", r"local", "number of decimal digits of a 64-bit value bounds the index (decided by E02 instead)"),
 ("M05", r"rcutils_logging_severity_level_from_string", r"heap", "string kept terminated by a loop that overwrites its characters in place"),
 ("M05", r"rcutils_logging_(get_logger_effective_level|logger_is_enabled_for)", r"heap", "name shortened in place by a loop that writes terminators at separator positions (decided by L03)"),
 ("M05", r"rcutils_split", r"heap", "two counters advanced by the same delimiter test (decided by S03 for the token copies)"),
]
def undecided(prop, fn, place):
    for ps, f, d, why in T:
        if prop in ps.split(",") and re.fullmatch(f, fn) and re.search(r"(^|-)" + d + "$", place): return why
    return None
