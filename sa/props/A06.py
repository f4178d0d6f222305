"""A06: discarded results and mismatching format arguments are diagnosed (compile witnesses with clang and gcc)."""
import re
from .. import witness as W, graph
TECHNIQUE = "compile-fail witnesses: one discarded call / mismatching format per public operation must be diagnosed by clang and gcc"
NOTE = ("The list of operations whose result must not be ignored is frozen from the documented interface (MUST); each gets a witness line in C and C++. Each printf-style operation and macro gets a matching call "
        "(no diagnostic allowed) and a mismatching one (diagnostic required). The compilers' own diagnostics are trusted.")
RULE = "every witness that must be rejected is diagnosed at its line and every control witness is not"
EXPLAIN = "witness calls compiled with clang 18 and gcc 13 as C and C++"
MUST = """allocator_is_valid array_list_add array_list_fini array_list_get array_list_get_size array_list_remove array_list_set char_array_expand_as_needed char_array_fini char_array_init
char_array_memcpy char_array_resize char_array_strcat char_array_strcpy char_array_strncat char_array_vsprintf error_is_set fault_injection_get_count fault_injection_is_test_complete
format_string_limit get_cwd get_default_allocator get_env get_error_state get_error_string get_executable_name get_home_dir get_pid get_platform_library_name get_symbol
get_zero_initialized_allocator get_zero_initialized_char_array get_zero_initialized_hash_map get_zero_initialized_shared_library get_zero_initialized_string_map get_zero_initialized_uint8_array
has_symbol hash_map_fini hash_map_get_capacity hash_map_get_size hash_map_init hash_map_set hash_map_unset initialize_error_handling_thread_local_storage is_shared_library_loaded
load_shared_library logging_format_message logging_get_default_logger_level logging_get_logger_effective_level logging_get_logger_level logging_get_logger_leveln logging_get_output_handler
logging_initialize logging_initialize_with_allocator logging_logger_is_enabled_for logging_set_logger_level logging_severity_level_from_string logging_shutdown qsort reallocf repl_str set_env
set_env_overwrite snprintf steady_time_now strcasecmp strdup string_array_cmp string_array_fini string_array_init string_array_resize string_array_sort string_array_sort_compare string_map_clear
string_map_copy string_map_fini string_map_get_capacity string_map_get_size string_map_init string_map_reserve string_map_set string_map_set_no_resize string_map_unset strncasecmp strndup
system_time_now time_point_value_as_date_string time_point_value_as_nanoseconds_string time_point_value_as_seconds_string uint8_array_fini uint8_array_init uint8_array_resize
unload_shared_library vsnprintf""".split()
# (name, expression with a matching call, the same with a mismatching argument, the same with too few arguments)
FMT = [("rcutils_snprintf", "int r_ = rcutils_snprintf(b_, 4, \"%%d %%s\", %s); (void)r_"), ("rcutils_format_string_limit", "char * r_ = rcutils_format_string_limit(a_, 9, \"%%d %%s\", %s); (void)r_"),
       ("rcutils_format_string", "char * r_ = rcutils_format_string(a_, \"%%d %%s\", %s); (void)r_"), ("rcutils_log", "rcutils_log(0, 20, \"n\", \"%%d %%s\", %s)"), ("rcutils_log_internal", "rcutils_log_internal(0, 20, \"n\", \"%%d %%s\", %s)"),
       ("RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING", "RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(\"%%d %%s\", %s)"), ("RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING", "RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(\"%%d %%s\", %s)")]
SEV = ["DEBUG", "INFO", "WARN", "ERROR", "FATAL"]
VAR = [("", ""), ("_NAMED", "\"n\", "), ("_ONCE", ""), ("_ONCE_NAMED", "\"n\", "), ("_EXPRESSION", "x_, "), ("_EXPRESSION_NAMED", "x_, \"n\", "), ("_FUNCTION", "&fn_, "), ("_FUNCTION_NAMED", "&fn_, \"n\", "),
       ("_SKIPFIRST", ""), ("_SKIPFIRST_NAMED", "\"n\", "), ("_THROTTLE", "rcutils_steady_time_now, 1, "), ("_THROTTLE_NAMED", "rcutils_steady_time_now, 1, \"n\", "),
       ("_SKIPFIRST_THROTTLE", "rcutils_steady_time_now, 1, "), ("_SKIPFIRST_THROTTLE_NAMED", "rcutils_steady_time_now, 1, \"n\", ")]
def check(o, tier):
    D = W.declarations(); where = {}
    inc = "".join('#include "%s"\n' % h for h in W.headers())
    head = inc + "static bool fn_(void) { return true; }\n"
    # 1. discarded results
    names = []
    for n in MUST:
        f = "rcutils_" + n
        if f not in D: o.notes.append("%s is not declared in this tree" % f); continue
        names.append(f)
    def unused(lang):
        L = [inc + "void w_(void * p_) {"]; lines = {}
        base = L[0].count("\n") + 1
        for f in names:
            d = D[f]; args = []
            for k, t in enumerate(d["params"]):
                t = re.sub(r"\b_Bool\b", "bool", t) if lang == "c++" else t
                t = t.replace("struct __va_list_tag *", "__builtin_va_list").replace("restrict", "")
                args.append("*(__typeof__(%s) *)p_" % t if "va_list" not in t else "*(__builtin_va_list *)p_")
            L.append("  %s(%s%s);" % (f, ", ".join(args), ""))
            lines[base + len(L) - 1] = f
        L.append("}")
        return "\n".join(L) + "\n", lines
    jobs, meta = [], []
    for lang in ("c", "c++"):
        text, lines = unused(lang)
        for cc in ("clang", "gcc"):
            jobs.append((W.compile_, cc, lang, text, ["-Wunused-result", "-Wno-format", "-Wno-format-nonliteral", "-Wno-format-security"])); meta.append(("unused", cc, lang, lines))
    # 2. formats
    F = []
    for n, t in FMT:
        F.append((n, t, "good", t % "1, \"s\"")); F.append((n, t, "bad", t % "\"s\", 1")); F.append((n, t, "few", t % "1"))
    for s in SEV:
        for v, a in VAR:
            for kind, x in (("good", "1, \"s\""), ("bad", "\"s\", 1"), ("few", "1")):
                F.append(("RCUTILS_LOG_%s%s" % (s, v), "", kind, "RCUTILS_LOG_%s%s(%s\"%%d %%s\", %s)" % (s, v, a, x)))
    for lang in ("c", "c++"):
        L = [head + "void w_(char * b_, rcutils_allocator_t a_, bool x_) {"]; lines = {}; base = L[0].count("\n") + 1
        for n, t, kind, e in F:
            L.append("  { %s; }" % e); lines[base + len(L) - 1] = (n, kind)
        L.append("  (void)b_; (void)a_; (void)x_;\n}")
        text = "\n".join(L) + "\n"
        for cc in ("clang", "gcc"): jobs.append((W.compile_, cc, lang, text, ["-Wformat", "-Wformat-extra-args"])); meta.append(("format", cc, lang, lines))
    for (ok, ds, p, err), (what, cc, lang, lines) in zip(W.parallel(jobs), meta):
        if not ok and not any(d[2] != "warning" for d in ds): o.notes.append("witness did not compile: " + err[-300:])
        errs = [d for d in ds if d[2] != "warning" and d[0] == p]
        hit = {}
        for d in ds:
            if d[0] == p: hit.setdefault(d[1], []).append(d)
        if what == "unused":
            for l, f in lines.items():
                good = any("unused-result" in d[4] or "warn_unused_result" in d[3] for d in hit.get(l, ()))
                bad = [d for d in hit.get(l, ()) if d[2] != "warning"]
                if bad and not good: o.inconclusive.append("%s: witness rejected: %s" % (f, bad[0][3][:100])); continue
                o.ob(ok=good)
                if not good: graph.report(o, "%s|unused-result" % f, "discarding the result of %s() is not diagnosed by %s (%s)" % (f, cc, lang), (D[f]["file"], D[f]["line"], None))
        else:
            for l, (n, kind) in lines.items():
                fm = any("format" in d[4] for d in hit.get(l, ()))
                good = fm if kind != "good" else not hit.get(l)
                o.ob(ok=good)
                if not good:
                    loc = (D[n]["file"], D[n]["line"], None) if n in D else (n, 0, None)
                    graph.report(o, "%s|format-%s" % (n, kind), "%s: %s is %s by %s (%s)" % (n, {"good": "a matching format call", "bad": "a mismatching format argument", "few": "a missing format argument"}[kind],
                                 "rejected: %s" % hit[l][0][3][:120] if kind == "good" else "not diagnosed", cc, lang), loc)
    o.coverage["must_use_operations"] = len(names); o.coverage["format_witnesses"] = len(F); o.coverage["compilations"] = len(jobs)
