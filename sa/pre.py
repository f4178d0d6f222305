"""Documented caller obligations at the public interface: what a call may assume about the memory behind its arguments.
Everything not listed: `const char *` arguments are null or terminated strings, other object pointers are null or point to
one object of their declared type."""
from . import dom
from .dom import const, var

# function -> {argument index: what is behind it}
#   ("arg", j)        exactly the number of bytes given by argument j
#   ("text", j)       readable up to argument j bytes or up to and including a terminator, whichever is shorter
#   ("field", j, path) bytes given by a field of the object behind argument j
BEHIND = {
    "rcutils_array_list_add": {1: ("impl", 0, "rcutils_array_list_impl_s", "data_size")},
    "rcutils_array_list_set": {2: ("impl", 0, "rcutils_array_list_impl_s", "data_size")},
    "rcutils_array_list_get": {2: ("impl", 0, "rcutils_array_list_impl_s", "data_size")},
    "rcutils_hash_map_set": {1: ("impl", 0, "rcutils_hash_map_impl_s", "key_size"), 2: ("impl", 0, "rcutils_hash_map_impl_s", "data_size")},
    "rcutils_hash_map_get": {1: ("impl", 0, "rcutils_hash_map_impl_s", "key_size"), 2: ("impl", 0, "rcutils_hash_map_impl_s", "data_size")},
    "rcutils_hash_map_unset": {1: ("impl", 0, "rcutils_hash_map_impl_s", "key_size")},
    "rcutils_hash_map_key_exists": {1: ("impl", 0, "rcutils_hash_map_impl_s", "key_size")},
    "rcutils_hash_map_get_next_key_and_data": {1: ("impl", 0, "rcutils_hash_map_impl_s", "key_size"), 2: ("impl", 0, "rcutils_hash_map_impl_s", "key_size"), 3: ("impl", 0, "rcutils_hash_map_impl_s", "data_size")},
    "rcutils_char_array_memcpy": {1: ("arg", 2)}, "rcutils_char_array_memcat": {1: ("arg", 2)},
    "rcutils_string_map_key_existsn": {1: ("arg", 2)}, "rcutils_string_map_getn": {1: ("arg", 2)},
    "rcutils_char_array_strncat": {1: ("text", 2)}, "rcutils_char_array_expand_as_needed": {},
    "rcutils_strndup": {0: ("text", 1)}, "rcutils_find_lastn": {0: ("arg", 2)}, "rcutils_findn": {0: ("arg", 2)},
    "rcutils_strncasecmp": {0: ("text", 2), 1: ("text", 2)},
    "rcutils_snprintf": {0: ("arg", 1)}, "rcutils_vsnprintf": {0: ("arg", 1)},
    "rcutils_get_cwd": {0: ("arg", 1)}, "rcutils_strerror": {0: ("arg", 1)},
    "rcutils_time_point_value_as_nanoseconds_string": {1: ("arg", 2)}, "rcutils_time_point_value_as_seconds_string": {1: ("arg", 2)},
    "rcutils_time_point_value_as_date_string": {1: ("arg", 2)},
    "rcutils_get_platform_library_name": {1: ("arg", 2)},
    "rcutils_sha256_update": {1: ("arg", 2)}, "rcutils_sha256_final": {1: ("bytes", 32)},
}
# arguments documented to be non-null (passing null is the caller's error)
NONNULL = {
    "rcutils_hash_map_string_hash_func": [0], "rcutils_hash_map_string_cmp_func": [0, 1],
    "rcutils_repl_str": [0, 1, 2, 3],
    "rcutils_string_array_sort_compare": [0, 1],
    "rcutils_sha256_init": [0], "rcutils_sha256_update": [0, 1], "rcutils_sha256_final": [0, 1],
    "rcutils_join_path": [], "rcutils_set_error_state": [],
}
# (begin, end) argument pairs that delimit one array of pointers
RANGE = {"rcutils_cli_option_exist": (0, 1), "rcutils_cli_get_option": (0, 1)}
# pointers to a string pointer
PTRSTR = {"rcutils_hash_map_string_hash_func": [0], "rcutils_hash_map_string_cmp_func": [0, 1], "rcutils_string_array_sort_compare": [0, 1]}

def global_invariants(E, st):
    """states of the logging system between public operations: the severity map exists only while it is initialised
    (kept by the start-up and shutdown paths, which the start-up check decides)"""
    name = st.frames[0].fn.name
    if name not in ("rcutils_logging_initialize_with_allocator",): return [st]
    fl, mp = "g_rcutils_logging_initialized", "g_rcutils_logging_severities_map"
    if fl not in E.M.globals or mp not in E.M.globals: return [st]
    out = []
    for s, v in E.load(st, E.global_region(fl), const(0), Ty("i", 1, 8)):
        T, F = E.branchn(s, E.tocond(v))
        for x in F:
            p = E.load_quiet(x, E.global_region(mp), const(0))
            if p[0] == "p" and p[1]: E.set_null(x, p[1], True)
        out += T + F
    return [x for x in out if not x.cs.bad]

def setup(E, st, args):
    name = st.frames[0].fn.name
    ps = st.frames[0].fn.params
    vals = [args[p[1] or n] for n, p in enumerate(ps)]
    sret = 1 if (E.D.fnattrs.get(name) or [None])[:1] == ["sret"] else 0
    vals = vals[sret:]
    B = BEHIND.get(name, {})
    for n, v in enumerate(vals):
        if v[0] != "p": continue
        r = E.R[v[1]]
        if r.kind != "param": continue
        b = B.get(n)
        if b is None:
            if r.ty is not None:
                d = E.D.desc(r.ty)
                if d[0] == "int":
                    if d[2] == 1 and d[1] == "char" and const_char(E, name, n): r.info["cstr"] = True
                    elif r.extent is None and d[1] not in ("char", "unsigned char", "uint8_t"): r.extent = const(d[2])
                elif d[0] == "ptr" and r.extent is None and name not in RANGE: r.extent = const(8)
            continue
        if b[0] == "arg":
            a = vals[b[1]]
            r.extent = a[2] if a[0] == "i" else None
            r.info["cstr"] = False
        elif b[0] == "bytes": r.extent = const(b[1]); r.info["cstr"] = False
        elif b[0] == "text":
            a = vals[b[1]]
            r.info["cstr"] = False; r.info["strn"] = a[2]
            x = dom.sym(("readable", v[1]), 0, dom.MAXOBJ, {"name": "readable bytes of %s" % r.name})
            r.extent = var(x)
            st.cs.assume_le(dom.sub(var(x), a[2]))
        elif b[0] == "impl":
            o = vals[b[1]]
            r.info["cstr"] = False
            r.info["behind"] = (o[1], b[2], b[3])
            imp = E.initial(st, o[1], const(0), PTR)
            if imp[0] == "p" and imp[1]:
                r.extent = E.fsym(imp[1], const(0), b[2], b[3])
    for n in NONNULL.get(name, ()):
        if n < len(vals) and vals[n][0] == "p" and st.null.get(vals[n][1]) is None: E.set_null(st, vals[n][1], False)
    if name in RANGE:
        i, j = RANGE[name]
        b = vals[i]; r = E.R[b[1]]
        n = dom.sym(("argcount", b[1]), 0, 1 << 40, {"name": "number of arguments"})
        r.extent = dom.scale(var(n), 8)
        st.null[b[1]] = False; st.null[vals[j][1]] = False
        pid = ps[j + sret][0]
        st.frames[0].env[pid] = ("p", b[1], dom.scale(var(n), 8))
        r.info["range"] = n
from .ir import Ty
PTR = Ty("p", 8)

def const_char(E, name, n):
    """declared as `const char *`"""
    T = E.D.fntypes(name)
    if not T or n + 1 >= len(T): return False
    t = T[n + 1]
    x = E.D.n.get(t, "")
    for _ in range(4):
        if "DW_TAG_pointer_type" in x: break
        t = E.D.ref(x, "baseType"); x = E.D.n.get(t, "")
    b = E.D.ref(x, "baseType")
    return b is not None and "DW_TAG_const_type" in E.D.n.get(b, "")
