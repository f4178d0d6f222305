"""Rules of the interface group (M03, M04, M06, A01-A05, C02) over the path summaries of one operation."""
import re
from . import dom, models, spec, mem
from .dom import const
from .interp import P, NULL
from .ir import Ty
PTR = Ty("p", 8)

def events(st):
    out = []
    e = st.ev
    while e is not None: out.append(e[0]); e = e[1]
    return out[::-1]

def pointee(D, t):
    """(is pointer, pointee type id, pointee is const) of a declared type"""
    for _ in range(6):
        if t is None: return False, None, False
        x = D.n.get(t, "")
        if "DW_TAG_pointer_type" in x:
            b = D.ref(x, "baseType")
            return True, b, b is not None and "DW_TAG_const_type" in D.n.get(b, "")
        t = D.ref(x, "baseType")
    return False, None, False

def result(ctx, r):
    """'ok', 'fail', 'void' or None (unknown) of a path, judged by the declared result type"""
    E = ctx.E; T = E.D.fntypes(ctx.name)
    if not T or T[0] is None: return "void"
    v = r.ret
    if ctx.returns_status():
        c = ctx.cval(r)
        if c == 0: return "ok"
        if c is not None: return "fail"
        l = ctx.ret_int(r)
        if l is not None and r.st.cs.prove_neq0(l): return "fail"
        return None
    if v is None: return "void"
    if v[0] == "p":
        n = E.nullness(r.st, v[1]) if v[1] else True
        return "fail" if n is True else "ok" if n is False else None
    if v[0] == "b": return "fail" if v[1] is False else "ok" if v[1] is True else None
    d = E.D.desc(T[0])
    if d[0] == "int":
        if d[1] in ("_Bool", "bool"):
            c = ctx.cval(r)
            return None if c is None else "ok" if c else "fail"
    return "other"

def first(evs, k):
    for e in evs:
        if e.k == k: return e
    return None

# ------------------------------------------------------------------ M03
def grown(ctx, r, evs):
    """hash map storing: the entry is in the map when growing the bucket array fails (documented degradation)"""
    af = max((n for n, e in enumerate(evs) if e.k == "allocfail"), default=len(evs))
    for n, e in enumerate(evs[:af]):
        if e.k == "store" and isinstance(e.d[3], tuple) and ctx.E.R[e.d[0]].kind == "sym" and ctx.E.struct_of(ctx.E.R[e.d[0]].ty) == "rcutils_hash_map_impl_s": return True
        if e.k == "memcpy" and ctx.desc(e.d[0][1]).endswith("->value"): return True
    return False
def nothing_requested(ctx, r, evs):
    """every failed request was for zero bytes: no result depends on it"""
    return all(r.st.cs.prove_eq0(e.d[0]) for e in evs if e.k == "allocfail" and isinstance(e.d[0], tuple)) and any(e.k == "allocfail" for e in evs)
TOLERATED = {"rcutils_hash_map_set": grown}
# operations documented to report an allocation failure with another status
NOMEM_STATUS = {"rcutils_logging_initialize_with_allocator": (2, 10, 40), "rcutils_calculate_directory_size": (10, 2), "rcutils_calculate_directory_size_with_recursion": (10, 2), "rcutils_logging_set_logger_level": (10, 2),
                "rcutils_logging_format_message": (10, 2), "rcutils_char_array_vsprintf": (10, 2)}

def m03(ctx):
    E = ctx.E
    for ev, st in E.found:
        if ev.k == "viol" and ev.d[0] in ("null-deref", "null-call") and st.flags.get("allocfail"):
            ctx.report("null-deref", "after-allocation-failure", "the null result of a failed allocation is dereferenced", ev.loc, ev.stk)
    for r in ctx.final():
        n = r.st.flags.get("allocfail")
        if not n: continue
        res = result(ctx, r); evs = events(r.st); af = first(evs, "allocfail")
        ok = res in ("fail", "other", "void")
        if not ok: ok = nothing_requested(ctx, r, evs)
        if not ok and ctx.name in TOLERATED: ok = TOLERATED[ctx.name](ctx, r, evs)
        ctx.ob(ok)
        if not ok:
            ctx.report("success", "allocation-failure-ignored", "returns %s although an allocation failed" % mem.show_ret(ctx, r), af.loc if af else None, af.stk if af else ())
        elif res == "fail" and ctx.returns_status():
            c = ctx.cval(r)
            if c is None: continue
            only = not (r.st.flags.get("sysfail") or r.st.flags.get("fmtfail"))
            good = c in NOMEM_STATUS.get(ctx.name, (10,)) or not only
            ctx.ob(good)
            if not good:
                ctx.report("status", "not-out-of-memory", "reports a failed allocation as status %s" % c, af.loc if af else None, af.stk if af else ())

# ------------------------------------------------------------------ A03
# statuses that answer a lookup, documented not to be errors
ANSWER = {14: "not found", 50: "no more entries", 12: "not enough space", 41: "not a severity name"}
QUIET_FNS = {"rcutils_string_map_key_exists", "rcutils_string_map_key_existsn", "rcutils_string_map_get", "rcutils_string_map_getn", "rcutils_string_map_get_next_key",
             "rcutils_hash_map_key_exists"}
STDERR_FNS = models.STDERR_FNS
ALLOCFN = ("allocate", "deallocate", "reallocate", "zero_allocate")
AFIELDS = (("allocate", 0), ("deallocate", 8), ("reallocate", 16), ("zero_allocate", 24), ("state", 32))
def kept_allocators(E, st):
    """(region, offset, allocators of the blocks kept beside it) of every allocator stored in an object the caller can reach, whose contents this operation wrote"""
    seen = set(); out = []
    def walk(rid, base, struct, depth):
        if depth > 4 or struct not in spec.LAYOUT or (rid, base) in seen or st.heap.get(rid) == "freed": return
        seen.add((rid, base)); al = []; blocks = set()
        if E.R[rid].kind == "heap" and E.R[rid].info.get("alloc") is not None: blocks.add(E.R[rid].info["alloc"])
        for n, o, t in E.D.members(E.structs().get(struct)):
            d = E.D.desc(t); at = dom.addc(base, o)
            if d[0] == "struct" and d[1] == "rcutils_allocator_s": al.append(at)
            elif d[0] == "struct" and d[1] in spec.LAYOUT: walk(rid, at, d[1], depth + 1)
            elif d[0] == "ptr":
                p = E.ldp(st, rid, at)
                if p is None or p[0] != "p" or not p[1] or st.null.get(p[1]) is True: continue
                if E.R[p[1]].kind == "heap" and st.heap.get(p[1]) == "live" and E.R[p[1]].info.get("alloc") is not None: blocks.add(E.R[p[1]].info["alloc"])
                cn = E.struct_of(d[1]) if d[1] is not None else None
                if cn in spec.LAYOUT and cn != "rcutils_allocator_s" and p[2] == const(0): walk(p[1], const(0), cn, depth + 1)
        for a in al:
            if st.mem.get(rid): out.append((rid, a, blocks))
    for rid, x in list(E.R.items()):
        if x is not None and x.kind == "param" and x.ty is not None and st.null.get(rid) is not True:
            cn = E.struct_of(x.ty)
            if cn and cn != "rcutils_allocator_s": walk(rid, const(0), cn, 0)
        elif x is not None and x.kind == "global" and st.mem.get(rid) and x.ty is not None and E.struct_of(x.ty) == "rcutils_allocator_s": out.append((rid, const(0), set()))
    return out
def stored_allocators(ctx, r):
    E = ctx.E; st = r.st
    given = [i for i, x in E.R.items() if x is not None and x.kind in ("param", "byval") and x.ty is not None and E.struct_of(x.ty) == "rcutils_allocator_s"]
    for rid, at, blocks in kept_allocators(E, st):
        who = {}; nostate = False
        for f, o in AFIELDS:
            v = E.ldp(st, rid, dom.addc(at, o))
            if v is None: who = None; break
            if v[0] == "fn": who[f] = models.DEF if v[1] in default_functions() else None
            elif v[0] == "p" and v[1]:
                k = models.origin_key(E, v[1])
                who[f] = None if k is None else k[0] if k[1] == f else ("field", k[1])
            elif v[0] == "p": nostate |= f == "state"; who[f] = "null"
            else: who[f] = None
        if not who or who["allocate"] in (None, "null") or any(x is None for x in who.values()): continue
        a = who["allocate"]
        if a == (rid, at): continue        # as it was
        odd = sorted(f for f, x in who.items() if x != a and not (f == "state" and x == "null"))
        if nostate and a != models.DEF and not any(x is not None and x.kind == "sym" and models.origin_key(E, i) == (a, "state") and st.null.get(i) is True for i, x in E.R.items()): odd.append("state")
        ctx.ob(not odd)
        if odd: ctx.report("stored", ctx.desc(rid) + "." + odd[0], "an object is left with an allocator put together from several: its %s is not the one of its allocate" % odd[0], ctx.last_loc(r)); continue
        if not blocks and len(given) == 1: blocks = {(given[0], const(0))}
        other = sorted(str(b) for b in blocks if b != a)
        ctx.ob(not other)
        if other: ctx.report("stored", ctx.desc(rid), "an object is left with an allocator other than the one its memory was obtained from", ctx.last_loc(r))
_DF = []
def default_functions():
    if not _DF:
        from . import heap
        _DF.append(set(heap.defaults()))
    return _DF[0]
def bad_allocator(ctx, st):
    """the validity of an allocator was tested and is not established on this path"""
    E = ctx.E; merged = E.opts.get("merge", True)      # joined paths no longer say which of the functions was missing
    for rid, x in E.R.items():
        if x.kind == "sym" and x.origin and x.origin[2] and x.origin[2][1] in ALLOCFN and (st.null.get(rid) is True or merged and st.null.get(rid) is None): return True
    return False

def a03(ctx):
    quiet = ctx.name in QUIET_FNS
    if not ctx.returns_status() and not quiet: return
    for r in ctx.final():
        evs = events(r.st)
        c = ctx.cval(r) if ctx.returns_status() else None
        if quiet or (c in ANSWER and c != 12 and not r.st.flags.get("err")):
            e = first(evs, "seterr") or first(evs, "reseterr")
            if quiet: bad_ok = e is None or bad_allocator(ctx, r.st) or result(ctx, r) == "fail" and null_arg(ctx, r.st)
            else: bad_ok = e is None or e.k == "seterr"
            ctx.ob(bad_ok)
            if not bad_ok: ctx.report("disturbs", e.k, "a lookup changes the error state", e.loc, e.stk)
            continue
        if result(ctx, r) != "fail": continue
        ok = bool(r.st.flags.get("err")) or c in ANSWER
        if not ok and c == 11: ok = bad_allocator(ctx, r.st)
        if not ok and ctx.name in STDERR_FNS: ok = bool(r.st.flags.get("out"))
        if not ok and any(e.k == "icall" for e in evs):
            ctx.inconclusive("nomsg", c, next(e for e in evs if e.k == "icall")); continue
        ctx.ob(ok)
        if not ok:
            ctx.report("nomsg", c, "returns status %s without an error message" % c, ctx.last_loc(r))

def null_arg(ctx, st):
    E = ctx.E
    return any(n is True and (E.R[rid].kind == "param" or E.R[rid].kind == "sym" and E.R[rid].origin and E.R[rid].origin[2] and E.R[rid].origin[2][1] == "impl") for rid, n in st.null.items())

# ------------------------------------------------------------------ A04
def sysfails(evs):
    return [e for e in evs if e.k == "sys" and e.d[-1] is False]
def a04_ok(ctx, r, evs):
    """documented fallbacks"""
    fl = r.st.flags
    if ctx.name == "rcutils_hash_map_set" and fl.get("allocfail") and grown(ctx, r, evs): return True
    if fl.get("allocfail") and not fl.get("sysfail") and not fl.get("fmtfail") and nothing_requested(ctx, r, evs): return True
    f = sysfails(evs)
    if ctx.name == "rcutils_mkdir" and f and all(e.d[0] == "mkdir" for e in f) and any(e.k == "sys" and e.d[0] in ("stat", "lstat") and e.d[-1] is True for e in evs): return True
    return False
def a04(ctx):
    for r in ctx.final():
        fl = r.st.flags
        bad = [k for k in ("allocfail", "sysfail", "fmtfail") if fl.get(k)]
        if not bad: continue
        res = result(ctx, r); evs = events(r.st)
        ok = res in ("fail", "other", "void") or a04_ok(ctx, r, evs)
        if not ok and bad == ["fmtfail"]:
            ok = not fl.get("fmthard")
        ctx.ob(ok)
        if not ok:
            e = [x for x in evs if x.k in ("allocfail", "fmtfail")] + sysfails(evs)
            e = e[0] if e else None
            ctx.report("dropped", "%s-%s" % ("+".join(bad), (e.d[0] if e is not None and e.k == "sys" else "")), "returns success although a step it depends on failed (%s)" % (",".join(bad)), e.loc if e else None, e.stk if e else ())
# ------------------------------------------------------------------ A05
def const_params(ctx):
    """argument numbers declared as pointers to const"""
    E = ctx.E; T = E.D.fntypes(ctx.name) or []
    return {n for n, t in enumerate(T[1:]) if pointee(E.D, t)[2]}
def root(E, rid):
    for _ in range(20):
        r = E.R[rid]
        if r.kind == "sym" and r.origin: rid = r.origin[0]; continue
        return rid
    return rid
def a05(ctx):
    E = ctx.E; cp = const_params(ctx)
    if not cp: return
    for r in ctx.rs:
        for rid, log in r.st.mem.items():
            x = E.R[rid]
            if x.kind not in ("param", "sym") or x.info.get("unk"): continue
            ro = E.R[root(E, rid)]
            if ro.kind != "param" or ro.info.get("argn") not in cp: continue
            ctx.ob(not log)
            if log: ctx.report("modified", ctx.desc(rid), "%s, reached through a read-only argument, is modified" % ctx.desc(rid), ctx.last_loc(r))
        for rid, v in r.st.heap.items():
            x = E.R[rid]
            if v != "freed" or x.kind not in ("param", "sym"): continue
            ro = E.R[root(E, rid)]
            if ro.kind != "param" or ro.info.get("argn") not in cp: continue
            ctx.report("released", ctx.desc(rid), "%s, reached through a read-only argument, is released" % ctx.desc(rid), ctx.last_loc(r))
        ctx.ob()

# ------------------------------------------------------------------ A01
# documented preconditions (passing null there is the caller's error) and places that are invariants, not arguments: (function, place)
PRECOND = [(r"rcutils_char_array_(memcpy|strcpy)", r"arg1|arg0->buffer"), (r"rcutils_char_array_(strcat|strncat|vsprintf)", r"arg[01]|arg0->buffer"),
           (r"rcutils_cli_.*", r"arg0->\[\]|arg2"), (r"rcutils_hash_map_string_(hash|cmp)_func", r"arg[01]->\[\]"), (r"rcutils_logging_console_output_handler", r"arg4"),
           (r"rcutils_is_shared_library_loaded|rcutils_strerror", r"arg0"), (r"rcutils_split_last", r"arg3"), (r".*", r"(.*->)?list->\*(->.*)?")]
# null is a valid value of these arguments
NULL_OK = {("rcutils_split", 0), ("rcutils_split_last", 0), ("rcutils_string_map_get_next_key", 1), ("rcutils_hash_map_get_next_key_and_data", 1), ("rcutils_reallocf", 0),
           ("rcutils_set_env", 1), ("rcutils_set_env_overwrite", 1), ("rcutils_logging_set_output_handler", 0), ("rcutils_qsort", 0), ("rcutils_expand_user", 0),
           ("rcutils_logging_format_message", 3), ("rcutils_logging_format_message", 0), ("rcutils_char_array_strncat", 1), ("rcutils_set_error_state", 0), ("rcutils_set_error_state", 1),
           ("rcutils_get_env", 0), ("rcutils_get_env", 1), ("rcutils_logging_logger_is_enabled_for", 0), ("rcutils_snprintf", 0), ("rcutils_vsnprintf", 0)}
# value returned for a null argument by operations that do not return a status or a pointer
NULL_VALUE = {"rcutils_find": -1, "rcutils_findn": -1, "rcutils_find_last": -1, "rcutils_find_lastn": -1, "rcutils_get_file_size": 0, "rcutils_strcasecmp": -1, "rcutils_strncasecmp": -1,
              "rcutils_snprintf": -1, "rcutils_vsnprintf": -1}
OUT_ZEROED = {"rcutils_split", "rcutils_split_last"}
def alloc_known(ctx, r, place):
    """the four functions of an allocator argument are known to be set"""
    E = ctx.E; found = {}
    for rid, x in E.R.items():
        if x.kind == "sym" and x.origin and x.origin[2] and x.origin[2][1] in ALLOCFN and ctx.desc(rid) == place + "->" + x.origin[2][1]:
            found[x.origin[2][1]] = r.st.null.get(rid) is False
    return [f for f in ALLOCFN if not found.get(f)]
def a01(ctx):
    from .required import REQ
    E = ctx.E
    for ev, st in E.found:
        if ev.k == "viol" and ev.d[0] in ("null-deref", "null-call") and not st.flags.get("allocfail"):
            ctx.report("null-deref", "null", "a null pointer is dereferenced", ev.loc, ev.stk)
        if ev.k in ("deref?", "call?"):
            d = ctx.desc(ev.d[0])
            if not re.match(r"(arg\d|byval)", d): continue
            if any(re.fullmatch(f, ctx.name) and re.fullmatch(p, d) for f, p in PRECOND): continue
            ctx.report("unchecked", d, "%s is used without a null test" % d, ev.loc, ev.stk)
    req = REQ.get(ctx.name, ())
    for r in ctx.final():
        res = result(ctx, r); st = r.st
        nul = {ctx.desc(rid) for rid, n in st.null.items() if n is True and E.R[rid].kind in ("param", "sym")}
        if res == "ok":
            nn = {ctx.desc(rid) for rid, n in st.null.items() if n is False}
            for q in req:
                if q.startswith("ALLOC:"):
                    miss = alloc_known(ctx, r, q[6:]); ctx.ob(not miss)
                    if miss: ctx.report("accepted", q, "succeeds without %s of the allocator argument having been checked" % "/".join(miss), ctx.last_loc(r))
                else:
                    ctx.ob(q in nn)
                    if q not in nn: ctx.report("accepted", q, "succeeds without %s having been checked against null" % q, ctx.last_loc(r))
        for d in sorted(nul):
            m = re.fullmatch(r"arg(\d)(->impl)?", d)
            if not m or (ctx.name, int(m.group(1))) in NULL_OK and not m.group(2): continue
            if m.group(2) and d not in req: continue
            if any(re.fullmatch(f, ctx.name) and re.fullmatch(p, d) for f, p in PRECOND): continue
            ok = res in ("fail", "void")
            if res == "other" or (res is None and ctx.name in NULL_VALUE):
                w = NULL_VALUE.get(ctx.name); c = ctx.cval(r)
                if w is None: continue
                ok = c is not None and (c - w) % (1 << 32) == 0
            ctx.ob(ok)
            if not ok: ctx.report("null-accepted", d, "returns %s although %s is null" % (mem.show_ret(ctx, r), d), ctx.last_loc(r))
            if ctx.name in OUT_ZEROED: continue
            for rid, log in st.mem.items():
                if not log or E.R[rid].kind not in ("param", "sym") or E.R[rid].info.get("unk") or not re.match(r"arg\d", ctx.desc(rid)): continue
                ctx.report("modified", ctx.desc(rid), "%s is modified although %s is null" % (ctx.desc(rid), d), ctx.last_loc(r))

# ------------------------------------------------------------------ A02
ALLOWED = {
    "rcutils_array_list_(add)": (0, 2, 10, 11, 13), "rcutils_array_list_(fini|get|get_size|remove|set)": (0, 2, 11, 13), "rcutils_array_list_init": (0, 2, 10, 11),
    "rcutils_calculate_directory_size.*": (0, 2, 10, 11),
    "rcutils_char_array_(expand_as_needed|memcpy|strcat|strcpy|strncat|vsprintf)": (0, 2, 10), "rcutils_char_array_fini": (0, 2, 11),
    "rcutils_char_array_(init|resize)": (0, 2, 10, 11), "rcutils_get_platform_library_name": (0, 2, 11),
    "rcutils_hash_map_(fini|get_capacity|get_size)": (0, 2, 11, 13), "rcutils_hash_map_unset": (0, 2, 11, 13, 14, 32), "rcutils_hash_map_get": (0, 2, 11, 13, 14),
    "rcutils_hash_map_get_next_key_and_data": (0, 2, 11, 13, 14, 50), "rcutils_hash_map_init": (0, 2, 10, 11, 30), "rcutils_hash_map_set": (0, 2, 10, 11, 13),
    "rcutils_initialize_error_handling_thread_local_storage": (0, 2, 10, 11), "rcutils_load_shared_library": (0, 2, 10, 11), "rcutils_logging_format_message": (0, 2, 10),
    "rcutils_logging_initialize": (0, 2, 10, 11, 40), "rcutils_logging_initialize_with_allocator": (0, 2, 10, 11, 40), "rcutils_logging_set_logger_level": (0, 2, 11, 40), "rcutils_logging_severity_level_from_string": (0, 2, 10, 11, 41),
    "rcutils_logging_shutdown": (0, 40), "rcutils_qsort": (0, 2, 11), "rcutils_split(_last)?": (0, 2, 10, 11), "rcutils_(steady|system)_time_now": (0, 2, 11),
    "rcutils_string_array_(cmp|fini)": (0, 2, 11), "rcutils_string_array_(init|resize)": (0, 2, 10, 11), "rcutils_string_map_(clear|get_capacity|get_size)": (0, 2, 11, 31),
    "rcutils_string_map_fini": (0, 2, 11, 31), "rcutils_string_map_(copy|reserve|set)": (0, 2, 10, 11, 31), "rcutils_string_map_init": (0, 2, 10, 11, 30),
    "rcutils_string_map_set_no_resize": (0, 2, 10, 11, 12, 31), "rcutils_string_map_unset": (0, 2, 11, 31, 32), "rcutils_time_point_value_as_.*": (0, 2, 11),
    "rcutils_uint8_array_fini": (0, 2, 11), "rcutils_uint8_array_(init|resize)": (0, 2, 10, 11), "rcutils_unload_shared_library": (0, 2, 11)}
NULL_STATUS = [(r"rcutils_char_array_.*", (2, 11)), (r"rcutils_logging_set_logger_level", (11, 40)), (r".*", (11,))]
IMPL_STATUS = [(r"rcutils_string_map_.*", (31,)), (r"rcutils_(array_list|hash_map)_.*", (13,))]
def a02(ctx):
    if not ctx.returns_status(): return
    E = ctx.E
    al = next((v for k, v in ALLOWED.items() if re.fullmatch(k, ctx.name)), None)
    for r in ctx.final():
        c = ctx.cval(r); st = r.st
        if c is None:
            if al is not None: ctx.inconclusive("status", "value", None)
            continue
        if al is None: ctx.inconclusive("status", "undocumented operation"); continue
        ctx.ob(c in al)
        if c not in al: ctx.report("status", c, "returns status %s, which its documentation does not list (%s)" % (c, ", ".join(map(str, al))), ctx.last_loc(r))
        if c == 0: continue
        np, ni = [], []
        for rid, n in st.null.items():
            if n is not True: continue
            m = re.fullmatch(r"arg(\d)(->impl)?", ctx.desc(rid))
            if not m or (not m.group(2) and (ctx.name, int(m.group(1))) in NULL_OK): continue
            (ni if m.group(2) else np).append(ctx.desc(rid))
        if ctx.name.endswith("_init"): ni = []
        def table(t, what):
            w = next((x for f, x in t if re.fullmatch(f, ctx.name)), None)
            if w is None: return
            ctx.ob(c in w)
            if c not in w: ctx.report("status", "%s-%s" % (what, c), "returns status %s for %s, documented is %s" % (c, what, "/".join(map(str, w))), ctx.last_loc(r))
        if np: table(NULL_STATUS, "a null argument")
        elif ni: table(IMPL_STATUS, "an uninitialised object")

# ------------------------------------------------------------------ M04
def m04(ctx):
    E = ctx.E
    for ev, st in E.found:
        if ev.k == "badstate":
            ctx.report("state", ev.d[0], "the allocator's %s is called with a state value that is not its own" % ev.d[0], ev.loc, ev.stk)
    for r in ctx.final():
        st = r.st; stored_allocators(ctx, r)
        for e in events(st):
            if e.k == "alloc":
                ctx.ob()
                if e.d[2] is not None and e.d[2][0] in ("default", "cheap"): ctx.report("source", e.d[2][0], "memory is obtained from %s" % e.d[2][0], e.loc, e.stk)
            if e.k == "free" and e.d[0]:
                ctx.ob()
                x = E.R[e.d[0]]; a = x.info.get("alloc")
                if e.d[1] is None: continue
                if e.d[1][0] in ("default", "cheap"):
                    ctx.report("sink", ctx.desc(e.d[0]), "%s is released through %s" % (ctx.desc(e.d[0]), e.d[1]), e.loc, e.stk)
                elif a is not None and a != e.d[1]:
                    ctx.report("mismatch", ctx.desc(e.d[0]), "%s was obtained from allocator %s but released through %s" % (ctx.desc(e.d[0]), a, e.d[1]), e.loc, e.stk)
