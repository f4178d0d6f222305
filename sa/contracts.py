"""Assume-guarantee summaries of the container operations at their documented interface, used when analysing their
clients (hash map over array lists, logging over the hash map, string map copy).  Each summary is what the container
properties C01-C04/M01-M04 establish about the operation itself in its own analysis."""
from . import dom, models
from .dom import const, var, sym, fresh
from .interp import I, CI, P, NULL, TRUE, FALSE, Incomplete
from .ir import Ty
PTR = Ty("p", 8); SZ = Ty("i", 8, 64)
OK, BAD_ALLOC, INVALID, NOT_FOUND, NO_MORE, NOT_INIT = 0, 10, 11, 14, 50, 13

def ret(s, v): return (s, CI(32, v))
def fail(eng, st, code, ins, err=True):
    if err: st.flags["err"] = True
    return ret(st, code)
def step_alloc_fail(eng, st, ins, err=True):
    st.flags["allocfail"] = st.flags.get("allocfail", 0) + 1
    eng.event(st, "allocfail", (None, None, models.siteof(eng, st, ins)), ins)
    return fail(eng, st, BAD_ALLOC, ins, err)

def split_null(eng, st, v, ins):
    """(null states, non-null states) of pointer v"""
    if v[0] != "p": return [], [st]
    return eng.peqn(st, v, NULL, ins)

def ptr_at(eng, st, p, ins, off=0):
    if not eng.check_access(st, p, 8, "load", ins): return None
    return eng.load(st, p[1], dom.addc(p[2], off), PTR)[0][1]

# ------------------------------------------------------------------ array list (elements of pointer size in clients)
def al_impl(eng, st, lst, ins):
    return ptr_at(eng, st, lst, ins)

def al_init(eng, st, args, ins):
    lst, cap, dsz, alloc = args; out = []
    n, nn = split_null(eng, st, lst, ins)
    for s in n: out.append(fail(eng, s, INVALID, ins))
    for s in nn:
        n2, nn2 = split_null(eng, s, alloc, ins)
        for x in n2: out.append(fail(eng, x, INVALID, ins))
        for x in nn2:
            im = al_impl(eng, x, lst, ins)
            if im is None: continue
            a, b = split_null(eng, x, im, ins)
            for y in b: out.append(fail(eng, y, INVALID, ins))
            for y in a:
                z = y.copy()
                out.append(step_alloc_fail(eng, z, ins))
                L = eng.layout("rcutils_array_list_impl_s")
                org = models.DEF if alloc[0] != "p" else ((alloc[1], alloc[2]))
                ac = allocator_origin(eng, y, alloc, ins)
                impl = models.new_block(eng, y, ins, const(80), ac)
                eng.R[impl].ty = eng.structs().get("rcutils_array_list_impl_s")
                body = models.new_block(eng, y, ins, dom.mul(cap[2], dsz[2]), ac)
                eng.R[impl].info["modelled"] = True; eng.R[body].info["modelled"] = True; eng.R[body].info["lazy"] = True
                eng.event(y, "alloc", (impl, const(80), ac), ins); eng.event(y, "alloc", (body, None, ac), ins)
                eng.store(y, impl, const(L["size"][0]), CI(64, 0), 8); eng.store(y, impl, const(L["capacity"][0]), cap, 8)
                eng.store(y, impl, const(L["data_size"][0]), dsz, 8); eng.store(y, impl, const(L["list"][0]), P(body), 8)
                eng.write_range(y, impl, const(L["allocator"][0]), const(40), ("copy", alloc[1], eng.log(y, alloc[1]), alloc[2], y.lver.get(alloc[1], 0)))
                eng.store(y, lst[1], lst[2], P(impl), 8)
                if eng.R[lst[1]].kind != "alloca": eng.event(y, "store", (lst[1], lst[2], 8, P(impl)), ins)
                out.append(ret(y, OK))
    return out
def allocator_origin(eng, st, alloc, ins):
    """identity of the allocator struct at this address, as the callbacks see it"""
    v = ptr_at(eng, st, alloc, ins)
    if v is not None and v[0] == "p":
        o = models.origin_key(eng, v[1])
        if o: return o[0]
    if v is not None and v[0] == "fn": return models.DEF
    return (alloc[1], alloc[2])
def al_add(eng, st, args, ins):
    lst, data = args; out = []
    for s in split_null(eng, st, lst, ins)[0]: out.append(fail(eng, s, INVALID, ins))
    if st.cs.bad: return out
    im = al_impl(eng, st, lst, ins)
    if im is None: return out
    a, b = split_null(eng, st, im, ins)
    for s in a: out.append(fail(eng, s, NOT_INIT, ins))
    L = eng.layout("rcutils_array_list_impl_s")
    for s in b:
        if not eng.check_access(s, P(im[1]), 8, "load", ins): continue
        if data[0] == "p" and not eng.check_access(s, data, 8, "load", ins): continue
        s2 = s.copy()
        out.append(step_alloc_fail(eng, s2, ins))
        v = eng.load(s, data[1], data[2], PTR)[0][1]
        sz = eng.load(s, im[1], const(L["size"][0]), SZ)[0][1]
        eng.event(s, "al_add", (im[1], v, lst), ins)
        if v[0] == "p": s.flags[("esc", v[1])] = True
        if sz[0] == "i" and sz[2][1]: s.cs.assume_le(dom.addc(sz[2], -(1 << 60)))
        eng.store(s, im[1], const(L["size"][0]), I(64, dom.addc(sz[2], 1)), 8)
        lv = eng.load(s, im[1], const(L["list"][0]), PTR)[0][1]
        if lv[0] == "p":
            eng.store(s, lv[1], dom.add(lv[2], dom.scale(sz[2], 8)), v, 8)
        out.append(ret(s, OK))
    return out
ARRAY_LIST = {"rcutils_array_list_init": al_init, "rcutils_array_list_add": al_add}

# ------------------------------------------------------------------ hash map (string keys, int values) for logging
def hm_state(eng, st, m, ins):
    im = ptr_at(eng, st, m, ins)
    return im
def hm_ver(st, m): return st.flags.get(("hmver", m[1]), 0)
def keyid(eng, st, kp, ins):
    k = ptr_at(eng, st, kp, ins)
    if k is None: return None, None
    if k[0] == "p" and eng.nullness(st, k[1]) is not True and models.cstr(eng, st, k, ins) is None: return None, None
    return k, (models.strid(eng, st, k) if k[0] == "p" and k[1] else ("null",))
def hm_guard(eng, st, m, ins, out):
    """states in which the map is valid"""
    n, nn = split_null(eng, st, m, ins)
    for s in n: out.append(fail(eng, s, INVALID, ins))
    good = []
    for s in nn:
        im = hm_state(eng, s, m, ins)
        if im is None: continue
        a, b = split_null(eng, s, im, ins)
        for x in a: out.append(fail(eng, x, NOT_INIT, ins))
        for x in b:
            if eng.check_access(x, P(im[1]), 8, "load", ins): good.append((x, im))
    return good
def hm_init(eng, st, args, ins):
    m, cap, ks, ds, hf, cf, alloc = args; out = []
    s2 = st.copy(); out.append(step_alloc_fail(eng, s2, ins))
    ac = allocator_origin(eng, st, alloc, ins)
    impl = models.new_block(eng, st, ins, const(104), ac)
    eng.R[impl].info["modelled"] = True; eng.R[impl].info["lazy"] = True
    eng.event(st, "alloc", (impl, const(104), ac), ins)
    eng.event(st, "hm_init", (m, ks, ds, hf, cf, ac), ins)
    eng.store(st, m[1], m[2], P(impl), 8)
    st.flags[("hmver", m[1])] = hm_ver(st, m) + 1
    out.append(ret(st, OK))
    return out
def hm_fini(eng, st, args, ins):
    m = args[0]; out = []
    for s, im in hm_guard(eng, st, m, ins, out):
        eng.event(s, "hm_fini", (m,), ins)
        s.heap[im[1]] = "freed"; eng.event(s, "free", (im[1], None), ins); s.flags[("modfree", im[1])] = True
        eng.store(s, m[1], m[2], NULL, 8)
        out.append(ret(s, OK))
    return out
def hm_get_size(eng, st, args, ins):
    out = []
    for s, im in hm_guard(eng, st, args[0], ins, out):
        if not eng.check_access(s, args[1], 8, "store", ins): continue
        n = sym(("hmsize", args[0][1], hm_ver(s, args[0])), 0, dom.MAXOBJ, {"name": "map size"})
        eng.store(s, args[1][1], args[1][2], I(64, var(n)), 8)
        out.append(ret(s, OK))
    return out
def hm_lookup(eng, st, m, kp, ins):
    """[(state, found?, key identity)]"""
    k, kid = keyid(eng, st, kp, ins)
    if k is None: return []
    fk = ("hmhas", m[1], hm_ver(st, m), kid)
    v = st.flags.get(fk)
    if v is not None: return [(st, v, kid)]
    s2 = st.copy(); st.flags[fk] = True; s2.flags[fk] = False
    eng.event(st, "hm_lookup", (m, kid, True), ins); eng.event(s2, "hm_lookup", (m, kid, False), ins)
    return [(st, True, kid), (s2, False, kid)]
def hm_get(eng, st, args, ins):
    m, kp, dp = args; out = []
    for s, im in hm_guard(eng, st, m, ins, out):
        for x, has, kid in hm_lookup(eng, s, m, kp, ins):
            if not has: out.append(ret(x, NOT_FOUND)); continue
            if not eng.check_access(x, dp, 4, "store", ins): continue
            v = sym(("hmval", m[1], hm_ver(x, m), kid), -(1 << 31), (1 << 31) - 1, {"name": "map[key]", "hmval": kid})
            eng.store(x, dp[1], dp[2], I(32, var(v)), 4)
            eng.event(x, "hm_get", (m, kid, v), ins)
            out.append(ret(x, OK))
    return out
def hm_key_exists(eng, st, args, ins):
    m, kp = args; out = []; junk = []
    for s, im in hm_guard(eng, st, m, ins, junk):
        for x, has, kid in hm_lookup(eng, s, m, kp, ins): out.append((x, TRUE if has else FALSE))
    out += [(s, FALSE) for s, v in junk]
    return out
def hm_set(eng, st, args, ins):
    m, kp, dp = args; out = []
    for s, im in hm_guard(eng, st, m, ins, out):
        k, kid = keyid(eng, s, kp, ins)
        if k is None: continue
        if not eng.check_access(s, dp, 4, "load", ins): continue
        s2 = s.copy(); out.append(step_alloc_fail(eng, s2, ins))
        v = eng.load(s, dp[1], dp[2], Ty("i", 4, 32))[0][1]
        has = s.flags.get(("hmhas", m[1], hm_ver(s, m), kid))
        eng.event(s, "hm_set", (m, k, kid, v, has), ins)
        if k[0] == "p" and has is not True: s.flags[("esc", k[1])] = True
        s.flags[("hmver", m[1])] = hm_ver(s, m) + 1
        s.flags[("hmset", m[1])] = (k, v)
        out.append(ret(s, OK))
    return out
def hm_unset(eng, st, args, ins):
    m, kp = args; out = []
    for s, im in hm_guard(eng, st, m, ins, out):
        k, kid = keyid(eng, s, kp, ins)
        if k is None: continue
        eng.event(s, "hm_unset", (m, k, kid), ins)
        s.flags[("hmver", m[1])] = hm_ver(s, m) + 1
        if k[0] == "p" and eng.R[k[1]].info.get("mapkey"): s.flags[("hmunset", k[1])] = True
        out.append(ret(s, OK))
    return out
def hm_next(eng, st, args, ins):
    m, prev, kp, dp = args; out = []
    for s, im in hm_guard(eng, st, m, ins, out):
        if not eng.check_access(s, kp, 8, "store", ins) or not eng.check_access(s, dp, 4, "store", ins): continue
        a, b = split_null(eng, s, prev, ins)
        for x in a + b:
            if x in b:
                k, kid = keyid(eng, x, prev, ins)
                if k is None: continue
            y = x.copy(); y.flags[("hmend", m[1])] = hm_ver(y, m)
            eng.event(y, "hm_end", (m,), ins)
            out.append(ret(y, NO_MORE))
            key = eng.region(("mapkey", ins.res, ins.line, tuple((f.fn.name, f.bi) for f in x.frames)), "ext", "map key", None, None, None, {"cstr": True, "mapkey": True})
            x.null[key] = False; x.heap.pop(key, None); x.flags.pop(("hmunset", key), None); x.flags.pop(("esc", key), None)
            v = fresh("mapval", -(1 << 31), (1 << 31) - 1)
            eng.store(x, kp[1], kp[2], P(key), 8); eng.store(x, dp[1], dp[2], I(32, var(v)), 4)
            eng.event(x, "hm_next", (m, key, x in a), ins)
            out.append(ret(x, OK))
    return out
HASH_MAP = {"rcutils_hash_map_init": hm_init, "rcutils_hash_map_fini": hm_fini, "rcutils_hash_map_get_size": hm_get_size, "rcutils_hash_map_get": hm_get,
            "rcutils_hash_map_key_exists": hm_key_exists, "rcutils_hash_map_set": hm_set, "rcutils_hash_map_unset": hm_unset,
            "rcutils_hash_map_get_next_key_and_data": hm_next}

# ------------------------------------------------------------------ string map, for its copy operation
def sm_guard(eng, st, m, ins, out, bad):
    n, nn = split_null(eng, st, m, ins)
    for s in n: out.append(bad(s))
    good = []
    for s in nn:
        im = ptr_at(eng, s, m, ins)
        if im is None: continue
        a, b = split_null(eng, s, im, ins)
        for x in a: out.append(bad(x))
        good += [(x, im) for x in b]
    return good
def sm_next(eng, st, args, ins):
    m, key = args; out = []
    for s, im in sm_guard(eng, st, m, ins, out, lambda s: (s, NULL)):
        y = s.copy(); eng.event(y, "sm_end", (m,), ins); y.flags[("smend",)] = True; out.append((y, NULL))
        k = eng.region(("smkey", im[1], ins.res, ins.line), "ext", "map key", None, None, None, {"cstr": True, "nonnull": True}); s.null[k] = False
        eng.event(s, "sm_next", (m, key, k), ins); s.flags[("smend",)] = False
        out.append((s, P(k)))
    return out
def sm_get(eng, st, args, ins):
    m, key = args; out = []
    for s, im in sm_guard(eng, st, m, ins, out, lambda s: (s, NULL)):
        if models.cstr(eng, s, key, ins) is None: continue
        v = eng.region(("smval", im[1], models.strid(eng, s, key)), "ext", "map value", None, None, None, {"cstr": True}); s.null[v] = False
        if not (key[0] == "p" and eng.R[key[1]].info.get("cstr") and eng.R[key[1]].name == "map key"):
            y = s.copy(); out.append((y, NULL))
        eng.event(s, "sm_get", (m, key, v), ins)
        out.append((s, P(v)))
    return out
def sm_set(eng, st, args, ins):
    m, key, val = args; out = []
    for s, im in sm_guard(eng, st, m, ins, out, lambda s: fail(eng, s, INVALID, ins)):
        if models.cstr(eng, s, key, ins) is None or models.cstr(eng, s, val, ins) is None: continue
        y = s.copy(); out.append(step_alloc_fail(eng, y, ins))
        eng.event(s, "sm_set", (m, key, val), ins)
        s.flags[("smset", m[1])] = (key, val)
        out.append(ret(s, OK))
    return out
STRING_MAP = {"rcutils_string_map_get_next_key": sm_next, "rcutils_string_map_get": sm_get, "rcutils_string_map_set": sm_set}

# ------------------------------------------------------------------ directory operations, for the directory size computation
def str_arg(eng, st, p, ins):
    """[(state, null?)] of a string argument"""
    n, nn = split_null(eng, st, p, ins)
    return [(s, True) for s in n] + [(s, False) for s in nn if models.cstr(eng, s, p, ins) is not None]
def dir_start(eng, st, args, ins):
    out = []
    for s, nul in str_arg(eng, st, args[0], ins):
        if nul: s.flags["err"] = True; out.append((s, NULL)); continue
        ac = allocator_origin(eng, s, args[1], ins)
        y = s.copy(); y.flags["err"] = True; y.flags["allocfail"] = y.flags.get("allocfail", 0) + 1
        eng.event(y, "allocfail", (None, None, models.siteof(eng, y, ins)), ins); out.append((y, NULL))
        y = s.copy(); y.flags["err"] = True; y.flags["sysfail"] = True
        eng.event(y, "sys", ("opendir", tuple(args), False), ins); out.append((y, NULL))
        it = models.new_block(eng, s, ins, const(56), ac)
        eng.R[it].ty = eng.structs().get("rcutils_dir_iter_s"); eng.R[it].info["modelled"] = True
        eng.event(s, "alloc", (it, const(56), ac), ins); eng.event(s, "open", ("diriter", it), ins)
        s.flags[("handle", it)] = "open"
        out += dir_entry(eng, s, it, ins, lambda x, has: P(it))
    return out
def dir_entry(eng, st, it, ins, val):
    nm = eng.region(("direntry", it), "ext", "entry name", None, None, None, {"cstr": True})
    y = st.copy(); st.null[nm] = False
    eng.store(st, it, const(0), P(nm), 8); eng.store(y, it, const(0), NULL, 8)
    eng.event(st, "entry", (it, nm), ins)
    return [(st, val(st, True)), (y, val(y, False))]
def dir_next(eng, st, args, ins):
    out = []
    n, nn = split_null(eng, st, args[0], ins)
    for s in n: s.flags["err"] = True; out.append((s, FALSE))
    for s in nn:
        if not eng.check_access(s, args[0], 8, "load", ins): continue
        out += dir_entry(eng, s, args[0][1], ins, lambda x, has: TRUE if has else FALSE)
    return out
def dir_end(eng, st, args, ins):
    out = []
    n, nn = split_null(eng, st, args[0], ins)
    for s in n: out.append((s, None))
    for s in nn:
        if s.flags.get(("handle", args[0][1])) == "closed":
            eng.event(s, "viol", ("double-free", "directory iterator"), ins); continue
        s.flags[("handle", args[0][1])] = "closed"; eng.event(s, "close", ("diriter", args[0][1]), ins)
        for x in models.free(eng, s, ins, args[0], None):
            x.flags[("modfree", args[0][1])] = True; out.append((x, None))
    return out
def join_path(eng, st, args, ins):
    out = []
    for s, nul in str_arg(eng, st, args[0], ins):
        if nul: out.append((s, NULL)); continue
        for s2, nul2 in str_arg(eng, s, args[1], ins):
            if nul2: out.append((s2, NULL)); continue
            y = s2.copy(); y.flags["allocfail"] = y.flags.get("allocfail", 0) + 1
            eng.event(y, "allocfail", (None, None, models.siteof(eng, y, ins)), ins); out.append((y, NULL))
            ac = allocator_origin(eng, s2, args[2], ins)
            L = fresh("joinlen", 0, dom.MAXOBJ - 1)
            b = models.new_block(eng, s2, ins, dom.addc(var(L), 1), ac)
            eng.write_range(s2, b, const(0), dom.addc(var(L), 1), ("str", ("join", models.Counter.next()), var(L)))
            eng.event(s2, "alloc", (b, dom.addc(var(L), 1), ac), ins); eng.event(s2, "join", (args[0], args[1], b), ins)
            out.append((s2, P(b)))
    return out
def pred(name):
    def f(eng, st, args, ins):
        out = []
        for s, nul in str_arg(eng, st, args[0], ins):
            if nul: out.append((s, FALSE)); continue
            y = s.copy()
            eng.event(s, "pred", (name, args[0], True), ins); eng.event(y, "pred", (name, args[0], False), ins)
            out += [(s, TRUE), (y, FALSE)]
        return out
    return f
def file_size(eng, st, args, ins):
    out = []
    for s, nul in str_arg(eng, st, args[0], ins):
        if nul: out.append((s, CI(64, 0))); continue
        v = fresh("filesize", 0, (1 << 63) - 1)
        eng.event(s, "filesize", (args[0], v), ins); out.append((s, I(64, var(v))))
    return out
DIRS = {"rcutils_dir_iter_start": dir_start, "rcutils_dir_iter_next": dir_next, "rcutils_dir_iter_end": dir_end, "rcutils_join_path": join_path,
        "rcutils_is_directory": pred("is_directory"), "rcutils_get_file_size": file_size}
SMI = "rcutils_string_map_impl_s"
def sm_reserve(eng, st, args, ins):
    m, cap = args; out = []
    for s, im in sm_guard(eng, st, m, ins, out, lambda s: fail(eng, s, INVALID, ins)):
        y = s.copy(); eng.event(y, "sm_reserve", (m, cap, False), ins); out.append(step_alloc_fail(eng, y, ins))
        eng.event(s, "sm_reserve", (m, cap, True), ins)
        # C04: the capacity afterwards is at least the one asked for
        c = var(fresh("reserved", 0, dom.MAXOBJ // 16)); n = eng.field_int(s, im[1], const(0), SMI, "size")
        for s2, want in models.lin(eng, s, cap):
            s2.cs.assume_le(dom.sub(want, c))
            if n is not None: s2.cs.assume_le(dom.sub(n, c))
            o = eng.layout(SMI)["capacity"][0]
            eng.store(s2, im[1], const(o), ("i", 64, c), 8)
            if not s2.cs.bad: out.append(ret(s2, OK))
    return out
def sm_set_nr(eng, st, args, ins):
    m, key, val = args; out = []
    for s, im in sm_guard(eng, st, m, ins, out, lambda s: fail(eng, s, INVALID, ins)):
        for s2, nul in str_arg(eng, s, key, ins):
            if nul: out.append(fail(eng, s2, INVALID, ins)); continue
            for s3, nul2 in str_arg(eng, s2, val, ins):
                if nul2: out.append(fail(eng, s3, INVALID, ins)); continue
                y = s3.copy(); eng.event(y, "sm_set_nr", (m, key, val, BAD_ALLOC), ins); out.append(step_alloc_fail(eng, y, ins))
                y = s3.copy(); eng.event(y, "sm_set_nr", (m, key, val, 12), ins)
                # C04: no space exactly when every slot is used
                n = eng.field_int(y, im[1], const(0), SMI, "size"); c = eng.field_int(y, im[1], const(0), SMI, "capacity")
                if n is None or c is None or y.cs.assume_le(dom.sub(c, n)): out.append(ret(y, 12))
                eng.event(s3, "sm_set_nr", (m, key, val, OK), ins); out.append(ret(s3, OK))
    return out
EXACT = {"rcutils_string_map_set": {"rcutils_string_map_reserve": sm_reserve, "rcutils_string_map_set_no_resize": sm_set_nr}}
CLIENTS = [("rcutils_calculate_directory_size", DIRS), ("rcutils_hash_map_", ARRAY_LIST), ("rcutils_log", HASH_MAP), ("rcutils_string_map_copy", STRING_MAP)]
def for_function(name):
    out = {}
    if name in EXACT: return dict(EXACT[name])
    for pre, mods in CLIENTS:
        if name.startswith(pre): out.update(mods)
    return out

# ------------------------------------------------------------------ postconditions of inlined operations (proved by the property named)
def post_sm_clear(eng, st, args, rv):
    """C04: clearing a map leaves no pair, so its count is zero"""
    if rv is None or rv[0] != "i" or st.cs.const_of(rv[2]) != OK or args[0][0] != "p": return True
    im = eng.load_quiet(st, args[0][1], args[0][2])
    if im[0] != "p" or eng.nullness(st, im[1]) is not False: return True
    n = eng.field_int(st, im[1], const(0), "rcutils_string_map_impl_s", "size")
    return True if n is None else st.cs.assume_eq0(n)
POST = {"rcutils_string_map_fini": {"rcutils_string_map_clear": post_sm_clear}}
