"""Rules about what operations do with the operating system: comparison, sorting, clocks, environment, paths, process."""
from . import dom, models
from .api import events, result, first
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL

def ev_of(evs, *ks): return [e for e in evs if e.k in ks]
def sysof(evs, *names): return [e for e in evs if e.k == "sys" and e.d[0] in names]
def out_stores(ctx, evs, i):
    """stores through the i-th parameter"""
    p = param(ctx, i)
    return [e for e in evs if e.k == "store" and p[0] == "p" and e.d[0] == p[1]]
def final(ctx, st, p, ty):
    """value left in memory at pointer p"""
    return ctx.E.load(st, p[1], p[2], ty)[0][1]
def chk(ctx, ok, kind, detail, msg, r, e=None):
    ctx.ob(ok)
    if not ok: ctx.report(kind, detail, msg, e.loc if e is not None and e.loc else ctx.last_loc(r), e.stk if e is not None else ())
    return ok

# ------------------------------------------------------------------ S04
CASE = {"rcutils_strcasecmp": (0, 1, None, 2), "rcutils_strncasecmp": (0, 1, 2, 3)}
def s04(ctx):
    a, b, n, v = CASE[ctx.name]
    seen = False
    for r in ctx.final():
        evs = events(r.st); cmp_ = ev_of(evs, "strcasecmp"); sts = out_stores(ctx, evs, v); c = ctx.cval(r); E = ctx.E
        ptrs = (a, b, v)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c != 0:
            bad = any(null(ctx, r.st, i) for i in ptrs)
            chk(ctx, bad, "rejects", "valid", "valid arguments are rejected", r)
            chk(ctx, not sts, "writes", "on-failure", "the result is written although the call is rejected", r, sts[0] if sts else None)
            continue
        chk(ctx, all(nonnull(ctx, r.st, i) for i in ptrs), "accepts", "null", "null arguments are accepted", r)
        if not all(nonnull(ctx, r.st, i) for i in ptrs): continue
        got = final(ctx, r.st, param(ctx, v), Ty("i", 4, 32))
        if not cmp_:
            z = got[0] == "i" and r.st.cs.prove_eq0(got[2])
            trivial = same(r.st, param(ctx, a), param(ctx, b)) or n is not None and r.st.cs.prove_eq0(param(ctx, n)[2])
            if z and trivial: ctx.ob(); continue
            if sts and got[0] == "i" and r.st.cs.const_of(got[2]) is None: ctx.inconclusive("own", "comparison"); continue
            chk(ctx, False, "result", "no-comparison", "the result is not that of the platform comparison", r, sts[0] if sts else None); continue
        seen = True
        e = cmp_[-1]
        ok = same(r.st, e.d[0], param(ctx, a)) and same(r.st, e.d[1], param(ctx, b))
        chk(ctx, ok, "operands", "order", "the strings are not compared in the given order", r, e)
        if n is None: okn = e.d[2] is None or e.d[2][0] == "i" and r.st.cs.const_of(e.d[2][2]) in (-1, (1 << 64) - 1)
        else: okn = e.d[2] is not None and same(r.st, e.d[2], param(ctx, n))
        chk(ctx, okn, "length", "limit", "the comparison is not limited to exactly the given length" if n is not None else "the comparison is limited", r, e)
        s = [i for i, m in dom.META.items() if isinstance(m, dict) and isinstance(m.get("strcmp"), tuple) and m["strcmp"][0] == "strcasecmp"]
        ok = got[0] == "i" and any(r.st.cs.prove_eq0(dom.sub(got[2], var(i))) for i in s)
        chk(ctx, ok, "result", "changed", "the stored result is not the comparison's result", r, sts[-1] if sts else e)

# ------------------------------------------------------------------ X03
def x03(ctx):
    sorted_ = False
    for r in ctx.final():
        evs = events(r.st); q = ev_of(evs, "qsort"); c = ctx.cval(r)
        cnt = param(ctx, 1)[2]
        small = r.st.cs.prove_le(dom.addc(cnt, -1)) and (r.st.cs.prove_le(dom.scale(cnt, -1)))
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c != 0:
            chk(ctx, not q, "touches", "on-failure", "the data is sorted although the call is rejected", r, q[0] if q else None)
            chk(ctx, null(ctx, r.st, 0) or null(ctx, r.st, 3), "rejects", "valid", "valid arguments are rejected", r)
            continue
        chk(ctx, nonnull(ctx, r.st, 3), "accepts", "null-comparison", "a null comparison function is accepted", r)
        if q:
            ok = len(q) == 1 and all(same(r.st, q[0].d[i], param(ctx, i)) for i in range(4))
            sorted_ = True
            chk(ctx, ok, "arguments", "changed", "the sort is not given exactly the array, count, size and comparison", r, q[0])
            chk(ctx, nonnull(ctx, r.st, 0), "accepts", "null-array", "a null array is accepted", r, q[0])
        else:
            chk(ctx, small, "unsorted", "success", "success is returned for several elements without sorting them", r)
    # a null array with at least two elements must be rejected
    if not sorted_ and ctx.final(): ctx.report("unsorted", "never", "no path sorts the array")

# ------------------------------------------------------------------ O05
CLOCK = {"rcutils_system_time_now": 0, "rcutils_steady_time_now": 1}
def o05(ctx):
    want = CLOCK[ctx.name]; oks = 0
    for r in ctx.final():
        evs = events(r.st); cl = ev_of(evs, "clock"); sts = out_stores(ctx, evs, 0); c = ctx.cval(r); cs = r.st.cs
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        for e in cl:
            k = e.d[0][0] == "i" and cs.const_of(e.d[0][2])
            chk(ctx, k == want, "clock", k, "reads clock %s instead of %s" % (k, ("CLOCK_REALTIME", "CLOCK_MONOTONIC")[want]), r, e)
        good = [e for e in cl if e.d[1] is not None]
        if c != 0:
            chk(ctx, not sts, "writes", "on-failure", "the output is written although the call fails", r, sts[0] if sts else None)
            if good and len(cl) == len(good):
                s, n = good[-1].d[1:3]; st2 = r.st.copy(); st2.cs = r.st.cs.copy()
                feas = st2.cs.assume_le(dom.scale(var(s), -1)) and st2.cs.assume_le(dom.scale(var(n), -1)) and st2.cs.assume_le(dom.addc(var(n), -999999999)) and st2.cs.assume_le(dom.addc(var(s), -9000000000))
                chk(ctx, not feas, "rejects", "valid-reading", "a valid clock reading is rejected", r, good[-1])
            elif not cl: chk(ctx, null(ctx, r.st, 0), "rejects", "valid", "a valid output pointer is rejected", r)
            continue
        oks += 1
        if not chk(ctx, len(good) >= 1, "success", "no-reading", "success is reported without a successful clock reading", r): continue
        s, n = good[-1].d[1:3]
        got = final(ctx, r.st, param(ctx, 0), Ty("i", 8, 64))
        ok = got[0] == "i" and cs.prove_eq0(dom.sub(got[2], dom.add(var(s, 1000000000), var(n))))
        chk(ctx, bool(sts) and ok, "value", "conversion", "the output is not seconds * 1000000000 + nanoseconds of the reading", r, sts[-1] if sts else None)
        st2 = cs.copy(); neg = st2.assume_le(dom.addc(var(s), 1))
        chk(ctx, not neg, "accepts", "negative-seconds", "a reading with negative seconds is accepted", r, good[-1])
        st2 = cs.copy(); neg = st2.assume_eq0(var(s)) and st2.assume_le(dom.addc(var(n), 1))
        chk(ctx, not neg, "accepts", "negative-time", "a reading before the epoch is accepted", r, good[-1])
    if ctx.final() and not oks: ctx.report("success", "never", "no path succeeds")

# ------------------------------------------------------------------ O03
def byte(ctx, st, p, k):
    """k-th byte of the text at p, a value"""
    return ctx.E.load(st, p[1], dom.addc(p[2], k), Ty("i", 1, 8))[0][1]
def empty(ctx, st, p):
    b = byte(ctx, st, p, 0)
    return b[0] == "i" and st.cs.prove_eq0(b[2])
def o03(ctx):
    E = ctx.E; name = ctx.name; oks = 0
    for r in ctx.final():
        evs = events(r.st); st = r.st
        g = ev_of(evs, "getenv"); sets = sysof(evs, "setenv", "unsetenv", "putenv", "clearenv")
        if name == "rcutils_get_env":
            sts = out_stores(ctx, evs, 1); f = fact(ctx, st, r.ret)
            chk(ctx, not sets, "modifies", "environment", "reading a variable changes the environment", r, sets[0] if sets else None)
            if f is None: ctx.inconclusive("ret", "unknown"); continue
            if f is True:
                oks += 1
                ok = nonnull(ctx, st, 0) and nonnull(ctx, st, 1)
                chk(ctx, ok, "accepts", "null", "null arguments are accepted", r)
                if not ok: continue
                v = E.load_quiet(st, param(ctx, 1)[1], param(ctx, 1)[2])
                okn = any(x.d[0] == models.strid(E, st, param(ctx, 0)) for x in g)
                if not chk(ctx, okn, "lookup", "name", "the given variable is not looked up", r, g[0] if g else None): continue
                w = [x.d[1] for x in g if x.d[0] == models.strid(E, st, param(ctx, 0))][-1]
                if fact(ctx, st, w) is True: ok = v and v[0] == "p" and v[1] and empty(ctx, st, v)
                else: ok = v and same(st, v, w) and fact(ctx, st, v) is False
                chk(ctx, bool(ok), "value", "unset" if fact(ctx, st, w) is True else "set", "an unset variable does not read as the empty string" if fact(ctx, st, w) is True else "the value stored is not the variable's value", r, sts[-1] if sts else g[-1])
            else:
                t = text(ctx, st, r.ret)
                chk(ctx, t is None or len(t) > 0, "explanation", "empty", "the explanation of the failure is empty", r)
                chk(ctx, null(ctx, st, 0) or null(ctx, st, 1), "rejects", "valid", "valid arguments are rejected", r)
        elif name == "rcutils_get_home_dir":
            f = fact(ctx, st, r.ret)
            h = [x for x in g if x.d[0] == ("lit", b"HOME")]
            chk(ctx, not sets, "modifies", "environment", "reading a variable changes the environment", r, sets[0] if sets else None)
            if not chk(ctx, bool(h) or f is None, "lookup", "HOME", "the HOME variable is not looked up", r): continue
            v = h[-1].d[1] if h else None
            b = byte(ctx, st, v, 0) if v and v[1] else None
            if f is False:
                oks += 1
                chk(ctx, v is not None and same(st, r.ret, v), "value", "home", "the result is not the value of HOME", r)
                chk(ctx, b is not None and b[0] == "i" and st.cs.prove_neq0(b[2]), "accepts", "empty", "an empty HOME is reported as the home directory", r)
            elif f is True:
                ok = v is None or not v[1] or fact(ctx, st, v) is True or b and b[0] == "i" and st.cs.prove_eq0(b[2])
                chk(ctx, bool(ok), "rejects", "valid", "a non-empty HOME is not reported", r)
        else:
            ow = param(ctx, 2) if name == "rcutils_set_env_overwrite" else ("b", True)
            c = ctx.cval(r)
            if c is None: ctx.inconclusive("ret", "unknown"); continue
            good = [e for e in sets if e.d[2]]; bad = [e for e in sets if not e.d[2]]
            for e in sets:
                a = e.d[1]
                ok = same(st, a[0], param(ctx, 0)) and nonnull(ctx, st, 0)
                chk(ctx, ok, "name", e.d[0], "a variable other than the given one is changed", r, e)
                vn = null(ctx, st, 1)
                if e.d[0] == "unsetenv":
                    chk(ctx, vn, "removes", "value-given", "the variable is removed although a value is given", r, e)
                    known = ow[1] if ow[0] == "b" and isinstance(ow[1], bool) else flag(ctx, st, ow)
                    chk(ctx, known is True or absent(ctx, st, g), "removes", "kept", "an existing variable is removed although it must not be overwritten", r, e)
                elif e.d[0] == "setenv":
                    chk(ctx, same(st, a[1], param(ctx, 1)) and not vn, "value", "set", "the variable is not set to the given value", r, e)
                    if a[2][0] == "i":
                        k = st.cs.const_of(a[2][2]); o = ow if ow[0] == "b" else None
                        known = ow[1] if ow[0] == "b" and isinstance(ow[1], bool) else flag(ctx, st, ow)
                        if k == 0: ok = known is False or bool(absent(ctx, st, g))
                        else: ok = known is True or absent(ctx, st, g)
                        chk(ctx, ok, "overwrite", k, "the overwrite choice is not respected", r, e)
                else: chk(ctx, False, "calls", e.d[0], "the environment is changed by %s()" % e.d[0], r, e)
            if c:
                oks += 1
                keep = flag(ctx, st, ow) is False and present(ctx, st, g)
                chk(ctx, not bad, "success", "after-failure", "success is returned although %s() failed" % (bad[0].d[0] if bad else ""), r, bad[0] if bad else None)
                chk(ctx, bool(good) or keep, "success", "unchanged", "success is returned without changing the variable", r)
            else:
                chk(ctx, bool(bad) or null(ctx, st, 0), "rejects", "valid", "failure is returned although nothing failed", r)
                chk(ctx, not good, "fails", "after-change", "failure is returned after the environment was changed", r, good[0] if good else None)
    if ctx.final() and not oks: ctx.report("success", "never", "no path succeeds")
def flag(ctx, st, v):
    """known truth of a boolean parameter"""
    if v[0] == "b":
        if isinstance(v[1], bool): return v[1]
        T, F = ctx.E.branchn(st.copy(), v[1])
        t = any(not s.cs.bad for s in T); f = any(not s.cs.bad for s in F)
        return True if t and not f else False if f and not t else None
    if v[0] == "i":
        if st.cs.prove_eq0(v[2]): return False
        if st.cs.prove_neq0(v[2]): return True
    return None
def present(ctx, st, g): return any(e.d[0] == models.strid(ctx.E, st, param(ctx, 0)) and fact(ctx, st, e.d[1]) is False for e in g)
def absent(ctx, st, g): return any(e.d[0] == models.strid(ctx.E, st, param(ctx, 0)) and fact(ctx, st, e.d[1]) is True for e in g)

# ------------------------------------------------------------------ O02 / O07
def stats(evs):
    """the successful stat calls as (sys event, mode, size)"""
    out = []; last = None
    for e in evs:
        if e.k == "sys": last = e
        elif e.k == "stat": out.append((last, e.d[2], e.d[3]))
    return out
def mode_of(evs, e):
    """mode left by a successful stat call, a linear expression"""
    for s, m, z in stats(evs):
        if s is e: return m[2] if m[0] == "i" else None
def size_of(evs, e):
    for s, m, z in stats(evs):
        if s is e: return z
TYPES = (0o010000, 0o020000, 0o040000, 0o060000, 0o100000, 0o120000, 0o140000)
def modes():
    for t in TYPES:
        for u in (0, 0o400, 0o200, 0o600, 0o100, 0o500, 0o700, 0o377, 0o577, 0o777, 0o044, 0o022, 0o066): yield t | u
PRED = {"rcutils_is_directory": ("is a directory", lambda m: m & 0o170000 == 0o040000), "rcutils_is_file": ("is a regular file", lambda m: m & 0o170000 == 0o100000),
        "rcutils_exists": ("exists", lambda m: True), "rcutils_is_readable": ("is readable by its owner", lambda m: bool(m & 0o400)),
        "rcutils_is_writable": ("is writable by its owner", lambda m: bool(m & 0o200)), "rcutils_is_readable_and_writable": ("is readable and writable by its owner", lambda m: m & 0o600 == 0o600)}
def given_path(ctx, st, e):
    return e.d[0] == "stat" and models.strid(ctx.E, st, e.d[1][0]) == models.strid(ctx.E, st, param(ctx, 0))
def o07(ctx):
    if ctx.name in PRED: return predicate(ctx)
    return OTHER[ctx.name](ctx)
def predicate(ctx):
    what, spec = PRED[ctx.name]
    yes = False
    for r in ctx.final():
        st = r.st; evs = events(st); S = sysof(evs, "stat", "lstat", "access", "faccessat", "fstatat")
        for e in S: chk(ctx, given_path(ctx, st, e), "asks", e.d[0], "the answer does not come from stat() of the given path", r, e)
        if any(not given_path(ctx, st, e) for e in S): continue
        if null(ctx, st, 0) or not S or not all(e.d[-1] for e in S):
            ans = truth(ctx, st, r.ret, {})
            if not S and not null(ctx, st, 0):
                # decided by the text alone: only the empty path may be answered so
                b = byte(ctx, st, param(ctx, 0), 0)
                chk(ctx, ans == {0} and b[0] == "i" and st.cs.prove_eq0(b[2]), "unasked", "answer", "a path is judged without asking the system", r)
            else: chk(ctx, ans <= {0}, "true", "failed", "true is returned for a null path or a path whose status cannot be read", r)
            continue
        l = mode_of(evs, S[-1])
        if l is None or len(l[1]) > 1: ctx.inconclusive("mode", "unknown"); continue
        if not l[1]: ctx.inconclusive("mode", "constant"); continue
        s, k = l[1][0]
        for m in modes():
            env = {s: (m - l[0]) // k}
            pos, exact = consistent(st, env)
            if not pos: continue
            ans = truth(ctx, st, r.ret, env)
            if None in ans or len(ans) > 1 or not exact and ans != {int(spec(m))}: ctx.inconclusive("mode", "%o" % m); continue
            if not ans: continue
            yes |= 1 in ans
            chk(ctx, ans == {int(spec(m))}, "answer", "%s" % ("true" if 1 in ans else "false"), "a path of mode 0%o is reported as %s: the answer to '%s' is wrong" % (m, "true" if 1 in ans else "false", what), r, S[-1])
    if ctx.final() and not yes and not ctx.out["findings"]: ctx.inconclusive("never", "true")
def get_cwd(ctx):
    for r in ctx.final():
        st = r.st; evs = events(st); S = sysof(evs, "getcwd"); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        ok = [e for e in S if e.d[-1]]
        if c: chk(ctx, bool(ok) and same(st, ok[-1].d[1][0], param(ctx, 0)) and same(st, ok[-1].d[1][1], param(ctx, 1)), "success", "buffer", "success is returned although the working directory was not written to the whole buffer given", r)
        else: chk(ctx, not ok, "fails", "after-success", "failure is returned although the working directory was read", r)
        if not c and not S: chk(ctx, null(ctx, st, 0) or st.cs.prove_eq0(param(ctx, 1)[2]), "rejects", "valid", "a valid buffer is rejected", r)
def file_size(ctx):
    for r in ctx.final():
        st = r.st; evs = events(st); S = sysof(evs, "stat", "lstat")
        v = r.ret
        for e in S: chk(ctx, given_path(ctx, st, e), "asks", e.d[0], "the size does not come from stat() of the given path", r, e)
        if any(not given_path(ctx, st, e) for e in S): continue
        if not S or not all(e.d[-1] for e in S):
            chk(ctx, v[0] == "i" and st.cs.prove_eq0(v[2]), "size", "failed", "a size is reported for a path that cannot be read", r); continue
        l = mode_of(evs, S[0])
        if l is None or not l[1]: ctx.inconclusive("mode", "unknown"); continue
        z = size_of(evs, S[-1])
        s, k = l[1][0]
        for m in modes():
            env = {s: (m - l[0]) // k}; pos, exact = consistent(st, env)
            if not pos: continue
            if m & 0o170000 == 0o100000: ok = same(st, v, z); msg = "the size reported for a regular file is not its st_size"
            else: ok = v[0] == "i" and st.cs.prove_eq0(v[2]); msg = "a size is reported for a path that is not a regular file"
            if not ok and not exact: ctx.inconclusive("mode", "%o" % m); continue
            chk(ctx, ok, "size", "file" if m & 0o170000 == 0o100000 else "other", msg, r, S[-1])
OTHER = {"rcutils_get_cwd": get_cwd, "rcutils_get_file_size": file_size}

def o02(ctx):
    existing = 0
    for r in ctx.final():
        st = r.st; evs = events(st); mk = sysof(evs, "mkdir", "mkdirat"); S = sysof(evs, "stat"); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        for e in mk:
            chk(ctx, same(st, e.d[1][0], param(ctx, 0)), "path", "other", "a directory other than the given path is created", r, e)
            chk(ctx, nonnull(ctx, st, 0) or e.loc is None, "null", "path", "a null path reaches mkdir()", r, e)
            b = byte(ctx, st, param(ctx, 0), 0)
            chk(ctx, b[0] == "i" and st.cs.const_of(b[2]) == 47, "relative", "path", "mkdir() is called for a path not known to begin with '/'", r, e)
        ok = any(e.d[-1] for e in mk)
        if c:
            if ok: ctx.ob(); continue
            dirs = False
            for e in S:
                if not (e.d[-1] and given_path(ctx, st, e)): continue
                l = mode_of(evs, e)
                if l is None or not l[1]: continue
                s, k = l[1][0]
                pos = [m for m in modes() if consistent(st, {s: (m - l[0]) // k})[0]]
                dirs |= all(m & 0o170000 == 0o040000 for m in pos)
                existing += bool(pos) and dirs
            chk(ctx, dirs, "success", "not-created", "success is returned although no directory was created and none is known to exist there", r, mk[-1] if mk else None)
        else:
            chk(ctx, not ok, "fails", "created", "failure is returned although the directory was created", r, mk[-1] if mk else None)
            if not mk:
                b = byte(ctx, st, param(ctx, 0), 0) if not null(ctx, st, 0) else None
                chk(ctx, null(ctx, st, 0) or b[0] == "i" and st.cs.prove_neq0(dom.addc(b[2], -47)), "rejects", "absolute", "an absolute path is rejected", r)
    if ctx.final() and not existing: ctx.report("existing", "directory", "an existing directory is never treated as success")

# ------------------------------------------------------------------ X04
def x04(ctx):
    E = ctx.E; oks = 0
    for r in ctx.final():
        st = r.st; evs = events(st)
        if ctx.name == "rcutils_get_pid":
            s = [i for i, (k, _, _) in enumerate(dom.SYMS) if k == ("getpid",)]
            ok = bool(s) and r.ret[0] == "i" and st.cs.prove_eq0(dom.sub(r.ret[2], var(s[0])))
            chk(ctx, ok, "pid", "other", "the result is not the system's process id", r); oks += 1; continue
        f = result(ctx, r)
        if f != "ok": continue
        oks += 1
        v = r.ret
        chk(ctx, E.R[v[1]].kind == "heap" and st.heap.get(v[1]) == "live" and st.cs.prove_eq0(v[2]), "fresh", "block", "the name is not a block of its own", r)
        b = ev_of(evs, "basename")
        if not b: ctx.inconclusive("basename", "not used"); continue
        e = b[-1]
        src = e.d[2]
        okn = src[0] in ("mem", "memv") and invocation(ctx, src[1])
        if not okn and src[0] in ("mem", "memv") and E.R[src[1]].kind == "heap":
            lg = E.log(st, src[1])
            if any(x[0] == "hv" for x in lg) or any(x[0] == "cell" for x in lg) and not any(x[0] in ("copy", "str") for x in lg): ctx.inconclusive("source", "made"); continue
        chk(ctx, okn, "source", "path", "the name is not taken from the program's invocation path", r, e)
        L = E.strlen_log(st, E.log(st, v[1]), v[1], v[2], 0)
        q = e.d[1]
        if e.d[3] is None: ok = text(ctx, st, v) == b"." or models.strid(E, st, v) == models.strid(E, st, q)
        else: ok = models.strid(E, st, v)[1:3] == e.d[3][1:3]
        chk(ctx, L is not None and bool(ok), "copy", "name", "the result is not a complete, terminated copy of the last path component", r, e)
    if ctx.final() and not oks: ctx.report("success", "never", "no path succeeds")
def invocation(ctx, rid):
    r = ctx.E.R[rid]
    for _ in range(4):
        n = r.name or ""
        if "program_invocation_name" in n or "program_invocation_name" in str(ctx.desc(rid)): return True
        if not r.origin: return False
        rid = r.origin[0]; r = ctx.E.R[rid]
    return False
