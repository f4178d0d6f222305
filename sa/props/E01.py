"""E01: error state is thread-local; no other writable process-wide state outside logging configuration and the fault counter."""
from .. import effects, graph
TECHNIQUE = "interprocedural mod/escape analysis of all global variables over the LLVM IR of the library"
NOTE = ("For every global and function-local static of the library (both build configurations) the functions that may write it or leak its address are computed through casts, address arithmetic, copies and internal calls. "
        "A written variable must be thread-local, or be written only by operations that configure logging, or be the fault-injection counter. Calls to C library functions with shared hidden state are rejected. "
        "Memory reached through pointers stored in globals (the severity map's contents) is logging configuration and not tracked further.")
RULE = ("a variable that is written or whose address escapes is thread-local, or all its writers are reachable only from logging configuration operations or the fault-injection operations; "
        "no address of thread-local storage is stored; no C library function with process-wide hidden state is called")
EXPLAIN = "writers and address escapes of every global variable, reachability of the writers from public operations, inventory of called library functions"
CONFIG = {"rcutils_logging_initialize", "rcutils_logging_initialize_with_allocator", "rcutils_logging_shutdown", "rcutils_logging_set_default_logger_level",
          "rcutils_logging_set_logger_level", "rcutils_logging_set_output_handler"}
FAULT = {"rcutils_fault_injection_set_count", "_rcutils_fault_injection_maybe_fail"}
HIDDEN = {"localtime", "gmtime", "ctime", "asctime", "strtok", "strerror", "rand", "srand", "random", "drand48", "tmpnam", "ttyname", "getlogin", "getpwuid", "getpwnam", "getgrgid", "getgrnam", "setlocale", "localeconv",
          "readdir64_r", "ecvt", "fcvt", "gcvt", "l64a", "inet_ntoa", "gethostbyname", "crypt", "ptsname", "hcreate", "hsearch", "wcstombs_l", "mblen", "chdir", "umask", "signal", "alarm", "atexit", "strsignal", "dirname"}
ONWAY = {"rcutils_get_error_state"}
def check(o, tier):
    for fault in (False, True):
        X = effects.load(fault); G = X.G; pub = G.public(); n = 0
        def ancestors(f):
            seen = {f: None}; work = [f]
            while work:
                x = work.pop()
                if x in CONFIG | FAULT: continue   # everything above only gets here through a configuration operation
                up = set(G.callers.get(x, ())) | {c for c, t in G.taken.items() if x in t}
                for c in sorted(up):
                    if c not in seen: seen[c] = x; work.append(c)
            return seen
        for g, v in sorted(X.M.globals.items()):
            if v.const: continue
            w = dict(X.writes.get(g, {})); e = dict(X.escapes.get(g, {}))
            if not v.hasinit:
                # stdout and stderr of the C library may be used, never replaced
                for f, (i, how) in sorted(w.items()):
                    o.ob(ok=False); graph.report(o, "%s|external|%s" % (g, f), "%s() changes the process-wide variable %s" % (f, g), G.where(f, i))
                continue
            n += 1; ok = True
            # a constant record handed to a parameter declared pointer-to-const is only read (A05)
            e = {f: (i, how) for f, (i, how) in e.items() if not const_args(G, i, g)}
            if v.tls:
                for f, (i, how) in sorted(e.items()):
                    if f in ONWAY and i.op == "ret": continue
                    ok = False; graph.report(o, "%s|escape|%s" % (g, f), "the address of the thread-local %s leaves the thread: %s" % (g, how), G.where(f, i))
                o.ob(ok=ok); continue
            for kind, m in (("write", w), ("escape", e)):
                for f, (i, how) in sorted(m.items()):
                    an = ancestors(f)
                    allowed = CONFIG | FAULT
                    bad = sorted(x for x in an if x in pub and x not in allowed)
                    if bad:
                        ok = False; p = []; x = bad[0]
                        while x is not None: p.append(x); x = an[x]
                        graph.report(o, "%s|%s|%s" % (g, kind, f), "process-wide variable %s is not thread-local but is %s in %s(), reached by the public operation %s()" % (g, how, f, bad[0]), G.where(f, i), p)
                    elif not (set(an) & pub):
                        # not reachable from any public operation
                        pass
            o.ob(ok=ok)
        sites = 0
        for f, cs in sorted(G.calls.items()):
            for c, i in cs:
                if c in G.M.funcs: continue
                sites += 1; ok = c not in HIDDEN; o.ob(ok=ok)
                if not ok: graph.report(o, "%s|hidden-state|%s" % (f, c), "%s() keeps process-wide hidden state" % c, G.where(f, i))
        o.coverage["variables_%s" % ("fault" if fault else "plain")] = n; o.coverage["external_call_sites_%s" % ("fault" if fault else "plain")] = sites
    # the error operations touch nothing but thread-local and read-only data
    X = effects.load(False); G = X.G
    roots = [f for f in ("rcutils_set_error_state", "rcutils_get_error_state", "rcutils_get_error_string", "rcutils_error_is_set", "rcutils_reset_error", "rcutils_initialize_error_handling_thread_local_storage") if f in G.M.funcs]
    for f, pr in sorted(G.reach(roots).items()):
        fn = G.M.funcs.get(f)
        if fn is None: continue
        for b in fn.blocks:
            for i in b.ins:
                for x in graph.opnds(i):
                    if x[0] != "g": continue
                    v = X.M.globals.get(x[1])
                    if v is None or v.const or v.tls or not v.hasinit: o.ob(); continue
                    ok = x[1] not in X.writes and x[1] not in X.escapes; o.ob(ok=ok)
                    if not ok: graph.report(o, "%s|shared|%s" % (f, x[1]), "error handling uses the process-wide writable variable %s" % x[1], G.where(f, i), G.path(G.reach(roots), f))
def const_args(G, i, g):
    """the escaping use is an argument whose declared parameter is a pointer to const"""
    if i.op != "call" or i.x[0] != "f": return False
    T = G.D.fntypes(i.x[1])
    if not T: return False
    off = 1 if G.D.fnattrs.get(i.x[1], [None])[:1] == ["sret"] else 0
    hit = False
    for k, a in enumerate(i.a):
        if any(x[0] == "g" and x[1] == g for x in graph.flat(a)):
            hit = True
            kk = k + 1 - off
            if kk >= len(T) or not pointer_to_const(G.D, T[kk]): return False
    return hit
def pointer_to_const(D, t):
    for _ in range(8):
        if t is None: return False
        x = D.n.get(t, "")
        if "DW_TAG_pointer_type" in x: break
        t = D.ref(x, "baseType")
    else: return False
    t = D.ref(D.n[t], "baseType")
    for _ in range(4):
        if t is None: return False
        x = D.n.get(t, "")
        if "DW_TAG_const_type" in x: return True
        if "DW_TAG_typedef" not in x: return False
        t = D.ref(x, "baseType")
    return False
