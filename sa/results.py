"""A04, syntactic part: results of internal steps that can fail are used (SSA def-use over the whole library)."""
import re
from . import graph, driver, models
INTEGERS = re.compile(r"([^%]|%[-+ 0#]*\d*(\.\d*)?(hh|h|ll|l|z|j|t)?[diuxXoc]|%s|%%)*\0?", re.S)     # formats whose conversion cannot fail
SYSTEM = {"stat", "lstat", "fstat", "mkdir", "opendir", "getcwd", "setenv", "unsetenv", "putenv", "clock_gettime", "dlopen", "dlsym", "dlinfo", "dladdr", "vsnprintf", "snprintf",
          "strerror_r", "localtime_r", "gmtime_r", "strftime", "access", "atexit", "pthread_create", "realpath", "readlink", "dlclose", "getpwuid", "sysconf", "_dyld_image_count",
          "rcutils_snprintf", "rcutils_vsnprintf", "malloc", "calloc", "realloc"}
RELEASE = re.compile(r".*(_fini|dealloc|free|clear|shutdown|_end).*")
POINTER = re.compile(r"rcutils_(strdup|strndup|join_path|format_string|reallocf|get_symbol|dir_iter_start|expand_user)")
def check(o):
    G = graph.load(); M = G.M; n_calls = 0
    for n, f in M.funcs.items():
        used = set()
        for b in f.blocks:
            for i in b.ins:
                for x in graph.opnds(i):
                    if x[0] == "v": used.add(x[1])
        for c, i in G.calls[n]:
            if i.ty.k == "void": continue
            T = G.D.fntypes(c)
            st = bool(T) and driver.is_status(G.D, T[0])
            if not st and c not in SYSTEM and not POINTER.match(c): continue
            n_calls += 1
            ok = i.res in used or (st and RELEASE.fullmatch(c) is not None)
            if not ok and c in ("snprintf", "rcutils_snprintf"):
                a = i.a[2]
                g = M.globals.get(a[1]) if a[0] == "g" else None
                if g is not None and g.init is not None and g.init[0] == "str" and INTEGERS.fullmatch(g.init[1].decode("latin1")): ok = True
            o.ob(ok=ok)
            if not ok: graph.report(o, "%s|ignored|%s" % (n, c), "the result of %s() is ignored" % c, G.where(n, i))
    o.coverage["fallible_internal_calls"] = n_calls
