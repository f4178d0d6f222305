"""Which functions may write which global variables (flow-insensitive, through casts, address arithmetic, selects, phis and internal calls)."""
from . import graph
# library functions that leave memory behind a pointer argument unchanged
READS = {"strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "memcmp", "memchr", "fputs", "fputc", "fprintf", "vfprintf", "printf", "puts", "putc", "fwrite", "fflush",
         "fileno", "getenv", "setenv", "unsetenv", "opendir", "readdir", "closedir", "stat", "lstat", "mkdir", "dlopen", "dlsym", "dlclose", "access", "atoi", "strtol", "isatty", "__assert_fail", "perror"}
# arguments written by library functions
WRITES = {"memcpy": {0}, "memmove": {0}, "memset": {0}, "strcpy": {0}, "strncpy": {0}, "strcat": {0}, "strncat": {0}, "snprintf": {0}, "vsnprintf": {0}, "sprintf": {0}, "vsprintf": {0}, "strftime": {0}, "localtime_r": {1}, "gmtime_r": {1},
          "clock_gettime": {1}, "strerror_r": {1}, "getcwd": {0}, "qsort": {0}, "__memcpy_chk": {0}}
class Effects:
    def __init__(s, G):
        s.G = G; s.M = G.M
        s.wparam = {}     # (fn, argument index) -> True when memory behind it may be written
        s.writes = {}     # global -> {fn: (instruction, how)}
        s.escapes = {}    # global -> {fn: (instruction, how)}: address stored, returned or given to unknown code
        s._sol()
    def _derive(s, f, eparam):
        """value name -> set of bases ('g', name) / ('p', index) it may point to"""
        base = {}
        for k, a in enumerate(f.params): base[a[0]] = {("p", k)}
        def of(o):
            if o[0] == "g": return {("g", o[1])}
            if o[0] == "v": return base.get(o[1], set())
            if o[0] == "cexpr":
                r = set()
                for x in o[2]: r |= of(x)
                return r
            return set()
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for i in b.ins:
                    if i.res is None: continue
                    r = set()
                    if i.op in ("gep", "bitcast", "freeze"): r = of(i.a[0])
                    elif i.op == "select": r = of(i.a[1]) | of(i.a[2])
                    elif i.op == "phi":
                        for _, v in i.x: r |= of(v)
                    elif i.op == "call" and i.x[0] == "f" and i.x[1].startswith("llvm.threadlocal.address"): r = of(i.a[0])
                    if r - base.get(i.res, set()): base[i.res] = base.get(i.res, set()) | r; ch = True
        return of
    def _sol(s):
        ofs = {n: s._derive(f, None) for n, f in s.M.funcs.items()}
        ch = True
        def note(d, b, n, i, how):
            m = d.setdefault(b, {})
            if n in m: return False
            m[n] = (i, how); return True
        W = {}; X = {}
        while ch:
            ch = False
            for n, f in s.M.funcs.items():
                of = ofs[n]
                for b in f.blocks:
                    for i in b.ins:
                        if i.op == "store":
                            for x in of(i.a[1]): ch |= note(W, x, n, i, "stored to")
                            for x in of(i.a[0]): ch |= note(X, x, n, i, "its address is stored")
                        elif i.op in ("atomicrmw", "cmpxchg"):
                            for x in of(i.a[0]): ch |= note(W, x, n, i, "updated")
                        elif i.op == "ret":
                            for a in i.a:
                                for x in of(a): ch |= note(X, x, n, i, "its address is returned")
                        elif i.op == "call":
                            c = i.x[1] if i.x[0] == "f" else None
                            for k, a in enumerate(i.a):
                                for x in of(a):
                                    if c in s.M.funcs:
                                        key = ("p", k)
                                        if c in W.get(("P", c, k), {}): pass
                                        if s.wparam.get((c, k)): ch |= note(W, x, n, i, "written through by %s()" % c)
                                        if s.wparam.get((c, k, "x")): ch |= note(X, x, n, i, "kept by %s()" % c)
                                    elif c is None: ch |= note(X, x, n, i, "passed to an indirect call")
                                    elif c.startswith("llvm.mem"):
                                        if k == 0: ch |= note(W, x, n, i, "copied over")
                                    elif c.startswith("llvm."): pass
                                    elif c in WRITES:
                                        if k in WRITES[c]: ch |= note(W, x, n, i, "written by %s()" % c)
                                    elif c in READS: pass
                                    else: ch |= note(X, x, n, i, "passed to %s()" % c)
            # parameters: key ('p', k) is per function
            for b, m in list(W.items()):
                if b[0] == "p":
                    for n in m:
                        if not s.wparam.get((n, b[1])): s.wparam[(n, b[1])] = True; ch = True
            for b, m in list(X.items()):
                if b[0] == "p":
                    for n in m:
                        if not s.wparam.get((n, b[1], "x")): s.wparam[(n, b[1], "x")] = True; ch = True
        s.writes = {b[1]: m for b, m in W.items() if b[0] == "g"}
        s.escapes = {b[1]: m for b, m in X.items() if b[0] == "g"}
_c = {}
def load(fault=False):
    if fault not in _c: _c[fault] = Effects(graph.load(fault))
    return _c[fault]
