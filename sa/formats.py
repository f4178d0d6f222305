"""Where the format argument of every printf-style call comes from (interprocedural backward dataflow over the IR)."""
from . import graph
# library functions with a format argument, and their variable part: 'v' = va_list
SINKS = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "vprintf": 0, "vfprintf": 1, "vdprintf": 1, "vsprintf": 1, "vsnprintf": 2, "asprintf": 1, "vasprintf": 1, "syslog": 1, "vsyslog": 1,
         "err": 1, "errx": 1, "warn": 0, "warnx": 0, "error": 2, "__printf_chk": 1, "__fprintf_chk": 2, "__snprintf_chk": 4, "__vsnprintf_chk": 4, "scanf": 0, "sscanf": 1, "fscanf": 1, "strftime": 2}

class Formats:
    def __init__(s, G):
        s.G = G; s.M = G.M; s.D = G.D
        s.sink = dict((k, {v}) for k, v in SINKS.items())
        s.sites = []      # (function, instruction, format operand, sink name)
        s.handler = s._handlers()
        ch = True
        while ch:
            ch = False
            for n, f in s.M.funcs.items():
                for i, k, c in s._calls(n):
                    for kind, x in s.origin(n, i.a[k]):
                        if kind == "param" and x not in s.sink.get(n, ()): s.sink.setdefault(n, set()).add(x); ch = True
        for n in s.M.funcs:
            for i, k, c in s._calls(n): s.sites.append((n, i, k, c))
    def _calls(s, n):
        for b in s.M.funcs[n].blocks:
            for i in b.ins:
                if i.op != "call": continue
                if i.x[0] == "f":
                    for k in sorted(s.sink.get(i.x[1], ())):
                        if k < len(i.a): yield i, k, i.x[1]
                elif i.x[0] != "asm":
                    # output handlers: (location, severity, name, timestamp, format, va_list *)
                    if len(i.a) == 6 and [t.k for t in i.name] == ["p", "i", "p", "i", "p", "p"]: yield i, 4, "output handler"
    def _handlers(s):
        return None
    def defs(s, n):
        d = getattr(s, "_d", None)
        if d is None: d = s._d = {}
        if n not in d: d[n] = {i.res: i for b in s.M.funcs[n].blocks for i in b.ins}
        return d[n]
    def stores_to(s, n, a):
        """(values stored directly to alloca a, whether its address goes anywhere else)"""
        vals = []; other = False
        for b in s.M.funcs[n].blocks:
            for i in b.ins:
                if i.op == "store" and i.a[1] == ("v", a): vals.append(i.a[0])
                elif i.op == "load": continue
                elif i.op == "call" and i.x[0] == "f" and i.x[1].startswith("llvm.lifetime"): continue
                elif any(o == ("v", a) for o in graph.opnds(i)): other = True
        return vals, other
    def gstores(s, g):
        vals = []; other = False
        for n, f in s.M.funcs.items():
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "store" and i.a[1][0] == "g" and i.a[1][1] == g: vals.append((n, i.a[0]))
                    elif i.op == "load": continue
                    elif any(o[0] == "g" and o[1] == g for o in graph.opnds(i)): other = True
        return vals, other
    def origin(s, n, o, seen=None):
        """set of ('const', text) ('param', index) ('other', description)"""
        seen = set() if seen is None else seen
        if o[0] == "g":
            g = s.M.globals.get(o[1])
            if g is not None and g.const and g.init is not None and g.init[0] in ("str", "zero"):
                return {("const", (g.init[1] if g.init[0] == "str" else b"\0")[o[2]:].split(b"\0")[0].decode("latin1"))}
            if g is not None and g.const: return {("const", "?")}
            return {("other", "the variable %s" % o[1])}
        if o[0] == "null": return {("const", "")}
        if o[0] in ("undef",): return set()
        if o[0] != "v": return {("other", "a computed value")}
        if o[1] in seen: return set()
        seen.add(o[1])
        f = s.M.funcs[n]
        for k, p in enumerate(f.params):
            if p[0] == o[1]: return {("param", k)}
        i = s.defs(n).get(o[1])
        if i is None: return {("other", "an unknown value")}
        if i.op == "phi":
            r = set()
            for _, v in i.x: r |= s.origin(n, v, seen)
            return r
        if i.op == "select": return s.origin(n, i.a[1], seen) | s.origin(n, i.a[2], seen)
        if i.op in ("bitcast", "freeze", "gep"):
            return s.origin(n, i.a[0], seen)
        if i.op == "load":
            a = i.a[0]; path = a
            d = s.defs(n)
            while path[0] == "v" and path[1] in d and d[path[1]].op in ("gep", "bitcast"): path = d[path[1]].a[0]
            if path[0] == "g":
                g = s.M.globals.get(path[1])
                if g is not None and g.const: return {("const", "?")}          # table of constant texts
                if g is not None and a[0] == "g":
                    vals, other = s.gstores(path[1])
                    if not other:
                        r = set()
                        for m, v in vals: r |= s.origin(m, v) if m != n else s.origin(n, v, seen)
                        r |= s.origin(n, g.init) if g.init is not None and g.init[0] in ("g",) else set()
                        return r
                return {("other", "the variable %s" % path[1])}
            if a[0] == "v" and a[1] in d and d[a[1]].op == "alloca":
                vals, other = s.stores_to(n, a[1])
                if not other:
                    r = set()
                    for v in vals: r |= s.origin(n, v, seen)
                    return r
                return {("other", "a local variable whose address is shared")}
            return {("other", "memory (an object's field or text)")}
        if i.op == "alloca": return {("other", "a local buffer")}
        if i.op == "call": return {("other", "the result of %s()" % (i.x[1] if i.x[0] == "f" else "an indirect call"))}
        return {("other", "a computed value")}
    def formatlike(s, n, k):
        """parameter k is the format parameter of a printf-like function: the last named one of a variadic function, or the one before the argument list"""
        f = s.M.funcs[n]
        if f.vararg: return k == len(f.params) - 1
        at = s.D.fnattrs.get(n) or []; sret = 1 if at and at[0] == "sret" else 0
        T = s.D.fntypes(n) or []
        for j, t in enumerate(T[1:]):
            for _ in range(8):
                if t is None: break
                x = s.D.n.get(t, "")
                if s.D.field(x, "name") in ("__va_list_tag", "va_list", "__builtin_va_list", "__gnuc_va_list"): return k == j - 1 + sret
                t = s.D.ref(x, "baseType")
        return False
