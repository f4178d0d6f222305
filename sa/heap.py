"""M04, whole-program part: only the default allocator touches the C heap."""
from . import graph
HEAP = {"malloc", "calloc", "realloc", "free", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc", "strdup", "strndup", "__strdup", "asprintf", "vasprintf",
        "getline", "getdelim", "scandir", "scandirat", "realpath", "canonicalize_file_name", "get_current_dir_name", "open_memstream", "tempnam", "wcsdup", "cfree", "mmap", "brk", "sbrk"}
def defaults(G=None):
    """functions the default allocator consists of"""
    G = G or graph.load()
    dflt = "rcutils_get_default_allocator"
    allowed = set(G.taken.get(dflt, ()))
    # the record may be built from a constant table
    for g, fs in [(g, {f for f, gs in G.gtaken.items() if g in gs}) for g in G.M.globals]:
        for b in (G.M.funcs[dflt].blocks if dflt in G.M.funcs else ()):
            for i in b.ins:
                if any(x[0] == "g" and x[1] == g for x in graph.opnds(i)): allowed |= fs
    return allowed
def check(o):
    G = graph.load(); dflt = "rcutils_get_default_allocator"; allowed = defaults(G)
    o.coverage["default_allocator_functions"] = sorted(allowed)
    sites = 0
    for n, cs in G.calls.items():
        for c, i in cs:
            if c not in HEAP: continue
            sites += 1
            # every way into this function must come from a member of the default allocator
            seen = {n: None}; work = [n]; bad = None
            while work and bad is None:
                f = work.pop()
                if f in allowed: continue
                cal = G.callers.get(f, set())
                others = {g for g, t in G.taken.items() if f in t and g != dflt}
                if (G.M.funcs[f].linkage == 0 and f != dflt) or others or (not cal): bad = f; break
                for x in cal:
                    if x not in seen: seen[x] = f; work.append(x)
            o.ob(ok=bad is None)
            if bad is not None: graph.report(o, "%s|heap|%s" % (n, c), "%s() is called outside the default allocator (reachable from %s)" % (c, bad), G.where(n, i))
        # taking the address of a heap function outside the default allocator
        if n != dflt:
            for t in sorted(G.taken[n] & HEAP):
                o.ob(ok=False); graph.report(o, "%s|heap-address|%s" % (n, t), "the address of %s is used outside the default allocator" % t, G.where(n))
    o.coverage["heap_call_sites"] = sites
