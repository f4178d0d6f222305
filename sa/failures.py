"""C02: a failing operation leaves the object behind its first argument as it found it."""
from . import dom, spec, loops, arrays, buffers, containers, strmap
from .api import events
from .dom import const
from .values import *
from .containers import Obj, eq, invariants
from .os_rules import chk

class Only:
    """the obligations of another rule that speak about failing calls"""
    DETAILS = ("on-failure", "stash")
    def __init__(s, ctx): s.__dict__["c"] = ctx
    def __getattr__(s, n): return getattr(s.c, n)
    def __setattr__(s, n, v): setattr(s.c, n, v)
    def ob(s, ok=True): pass
    def obs(s, n): pass
    def inconclusive(s, *a): pass
    def report(s, kind, detail, msg, loc=None, stack=()):
        if detail in s.DETAILS: s.c.ob(False); s.c.report(kind, detail, msg, loc, stack)
# struct, implementation struct, fields that may differ after a failure
AL = ("rcutils_array_list_s", "rcutils_array_list_impl_s"); HM = ("rcutils_hash_map_s", "rcutils_hash_map_impl_s")
SM = (strmap.SM, strmap.SMI); SA = (arrays.SA, None); CA = ("rcutils_char_array_s", None)
OPS = {}
for n in ("add", "set", "remove"): OPS["rcutils_array_list_" + n] = AL + ((), containers.c01)
for n in ("set", "unset"): OPS["rcutils_hash_map_" + n] = HM + ((), containers.c03)
for n in ("reserve", "clear", "set", "set_no_resize", "unset"): OPS["rcutils_string_map_" + n] = SM + (("key_value_pairs", "capacity") if n == "set" else (), strmap.c04)
OPS["rcutils_string_array_resize"] = SA + ((), arrays.c05)
for n in ("resize", "expand_as_needed", "memcpy", "strcpy", "strncat", "strcat", "vsprintf"): OPS["rcutils_char_array_" + n] = CA + ((), buffers.c06)
MOVES = ("rcutils_string_map_reserve", "rcutils_string_map_set")       # pairs are moved between slots before the step that can fail
def inner(E, rid, root):
    """does the region belong to what the object holds?"""
    for _ in range(12):
        r = E.R[rid]
        if r.kind != "sym" or not r.origin: return False
        rid = r.origin[0]
        if rid == root: return True
    return False
def fresh_bucket(E, st, rid, off):
    """a bucket that was not in use at entry"""
    b = E.initial(st, rid, off, containers.PTR)
    return b == NULLP or b[0] == "p" and E.nullness(st, b[1]) is True
def gone(ctx, r):
    """entries are handed from table to table, never released by a search or clean-up loop: that holds also when only a step of the operation fails"""
    E = ctx.E
    for l in events(r.st):
        if l.k != "loop": continue
        for hd, hs0, s, vals in loops.backs(E, l):
            for s2, x in arrays.every_at(E, s, loops.since(E, s, hs0)):
                if x.k != "free" or not x.d[0]: continue
                R = E.R[x.d[0]]
                ok = not (R.kind == "sym" and R.origin and R.origin[2] and R.origin[2][0] == "rcutils_hash_map_entry_s" and E.nullness(s2, x.d[0]) is not True)
                chk(ctx, ok, "released", "entry", "a stored entry is released while the table is rearranged", r, x)
def c02(ctx):
    E = ctx.E; struct, impl, may, rule = OPS[ctx.name]; n = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if struct == HM[0]: gone(ctx, r)
        if c == 0: continue
        n += 1
        if null(ctx, st, 0): ctx.ob(True); continue
        o = Obj(ctx, r, 0, struct, impl); evs = events(st)
        if impl and (o.p0[0] != "p" or o.noimpl()):
            chk(ctx, o.p1 == o.p0 or o.p1 == NULLP, "changed", "uninitialised", "a failing call changes an uninitialised object", r); continue
        if ctx.name != "rcutils_string_map_set": invariants(ctx, r, (0,))       # there the steps' own invariants are used
        if not chk(ctx, o.kept(), "changed", "implementation", "the object refers to other storage although the operation fails", r): continue
        if ctx.name == "rcutils_char_array_vsprintf" and all(o.q1(f) == NULLP if t == "ptr" else eq(st, o.i1(f), const(0)) for f, t in fields(E, o) if f != "owns_buffer"):
            ctx.ob(True); continue            # given up after the text came out differently the second time: an empty array
        for f, t in fields(E, o):
            if f in may: continue
            if t in ("ptr", "func"): ok = same(st, o.q0(f), o.q1(f)) or fact(ctx, st, o.q0(f)) is True and fact(ctx, st, o.q1(f)) is True
            else: ok = eq(st, o.i0(f), o.i1(f))
            chk(ctx, ok, "changed", f, "'%s' is changed although the operation fails" % f, r)
        root = o.outer[1]; hm = struct == HM[0]
        for s, x in arrays.every_at(E, st, evs):
            if x.k == "free" and x.d[0] and inner(E, x.d[0], root) and E.nullness(s, x.d[0]) is not True:
                if "key_value_pairs" in may and x.d[0] == o.q0("key_value_pairs")[1]: continue
                chk(ctx, False, "released", E.R[x.d[0]].origin[2][1] if E.R[x.d[0]].origin[2] else "element", "something the object still holds is released although the operation fails", r, x)
            if x.k == "store" and x.d[0] != o.p0[1] and inner(E, x.d[0], root) and struct != CA[0]:
                if hm and fresh_bucket(E, s, x.d[0], x.d[1]): continue      # an empty bucket made ready to use
                if ctx.name in MOVES: continue            # decided with the slots of the string map
                if s is st and isinstance(x.d[2], int) and x.d[2] == 8:
                    a = E.initial(st, x.d[0], x.d[1], containers.PTR); b = E.load_quiet(st, x.d[0], x.d[1])
                    ok = same(st, a, b) or fact(ctx, st, a) is True and fact(ctx, st, b) is True
                else: ok = False
                chk(ctx, ok, "written", "content", "what the object holds is overwritten although the operation fails", r, x)
    if not n: ctx.inconclusive("failure", "never")
    rule(Only(ctx))
NULLP = arrays.NULL
def fields(E, o):
    """integer and pointer fields of the structure, with their kind"""
    for f, (off, size, t) in o.L.items():
        k = E.D.desc(t)[0]
        if "." in f or k == "struct": continue
        yield f, k
