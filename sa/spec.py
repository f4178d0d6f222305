"""Object invariants and typed-pointee facts: what is known about objects handed to a public operation, and the same
facts as proof obligations about the objects it leaves behind."""
import re
from . import dom, interp, pre
from .dom import const, var, sym
from .interp import P, NULL, I, CI

# ------------------------------------------------------------------ struct roles
# role names in declaration order (names first, position as fall-back so that renamed private fields keep their role)
LAYOUT = {
    "rcutils_array_list_impl_s": ["size", "capacity", "list", "data_size", "allocator"],
    "rcutils_array_list_s": ["impl"],
    "rcutils_hash_map_impl_s": ["map", "capacity", "size", "key_size", "data_size", "key_hashing_func", "key_cmp_func", "allocator"],
    "rcutils_hash_map_s": ["impl"],
    "rcutils_hash_map_entry_s": ["hashed_key", "key", "value"],
    "rcutils_string_map_impl_s": ["key_value_pairs", "capacity", "size", "allocator"],
    "rcutils_string_map_s": ["impl"],
    "key_value_pair": ["key", "value"],
    "rcutils_string_array_s": ["size", "data", "allocator"],
    "rcutils_char_array_s": ["buffer", "owns_buffer", "buffer_length", "buffer_capacity", "allocator"],
    "rcutils_uint8_array_s": ["buffer", "buffer_length", "buffer_capacity", "allocator"],
    "rcutils_shared_library_s": ["lib_pointer", "library_path", "allocator"],
    "rcutils_dir_iter_s": ["entry_name", "allocator", "state"],
    "rcutils_dir_iter_state_s": ["dir"],
    "dir_list_t": ["path", "depth", "next"],
    "rcutils_allocator_s": ["allocate", "deallocate", "reallocate", "zero_allocate", "state"],
    "rcutils_error_state_s": ["message", "file", "line_number"],
}
# numeric facts over the fields of one object, as a - b + c <= 0 with roles (None = constant only)
FACTS = {
    "rcutils_array_list_impl_s": [("le", "size", "capacity"), ("ge", "capacity", 1), ("ge", "data_size", 1)],
    "rcutils_hash_map_impl_s": [("ge", "capacity", 1), ("ge", "key_size", 1), ("ge", "data_size", 1), ("max", "size", 1 << 60)],
    "rcutils_string_map_impl_s": [("le", "size", "capacity")],
    "rcutils_char_array_s": [("le", "buffer_length", "buffer_capacity")],
    "rcutils_uint8_array_s": [("le", "buffer_length", "buffer_capacity")],
}
NONNULL = {
    "rcutils_array_list_impl_s": ["list", "allocator.allocate", "allocator.deallocate", "allocator.reallocate", "allocator.zero_allocate"],
    "rcutils_hash_map_impl_s": ["map", "key_hashing_func", "key_cmp_func", "allocator.allocate", "allocator.deallocate", "allocator.reallocate", "allocator.zero_allocate"],
    "rcutils_string_map_impl_s": ["allocator.allocate", "allocator.deallocate", "allocator.reallocate", "allocator.zero_allocate"],
    "rcutils_hash_map_entry_s": ["key", "value"],
    "rcutils_dir_iter_state_s": ["dir"],
}
# pointer field -> number of bytes guaranteed behind it (product of roles / constants)
EXTENT = {
    ("rcutils_array_list_impl_s", "list"): ("capacity", "data_size"),
    ("rcutils_hash_map_impl_s", "map"): ("capacity", 8),
    ("rcutils_string_map_impl_s", "key_value_pairs"): ("capacity", 16),
    ("rcutils_string_array_s", "data"): ("size", 8),
    ("rcutils_char_array_s", "buffer"): ("buffer_capacity",),
    ("rcutils_uint8_array_s", "buffer"): ("buffer_capacity",),
}
# pointer field null -> these fields are zero
NULLZERO = {
    ("rcutils_string_map_impl_s", "key_value_pairs"): ["capacity"],
    ("rcutils_string_array_s", "data"): ["size"],
    ("rcutils_char_array_s", "buffer"): ["buffer_capacity", "buffer_length"],
    ("rcutils_uint8_array_s", "buffer"): ["buffer_capacity", "buffer_length"],
}
# pointer field non-null -> this field is at least one
NONNULLGE = {("rcutils_string_map_impl_s", "key_value_pairs"): "capacity"}
# both null or both non-null
PAIRED = {"rcutils_shared_library_s": ("lib_pointer", "library_path"), "key_value_pair": ("key", "value")}
# fields that own a heap block
OWNED = {
    ("rcutils_array_list_s", "impl"), ("rcutils_array_list_impl_s", "list"),
    ("rcutils_hash_map_s", "impl"), ("rcutils_hash_map_impl_s", "map"),
    ("rcutils_hash_map_entry_s", "key"), ("rcutils_hash_map_entry_s", "value"),
    ("rcutils_string_map_s", "impl"), ("rcutils_string_map_impl_s", "key_value_pairs"),
    ("key_value_pair", "key"), ("key_value_pair", "value"),
    ("rcutils_string_array_s", "data"),
    ("rcutils_char_array_s", "buffer"), ("rcutils_uint8_array_s", "buffer"),
    ("rcutils_shared_library_s", "library_path"),
    ("rcutils_dir_iter_s", "state"), ("dir_list_t", "path"), ("dir_list_t", "next"),
}
STR_FIELDS = {("key_value_pair", "key"), ("key_value_pair", "value"), ("rcutils_shared_library_s", "library_path"), ("dir_list_t", "path")}
# raw byte storage (never read as text by contract)
BYTES = {("rcutils_array_list_impl_s", "list"), ("rcutils_hash_map_entry_s", "key"), ("rcutils_hash_map_entry_s", "value"), ("rcutils_uint8_array_s", "buffer"), ("rcutils_char_array_s", "buffer")}

class SpecEngine(interp.Engine):
    def __init__(s, M, D, models, opts=None):
        super().__init__(M, D, models, opts)
        s._lay = {}
        s._sid = None

    def global_region(s, name):
        rid = super().global_region(name)
        r = s.R[rid]
        if r.kind == "global" and "ro" not in r.info: r.info["ro"] = name in s.readonly()
        return rid
    def readonly(s):
        """mutable globals that no instruction of the module can write (address never stored or passed on)"""
        M = s.M
        ro = getattr(M, "_ro", None)
        if ro is not None: return ro
        esc = set()
        def names(o, acc):
            if isinstance(o, tuple):
                if len(o) >= 2 and o[0] == "g" and isinstance(o[1], str): acc.add(o[1])
                else:
                    for x in o: names(x, acc)
            elif isinstance(o, list):
                for x in o: names(x, acc)
        for g in M.globals.values():
            if g.init is not None: names(g.init, esc)
        for f in M.funcs.values():
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "load": continue
                    a = list(i.a)
                    if i.op == "call" and i.x[0] == "f" and i.x[1].startswith("llvm.mem"): a = a[:1] + a[2:]
                    names(a, esc)
                    if i.op == "phi": names(list(i.x), esc)
        M._ro = ro = {n for n, g in M.globals.items() if g.hasinit and not g.const and g.linkage in (8, 9) and n not in esc}
        return ro
    def textfields(s, rid):
        """terminated text members (offset -> size) of the stored error state; E02 re-establishes them on every write"""
        r = s.R[rid]
        if "texts" not in r.info:
            out = {}
            if s.struct_of(r.ty) == "rcutils_error_state_s":
                for n, o, t in s.D.members(r.ty):
                    if s.D.desc(t)[0] in ("array", "arr"): out[o] = s.D.size(t)
            r.info["texts"] = out
        return r.info["texts"]
    # ---- struct geometry
    def structs(s):
        if s._sid is None:
            s._sid = {}
            for i, t in s.D.n.items():
                if t.startswith("!DICompositeType(tag: DW_TAG_structure_type"):
                    n = s.D.field(t, "name")
                    if n and "elements" in t: s._sid.setdefault(n, i)
        return s._sid
    def layout(s, name):
        """role -> (offset, size, type id), nested as 'a.b'"""
        r = s._lay.get(name)
        if r is not None: return r
        tid = s.structs().get(name); out = {}
        if tid is not None:
            mem = s.D.members(tid); roles = LAYOUT.get(name, [])
            names = [m[0] for m in mem]
            ok = all(x in names for x in roles)
            for i, m in enumerate(mem):
                role = m[0] if ok or len(mem) != len(roles) else roles[i]
                out[role] = (m[1], s.D.size(m[2]), m[2])
                d = s.D.desc(m[2])
                if d[0] == "struct" and d[1] != name:
                    for k, v in s.layout(d[1]).items(): out[role + "." + k] = (m[1] + v[0], v[1], v[2])
        s._lay[name] = out
        return out
    def role_of(s, struct, field):
        """role name of a field name"""
        L = s.layout(struct)
        if field in L: return field
        tid = s.structs().get(struct)
        if tid is None: return field
        for m in s.D.members(tid):
            if m[0] == field:
                for k, v in L.items():
                    if v[0] == m[1] and "." not in k: return k
        return field
    def struct_of(s, ty):
        if ty is None: return None
        d = s.D.desc(ty)
        return d[1] if d[0] == "struct" else None
    # ---- initial contents
    def fsym(s, rid, base, struct, role):
        """initial value (linear form) of an integer field of the object at rid+base"""
        o, sz, t = s.layout(struct)[role]
        fx = s.fixed_field(rid, struct, role)
        if fx is not None: return fx
        off = dom.addc(base, o)
        b = s.scalar(rid, off)
        if b is None:
            b = (0, (1 << (8 * sz)) - 1)
        nm = "%s->%s" % (s.R[rid].name, role)
        return var(sym(("init", rid, off, sz), b[0], b[1], {"name": nm}))
    def fixed_field(s, rid, struct, role):
        """buckets of a hash map store pointers: their element size is 8"""
        if struct == "rcutils_array_list_impl_s" and role == "data_size" and s.is_bucket(rid): return const(8)
        return None
    def gep_type(s, rid, t):
        r = s.R[rid]
        if r.kind not in ("heap",) and not r.info.get("unk"): return
        n = t.name
        n = n[7:] if n.startswith("struct.") else n
        n = n.split(".")[0]
        if n in LAYOUT and n in s.structs(): r.ty = s.structs()[n]
    def is_bucket(s, rid):
        r = s.R[rid]
        if r.origin and r.origin[2] and r.origin[2][0] == "rcutils_array_list_s":
            p = s.R[r.origin[0]]
            if p.kind == "heap": return True
            if p.origin and p.origin[2] and p.origin[2][:2] == ("rcutils_hash_map_impl_s", "map"): return True
        return False
    def fptr(s, st, rid, base, struct, role):
        o, sz, t = s.layout(struct)[role]
        from .ir import Ty
        return s.initial(st, rid, dom.addc(base, o), Ty("p", 8))
    def hm_of_entry(s, rid):
        """hash map impl region an entry region belongs to"""
        r = s.R[rid]
        for _ in range(6):
            if not r.origin: return None
            p = s.R[r.origin[0]]
            if r.origin[2] and r.origin[2][0] == "rcutils_hash_map_impl_s": return p.id
            r = p
        return None
    def elem_type(s, rid, off):
        r = s.R[rid]
        if r.info.get("elem_entry"):        # bucket storage: array of entry pointers
            return None, None
        if r.ty is not None and isinstance(off, tuple) and off[1]:
            sz = s.D.size(r.ty)
            if sz and all(k % sz == 0 for _, k in off[1]):
                t, ow = s.D.at(r.ty, off[0] % sz)
                if ow: ow = (ow[0], ow[1], ow[2])
                return t, ow
        return super().elem_type(rid, off)
    def ptype(s, rid, off):
        r = s.R[rid]
        if r.info.get("elem_entry"):
            return s.structs().get("rcutils_hash_map_entry_s"), ("rcutils_hash_map_entry_s", "*", 0)
        return super().ptype(rid, off)
    def setup_ptr(s, rid):
        super().setup_ptr(rid)
        r = s.R[rid]
        if not r.origin: return
        crid, off, owner = r.origin
        if s.R[crid].name == "link_map" and off == const(8): r.info["cstr"] = True      # l_name
        if not owner: return
        struct, field = owner[0], s.role_of(owner[0], owner[1]) if owner[1] != "*" else "*"
        if struct in LAYOUT and field != owner[1]:
            r.origin = (crid, off, (struct, field, owner[2]))
        key = (struct, field)
        if key in EXTENT:
            L = s.layout(struct)
            base = dom.addc(off, -L[field][0])
            e = const(1)
            for x in EXTENT[key]: e = dom.mul(e, const(x) if isinstance(x, int) else s.fsym(crid, base, struct, x))
            r.extent = e
        if key in BYTES:
            r.info["cstr"] = False
        if struct == "rcutils_hash_map_entry_s" and field in ("key", "value"):
            h = s.hm_of_entry(crid)
            if h is not None: r.extent = s.fsym(h, const(0), "rcutils_hash_map_impl_s", "key_size" if field == "key" else "data_size")
            else: r.extent = None
        if key == ("rcutils_array_list_impl_s", "list") and s.is_bucket(crid):
            r.info["elem_entry"] = True
    def initial(s, st, rid, off, t):
        r = s.R[rid]
        if t.k == "i" and r.kind in ("sym",) and s.is_bucket(rid):
            if not off[1] and s.layout("rcutils_array_list_impl_s").get("data_size", (None,))[0] == off[0]: return CI(t.w, 8)
        return super().initial(st, rid, off, t)
    # ---- facts
    def assume_facts(s, st, rid, base, struct):
        if st.cs.bad or struct not in LAYOUT: return
        k = ("facts", rid, base)
        if k in st.inv: return
        st.inv.add(k)
        L = s.layout(struct)
        if not L: return
        cs = st.cs
        for f in FACTS.get(struct, ()):
            if f[0] == "le": cs.assume_le(dom.sub(s.fsym(rid, base, struct, f[1]), s.fsym(rid, base, struct, f[2])))
            elif f[0] == "max": cs.assume_le(dom.addc(s.fsym(rid, base, struct, f[1]), -f[2]))
            else:
                v = s.fsym(rid, base, struct, f[1])
                if v[1]: cs.assume_le(dom.addc(dom.scale(v, -1), f[2]))
        for x in NONNULL.get(struct, ()):
            if x in L:
                p = s.fptr(st, rid, base, struct, x)
                if p[0] == "p" and p[1] and st.null.get(p[1]) is None:
                    st.null[p[1]] = False; s.child_nonnull(st, p[1])
        if struct in PAIRED:
            pass
        # embedded structs
        tid = s.structs().get(struct)
        for n, o, t in s.D.members(tid):
            d = s.D.desc(t)
            if d[0] == "struct": s.assume_facts(st, rid, dom.addc(base, o), d[1])
    def child_nonnull(s, st, rid):
        """facts about a pointee known to be non-null"""
        r = s.R[rid]
        if r.extent is not None and r.extent[1] and r.kind in ("sym", "param"):
            k = ("ext", rid)
            if k not in st.inv:
                st.inv.add(k)
                st.cs.assume_le(dom.addc(r.extent, -dom.MAXOBJ))
                if len(r.extent[1]) == 1 and r.extent[1][0][0] in dom.PROD:
                    fs = dom.PROD[r.extent[1][0][0]]
                    if all((st.cs.bounds(f)[0] or 0) >= 1 for f in fs):
                        for f in fs: st.cs.assume_le(dom.addc(var(f), -dom.MAXOBJ))
        if r.origin and r.origin[2] and r.origin[2][0] in PAIRED:
            s.pair(st, rid, False)
        if r.origin and r.origin[2] and not r.info.get("unk"):
            z = NONNULLGE.get((r.origin[2][0], r.origin[2][1]))
            if z:
                L = s.layout(r.origin[2][0])
                st.cs.assume_le(dom.addc(dom.scale(s.fsym(r.origin[0], dom.addc(r.origin[1], -L[r.origin[2][1]][0]), r.origin[2][0], z), -1), 1))
        st_name = s.struct_of(r.ty)
        if st_name and r.kind in ("sym", "param", "byval", "global") and not r.info.get("nofacts"):
            s.assume_facts(st, rid, const(0), st_name)
    def restate(s, st, rid):
        seen = set(); q = rid
        while q and q not in seen:
            seen.add(q)
            r = s.R[q]
            if r.kind not in ("sym", "param", "byval", "global") or r.info.get("unk"): break
            if st.null.get(q) is None and r.origin and r.origin[2]:
                # a null pointer would go with a zero count: the count is known to be positive
                L = s.layout(r.origin[2][0])
                for z in NULLZERO.get((r.origin[2][0], r.origin[2][1]), ()):
                    b = s.fsym(r.origin[0], dom.addc(r.origin[1], -L[r.origin[2][1]][0]), r.origin[2][0], z)
                    if st.cs.prove_le(dom.addc(dom.scale(b, -1), 1)): st.null[q] = False; break
            st.inv.discard(("ext", q)); st.inv.discard(("facts", q, const(0)))
            if st.null.get(q) is False or r.kind in ("byval", "global"): s.child_nonnull(st, q)
            q = r.origin[0] if r.origin else None
        return not st.cs.bad
    def pair(s, st, rid, isnull):
        crid, off, (struct, field, so) = s.R[rid].origin
        a, b = PAIRED[struct]
        if field not in (a, b): return
        L = s.layout(struct); base = dom.addc(off, -L[field][0])
        q = s.fptr(st, crid, base, struct, b if field == a else a)
        if q[0] == "p" and q[1]:
            o = st.null.get(q[1])
            if o is None:
                st.null[q[1]] = isnull
            elif o is not isnull: st.cs.bad = True
    def on_nullness(s, st, rid, isnull):
        r = s.R[rid]
        if not isnull: s.child_nonnull(st, rid)
        else:
            if r.origin and r.origin[2] and not r.info.get("unk"):
                crid, off, owner = r.origin
                struct, field = owner[0], owner[1]
                for z in NULLZERO.get((struct, field), ()):
                    L = s.layout(struct); base = dom.addc(off, -L[field][0])
                    st.cs.assume_eq0(s.fsym(crid, base, struct, z))
                if struct in PAIRED: s.pair(st, rid, True)
                if (struct, field) == ("rcutils_string_map_impl_s", "key_value_pairs"): pass
    def initial_state(s):
        st = super().initial_state()
        return st
    def analyze(s, name, setup=None, nonnull=(), keep_budget=False):
        def su(eng, st, args):
            for n, v in args.items():
                if v[0] == "p":
                    r = s.R[v[1]]
                    if r.kind == "byval" or (r.kind == "param" and st.null.get(v[1]) is False and r.info.get("attr") != "sret"):
                        s.child_nonnull(st, v[1])
            for gname, g in s.M.globals.items():
                if g.const or not g.hasinit or gname in s.readonly(): continue
                rid = s.global_region(gname)
                sn = s.struct_of(s.R[rid].ty)
                if sn in LAYOUT: s.assume_facts(st, rid, const(0), sn)
            if s.opts.get('pre', True): pre.setup(eng, st, args)
            r = setup(eng, st, args) if setup else None
            if s.opts.get('pre', True): r = [y for x in (r or [st]) for y in pre.global_invariants(eng, x)]
            return r
        return super().analyze(name, su, nonnull, keep_budget)
    # ---- where a region comes from
    def root(s, rid):
        """(root region id, path string) of a lazily loaded region"""
        path = []
        seen = 0
        while True:
            r = s.R[rid]
            if not r.origin or r.kind not in ("sym",): break
            path.append(r.origin[2][1] if r.origin[2] else "[]")
            rid = r.origin[0]; seen += 1
            if seen > 20: break
        return rid, ".".join(reversed(path))
    # ---- obligations at return
    def ldp(s, st, rid, off):
        return s.load_quiet(st, rid, off)
    def ldi(s, st, rid, off, w):
        from .ir import Ty
        ev = st.ev
        v = s.load(st, rid, off, Ty("i", (w + 7) // 8, w))[0][1]
        st.ev = ev
        return v
    def field_int(s, st, rid, base, struct, role):
        """unsigned lin of the current value of an integer field, or None"""
        o, sz, t = s.layout(struct)[role]
        v = s.ldi(st, rid, dom.addc(base, o), 8 * sz)
        if v[0] != "i": return None
        lin = v[2]
        return lin
    def check_struct(s, st, rid, base, struct, out, depth=0, path=""):
        """violated object facts: list of (what, detail)"""
        if depth > 4 or struct not in LAYOUT or st.heap.get(rid) == "freed": return
        L = s.layout(struct)
        if not L: return
        cs = st.cs
        tid = s.structs().get(struct)
        for f in FACTS.get(struct, ()):
            if f[0] == "max": continue      # resource bound, not an invariant to re-establish
            a = s.field_int(st, rid, base, struct, f[1])
            if f[0] == "le":
                b = s.field_int(st, rid, base, struct, f[2])
                if a is None or b is None or not cs.prove_le(dom.sub(a, b)): out.append((path + f[1] + "<=" + f[2], struct, (a, b)))
            else:
                if a is None or not cs.prove_le(dom.addc(dom.scale(a, -1), f[2])): out.append((path + f[1] + ">=%d" % f[2], struct, (a,)))
        for x in NONNULL.get(struct, ()):
            if x.startswith("allocator"): continue
            if x in L:
                p = s.ldp(st, rid, dom.addc(base, L[x][0]))
                if p[0] == "p" and s.nullness(st, p[1]) is not False or p[0] == "u": out.append((path + x + " non-null", struct, ()))
        for (sn, fld), facs in EXTENT.items():
            if sn != struct: continue
            p = s.ldp(st, rid, dom.addc(base, L[fld][0]))
            need = const(1)
            for x in facs:
                y = const(x) if isinstance(x, int) else s.field_int(st, rid, base, struct, x)
                if y is None: need = None; break
                need = dom.mul(need, y)
            if p[0] == "u":
                out.append((path + fld + " initialised", struct, ())); continue
            if p[0] != "p": continue
            n = s.nullness(st, p[1])
            if n is not False and (n is True or p[1] == 0):
                for z in NULLZERO.get((struct, fld), ()):
                    v = s.field_int(st, rid, base, struct, z)
                    if v is None or not cs.prove_eq0(v): out.append((path + z + "==0 while " + fld + " is null", struct, (v,)))
                continue
            z = NONNULLGE.get((struct, fld))
            if z and n is False:
                v = s.field_int(st, rid, base, struct, z)
                if v is None or not cs.prove_le(dom.addc(dom.scale(v, -1), 1)): out.append((path + z + ">=1 while " + fld + " is set", struct, (v,)))
            if need is None: continue
            ext = s.R[p[1]].extent
            if ext is None: continue
            if n is None:
                # unknown nullness: if null then sizes must be zero as well; initial pointers carry that fact already
                pass
            if not cs.prove_le(dom.sub(dom.add(need, p[2]), ext)):
                out.append((path + "size recorded for " + fld + " <= its storage", struct, (need, ext)))
        if struct in PAIRED:
            a, b = PAIRED[struct]
            pa = s.ldp(st, rid, dom.addc(base, L[a][0])); pb = s.ldp(st, rid, dom.addc(base, L[b][0]))
            na = True if pa == NULL else s.nullness(st, pa[1]) if pa[0] == "p" else None
            nb = True if pb == NULL else s.nullness(st, pb[1]) if pb[0] == "p" else None
            if na is not nb: out.append((path + "%s and %s both set or both null" % (a, b), struct, (na, nb)))
        for n, o, t in s.D.members(tid):
            d = s.D.desc(t)
            if d[0] == "struct" and d[1] in LAYOUT and d[1] != "rcutils_allocator_s":
                s.check_struct(st, rid, dom.addc(base, o), d[1], out, depth + 1, path + n + ".")
            elif d[0] == "ptr" and d[1] is not None:
                cn = s.struct_of(d[1])
                if cn in FACTS or cn in EXTENT:
                    p = s.ldp(st, rid, dom.addc(base, o))
                    if p[0] == "p" and p[1] and s.nullness(st, p[1]) is not True and p[2] == (0, ()):
                        if s.changed(st, p[1]): s.check_struct(st, p[1], const(0), cn, out, depth + 1, path + n + "->")
    def changed(s, st, rid):
        return bool(st.mem.get(rid)) or s.R[rid].kind in ("heap",)
