"""LLVM IR -> plain Python objects, through the LLVM C API (ctypes); debug-info types from the textual form."""
import ctypes as C, re

L = None
def _lib():
    global L
    if L is not None:
        return L
    for n in ("libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM.so.18.1"):
        try:
            L = C.CDLL(n); break
        except OSError:
            continue
    if L is None:
        raise RuntimeError("libLLVM 18 not found")
    P = C.c_void_p
    def d(name, res, *args):
        f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    U = C.c_uint
    d("LLVMContextCreate", P); d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    d("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
    d("LLVMGetModuleDataLayout", P, P)
    d("LLVMGetFirstFunction", P, P); d("LLVMGetNextFunction", P, P)
    d("LLVMGetFirstGlobal", P, P); d("LLVMGetNextGlobal", P, P)
    d("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
    d("LLVMCountParams", U, P); d("LLVMGetParam", P, P, U)
    d("LLVMGetFirstBasicBlock", P, P); d("LLVMGetNextBasicBlock", P, P); d("LLVMBasicBlockAsValue", P, P)
    d("LLVMGetBasicBlockName", C.c_char_p, P)
    d("LLVMGetFirstInstruction", P, P); d("LLVMGetNextInstruction", P, P)
    d("LLVMGetInstructionOpcode", C.c_int, P); d("LLVMGetNumOperands", C.c_int, P); d("LLVMGetOperand", P, P, U)
    d("LLVMGetValueKind", C.c_int, P); d("LLVMTypeOf", P, P); d("LLVMGetTypeKind", C.c_int, P)
    d("LLVMGetIntTypeWidth", U, P); d("LLVMGetStructName", C.c_char_p, P); d("LLVMCountStructElementTypes", U, P)
    d("LLVMStructGetTypeAtIndex", P, P, U); d("LLVMGetArrayLength2", C.c_uint64, P); d("LLVMGetElementType", P, P)
    d("LLVMABISizeOfType", C.c_uint64, P, P); d("LLVMOffsetOfElement", C.c_uint64, P, P, U)
    d("LLVMStoreSizeOfType", C.c_uint64, P, P)
    d("LLVMGetICmpPredicate", C.c_int, P); d("LLVMCountIncoming", U, P); d("LLVMGetIncomingValue", P, P, U)
    d("LLVMGetIncomingBlock", P, P, U); d("LLVMIsConditional", C.c_int, P); d("LLVMGetCalledValue", P, P)
    d("LLVMGetNumArgOperands", U, P); d("LLVMGetAllocatedType", P, P); d("LLVMGetGEPSourceElementType", P, P)
    d("LLVMConstIntGetZExtValue", C.c_uint64, P); d("LLVMGetConstOpcode", C.c_int, P)
    d("LLVMIsConstantString", C.c_int, P); d("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
    d("LLVMGetAggregateElement", P, P, U); d("LLVMGetInitializer", P, P); d("LLVMIsThreadLocal", C.c_int, P)
    d("LLVMIsGlobalConstant", C.c_int, P); d("LLVMGlobalGetValueType", P, P); d("LLVMGetLinkage", C.c_int, P)
    d("LLVMGetVisibility", C.c_int, P); d("LLVMIsDeclaration", C.c_int, P)
    d("LLVMGetDebugLocLine", U, P); d("LLVMGetDebugLocFilename", C.c_char_p, P, C.POINTER(U))
    d("LLVMGetIndices", C.POINTER(U), P); d("LLVMGetNumIndices", U, P)
    d("LLVMGetNSW", C.c_int, P); d("LLVMGetNUW", C.c_int, P); d("LLVMGetOrdering", C.c_int, P); d("LLVMGetVolatile", C.c_int, P)
    d("LLVMGetAtomicRMWBinOp", C.c_int, P); d("LLVMGetReturnType", P, P); d("LLVMIsFunctionVarArg", C.c_int, P)
    d("LLVMGetCalledFunctionType", P, P); d("LLVMGetNumSuccessors", U, P); d("LLVMGetSuccessor", P, P, U)
    return L

OPC = {1:'ret',2:'br',3:'switch',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',
 17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',
 41:'bitcast',60:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',53:'extractvalue',54:'insertvalue',55:'fence',
 56:'cmpxchg',57:'atomicrmw',66:'fneg',68:'freeze',4:'indirectbr'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}

class Ty:
    __slots__ = ("k","w","name","elems","offs","size","n","elt")
    def __init__(s, k, size=0, w=0, name=None, elems=None, offs=None, n=0, elt=None):
        s.k=k; s.size=size; s.w=w; s.name=name; s.elems=elems; s.offs=offs; s.n=n; s.elt=elt
    def __repr__(s):
        return {"i":"i%d"%s.w,"p":"ptr"}.get(s.k, s.k+":"+str(s.name or s.size))

class Ins:
    __slots__ = ("op","res","ty","a","x","line","file","name","blk")
    def __repr__(s): return "%%%s=%s %s %s @%s" % (s.res, s.op, s.a, s.x, s.line)

class Block:
    __slots__ = ("idx","name","ins","succs","preds","fn")

class Func:
    def __init__(s): s.blocks=[]; s.params=[]
    def __repr__(s): return "<Func %s>" % s.name

class GVar:
    __slots__=("name","const","tls","init","ty","linkage","vis","hasinit","di")

class Module: pass

def _name(v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return s.decode() if s else ""

class Loader:
    def __init__(self, bc):
        _lib()
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p(); msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s" % bc)
        mod = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse bitcode")
        self.mod = mod; self.td = L.LLVMGetModuleDataLayout(mod)
        self.tyc = {}
    def ty(self, t):
        r = self.tyc.get(t)
        if r is not None: return r
        k = L.LLVMGetTypeKind(t)
        if k == 0: r = Ty("void")
        elif k == 8:
            w = L.LLVMGetIntTypeWidth(t); r = Ty("i", (w+7)//8, w)
        elif k == 12: r = Ty("p", 8)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t); nm = L.LLVMGetStructName(t)
            r = Ty("s", L.LLVMABISizeOfType(self.td, t), name=nm.decode() if nm else None)
            self.tyc[t] = r
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td,t,i) for i in range(n)]
        elif k == 11:
            e = self.ty(L.LLVMGetElementType(t)); n = L.LLVMGetArrayLength2(t)
            r = Ty("a", e.size*n, n=n, elt=e)
        elif k in (2,3,1,4,5,6,18): r = Ty("f", L.LLVMABISizeOfType(self.td,t))
        elif k == 9: r = Ty("fn", 0, n=L.LLVMIsFunctionVarArg(t))
        else: r = Ty("?%d"%k)
        self.tyc[t] = r
        return r
    def const_gep(self, sty, idx):
        """byte offset for constant indices"""
        off = 0; t = sty; off += idx[0]*sty.size
        for i in idx[1:]:
            if t.k == "s": off += t.offs[i]; t = t.elems[i]
            elif t.k == "a": off += i*t.elt.size; t = t.elt
            else: raise RuntimeError("gep")
        return off
    def sint(self, v):
        w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v)); x = L.LLVMConstIntGetZExtValue(v)
        return x - (1<<w) if w>1 and x >> (w-1) else x
    def operand(self, v):
        r = self.vals.get(v)
        if r is not None: return ("v", r)
        k = L.LLVMGetValueKind(v)
        if k == 18:
            t = L.LLVMTypeOf(v); w = L.LLVMGetIntTypeWidth(t)
            return ("c", L.LLVMConstIntGetZExtValue(v), w)
        if k == 20: return ("null",)
        if k in (14,25): return ("undef", self.ty(L.LLVMTypeOf(v)))
        if k == 5: return ("f", _name(v))
        if k == 8: return ("g", _name(v), 0)
        if k == 15: return ("zero", self.ty(L.LLVMTypeOf(v)))
        if k in (16,17):
            t = self.ty(L.LLVMTypeOf(v))
            if L.LLVMIsConstantString(v):
                n = C.c_size_t(); p = L.LLVMGetAsString(v, C.byref(n))
                return ("str", C.string_at(p, n.value), t)
            return ("agg", [self.operand(L.LLVMGetAggregateElement(v,i)) for i in range(t.n)], t)
        if k in (11,12):
            t = self.ty(L.LLVMTypeOf(v)); n = t.n if t.k=="a" else len(t.elems)
            return ("agg", [self.operand(L.LLVMGetAggregateElement(v,i)) for i in range(n)], t)
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                sty = self.ty(L.LLVMGetGEPSourceElementType(v))
                base = self.operand(L.LLVMGetOperand(v,0))
                idx = [self.sint(L.LLVMGetOperand(v,i)) for i in range(1,L.LLVMGetNumOperands(v))]
                off = self.const_gep(sty, idx)
                if base[0] == "g": return ("g", base[1], base[2]+off)
                return ("cexpr", op, [base], off)
            if op == "bitcast": return self.operand(L.LLVMGetOperand(v,0))
            return ("cexpr", op, [self.operand(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))], self.ty(L.LLVMTypeOf(v)))
        if k == 22: return ("meta",)
        if k == 23: return ("asm",)
        if k == 13: return ("undef", self.ty(L.LLVMTypeOf(v)))
        if k == 19: return ("fp",)
        if k == 6: return ("alias", _name(v))
        return ("?", k)
    def load(self):
        M = Module(); M.funcs = {}; M.globals = {}; M.decls = {}
        self.vals = {}
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            G = GVar(); G.name=_name(g); G.const=bool(L.LLVMIsGlobalConstant(g)); G.tls=bool(L.LLVMIsThreadLocal(g))
            G.ty = self.ty(L.LLVMGlobalGetValueType(g)); G.linkage=L.LLVMGetLinkage(g); G.vis=L.LLVMGetVisibility(g)
            i = L.LLVMGetInitializer(g); G.hasinit = bool(i); G.di=None
            G.init = self.operand(i) if i else None
            M.globals[G.name]=G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            nm = _name(f)
            F = self.func(f); F.name = nm; F.linkage = L.LLVMGetLinkage(f); F.vis = L.LLVMGetVisibility(f)
            (M.decls if F.decl else M.funcs)[nm] = F
            f = L.LLVMGetNextFunction(f)
        return M
    def func(self, f):
        F = Func(); F.decl = bool(L.LLVMIsDeclaration(f)); self.vals = {}
        fty = L.LLVMGlobalGetValueType(f); F.rty = self.ty(L.LLVMGetReturnType(fty)); F.vararg=bool(L.LLVMIsFunctionVarArg(fty))
        nid = 0
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f,i); self.vals[p]=nid
            F.params.append((nid,_name(p),self.ty(L.LLVMTypeOf(p)))); nid+=1
        if F.decl: return F
        raw=[]; bidx={}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            B=Block(); B.idx=len(F.blocks); B.fn=F; B.ins=[]; B.preds=[]; nm=L.LLVMGetBasicBlockName(b); B.name=nm.decode() if nm else str(B.idx)
            bidx[L.LLVMBasicBlockAsValue(b)]=B.idx; F.blocks.append(B); lst=[]
            i=L.LLVMGetFirstInstruction(b)
            while i:
                self.vals[i]=nid; nid+=1; lst.append(i); i=L.LLVMGetNextInstruction(i)
            raw.append(lst); b=L.LLVMGetNextBasicBlock(b)
        # bidx by both value and block pointer
        F.nvals=nid
        b = L.LLVMGetFirstBasicBlock(f); k=0; blkptr={}
        while b:
            blkptr[b]=k; k+=1; b=L.LLVMGetNextBasicBlock(b)
        for B,lst in zip(F.blocks,raw):
            for i in lst:
                I=self.ins(i,bidx,blkptr)
                if I is None: continue
                I.blk=B.idx; B.ins.append(I)
            t=B.ins[-1]
            B.succs = t.x if t.op in("br",) else (list(dict.fromkeys([t.x[0]]+[b for _,b in t.x[1]])) if t.op=="switch" else [])
        for B in F.blocks:
            for s in B.succs: F.blocks[s].preds.append(B.idx)
        return F
    def ins(self,i,bidx,blkptr):
        I=Ins(); o=L.LLVMGetInstructionOpcode(i); I.op=OPC.get(o,"op%d"%o); I.res=self.vals[i]; I.ty=self.ty(L.LLVMTypeOf(i)); I.x=None; I.a=[]
        I.line=L.LLVMGetDebugLocLine(i) or 0; I.name=_name(i)
        n=C.c_uint(); fn=L.LLVMGetDebugLocFilename(i,C.byref(n)); I.file=fn.decode()[:n.value] if fn and I.line else None
        op=I.op; ops=lambda: [self.operand(L.LLVMGetOperand(i,k)) for k in range(L.LLVMGetNumOperands(i))]
        if op=="br":
            n=L.LLVMGetNumSuccessors(i); I.x=[blkptr[L.LLVMGetSuccessor(i,k)] for k in range(n)]
            if n==2: I.a=[self.operand(L.LLVMGetOperand(i,0))]
        elif op=="switch":
            I.a=[self.operand(L.LLVMGetOperand(i,0))]; no=L.LLVMGetNumOperands(i)
            cases=[]
            for k in range(2,no,2):
                cases.append((self.operand(L.LLVMGetOperand(i,k)), bidx[L.LLVMGetOperand(i,k+1)]))
            I.x=(bidx[L.LLVMGetOperand(i,1)],cases)
        elif op=="phi":
            I.x=[(blkptr[L.LLVMGetIncomingBlock(i,k)], self.operand(L.LLVMGetIncomingValue(i,k))) for k in range(L.LLVMCountIncoming(i))]
        elif op=="call":
            cv=L.LLVMGetCalledValue(i); na=L.LLVMGetNumArgOperands(i)
            I.x=self.operand(cv)
            if I.x[0]=="f" and I.x[1].startswith("llvm.dbg"): return None
            I.a=[self.operand(L.LLVMGetOperand(i,k)) for k in range(na)]
            I.name=[self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,k))) for k in range(na)]
        elif op=="alloca":
            I.a=ops(); I.x=self.ty(L.LLVMGetAllocatedType(i)); I.name=_name(i)
        elif op=="gep":
            I.a=ops(); I.x=self.ty(L.LLVMGetGEPSourceElementType(i))
        elif op=="icmp":
            I.a=ops(); I.x=PRED[L.LLVMGetICmpPredicate(i)]; I.name=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
        elif op in("extractvalue","insertvalue"):
            I.a=ops(); n=L.LLVMGetNumIndices(i); p=L.LLVMGetIndices(i); I.x=[p[k] for k in range(n)]
        elif op in("add","sub","mul","shl"):
            I.a=ops(); I.x=(bool(L.LLVMGetNSW(i)),bool(L.LLVMGetNUW(i)))
        elif op in("load","store"):
            I.a=ops(); I.x=(L.LLVMGetOrdering(i), bool(L.LLVMGetVolatile(i)))
            if op=="store": I.name=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
        elif op=="atomicrmw":
            I.a=ops(); I.x=L.LLVMGetAtomicRMWBinOp(i)
        elif op in("trunc","zext","sext","ptrtoint"):
            I.a=ops(); I.x=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
        else:
            I.a=ops()
        return I

# ------------------------------------------------------------------ debug info types (textual metadata)
class DI:
    """Minimal reader of the debug-info metadata of a textual module."""
    def __init__(self, ll):
        self.n={}; self.fn={}; self.fnattrs={}; self.gv={}
        rx=re.compile(r"^!(\d+) = (distinct )?(.*)$")
        fx=re.compile(r'^(define|declare) .*?@("?[\w.$]+"?)\((.*)\)(.*)$')
        gx=re.compile(r'^@("?[\w.$]+"?) = .*$')
        for line in open(ll):
            if line[0]=="!":
                m=rx.match(line)
                if m: self.n[int(m.group(1))]=m.group(3)
            elif line.startswith("define") or line.startswith("declare"):
                m=fx.match(line)
                if m:
                    nm=m.group(2).strip('"'); d=re.search(r"!dbg !(\d+)",m.group(4))
                    self.fn[nm]=int(d.group(1)) if d else None
                    args=[]; depth=0; cur=""
                    for ch in m.group(3):
                        if ch=="(": depth+=1
                        if ch==")": depth-=1
                        if ch=="," and depth==0: args.append(cur); cur=""
                        else: cur+=ch
                    if cur.strip(): args.append(cur)
                    self.fnattrs[nm]=[("sret" if "sret(" in a else "byval" if "byval(" in a else None) for a in args]
            elif line[0]=="@":
                m=gx.match(line)
                if m:
                    d=re.findall(r"!dbg !(\d+)",line)
                    self.gv[m.group(1).strip('"')]=[int(x) for x in d]
        self.cache={}
    def field(self, s, key):
        m=re.search(r"[(,] ?%s: (\"[^\"]*\"|[^,)]*)" % key, s)
        return m.group(1).strip('"') if m else None
    def ref(self, s, key):
        v=self.field(s,key)
        return int(v[1:]) if v and v.startswith("!") else None
    def elems(self, s, key="elements"):
        r=self.ref(s,key)
        if r is None: return []
        t=self.n[r]
        return [int(x) if x else None for x in re.findall(r"(?:!(\d+)|null)", t[t.index("{"):])]
    def strip(self, t):
        """strip typedefs and qualifiers"""
        while t is not None:
            s=self.n[t]
            if s.startswith("!DIDerivedType") and any(k in s for k in ("DW_TAG_typedef","DW_TAG_const_type","DW_TAG_volatile_type","DW_TAG_restrict_type","DW_TAG_atomic_type")):
                t=self.ref(s,"baseType")
            elif s.startswith("!DICompositeType") and "DIFlagFwdDecl" in s: return self.full(s,t)
            else: return t
        return None
    def full(self,s,t):
        """definition of a forward-declared struct"""
        if getattr(self,"_defs",None) is None:
            self._defs={}
            for i,x in self.n.items():
                if x.startswith("!DICompositeType") and "DIFlagFwdDecl" not in x:
                    n=self.field(x,"name")
                    if n: self._defs.setdefault(n,i)
        return self._defs.get(self.field(s,"name"),t)
    def is_const(self,t):
        while t is not None:
            s=self.n[t]
            if "DW_TAG_const_type" in s: return True
            if s.startswith("!DIDerivedType") and ("DW_TAG_typedef" in s or "DW_TAG_volatile_type" in s or "DW_TAG_restrict_type" in s): t=self.ref(s,"baseType")
            else: return False
        return False
    def desc(self,t):
        """('ptr', pointee id|None) ('struct', name, id) ('int', name,size,signed) ('array', elt, n) ('func',) None=void"""
        t0=t; t=self.strip(t)
        if t is None: return ("void",)
        r=self.cache.get(t)
        if r: return r
        s=self.n[t]
        if "DW_TAG_pointer_type" in s: r=("ptr", self.ref(s,"baseType"))
        elif "DW_TAG_structure_type" in s or "DW_TAG_union_type" in s: r=("struct", self.field(s,"name") or "", t)
        elif "DW_TAG_enumeration_type" in s: r=("int","enum",int(self.field(s,"size") or 32)//8,False)
        elif "DW_TAG_array_type" in s:
            n=None
            for e in self.elems(s):
                c=self.field(self.n[e],"count"); n=int(c) if c and c.lstrip("-").isdigit() else None
            r=("array", self.ref(s,"baseType"), n)
        elif s.startswith("!DIBasicType"):
            enc=self.field(s,"encoding") or ""
            r=("int", self.field(s,"name"), int(self.field(s,"size") or 0)//8, enc in ("DW_ATE_signed","DW_ATE_signed_char"))
        elif s.startswith("!DISubroutineType"): r=("func",t)
        else: r=("?",s[:60])
        self.cache[t]=r
        return r
    def size(self,t):
        t=self.strip(t)
        if t is None: return 0
        d=self.desc(t)
        if d[0]=="ptr": return 8
        if d[0]=="int": return d[2]
        if d[0]=="array": return (d[2] or 0)*self.size(d[1])
        z=self.field(self.n[t],"size")
        return int(z)//8 if z else 0
    def members(self, t):
        """list of (name, byte offset, type id)"""
        t=self.strip(t); key=("m",t)
        if key in self.cache: return self.cache[key]
        s=self.n[t]; out=[]
        for e in self.elems(s):
            if e is None: continue
            m=self.n[e]
            if "DW_TAG_member" not in m: continue
            out.append((self.field(m,"name"), int(self.field(m,"offset") or 0)//8, self.ref(m,"baseType")))
        self.cache[key]=out
        return out
    def at(self, t, off):
        """type id of the scalar at byte offset off inside type t, and (innermost struct name, field, struct offset)"""
        owner=None; base=0
        while True:
            d=self.desc(t)
            if d[0]=="struct":
                best=None
                for (n,o,mt) in self.members(t):
                    if o<=off and (off<o+max(self.size(mt),1)): best=(n,o,mt)
                if best is None: return None,owner
                owner=(d[1],best[0],base); base+=best[1]; off-=best[1]; t=best[2]
            elif d[0]=="array":
                es=self.size(d[1])
                if not es: return None,owner
                base+= (off//es)*es; off%=es; t=d[1]
            else:
                return (t,owner) if off==0 else (None,owner)
    def fntypes(self, name):
        """[ret type id, param type ids...]"""
        k=self.fn.get(name)
        if k is None: return None
        st=self.ref(self.n[k],"type")
        return self.elems(self.n[st],"types")
    def fnfile(self,name):
        k=self.fn.get(name)
        if k is None: return None
        return self.field(self.n[self.ref(self.n[k],"file")],"filename")
    def fnline(self,name):
        k=self.fn.get(name)
        return int(self.field(self.n[k],"line") or 0) if k is not None else 0
    def gvinfo(self,name):
        """(source name, type id, file, line, is_local) of a global variable"""
        for e in self.gv.get(name,[]):
            s=self.n.get(e,"")
            if s.startswith("!DIGlobalVariableExpression"):
                v=self.n[self.ref(s,"var")]
                f=self.ref(v,"file")
                return (self.field(v,"name"), self.ref(v,"type"), self.field(self.n[f],"filename") if f else None, int(self.field(v,"line") or 0))
        return None
