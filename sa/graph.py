"""Whole-program queries: call graph, taken addresses, globals, external effects."""
import os
from . import driver
from .report import Finding

def opnds(ins):
    """all operands of an instruction, flattened through constant expressions"""
    out = list(ins.a)
    if ins.op == "phi": out += [v for _, v in ins.x]
    if ins.op == "call": out.append(ins.x)
    res = []
    def walk(o):
        res.append(o)
        if o[0] == "cexpr": [walk(x) for x in o[2]]
        if o[0] == "agg": [walk(x) for x in o[1]]
    for o in out: walk(o)
    return res

class Graph:
    def __init__(s, M, D):
        s.M = M; s.D = D; s.calls = {}; s.callers = {}; s.taken = {}; s.indirect = {}
        for n, f in M.funcs.items():
            cs = []; tk = set(); ind = []
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "call":
                        if i.x[0] == "f":
                            if i.x[1] in M.funcs or not i.x[1].startswith("llvm."): cs.append((i.x[1], i))
                        elif i.x[0] != "asm": ind.append(i)
                        rest = list(i.a)
                    else: rest = None
                    for o in (opnds(i) if rest is None else [x for a in rest for x in flat(a)]):
                        if o[0] == "f": tk.add(o[1])
            s.calls[n] = cs; s.taken[n] = tk; s.indirect[n] = ind
            for c, i in cs: s.callers.setdefault(c, set()).add(n)
        s.gtaken = {}
        for g, v in M.globals.items():
            if v.init is None: continue
            for o in flat(v.init):
                if o[0] == "f": s.gtaken.setdefault(o[1], set()).add(g)
    def public(s): return {n for n, f in s.M.funcs.items() if f.linkage == 0}
    def reach(s, roots, through=None):
        """functions reachable from the roots through direct calls and taken addresses; -> {function: predecessor}"""
        seen = {r: None for r in roots}; work = list(roots)
        while work:
            n = work.pop()
            nxt = [c for c, _ in s.calls.get(n, ())] + sorted(s.taken.get(n, ()))
            for c in nxt:
                if c not in seen and (through is None or through(n, c)):
                    seen[c] = n; work.append(c)
        return seen
    def path(s, seen, n):
        p = []
        while n is not None: p.append(n); n = seen[n]
        return p[::-1]
    def where(s, n, ins=None):
        return (ins.file if ins is not None and ins.file else s.D.fnfile(n), ins.line if ins is not None else s.D.fnline(n), n)

def flat(o):
    out = [o]
    if o[0] == "cexpr":
        for x in o[2]: out += flat(x)
    if o[0] == "agg":
        for x in o[1]: out += flat(x)
    return out

_g = {}
def load(fault=False):
    if fault not in _g:
        M, D = driver.load(fault)[:2]
        _g[fault] = Graph(M, D)
    return _g[fault]

def report(o, key, msg, where, path=()):
    key = key.replace(" ", "_")
    if any(f.key == key for f in o.findings): return
    f, l, fn = where
    o.findings.append(Finding(key, msg, f, l, fn, tuple(path)))
