"""Findings, known-findings file, evidence and exit status of a check."""
import json, os, re, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

class Finding:
    """one violation of a property at one construct; `key` identifies it independently of line numbers"""
    __slots__ = ("key", "msg", "file", "line", "fn", "path")
    def __init__(s, key, msg, file=None, line=None, fn=None, path=()):
        s.key = key; s.msg = msg; s.file = file; s.line = line; s.fn = fn; s.path = path
    def where(s):
        f = s.file or ""
        f = f[f.find("/repo/") + 6:] if "/repo/" in f else f
        return "%s:%s%s" % (f, s.line, " in %s()" % s.fn if s.fn else "")
    def show(s):
        t = "%s: %s" % (s.where(), s.msg)
        if s.path: t += "  [path: %s]" % " -> ".join(str(x) for x in s.path)
        return t

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out

class Outcome:
    def __init__(s, pid, level="other"):
        s.pid = pid; s.findings = []; s.obligations = 0; s.discharged = 0; s.coverage = {}; s.notes = []; s.inconclusive = []; s.level = level
        s.rule = ""; s.trusted = []
        s.t0 = time.time()
    def add(s, f): s.findings.append(f)
    def ob(s, n=1, ok=True):
        s.obligations += n
        if ok: s.discharged += n

def finish(o, tier, rule, explanation):
    os.makedirs(EVID, exist_ok=True)
    kn = known(o.pid)
    seen = {}
    for f in o.findings: seen.setdefault(f.key, f)
    new = [f for k, f in sorted(seen.items()) if k not in kn]
    old = [f for k, f in sorted(seen.items()) if k in kn]
    for f in old: print("KNOWN-FINDING: property=%s %s (%s)" % (o.pid, f.show(), kn[f.key]))
    for k in kn:
        if k not in seen: print("note: listed finding %s no longer reported" % k)
    rp = os.path.join(EVID, "%s.violation.txt" % o.pid)
    if os.path.exists(rp): os.remove(rp)
    wall = time.time() - o.t0
    cov = dict(o.coverage)
    cov.update(rule=rule, explanation=explanation, obligations=o.obligations, discharged=o.discharged, inconclusive=o.inconclusive[:200],
               inconclusive_count=len(o.inconclusive), known_findings=[f.show() for f in old], violations=[f.show() for f in new], notes=o.notes)
    ev = {"property": o.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": o.level, "coverage": cov, "wall_s": round(wall, 2)}
    with open(os.path.join(EVID, "%s.json" % o.pid), "w") as fh: json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d inconclusive, %d known, %d violations, %.1fs" % (o.pid, o.obligations, o.discharged, len(o.inconclusive), len(old), len(new), wall))
    for n in o.notes: print("note: " + n)
    if new:
        with open(rp, "w") as fh:
            for f in new: fh.write("%s\n  key=%s\n" % (f.show(), f.key))
        for f in new: print("  %s   {key=%s}" % (f.show(), f.key))
        print("VIOLATION property=%s replay=%s" % (o.pid, rp))
        return 1
    return 0
