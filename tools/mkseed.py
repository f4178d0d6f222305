#!/usr/bin/env python3
"""mkseed.py [ids...]: write /verif/seeded/<id>/ from the definitions in tools/seeds/*.py;  -t: also try them against /repo."""
import glob, json, os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
defs = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    for d in runpy.run_path(f)["S"]: assert d["id"] not in defs, d["id"]; defs[d["id"]] = d
args = [a for a in sys.argv[1:] if not a.startswith("-")]
fast = "-f" in sys.argv; try_ = "-t" in sys.argv; allchecks = "-a" in sys.argv
ids = args or sorted(defs)
ids = [i for i in defs if any(i == a or (a.endswith("*") and i.startswith(a[:-1])) for a in ids)]
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable"))
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
def demo(d): return sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
for i in ids:
    d = defs[i]; T = V + "/seeded/" + i
    try:
        for f, old, new in d["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(R + "/" + f, "w").write(t.replace(old, new))
        os.makedirs(T, exist_ok=True)
        open(T + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if "demo" in d:
            shutil.copy(V + "/tools/seeds/h.h", T + "/h.h")
            ext = "cpp" if d.get("cxx") else "c"
            open(T + "/demo." + ext, "w").write(d["demo"])
            cc = "g++ -std=c++17" if d.get("cxx") else "gcc -std=gnu11"
            open(T + "/demo.sh", "w").write("""#!/bin/bash
# builds the demonstration against the library in /repo/_build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
%s -g -w %s -I"$D" -I/repo/include -I/repo/_build/include "$D/demo.%s" -o "$W/demo" -L/repo/_build -lrcutils -Wl,-rpath,/repo/_build -lpthread -ldl || exit 2
cd "$W" && timeout 120 ./demo %s
""" % (cc, d.get("flags", ""), ext, d.get("args", "")))
        else: open(T + "/demo.sh", "w").write(d["demosh"])
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(T + "/meta.json", "w"), indent=1)
        if try_:
            t0 = time.time(); r = ""
            if not fast:
                b = sh("bash /opt/vp/test.sh /tmp/seedout.json")
                res = json.load(open("/tmp/seedout.json"))
                p = set(res["passed"])
                r += "tests:%s " % ("ok" if base <= p else "BROKEN %s" % sorted(base - p)[:3])
                x = demo(T); r += "demo:%s " % ("fails(%d)" % x.returncode if x.returncode else "DOES NOT FAIL " + x.stdout[-200:])
                if x.returncode == 2: r += x.stdout[-300:]
            for pid in (claimed if allchecks else [d["prop"]]):
                if os.path.exists(V + "/sa/props/%s.py" % pid):
                    x = sh("cd /verif && VERIF_TIER=quick VERIF_SEED=1 python3 check.py %s" % pid)
                    if x.returncode: r += "%s:CAUGHT(%d) %s " % (pid, x.returncode, [l.strip()[:170] for l in x.stdout.splitlines() if l.startswith("  ")][:2] or x.stdout[-300:])
                    elif pid == d["prop"]: r += "%s:missed " % pid
            print(i, r, "%.0fs" % (time.time() - t0), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if try_ and not fast:
    sh("bash /opt/vp/build.sh")
    for i in ids:
        x = demo(V + "/seeded/" + i)
        if x.returncode: print(i, "DEMO FAILS ON CLEAN TREE", x.stdout[-300:])
