"""O02: nothing but the directory-creation operation changes the file system, and it creates exactly the directory it is given."""
from .. import driver, os_rules, graph, vg
TECHNIQUE = "effect analysis over the call graph plus path-sensitive dataflow of the one operation allowed to create"
NOTE = "Every external call of the library is classified; opening calls are judged by their constant mode. The paths of rcutils_mkdir are decided by null, first-byte and stat facts. Trusts that unlisted C library functions have no file-system effect."
RULE = "file-system changing calls are unreachable from every public operation except rcutils_mkdir, which calls mkdir() only with the given, non-null path known to begin with '/', and succeeds exactly when it was created or stat() says a directory exists"
EXPLAIN = "classification of every external call in the call graph and all path summaries of rcutils_mkdir"
MUTATE = set("mkdir mkdirat rmdir unlink unlinkat remove rename renameat renameat2 creat truncate ftruncate chmod fchmod fchmodat chown fchown lchown symlink symlinkat link linkat mknod mknodat mkfifo "
             "utime utimes utimensat futimens mkstemp mkostemp mkdtemp tmpfile tmpnam copy_file_range fallocate posix_fallocate mount umount system popen execv execve execvp execl execlp "
             "posix_spawn posix_spawnp fork vfork nftw setxattr removexattr umask".split())
OPENS = {"fopen": 1, "fopen64": 1, "freopen": 1, "fdopen": 1, "open": 1, "open64": 1, "openat": 2, "openat64": 2}
def readonly(M, o, i):
    if o[0] == "c": return (o[1] & 3) == 0 and not o[1] & (0o100 | 0o1000)
    g = o
    if g[0] == "g" and g[1] in M.globals and M.globals[g[1]].init and M.globals[g[1]].init[0] == "str":
        t = M.globals[g[1]].init[1].rstrip(b"\0")
        return t[:1] == b"r" and b"+" not in t
    return False
def check(o, tier):
    G = graph.load(); pub = G.public()
    def entries(n):
        seen = {n: None}; work = [n]
        while work:
            x = work.pop()
            for c in sorted(G.callers.get(x, ())) + sorted(f for f, t in G.taken.items() if x in t):
                if c not in seen: seen[c] = x; work.append(c)
        return seen
    n = 0
    for f, cs in sorted(G.calls.items()):
        for c, i in cs:
            if c in G.M.funcs and G.M.funcs[c].blocks: continue
            n += 1
            if c in OPENS:
                k = OPENS[c]; ok = len(i.a) > k and readonly(G.M, i.a[k], i)
                o.ob(ok=ok)
                if not ok: graph.report(o, "%s|open|%s" % (f, c), "%s() may create or change a file" % c, G.where(f, i))
                continue
            if c not in MUTATE: o.ob(); continue
            up = entries(f); roots = sorted(x for x in up if x in pub)
            bad = [x for x in roots if not (c == "mkdir" and x == "rcutils_mkdir")]
            o.ob(ok=not bad)
            for x in bad:
                p = [x]
                while up[p[-1]]: p.append(up[p[-1]])
                graph.report(o, "%s|changes|%s" % (x, c), "%s() reaches %s(), which changes the file system" % (x, c), G.where(f, i), p)
    o.coverage["external_call_sites"] = n
    driver.run(o, os_rules.o02, ["rcutils_mkdir"], {"merge": False})
    # the deciding construct: the call that creates
    if not any(c == "mkdir" for f in G.calls for c, _ in G.calls[f]): o.notes.append("the library no longer calls mkdir()")
