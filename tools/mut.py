#!/usr/bin/env python3
"""Development aid: applies small edits to scratch copies of /repo and runs checks on each.

mut.py FILE [NAME...]   FILE is python defining M = [(name, [property...], file, old, new), ...]
                        (or (name, props, [(file, old, new), ...]))
No registered check uses this."""
import concurrent.futures, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]
ROOT = "/tmp/mut"


def one(m):
    name, props = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [(m[2], m[3], m[4])]
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], capture_output=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return name, "BAD-EDIT %s: %d matches" % (f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        out = []
        for pr in props:
            t0 = time.time()
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), pr, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_DEV_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            v = {0: "MISSED", 1: "caught", 2: "NO-VERDICT"}.get(r.returncode, str(r.returncode))
            why = ""
            if r.returncode == 1:
                mm = re.search(r"^([\w-]+ \[\w+\]: .*)", r.stderr, re.M)
                why = mm.group(1)[:150] if mm else ""
            elif r.returncode != 0:
                why = r.stderr[-700:]
            out.append("%s %s %.0fs %s" % (pr, v, time.time() - t0, why))
        return name, " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ms = [m for m in ns["M"] if not names or m[0] in names]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, m) for m in ms]):
        n, r = f.result()
        print("%-22s %s" % (n, r), flush=True)
