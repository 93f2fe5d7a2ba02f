#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from tools/seeds.py and confirms each planted bug in scratch copies.

seed.py make [ID...]     write the folders, check that each compiles, demo 0 on the clean tree and non-zero with the patch
seed.py tests [ID...]    run the repository's stable tests on each patched copy (slow)
seed.py checks [ID...]   run the property's quick check on each patched copy
No registered check uses this."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
ns = {}
exec(open(os.path.join(T, "seeds.py")).read(), ns)
S = ns["S"]
ROOT = "/tmp/seed"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on CGO_ENABLED=1
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 1
grep -q github.com/BurntSushi/toml "$tmp/go.mod" || GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 "$tmp/go.mod"
cat > "$tmp/overlay.json" <<END
{"Replace": {"$PWD/zz_kit_test.go": "$here/kit_test.go", "$PWD/zz_demo_test.go": "$here/demo_test.go"}}
END
go test -vet=off -count=1 -timeout 150s -mod=mod -modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" %s-run '^TestSeededDemo$' . > "$tmp/out" 2>&1
rc=$?
tail -c 3000 "$tmp/out"
exit $rc
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)


def apply(s, d):
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "BAD-EDIT %s: %d matches of %r" % (f, t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new))
    r = sh(["gofmt", "-l", "-e"] + [f for f, _, _ in s["edits"] if f.endswith(".go")], d)
    return ""


def base_lines(d, files):
    """Which changed lines are the original repository's."""
    n = 0
    for f in set(files):
        r = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], d).stdout.splitlines()
        diff = sh(["git", "diff", "-U0", "--", f], d).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            a, k = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + k):
                if r[i - 1].lstrip("^").startswith("733c1b4"):
                    n += 1
    return n


def env_go():
    return dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1")


def make(s):
    out = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "demo.sh"), "w").write(s.get("sh") or DEMO % s.get("flags", ""))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    if "demo" in s:
        shutil.copy(os.path.join(T, "seedkit_test.go.txt"), os.path.join(out, "kit_test.go"))
        open(os.path.join(out, "demo_test.go"), "w").write(s["demo"].lstrip())
    for k, v in s.get("files", {}).items():
        open(os.path.join(out, k), "w").write(v)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    d = os.path.join(ROOT, s["id"], "repo")
    try:
        copy(d)
        moved = os.path.join(ROOT, s["id"], "demo")
        shutil.copytree(out, moved)
        clean = sh(["bash", os.path.join(moved, "demo.sh")], d)
        e = apply(s, d)
        if e:
            return s["id"], e
        diff = sh(["git", "diff"], d).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        nb = base_lines(d, [f for f, _, _ in s["edits"]])
        mod = os.path.join(ROOT, s["id"], "m.mod")
        shutil.copy(d + "/go.mod", mod)
        shutil.copy(d + "/go.sum", mod[:-3] + "sum")
        sh(["go", "mod", "edit", "-require=github.com/BurntSushi/toml@v0.3.1", mod], d, env=env_go())
        b = sh(["go", "build", "-mod=mod", "-modfile=" + mod, "./..."], d, env=env_go())
        broken = sh(["bash", os.path.join(moved, "demo.sh")], d)
        ok = clean.returncode == 0 and broken.returncode != 0 and nb > 0 and b.returncode == 0
        msg = "clean=%d patched=%d base-lines=%d build=%d" % (clean.returncode, broken.returncode, nb, b.returncode)
        if clean.returncode:
            msg += "\n--- clean:\n" + (clean.stdout + clean.stderr)[-1500:]
        if b.returncode:
            msg += "\n--- build:\n" + (b.stdout + b.stderr)[-800:]
        elif broken.returncode == 0:
            msg += "\n--- patched passes:\n" + broken.stdout[-500:]
        else:
            m = re.findall(r"^\s+\S*demo_test\.go:\d+: .*|^panic: .*|^WARNING: DATA RACE|^fatal error.*|^.*Error: .*", broken.stdout, re.M)
            msg += "  [" + (m[0].strip()[:120] if m else broken.stdout.strip()[-160:]) + "]"
        return s["id"], ("ok   " if ok else "BAD  ") + msg
    finally:
        shutil.rmtree(os.path.join(ROOT, s["id"]), ignore_errors=True)


def tests(s):
    d = os.path.join(ROOT, s["id"], "repo")
    try:
        copy(d)
        r = sh(["git", "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], d)
        if r.returncode:
            return s["id"], "does not apply: " + r.stderr
        mod = os.path.join(ROOT, s["id"], "m.mod")
        shutil.copy(d + "/go.mod", mod)
        shutil.copy(d + "/go.sum", mod[:-3] + "sum")
        sh(["go", "mod", "edit", "-require=github.com/BurntSushi/toml@v0.3.1", mod], d, env=env_go())
        for _ in range(2):
            r = sh(["unshare", "-Urn", "bash", "-c", "ip link set lo up; exec go test -json -vet=off -count=1 -timeout 6m -mod=mod -modfile=%s ./..." % mod], d, env=env_go())
            res = {}
            for line in r.stdout.splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j.get("Test") and j.get("Action") in ("pass", "fail", "skip"):
                    res[j["Package"] + "/" + j["Test"]] = j["Action"]
            bad = [t for t in STABLE if res.get(t) != "pass"]
            if not bad:
                return s["id"], "tests ok (%d)" % len(STABLE)
        return s["id"], "TESTS FAIL: " + ", ".join(bad)[:400]
    finally:
        shutil.rmtree(os.path.join(ROOT, s["id"]), ignore_errors=True)


def checks(s):
    d = os.path.join(ROOT, s["id"], "repo")
    try:
        copy(d)
        sh(["git", "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], d)
        t0 = time.time()
        r = sh([sys.executable, os.path.join(V, "check.py"), s["property"], "quick"], V,
               env=dict(os.environ, VERIF_DEV_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        v = {0: "MISSED", 1: "caught", 2: "NO-VERDICT"}.get(r.returncode, str(r.returncode))
        mm = re.search(r"^([\w-]+ \[\w+\]: .*)", r.stderr, re.M)
        return s["id"], "%s %s %.0fs %s" % (s["property"], v, time.time() - t0, mm.group(1)[:140] if mm else r.stderr[-300:] if r.returncode == 2 else "")
    finally:
        shutil.rmtree(os.path.join(ROOT, s["id"]), ignore_errors=True)


f = {"make": make, "tests": tests, "checks": checks}[sys.argv[1]]
ids = sys.argv[2:]
todo = [s for s in S if not ids or s["id"] in ids or s["property"] in ids]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for fu in concurrent.futures.as_completed([ex.submit(f, s) for s in todo]):
        a, b = fu.result()
        print("%-26s %s" % (a, b), flush=True)
