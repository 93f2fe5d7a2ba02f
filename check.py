#!/usr/bin/env python3
"""Runs one property's check:  check.py <ID> quick|thorough   or   check.py <ID> replay FILE

Builds the harness against /repo's working tree, runs its generators in child
processes, and turns the outcome into an exit status, a VIOLATION line and
evidence/<ID>.json.  Exit 0: held.  Exit 1: violated.  Exit 2: no verdict.
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
DEV = os.environ.get("VERIF_DEV_REPO")  # development only (tools/mut.py): judge a scratch copy of /repo instead
if DEV:
    REPO = DEV
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
RACE = {"C25"}
PY = {"C21"}

GOENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
             GOFLAGS="-mod=readonly", GO111MODULE="on")
for k in ("GOROOT", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG"):
    GOENV.pop(k, None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


HOOKS = '''
// hooks of the verification harness (/verif)
var (
	VerifListenHook       func(network, address string) (Listener, bool, error)
	VerifListenPacketHook func(network, address string) (PacketConn, bool, error)
	VerifDialHook         func(network, address string) (Conn, bool, error)
)
'''


def overlay(outdir):
    """A copy of net/dial.go whose Listen, ListenPacket and Dial ask the harness first."""
    goroot = subprocess.run(["go", "env", "GOROOT"], env=GOENV, cwd=HARNESS, capture_output=True,
                            text=True, check=True).stdout.strip()
    src = os.path.join(goroot, "src/net/dial.go")
    text = open(src).read()
    for sig, hook, ret in (
        ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "VerifListenHook", "l"),
        ("func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n", "VerifListenPacketHook", "l"),
        ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "VerifDialHook", "l"),
    ):
        if text.count(sig) != 1:
            raise NoVerdict("net/dial.go has no unique %r" % sig)
        text = text.replace(sig, sig + "\tif h := %s; h != nil {\n\t\tif l, ok, err := h(network, address); ok {\n\t\t\treturn l, err\n\t\t}\n\t}\n" % hook)
    text += HOOKS
    patched = os.path.join(outdir, "dial_patched.go.txt")
    ov = os.path.join(outdir, "overlay.json")
    for path, want in ((patched, text), (ov, json.dumps({"Replace": {src: patched}}))):
        try:
            if open(path).read() == want:
                continue
        except OSError:
            pass
        with open(path + ".tmp", "w") as f:
            f.write(want)
        os.replace(path + ".tmp", path)
    return ov


def shared_overlay():
    # one stable path, so that the build cache is shared between checks
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return overlay(BUILD)


def build(outdir, race):
    ov = shared_overlay()
    out = os.path.join(outdir, "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    env = dict(GOENV)
    if race:
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    if DEV:
        mod = os.path.join(outdir, "go.mod")
        open(mod, "w").write(open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + DEV))
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(outdir, "go.sum"))
        cmd.append("-modfile=" + mod)
    cmd.append("./props")
    t = time.time()
    p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise NoVerdict("build failed:\n" + p.stdout + p.stderr)
    log("built in %.1f s" % (time.time() - t))
    return out


def limits(race):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    return f


def child_env(prop, outdir, tier, seed, **kw):
    e = dict(os.environ)
    e.update(VERIF_PROPERTY=prop, VERIF_OUT=outdir, VERIF_TIER=tier, VERIF_SEED=str(seed),
             VERIF_REGRESS=os.path.join(VERIF, "regress", prop), VERIF_REPO=REPO,
             GOTRACEBACK="all", GOMEMLIMIT="600MiB", GORACE="halt_on_error=1 exitcode=66")
    e.pop("GODEBUG", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def start(binary, env, outdir, race):
    os.makedirs(outdir, exist_ok=True)
    so, se = open(os.path.join(outdir, "stdout"), "wb"), open(os.path.join(outdir, "stderr"), "wb")
    return subprocess.Popen([binary, "-test.run=^TestProperty$", "-test.timeout=0"], cwd=outdir,
                            env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se, preexec_fn=limits(race))


def tail(path, n=12000):
    try:
        b = open(path, "rb").read()
        return b[:n].decode("utf-8", "replace")
    except OSError:
        return ""


def verdict(p, outdir, killed):
    """-> (result dict or None, violation casefile or None, error or None)"""
    res = None
    try:
        res = json.load(open(os.path.join(outdir, "result.json")))
    except (OSError, ValueError):
        pass
    err = tail(os.path.join(outdir, "stderr"), 200000) + tail(os.path.join(outdir, "stdout"), 200000)
    if killed:
        return res, None, "did not finish in time"
    if res and p.returncode in (0, 3) and (res.get("complete") or res.get("violation")):
        return res, res.get("violation"), None
    if res and res.get("error"):
        return res, None, res["error"]
    race = "WARNING: DATA RACE" in err
    m = re.search(r"^(panic: |fatal error: ).*", err, re.M)
    if race or (p.returncode == 2 and m):
        inlib = "github.com/fwhezfwhez/tcpx." in err
        if m and "bad g->status" in m.group(0):
            inlib = False  # the end of the virtual clock, nothing of the library
        kind = "data-race" if race else "crash"
        at = err.find("WARNING: DATA RACE") if race else m.start()
        if (race and "fwhezfwhez/tcpx" in err[at:at + 20000]) or (not race and inlib):
            try:
                cf = json.load(open(os.path.join(outdir, "last.json")))
            except (OSError, ValueError):
                return res, None, "crash without a case:\n" + err[:3000]
            cf["kind"], cf["detail"] = kind, err[at:at + 5000]
            return res, cf, None
    return res, None, "child ended with status %s\n%s" % (p.returncode, err[:4000])


def replay(binary, prop, cf, outdir, race, repeat=10, timeout=90):
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    f = os.path.join(outdir, "case.json")
    json.dump(cf, open(f, "w"))
    p = start(binary, child_env(prop, outdir, "quick", 1, VERIF_REPLAY=f, VERIF_REPEAT=repeat), outdir, race)
    killed = wait([p], timeout)
    return verdict(p, outdir, killed)


def wait(ps, timeout):
    end = time.time() + timeout
    killed = False
    for p in ps:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            killed = True
            for q in ps:
                if q.poll() is None:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except OSError:
                        pass
            p.wait()
    return killed


def shrinks(v):
    """Smaller variants of a JSON value."""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n - k + 1, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i, x in enumerate(v):
            for y in shrinks(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k, x in v.items():
            for y in shrinks(x):
                d = dict(v)
                d[k] = y
                yield d


def shrink(binary, prop, cf, outdir, race, budget=40):
    """Crashes end the process, so rapid cannot shrink them: do it from outside, on the case's JSON."""
    end = time.time() + budget
    best = cf
    again = True
    while again and time.time() < end:
        again = False
        for c in shrinks(best["case"]):
            if time.time() > end:
                break
            t = dict(best, case=c)
            _, viol, _ = replay(binary, prop, t, outdir, race, repeat=3, timeout=40)
            if viol and viol.get("kind") == best.get("kind"):
                best, again = dict(viol), True
                break
    return best


def known_findings():
    """Findings recorded rather than repaired: (property, lane, kind, regex on detail, text)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) lane=(\S+) kind=(\S+) match=/(.*)/ :: (.*)", line)
            if m:
                out.append(m.groups())
    return out


def setup():
    """Warms the build cache: both builds, thrown away."""
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        build(work, False)
        build(work, True)
    except NoVerdict as e:
        log(e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    if prop == "setup":
        return setup()
    tier = "thorough" if mode == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
    race = prop in RACE
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="%s-" % prop, dir=BUILD)
    try:
        return run(prop, mode, tier, seed, race, work, t0)
    except NoVerdict as e:
        log("NO VERDICT:", e)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def save_replay(prop, cf):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([cf.get("lane"), cf["case"]], sort_keys=True).encode()).hexdigest()[:12]
    f = os.path.join(d, "%s-%s-%s.json" % (prop, cf.get("lane", "x"), h))
    json.dump(cf, open(f, "w"), indent=1)
    return f


def run(prop, mode, tier, seed, race, work, t0):
    binary = os.environ.get("VERIF_BINARY") or build(work, race)
    if mode == "replay":
        cf = json.load(open(sys.argv[3]))
        _, viol, err = replay(binary, prop, cf, os.path.join(work, "replay"), race, repeat=30, timeout=200)
        if viol:
            log(viol["kind"] + ": " + viol["detail"])
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]), flush=True)
            return 1
        if err:
            raise NoVerdict(err)
        log("not reproduced")
        return 0

    shards = 8
    limit = int(os.environ.get("VERIF_LIMIT_S") or (1500 if tier == "thorough" else 240))
    procs, outs = [], []
    for i in range(shards):
        o = os.path.join(work, "s%d" % i)
        os.makedirs(o)
        outs.append(o)
        env = child_env(prop, o, tier, seed, VERIF_SHARD=i, VERIF_SHARDS=shards, VERIF_LIMIT_S=limit)
        env.setdefault("GOMAXPROCS", "2" if tier == "thorough" else "4")
        procs.append(start(binary, env, o, race))
    # stop everything at the first violation
    end = time.time() + limit + 200
    early = False
    while any(p.poll() is None for p in procs) and time.time() < end and not early:
        time.sleep(0.1)
        for p, o in zip(procs, outs):
            if p.poll() is not None:
                _, viol, err = verdict(p, o, False)
                if viol:
                    early = True
    killed = [p.poll() is None for p in procs]
    for p, k in zip(procs, killed):
        if k:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()

    viols, errs, results = [], [], []
    for p, o, k in zip(procs, outs, killed):
        if k and early:
            continue
        res, viol, err = verdict(p, o, k)
        if res:
            results.append(res)
        if viol:
            viols.append(viol)
        if err:
            errs.append(err)

    known, fresh = [], []
    for v in viols:
        for kp, kl, kk, km, kt in known_findings():
            if (kp, kl, kk) == (prop, v.get("lane"), v.get("kind")) and re.search(km, v.get("detail", ""), re.S):
                known.append(kt)
                break
        else:
            fresh.append(v)
    for t in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, t), flush=True)

    if fresh:
        v = min(fresh, key=lambda c: len(json.dumps(c["case"])))
        if v["kind"] in ("crash", "stuck", "spinning", "data-race"):
            v = shrink(binary, prop, v, os.path.join(work, "shrink"), race)
        fresh = [v]

    hashes, evals, samples, lanes, regress = set(), 0, [], {}, 0
    for r in results:
        hashes.update(r.get("hashes") or [])
        evals += r["evaluations"]
        regress += r.get("regress", 0)
        for s in r.get("samples") or []:
            if sum(1 for x in samples if x["lane"] == s["lane"]) < 2:
                samples.append({"lane": s["lane"], "case": s["case"]})
        for n, st in r["lanes"].items():
            a = lanes.setdefault(n, {"rule": st["rule"], "evaluations": 0, "nontrivial": 0, "labels": {}})
            a["evaluations"] += st["evaluations"]
            a["nontrivial"] += st["nontrivial"]
            for k, c in (st["labels"] or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + c
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes),
            "rule": " || ".join("%s: %s" % (n, a["rule"]) for n, a in sorted(lanes.items())),
            "samples": samples,
            "lanes": {n: {k: a[k] for k in ("evaluations", "nontrivial", "labels")} for n, a in sorted(lanes.items())},
            "regression_cases_replayed": regress,
            "stopped_at_time_limit": any(r.get("stopped_at_time_limit") for r in results),
        },
        "assumptions": [
            "the in-memory network of harness/vnet stands for the kernel's (ordered streams, EOF, reset, datagrams)",
            "goroutine schedules are those the Go runtime produced in this run, plus the gates and write delays of each case",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if fresh:
        for v in fresh:
            log("%s [%s]: %s" % (v["kind"], v.get("lane"), v.get("detail", "")))
            print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, v)), flush=True)
        return 1
    if errs:
        raise NoVerdict(errs[0])
    log("held: %d cases, %d distinct non-trivial, %.1f s" % (evals, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
