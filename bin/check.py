#!/usr/bin/env python3
"""Runs the check of one property: check.py Cnn [--tier quick|thorough] [--replay FILE]

Builds the harnesses of the property from /repo's working tree, runs them in
parallel shards under monitors, joins what the shards observed, rewrites
evidence/Cnn.json and prints the verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks, emu  # noqa: E402

GOROOTS = ["/opt/veriftools/go1.27.3/bin"]


def goenv(tmp):
    env = dict(os.environ)
    for k in ("GOOS", "GOARCH", "GOFLAGS", "GODEBUG", "GORACE", "TMPDIR"):
        env.pop(k, None)
    env["PATH"] = ":".join([p for p in GOROOTS if os.path.isdir(p)] + [env.get("PATH", "/usr/bin:/bin")])
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", VERIF_REPO=REPO)
    env.setdefault("GOCACHE", os.path.join(env["HOME"], ".cache/go-build"))
    return env


class CheckError(Exception):
    pass


def build(kind, tmp, env, only=None):
    """Builds one harness binary; kind is bb, pkg or emu-PLATFORM, and may end in -race.
    only: an in-package harness built without the other ones."""
    out = os.path.join(tmp, kind + (("-" + only) if only else ""))
    race = kind.endswith("-race")
    if race:
        env = dict(env, CGO_ENABLED="1")
    flags = ["-race"] if race else []
    if kind.startswith("bb"):
        src = os.path.join(tmp, "src-" + kind)
        shutil.copytree(os.path.join(VERIF, "go"), src)
        if REPO != "/repo":
            p = os.path.join(src, "go.mod")
            s = open(p).read()
            open(p, "w").write(s.replace("=> /repo", "=> " + REPO))
        cmd = ["go", "build", "-buildvcs=false", *flags, "-o", out, "./bb"]
        cwd = src
    elif kind.startswith("emu-"):
        cwd = os.path.join(tmp, "src-" + kind)
        try:
            if race and kind.startswith("emu-win"):
                # The buffers are looked at through an array type larger than them.
                flags = ["-race", "-gcflags=all=-d=checkptr=0"]
            env = dict(env, **emu.make(kind.split("-")[1], REPO, VERIF, cwd, env))
        except (RuntimeError, OSError, KeyError) as e:
            raise CheckError("%s: %s" % (kind, e))
        cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", *flags, "-o", out, "."]
    else:
        rep = {}
        ind = os.path.join(VERIF, "go", "inpkg")
        for f in sorted(os.listdir(ind)):
            if f.endswith("_verif_test.go.txt") and (not only or f.startswith("main_") or 'vfProps["%s"]' % only in open(os.path.join(ind, f)).read()):
                rep[os.path.join(REPO, f[:-4])] = os.path.join(ind, f)
        obs = os.path.join(VERIF, "go", "obs")
        for f in sorted(os.listdir(obs)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "verifobs", f)] = os.path.join(obs, f)
        ov = out + ".overlay.json"
        json.dump({"Replace": rep}, open(ov, "w"))
        cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-overlay", ov, *flags, "-o", out, "."]
        cwd = REPO
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (kind, r.stdout[-4000:]))
    return out


def run_shard(stage, binary, i, n, seed, tier, tmp, env, res, single=None):
    out = os.path.join(tmp, "%s.%d.json" % (stage["name"].replace("/", "_"), i))
    err = out + ".stderr"
    limit = stage["limit"][tier]
    scratch = os.path.join(SCRATCH, "%s.%d" % (stage["name"], i))
    os.makedirs(scratch, exist_ok=True)
    env = dict(env, VERIF_SCRATCH=scratch, TMPDIR=scratch, GOTRACEBACK="all",
               GODEBUG="schedtrace=10000000", GORACE="halt_on_error=0 exitcode=0 history_size=3",
               VERIF_REPO=REPO)
    args = ["-prop", stage["harness"], "-seed", str(seed), "-tier", tier, "-shard", str(i), "-shards", str(n),
            "-out", out, "-limit", "%ds" % limit]
    if single is not None:
        args += ["-case", str(single), "-v"]
    if not stage["kind"].startswith("bb"):
        env["VERIF_ARGS"] = json.dumps(args)
        cmd = [binary, "-test.run", "^TestVerifMain$", "-test.timeout", "0", "-test.count", "1"]
        cwd = scratch
    else:
        cmd, cwd = [binary, *args], scratch
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=ef if single is None else None, stderr=ef, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        hung = False
        try:
            rc = p.wait(timeout=limit * 1.5 + 45)
        except subprocess.TimeoutExpired:
            hung = True
            os.kill(p.pid, signal.SIGQUIT)
            try:
                rc = p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    rep = None
    try:
        rep = json.load(open(out))
    except (OSError, ValueError):
        pass
    cur = ""
    try:
        cur = open(out + ".cur").read().strip()
    except OSError:
        pass
    text = open(err, errors="replace").read()
    res.append(dict(stage=stage, shard=i, rc=rc, hung=hung, rep=rep, cur=cur, err=text))


def blames_library(trace):
    """Whether the goroutine the runtime blames runs library code."""
    m = re.search(r"^(panic:|fatal error:)", trace, re.M)
    if not m:
        return False
    tail = trace[m.start():]
    if tail.startswith("fatal error: all goroutines are asleep"):
        blk = tail
    else:
        g = re.search(r"^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
        blk = g.group(1) if g else ""
    for f in re.findall(r"^\t(\S+?\.go):\d+", blk, re.M):
        if f.startswith(REPO + "/") and not f.endswith("_test.go") and "/verifobs/" not in f:
            return True
    return False


def races(text):
    out = []
    for blk in re.findall(r"={10,}\nWARNING: DATA RACE\n(.*?)\n={10,}", text, re.S):
        parts = re.split(r"\n\n", blk)
        # Both accesses, not where the goroutines were created.
        acc = "\n".join(parts[:2])
        fs = re.findall(r"^\s+(\S+?\.go):\d+", acc, re.M)
        if any(f.startswith(REPO + "/") and not f.endswith("_test.go") and "/verifobs/" not in f for f in fs):
            out.append(blk)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    single = None
    spec = checks.CHECKS[prop]
    stages = spec["stages"]
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        single, seed, tier = rp["case"], rp["seed"], rp["tier"]
        stages = [s for s in stages if s["name"] == rp["stage"]]
    t0 = time.time()
    global SCRATCH
    tmp = tempfile.mkdtemp(prefix="verif-build-")
    SCRATCH = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(SCRATCH, 0o755)  # parts of some harnesses run unprivileged
    try:
        rc = run(prop, spec, stages, tier, seed, single, tmp, t0)
    except CheckError as e:
        print("ERROR", e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)


def run(prop, spec, stages, tier, seed, single, tmp, t0):
    env = goenv(tmp)
    bins, errs = {}, []

    def mk(k):
        try:
            bins[k] = build(k, tmp, env)
        except CheckError as e:
            errs.append(str(e))
    kinds = sorted({s["kind"] for s in stages})
    missing = []
    ths = [threading.Thread(target=mk, args=(k,)) for k in kinds]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for s in list(stages):
        # A harness which does not fit the library any more does not stop the others.
        if s["kind"].startswith("pkg") and s["kind"] not in bins:
            try:
                bins[s["kind"], s["harness"]] = build(s["kind"], tmp, env, s["harness"])
            except CheckError as e:
                errs.append(str(e))
                missing.append("%s: cannot be built" % s["name"])
                stages = [x for x in stages if x is not s]
        elif s["kind"] not in bins:
            missing.append("%s: cannot be built" % s["name"])
            stages = [x for x in stages if x is not s]
    if not [s for s in stages if s.get("shards", 8) > 1]:
        raise CheckError("\n".join(errs))
    for e in errs:
        print(e[-1500:], file=sys.stderr)
    tb = time.time()
    results = []
    for s in stages:
        n = 1 if single is not None else s.get("shards", 8)
        ths = [threading.Thread(target=run_shard, args=(s, bins.get((s["kind"], s["harness"])) or bins[s["kind"]], i, n, seed, tier, tmp, env, results, single)) for i in range(n)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    known = {k["id"]: k for k in checks.known_findings(prop)}
    viol, incon, seen_known = [], list(missing), []
    ev = 0
    distinct = set()
    counters, samples = {}, []
    for r in results:
        rep, st = r["rep"], r["stage"]
        where = "%s shard %d" % (st["name"], r["shard"])
        base = dict(property=prop, stage=st["name"], harness=st["harness"], seed=seed, tier=tier, shard=r["shard"])
        rr = races(r["err"])
        if rr:
            counters["data race reports"] = counters.get("data race reports", 0) + len(rr)
        if rr and st.get("races", True):
            cs = r["cur"].split(" ")[0]
            viol.append(dict(base, cls="RACE", case=int(cs) if cs else None, what="data race in library code", log=rr[0].split("\n")))
        if rep is None or not rep.get("done"):
            if not r["hung"] and blames_library(r["err"]):
                cs = r["cur"].split(" ")[0]
                m = re.search(r"^(panic:|fatal error:).*$", r["err"], re.M)
                viol.append(dict(base, cls="CRASH", case=int(cs) if cs else None, what="the library crashed the process: " + m.group(0),
                                 log=r["err"][m.start():m.start() + 8000].split("\n")))
            else:
                incon.append("%s ended with %s: %s" % (where, "a hang" if r["hung"] else r["rc"], r["err"][-3000:]))
            continue
        ev += rep["evaluations"]
        distinct.update((st["name"], d) for d in rep["distinct"] or [])
        for k, v in rep["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in rep["samples"] or []:
            if len(samples) < 3:
                samples.append(s)
        for v in rep["violations"] or []:
            viol.append(dict(base, cls=v["class"], case=v["case"], what=v["what"], log=v["log"] or []))
        for k in rep["known"] or []:
            if k in known:
                if k not in seen_known:
                    seen_known.append(k)
            else:
                viol.append(dict(base, cls="FINDING", case=None, what="unlisted finding " + k, log=[]))
        for k in rep["inconclusive"] or []:
            incon.append("%s: %s" % (where, k))
    wall = time.time() - t0
    cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples or ["none: no shard finished"],
               observed=dict(sorted(counters.items())), shards=len(results), inconclusive=len(incon), known_findings_observed=seen_known,
               build_s=round(tb - t0, 1))
    evd = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec["assumptions"],
               wall_s=round(wall, 2), violations=len(viol))
    if single is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for k in incon[:3]:
        print("inconclusive:", k[:3000])
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = viol[0]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, v["case"]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("%s: %s" % (v["cls"], v["what"]))
        for ln in v["log"][-40:]:
            print("   ", ln)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d evaluations, %d distinct, %.1f s (%.1f s building), %d inconclusive; %s" % (
        prop, ev, len(distinct), wall, tb - t0, len(incon),
        ", ".join("%s %d" % kv for kv in sorted(counters.items()) if not kv[0].startswith("op "))))
    if len(incon) > len(results) // 2:
        print("ERROR too many shards gave no answer")
        return 2
    return 0


if __name__ == "__main__":
    main()
