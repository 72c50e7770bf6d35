#!/usr/bin/env python3
"""run_check.py PXX quick|thorough      decide a property on /repo's working tree
   run_check.py --replay FILE           run one saved counterexample again

Exit 0: held on everything generated. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself could not be carried out."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.27.3"
SHARDS = 8
LIMIT = {"quick": 840, "thorough": 3600}
# sub-properties that run in a second set of processes, under the race detector
RACE = {"P24": ["concurrent", "cold"]}
PLAIN = {"P24": ["history", "clones"]}


def env(extra=None):
    e = dict(os.environ)
    e.update({"GOROOT": GOROOT, "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off",
              "GOSUMDB": "off", "GOWORK": "off", "CGO_ENABLED": "1"})
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(extra or {})
    return e


def build(prop, work, race=False):
    """the checks against /repo as it is now"""
    binary = os.path.join(work, "checks%s.test" % ("-race" if race else ""))
    overlay = os.path.join(work, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": {REPO + "/poly/zz_verif_export.go": HERE + "/harness/overlay/poly_export.go.txt"}}, f)
    cmd = ["go", "test", "-c", "-vet=off", "-o", binary]
    if race:
        cmd.append("-race")
    tries = [["-overlay", overlay, "-tags", "verif_export"], []]  # without, if the decoder is called otherwise
    for extra in tries:
        r = subprocess.run(cmd + extra + ["./checks"], cwd=HERE + "/harness", env=env(), capture_output=True, text=True)
        if r.returncode == 0:
            return binary
    print("cannot build the checks:\n" + r.stdout + r.stderr)
    sys.exit(2)


def start(binary, prop, work, shard, shards, extra, args=()):
    d = os.path.join(work, "s%d" % shard)
    os.makedirs(d)
    e = env({"VERIF_SHARD": str(shard % shards), "VERIF_SHARDS": str(shards), "VERIF_OUT": d + "/out.json",
             "GOMAXPROCS": "4" if shard >= shards else "2", "GOTRACEBACK": "all"})
    e.update(extra)
    log = open(d + "/log", "w")
    p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop if not args else args[0], "-test.timeout=0", *args[1:]],
                         cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {"p": p, "dir": d, "shard": shard, "log": log}


def stop(job):
    try:
        os.killpg(job["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    job["p"].wait()


FATAL = re.compile(r"goroutine stack exceeds|fatal error: (stack overflow|concurrent map|all goroutines are asleep)|WARNING: DATA RACE|VERIF-HANG|^panic: ", re.M)


def judge(job):
    """'' (held), 'fail' (a property is broken) or 'error'"""
    code = job["p"].returncode
    log = open(job["dir"] + "/log", errors="replace").read()
    job["text"] = log
    out = {}
    try:
        out = json.load(open(job["dir"] + "/out.json"))
    except Exception:
        pass
    job["out"] = out
    if code == 0 and out:
        return ""
    if any(s.get("Failed") for s in out.get("Subs") or []) or out.get("Hang"):
        return "fail"
    if FATAL.search(log) and (REPO + "/") in log:
        return "fail"
    return "error"


def save(prop, job, seed, tier):
    """copies what reproduces a failure under replays/ and returns its path"""
    dst = os.path.join(HERE, "replays", prop)
    os.makedirs(dst, exist_ok=True)
    failed = [s["Name"] for s in job["out"].get("Subs") or [] if s.get("Failed")]
    name = "%s-seed%s-shard%d" % (failed[0] if failed else "crash", seed, job["shard"])
    log = os.path.join(dst, name + ".log")
    with open(log, "w") as f:
        f.write("property %s tier %s seed %s shard %d/%d\n" % (prop, tier, seed, job["shard"], SHARDS))
        f.write(job["text"][:300000])
    for root, _, files in os.walk(job["dir"]):
        for fn in files:
            if fn.endswith(".fail"):
                path = os.path.join(dst, name + ".fail")
                shutil.copy(os.path.join(root, fn), path)
                return path, log
    return log, log


def evidence(prop, tier, seed, outs, wall, violations):
    subs = {}
    for o in outs:
        for s in o.get("Subs") or []:
            t = subs.setdefault(s["Name"], {"rule": s["Rule"], "n": 0, "trivial": 0, "seen": set(), "labels": {}, "samples": []})
            t["n"] += s["Cases"]
            t["trivial"] += s["Trivial"]
            t["seen"].update(s.get("Distinct") or [])
            for k, v in (s.get("Labels") or {}).items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            t["samples"] += (s.get("Samples") or [])[:2]
    cov = {
        "evaluations": sum(t["n"] for t in subs.values()),
        "distinct_nontrivial": sum(len(t["seen"]) for t in subs.values()),
        "rule": " | ".join("%s: %s" % (k, t["rule"]) for k, t in sorted(subs.items())),
        "samples": [k + ": " + x for k, t in sorted(subs.items()) for x in t["samples"][:4]],
        "by_sub_property": {k: {"generated": t["n"], "trivial": t["trivial"], "distinct_nontrivial": len(t["seen"]),
                                "classes": dict(sorted(t["labels"].items(), key=lambda x: -x[1])[:60])} for k, t in sorted(subs.items())},
    }
    if not cov["samples"]:
        cov["samples"] = ["(no case completed)"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in harness/ref is right (it is checked against published vectors in its own tests)",
                          "SHA-256, the Go runtime and pgregory.net/rapid are right"],
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % prop)
    return cov


def check(prop, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    jobs = []
    try:
        binary = build(prop, work)
        extra = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
        if tier == "thorough":
            extra.update({"VERIF_ROUNDS": "1000000", "VERIF_BUDGET_S": os.environ.get("VERIF_BUDGET_S") or "600"})
        else:
            for k in ("VERIF_BUDGET_S", "VERIF_ROUNDS", "VERIF_SUB"):
                extra[k] = ""
        if prop in RACE:
            racy = build(prop, work, True)
            jobs += [start(racy, prop, work, SHARDS + i, SHARDS, dict(extra, VERIF_SUB=",".join(RACE[prop]))) for i in range(SHARDS)]
            extra["VERIF_SUB"] = ",".join(PLAIN[prop])
        jobs += [start(binary, prop, work, i, SHARDS, extra) for i in range(SHARDS)]
        bad, err, outs, live = [], [], [], list(jobs)
        while live:
            time.sleep(0.1)
            for j in list(live):
                if j["p"].poll() is None:
                    continue
                live.remove(j)
                v = judge(j)
                if j["out"]:
                    outs.append(j["out"])
                if v == "fail":
                    bad.append(j)
                elif v == "error":
                    err.append(j)
            if bad:
                for j in live:
                    stop(j)
                break
            if time.time() - t0 > LIMIT[tier]:
                print("the check did not finish within %d s" % LIMIT[tier])
                return 2
        lines = []
        for j in bad:
            path, log = save(prop, j, seed, tier)
            lines.append((path, log, j))
        cov = evidence(prop, tier, seed, outs, time.time() - t0, len(bad))
        known(prop)
        for path, log, j in lines:
            msg = [l for l in j["text"].splitlines() if l.strip()]
            k = next((i for i, l in enumerate(msg) if "[rapid] failed" in l or "panic" in l or "DATA RACE" in l or "VERIF-HANG" in l), 0)
            print("\n".join(x[:400] for x in msg[k:k + 12]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if bad:
            return 1
        if err:
            for j in err:
                print("shard %d ended with %s\n%s" % (j["shard"], j["p"].returncode, j["text"][-3000:]))
            return 2
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1f s" %
              (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        for j in jobs:
            stop(j)
            j["log"].close()
        shutil.rmtree(work, ignore_errors=True)


def known(prop):
    try:
        for l in open(HERE + "/known_findings.txt"):
            if l.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    except FileNotFoundError:
        pass


def replay(path):
    prop = os.path.basename(os.path.dirname(os.path.abspath(path)))
    name = os.path.basename(path)
    m = re.match(r"(.+)-seed(-?\d+)-shard(\d+)\.(fail|log)$", name)
    sub, seed, shard = m.group(1), m.group(2), int(m.group(3))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        race = shard >= SHARDS
        binary = build(prop, work, race)
        extra = {"VERIF_SEED": seed, "VERIF_TIER": "quick"}
        if sub != "crash":
            extra["VERIF_SUB"] = sub
        elif prop in RACE:
            extra["VERIF_SUB"] = ",".join((RACE if race else PLAIN)[prop])
        args = ["^Test%s$" % prop]
        if m.group(4) == "fail":
            args.append("-rapid.failfile=" + os.path.abspath(path))
        j = start(binary, prop, work, shard, SHARDS, extra, args)
        j["p"].wait()
        v = judge(j)
        print(j["text"][-6000:])
        if v == "fail":
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return {"": 0, "fail": 1, "error": 2}[v]
    finally:
        stop(j)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[2] not in LIMIT:
        sys.exit(__doc__)
    try:
        sys.exit(check(sys.argv[1], sys.argv[2]))
    except subprocess.SubprocessError as e:
        print(e)
        sys.exit(2)
