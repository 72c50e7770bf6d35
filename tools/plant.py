#!/usr/bin/env python3
"""Plant a bug: tools/plant.py SPEC.py [ids...]

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], demo (Go source), and optionally flags (for go test).
Each bug is applied to a scratch copy of /repo; it is kept in /verif/seeded
only if it builds, the stable tests pass with it, and its demo passes on the
unchanged copy and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"
STABLE = None

DEMO_SH = '''#!/bin/bash
# Run with cwd /repo, after the build. Exit 0: the property holds here.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -f -- "$work/ov.json"; rmdir -- "$work"' EXIT
printf '{"Replace":{"%%s/@PKG@/demo_verif_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$work/ov.json"
go test -run ^TestDemo -vet=off -count=1 -timeout 250s%s -overlay "$work/ov.json" ./@PKG@
'''

def sh(cmd, cwd, timeout=900):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def stable():
    global STABLE
    if STABLE is None:
        b = json.load(open("/opt/vp/BASELINE.json"))
        STABLE = b
    return STABLE

def tests_ok(repo):
    """the stable tests, as /opt/vp/test.sh runs them, in the copy"""
    rc, out = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 10m ./...", repo)
    passed, failed = set(), set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e["Action"] in ("pass", "fail"):
            (passed if e["Action"] == "pass" else failed).add((e["Package"], e["Test"]))
    return len(passed), sorted(failed)

def demo(repo, d):
    return sh("bash %s/demo.sh" % d, repo, 400)

def plant(b):
    d = os.path.join(SEEDED, b["id"])
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    repo = os.path.join(work, "repo")
    stage = os.path.join(work, "stage")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        os.mkdir(stage)
        open(stage + "/demo.sh", "w").write((DEMO_SH % (" " + b["flags"] if b.get("flags") else "")).replace("@PKG@", b.get("pkg", "testutils")))
        os.chmod(stage + "/demo.sh", 0o755)
        open(stage + "/demo_test.go", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(stage + "/meta.json", "w"), indent=1)
        rc, out = demo(repo, stage)
        if rc != 0:
            return "demo fails on the unchanged tree:\n" + out[-3000:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, out = sh(". /opt/vp/env.sh; go build ./...", repo)
        if rc != 0:
            return "build: " + out[-2000:]
        rc, out = demo(repo, stage)
        if rc == 0:
            return "demo passes with the patch:\n" + out[-1500:]
        if "[build failed]" in out or "setup failed" in out:
            return "demo does not build:\n" + out[-1500:]
        n, failed = tests_ok(repo)
        if failed or n < 82:
            return "tests: %d pass, failed %s" % (n, failed)
        rc, diff = sh("git diff", repo)
        if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
            return "no original line changed"
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                rc, cur = sh("git show d78596c:" + l[6:], "/repo")
            elif l.startswith("-") and l[1:].strip() and l[1:] not in cur.splitlines():
                return "changes a line that is not original: " + l
        open(stage + "/patch.diff", "w").write(diff)
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(stage, d)
        return None
    finally:
        shutil.rmtree(work)

def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:]
    bad = 0
    for b in spec["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        if not ids and os.path.isdir(os.path.join(SEEDED, b["id"])):
            continue
        e = plant(b)
        print("%-28s %s" % (b["id"], "ok" if e is None else "NO: " + e), flush=True)
        bad += e is not None
    sys.exit(1 if bad else 0)

main()
