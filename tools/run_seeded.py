#!/usr/bin/env python3
"""Run each seeded bug's check against it: tools/run_seeded.py [-j N] [-a] [ids...]

Every bug is applied to /repo in turn, the quick check of its property is run
(VERIF_SEED from the environment), and /repo is restored straight afterwards.
"""
import json, os, subprocess, sys, time

SEEDED = "/verif/seeded"

def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    man = {c["property"]: c for c in []}
    m = json.load(open("/verif/MANIFEST.json"))
    for c in m["checks"]:
        man[c.get("property_id") or c.get("property") or c.get("id")] = c
    missed = []
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        p = meta["property"]
        if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
            sys.exit("/repo is not clean")
        r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if r.returncode:
            print(i, "does not apply"); missed.append(i); continue
        try:
            t = time.time()
            c = subprocess.run(["python3", "/verif/run_check.py", p, "quick"], cwd="/verif", capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True, capture_output=True)
        caught = c.returncode == 1 and ("VIOLATION property=%s" % p) in c.stdout
        print("%-30s %s %-7s rc=%d %5.1fs" % (i, p, "caught" if caught else "MISSED", c.returncode, time.time() - t), flush=True)
        if not caught:
            missed.append(i)
            if c.returncode not in (0, 1):
                print(c.stdout[-1500:], c.stderr[-1500:])
    print("missed:", missed)

main()
