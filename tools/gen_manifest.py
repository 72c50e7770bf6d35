#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a TestPxx in harness/checks"""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/checks/*_test.go"):
    have |= set(re.findall(r"^func Test(P\d\d)\(", open(f).read(), re.M))
T = {
 "P01": ("property-based testing: generated committees, transcripts and quorums against an independent ECDSA verifier and a big-integer model of the protocol", "all signature components are predicted by the model"),
 "P02": ("property-based testing: reference-computed signatures and alterations, boundary s forced, against a big-integer oracle", ""),
 "P03": ("property-based testing: shares from reference polynomials, every component and argument altered, exact accept/reject oracle", ""),
 "P04": ("property-based testing: differential against a reference random oracle and curve, plus bit-sensitivity relations", ""),
 "P05": ("property-based testing: generated dealings of every kind against a polynomial model", ""),
 "P06": ("property-based testing with fault injection: one generated mismatch per dealing, exact accept/reject oracle", ""),
 "P07": ("stateful model-based testing: histories of transcript operations against a model holding the plain secrets", ""),
 "P08": ("property-based testing with fault injection: openings dropped, altered, swapped; the result must be an error or the true share", ""),
 "P09": ("property-based testing with fault injection: corrupted dealings and altered complaints, exact set oracle", ""),
 "P10": ("property-based testing: encryption round trips and one generated change of context per ciphertext", ""),
 "P11": ("property-based testing: proofs from true and false witnesses, every element altered, challenges recomputed by the reference", ""),
 "P12": ("property-based testing: commitments against reference curve arithmetic, altered openings", ""),
 "P13": ("property-based testing: differential against big-integer polynomials, with aliasing programs", ""),
 "P14": ("property-based testing: differential against big-integer Lagrange interpolation", ""),
 "P15": ("property-based testing: differential against math/big, stateful aliasing programs", ""),
 "P16": ("property-based testing: differential against math/big, stateful aliasing programs", ""),
 "P17": ("property-based testing: differential against affine reference arithmetic, stateful aliasing programs", ""),
 "P18": ("property-based testing: round trips and structured invalid encodings against a reference decoder", ""),
 "P19": ("property-based testing: differential against an independent RFC 9380 implementation", ""),
 "P20": ("property-based testing: differential against an independent framing, insertion-order metamorphic relation, collision-seeking pairs", ""),
 "P21": ("property-based testing: differential against an independent ChaCha20, chunking metamorphic relation", ""),
 "P22": ("property-based testing: differential against an independent BIP32 derivation", ""),
 "P23": ("property-based testing: round trips and structure-aware CBOR mutation with a re-serialisation oracle", ""),
 "P24": ("property-based testing: before/after snapshots of every argument, repeated and concurrent execution under the race detector", ""),
}
NOTE = ("Held on every generated case of the run (counts, classes and samples in the evidence file); exploration, not proof. "
        "Trusts the big-integer reference in harness/ref (tested against published vectors), SHA-256, and rapid.")
checks = []
na = []
for p in [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]:
    if p in have:
        checks.append({"property": p, "quick_cmd": "python3 run_check.py %s quick" % p, "thorough_cmd": "python3 run_check.py %s thorough" % p,
                       "technique": T[p][0], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "its check is not written yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness is a Go module of its own that imports /repo; one unexported decoder is reached through a -overlay file."}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not yet")
