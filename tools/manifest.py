#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NA = {
    "C23": "pure functions of points and scalars: no schedule, clock, I/O, randomness or second party that a simulation "
           "could vary; the simulated protocols exercise the operations as a by-product, but do not decide the laws.",
    "C24": "pure functions of integers: nothing in them depends on a schedule, a fault or another party, so simulating "
           "executions decides nothing that a plain unit test of the function would not.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "sim", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and "
                         "adversarial moves; reference model and history checks as oracle)",
            "level": "exploration",
            "level_note": "Seeded search over many simulated runs of the real library: a clean batch is evidence, not "
                          "proof. Trusts petlib, bplib, OpenSSL, msgpack and the reference model in sim/ref.py; the "
                          "cryptographic assumptions themselves (discrete logarithm, hash) are assumed.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {
        "guard": "ZKSK_SIM",
        "enable": "checks run the library from /repo's working tree with ZKSK_SIM=1 in the environment (pure Python: no build)",
        "source_commits": ["1c61aab"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "./check ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE]; see DESIGN.md",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
