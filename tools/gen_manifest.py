#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/*/config.json and not_applicable below."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {}
for f in sorted(glob.glob(root + '/harness/*/config.json')):
    c = json.load(open(f)); have[c['property']] = c
checks, na = [], []
for p in props:
    c = have.get(p['id'])
    if not c:
        na.append({"property": p['id'], "reason": NOT_APPLICABLE.get(p['id'], "no check yet (harness under construction)")})
        continue
    bounds = '; '.join(f"{n}: {h['bounds']}" for n, h in sorted(c['harnesses'].items()))
    note = ("Holds for every input within the bounds (" + bounds + "). Trusted: the engine's model of Go, validated on every run by "
            "replaying sampled paths natively, and the stand-ins for os, gin, go/packages, cobra and encoding/json or yaml where used.")
    if c.get('assumptions'): note += " Assumes: " + '; '.join(c['assumptions']) + "."
    checks.append({"property": p['id'], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": "symbolic execution of the repository's Go SSA with SMT (z3, QF_BV), counterexamples replayed natively",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: stand-ins and harnesses are laid over /repo's current sources with a build overlay. See DESIGN.md."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
