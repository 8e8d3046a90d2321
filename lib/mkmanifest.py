#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present (run by hand after adding a check)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NA = {"C24": "Property-based testing applies (byte model per element), but the harness for gparrays is not built: reading shows defects in most routines that would have to be repaired or listed first. Nothing is claimed."}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "The check for this property is not built yet; nothing is claimed.")))
        continue
    s = open(f).read()
    m = re.search(r'^TECHNIQUE = "(.*)"$', s, re.M)
    n = re.search(r'^NOTE = "(.*)"$', s, re.M)
    checks.append(dict(
        property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
        technique=m.group(1) if m else "Property-based testing: Hypothesis-generated parallel programs run on real MPI jobs, judged by a numpy reference model",
        level="exploration",
        level_note=n.group(1) if n else "Random generated search with shrinking; bounded sizes and process counts on one machine. "
        "Trusts the reference model, Open MPI and the compilers. Absence of violations is evidence, not proof."))
d = dict(version=1, setup_cmd="python3 lib/build.py gadrv-ts gadrv-pr gadrv-mpi3 gadrv-mt gadrv-pt madrv-ts comexdrv-ts comexdrv-pr comexdrv-mt comexdrv-pt comexdrv-mpi3", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: checks compile the working tree themselves (lib/build.py) and link it with the harness servers. "
         "Replays: ./check.py replay <file>.")
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
