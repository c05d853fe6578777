#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry

TECH = {}
NOTE = ("Runtime monitoring: every execution observed on the real code was judged; inputs, histories and configurations outside the generators' bounds "
        "(DESIGN.md) are not covered. Trusted: the monitors' independent model, the compiler and BLAS/LAPACK/MPI/Python of the sandbox.")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if " hook: " in " " + l.split(" ", 1)[0] + " " + l.split(" ", 1)[1]]
checks, rest = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in registry.PROPS:
        s = registry.PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": s.get("technique", "runtime monitor: differential oracle (independent index-level model) on randomised workloads"),
                       "level": "exploration", "level_note": s.get("note", NOTE)})
    else:
        rest.append({"property": p, "reason": "The monitor for this property is not built yet; runtime monitoring applies to it."})
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import registry, check\"",
     "hooks": {"guard": "TAT_VERIF_HEAP_SCOPE", "enable": "the checks that use it compile their drivers against /repo/include with -DTAT_VERIF_HEAP_SCOPE",
               "source_commits": hooks},
     "checks": checks, "not_applicable": rest,
     "notes": "Every check compiles its drivers from /repo's working tree into /verif/build (ignored by git) and runs them there."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(rest), "not", hooks)
