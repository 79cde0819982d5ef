#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C23"}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PURE:
        t = "model checking: exhaustive enumeration of bounded input spaces of the real code against a reference model"
        n = "Holds for every input of the enumerated spaces (several are complete); assumes the reference format tables and that other inputs behave alike."
        l = "exploration"
    else:
        t = "stateless model checking of the implementation under a controlled scheduler, virtual clock and virtual network"
        if p == "C22":
            t += ", happens-before race detection on every execution"
        n = "Every input combination of the scenarios and every schedule with the listed number of deviations from the default schedules (three, plus ones that starve a goroutine) was executed on the real code; assumes the virtual runtime is faithful and that no bug needs more."
        l = "model_checking"
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                   "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "bash build.sh /tmp/verif-setup && bash buildpure.sh /tmp/verif-setup && rm -f /tmp/verif-setup",
     "checks": checks, "not_applicable": [],
     "notes": "The checks instrument a scratch copy of /repo's working tree; no hooks are committed in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
