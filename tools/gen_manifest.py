#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the simulator implements."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = [l.split()[0] for l in subprocess.run([here + "/_build/kmsim", "list"], capture_output=True, text=True, check=True).stdout.splitlines()]
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
na = {
 "N01": "Translating configuration text is a pure function of the text without time, interleaving or faults; simulation adds nothing over example based tests. The simulated runs exercise the parser with generated configurations, but do not decide this property.",
 "N02": "Depends on the layout tables of a real X11 or Wayland session, which cannot be represented faithfully by the simulated desktop; the layout back ends are not part of the simulated build.",
}
checks, missing = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i + " thorough",
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": "Seeded exploration of whole-system executions of the real keymapperd, keymapper and keymapperctl code on a simulated kernel and desktop; a fixed number of seeds per tier. Assumes the simulated interfaces behave as described in DESIGN.md; absence of violations holds for the explored executions.",
        })
    elif i in na:
        missing.append({"property": i, "reason": na[i]})
    else:
        missing.append({"property": i, "reason": "The check is not built yet."})
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "none", "enable": "No hooks: the checks compile /repo/src as shared objects and intercept libc, X11, D-Bus, Wayland and GTK symbols.", "source_commits": []},
 "checks": checks,
 "not_applicable": missing,
 "notes": "Every check rebuilds what changed in /repo's working tree, runs a fixed number of seeds (quick) or twenty times as many (thorough), minimises a failure and writes the replay to _build/replays; replay with _build/kmsim replay <file> -v.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
