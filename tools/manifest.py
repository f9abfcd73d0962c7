#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {"native": "online reference-model monitors over random histories", "asan": "AddressSanitizer", "tsan": "ThreadSanitizer", "msan": "MemorySanitizer", "miri": "Miri (undefined-behaviour interpreter)", "miri-mac": "Miri (undefined-behaviour interpreter)"}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    modes = []
    for ps in p["passes"]:
        if TECH[ps["mode"]] not in modes:
            modes.append(TECH[ps["mode"]])
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
        "technique": p.get("technique", "runtime monitoring: " + ", ".join(modes)),
        "level": p.get("level", "exploration"),
        "level_note": p.get("note", "Held on the executions observed (counts in the evidence file). " + p["rule"]),
    })
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(vcmon)", "enable": "RUSTFLAGS=--cfg vcmon (set by tools/check.py and tools/setup.sh)",
               "source_commits": ["7a450f2"]},
     "notes": "One hook in /repo: with cfg(vcmon) the policy type dedup::Keep is exported, so that the public bulk building functions can be called with either policy. "
              "Everything else is observed at the public interface. tools/check.py replay FILE runs a recorded case again."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
