#!/usr/bin/env python3
# writes MANIFEST.json from the list of implemented checks
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
ids = subprocess.run(["harness/target/debug/mc", "list"], capture_output=True, text=True, check=True).stdout.split()
props = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
notes = json.load(open("tools/notes.json")) if os.path.exists("tools/notes.json") else {}
checks = []
for i in sorted(ids):
    assert i in props, i
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "technique": "explicit-state model checking of the compiled contracts: exhaustive bounded enumeration of operation sequences with state deduplication, every transition compared with an independent reference model",
        "level": "model_checking",
        "level_note": notes.get(i, "exhaustive within the stated operation alphabets, amounts and depths only; the chain (bank, token factory, message dispatch) is a small in-memory stand-in"),
    })
na = [{"property": i, "reason": notes.get("na:" + i, "check not built yet")} for i in sorted(props) if i not in ids]
json.dump({"version": 1, "setup_cmd": "./run.sh build", 
    "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified contracts through their public entry points", "source_commits": []},
    "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
