"""replay.py <replay.json>: re-execute a recorded case on the current tree, without the explorer."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.pin_environment()
rec = json.load(open(sys.argv[1]))
boot.import_target()
import engine  # noqa: E402

mod = importlib.import_module("props." + rec["property"].lower())
fam = [f for f in mod.families(rec.get("tier", "quick")) if f.name == rec["family"]][0]
msg = None
for case in rec["cases"]:
    _, msg = engine.execute(fam, case)
print("case:", json.dumps(rec["cases"][-1], default=str))
print("result:", msg or "property holds")
sys.exit(1 if msg else 0)
