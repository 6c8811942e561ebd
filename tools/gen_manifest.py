#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in lib/ is claimed."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(ROOT / "lib"))
import importlib.util, importlib.machinery
l = importlib.machinery.SourceFileLoader("check", str(ROOT / "bin/check"))
spec = importlib.util.spec_from_loader("check", l)
m = importlib.util.module_from_spec(spec)
l.exec_module(m)
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(x)["id"] for x in open(ROOT / "properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
           "evidence_file": f"evidence/{p}.json", "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]}
          for p in props if p in m.CHECKS]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in m.CHECKS]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC and bound to the real sources compiled from /repo in harness/. No hooks in /repo are needed. See DESIGN.md."},
          open(ROOT / "MANIFEST.json", "w"), indent=1)
open(ROOT / "MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
