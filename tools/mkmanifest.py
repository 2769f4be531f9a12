#!/usr/bin/env python3
"""Writes MANIFEST.json from scenarios.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from scenarios import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = [dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
               technique="deterministic simulation with fault injection: " + PROPS[i].get("tech", "seeded search over schedules and faults"), level=PROPS[i]["level"],
               level_note=PROPS[i].get("note", "sampled search; every run is decided by one seed and replays exactly")) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every source of nondeterminism is taken over at a binary seam (symbol interposition, compiler instrumentation). See DESIGN.md.")
open(os.path.join(H, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
