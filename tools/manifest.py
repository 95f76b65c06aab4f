#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
NOTE = json.load(open(os.path.join(H, "tools", "notes.json")))
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
cmd = "/opt/venv/bin/python -B check.py "
m = {"version": 1, "setup_cmd": "true", "checks": [
    {"property": p["id"], "quick_cmd": cmd + p["id"], "thorough_cmd": cmd + p["id"],
     "technique": "TLA+ specification checked with TLC; model-generated and random sessions of the real code validated as traces of it",
     "level": "model_checking", "level_note": NOTE.get(p["id"], NOTE["*"])} for p in ps], "not_applicable": []}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
