"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC explores bounded models of the specification exhaustively, checks the property in them and enumerates behaviours that are replayed "
        "in the code; random sessions recorded from the code are checked by TLC against the same specification. "
        "Outside the explored bounds nothing is claimed; the driver's terminal and file system stand for real ones.")
checks = []
for p in props:
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "TLA+ specification checked with TLC, bound by replaying its behaviours in the code and validating recorded traces",
                   "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the library's public interface (Tty, EditorContext, KeyMap, Editor, Buffer, History, completers) shows all the specification speaks about. "
              "Known findings and repairs: known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
