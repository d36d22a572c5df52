"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import checks  # noqa: E402

TECH = "TLA+ specification checked with TLC; {}"
HOW = {
    "P01": "random and structured records written and read by the real code, every round trip judged by the TLA+ byte-level model",
    "P02": "bytes written by the real code compared in TLC with the TLA+ encoder",
    "P03": "every damaged file of the exhaustive TLC model replayed into the real reader, plus random damage, judged by the TLA+ reader machine",
    "P04": "sessions generated by TLC simulation replayed into the real library and validated call by call against the TLA+ session model",
    "P05": "sessions generated by TLC simulation replayed into the real library; files after every call validated against the TLA+ session model",
    "P06": "recorded conversions judged by the TLA+ conversion relation",
    "P07": "field edits enumerated by TLC from the frozen field tables replayed into the real writers, judged by the TLA+ schema rules",
    "P08": "field edits enumerated by TLC from the frozen field tables replayed into the real readers, judged by the TLA+ schema rules",
    "P09": "records generated from the format tables written and read by the real code, contents of the file and of the result judged by the TLA+ Borealis model",
    "P10": "array data generated from the format tables written and read by the real code, contents judged by the TLA+ Borealis model",
    "P11": "restructurings of the real code judged by the TLA+ restructuring model (padding, dimensions, shared fields)",
    "P12": "every restructuring done both ways by the real code, both judged by the same TLA+ restructuring model",
    "P13": "field edits enumerated by TLC from the frozen field tables replayed into the real readers and writers, judged by the TLA+ check rules",
    "P14": "every combination of structure, version and request enumerated by TLC, replayed into the real code and judged by the TLA+ model",
    "P15": "conversions of the real code judged field by field by the TLA+ conversion model",
    "P16": "converted samples of the real code judged by the TLA+ index maps and scaling rule",
    "P17": "operation sequences enumerated by TLC replayed into the real code; files and inputs after each judged by the TLA+ model",
}
NOTE = "exhaustive for the bounded model; the binding to the code is by replayed and recorded behaviours, so the code is covered to the extent sampled"
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": TECH.format(HOW[i]), "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
