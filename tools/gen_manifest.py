#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of properties the harness decides."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "engine/harness/src/props.rs")).read()
claimed = re.findall(r'"(C\d\d)"', re.search(r"PROPS: \[&str; \d+\] = \[(.*?)\];", src, re.S).group(1))
NOTE = {}
f = os.path.join(V, "tools/level_notes.json")
if os.path.exists(f): NOTE = json.load(open(f))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f"python3 engine/check.py {i}", thorough_cmd=f"python3 engine/check.py {i} --thorough", level="model_checking",
            technique="symbolic execution of the staged real Rust sources, obligations discharged by z3 over all values of the symbolic inputs, counterexamples replayed on the real code",
            level_note=NOTE.get(i, "")))
    else: na.append(dict(property=i, reason="not built yet: the scenarios for this property are still being written"))
json.dump(dict(version=1, setup_cmd="python3 engine/stage.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
