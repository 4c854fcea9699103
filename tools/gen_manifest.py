#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py's list of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
SEQ = ("TLA+ specification (Mockall.tla) model-checked with TLC; every transition of the explored state graph, and long random "
       "behaviours, replayed as tests on the real generated mocks")
NOTE = ("Exhaustive up to the bounds in lib/props.py (expectations per method, operations per behaviour, argument domain), "
        "plus seeded random long behaviours; each behaviour is replayed on several mock shapes with outcomes compared step by step. "
        "Trusts TLC, rustc, and the harness's encoding of values.")
tech = dict.fromkeys(props.PROPS, SEQ)
tech.update(props.TECH)
note = dict.fromkeys(props.PROPS, NOTE)
note.update(props.NOTES)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                 technique=tech[i], level="model_checking", level_note=note[i]) for i in ids if i in props.PROPS],
    not_applicable=[dict(property=i, reason=props.NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS])
if props.HOOKS: m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
