#!/usr/bin/env python3
"""Source of /verif/checks.json and /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = {}
NA = {}
TECH = "symbolic execution of the real Go code (SSA, regenerated each run) with SMT-decided branches and assertions; counterexamples replayed natively"
BASE = ["Go's compiler, runtime and standard library behave as documented; standard-library code reached from goji is executed symbolically as well, except for the leaf functions the engine models (listed under assumptions by the engine)."]

def R(name, fn, pkg="h/web", **kw):
    d = dict(name=name, pkg=pkg, fn=fn)
    d["params"] = {k: v for k, v in kw.pop("p", {}).items()}
    d.update(kw)
    return d

def check(id, note, quick, thorough=None, outside="", assumptions=()):
    CH[id] = dict(technique=TECH, level_note=note, assumptions=BASE + list(assumptions), outside=outside, quick=quick, thorough=thorough or [])

def na(id, reason):
    NA[id] = reason

exec(open(os.path.join(here, "tools", "checks_web.py")).read())
exec(open(os.path.join(here, "tools", "checks_mw.py")).read())
exec(open(os.path.join(here, "tools", "checks_net.py")).read())

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p["id"] not in CH and p["id"] not in NA:
        na(p["id"], "no check has been built for it yet")
json.dump(CH, open(os.path.join(here, "checks.json"), "w"), indent=1, sort_keys=True)
man = dict(version=1, setup_cmd="./setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in CH])
for p in props:
    if p["id"] in CH:
        c = CH[p["id"]]
        man["checks"].append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
            technique=c["technique"], level="model_checking", level_note=c["level_note"]))
man["notes"] = "No hooks are committed to /repo: the checks instrument a copy of its current source through a build overlay (see DESIGN.md)."
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
open(os.path.join(here, "checks.json"), "a").write("\n")
print(len(CH), "checks,", len(man["not_applicable"]), "not applicable")
