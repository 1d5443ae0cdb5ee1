#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text below, checks.json, properties.jsonl and seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(here, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

HEAD = open(os.path.join(here, "tools", "design_head.md")).read()
TAIL = open(os.path.join(here, "tools", "design_tail.md")).read()
ORACLE = json.load(open(os.path.join(here, "tools", "design_oracles.json")))

out = [HEAD, "## The properties, one by one\n",
 "`quick` and `thorough` list the runs as `name(harness; parameters)`; `closure` marks runs without a bound on preemptions, `pre=N` those with at most N, `stmt` those in which every statement of the package is a scheduling point. Costs are the wall times of quick on 8 cores.\n"]
for p in props:
    c = checks[p["id"]]
    def show(r):
        s = "%s(%s; %s" % (r["name"], r["fn"], ", ".join("%s=%d" % kv for kv in sorted(r.get("params", {}).items())))
        if r.get("closure"): s += "; closure"
        elif r.get("preempt"): s += "; pre=%d" % r["preempt"]
        if r.get("stmt"): s += "; stmt"
        return s.replace("; )", ")").rstrip("; ") + ")"
    out.append("### %s %s\n" % (p["id"], p["title"]))
    o = ORACLE.get(p["id"])
    if o: out.append(o + "\n")
    out.append("*Within:* " + c["level_note"] + "\n")
    if c.get("outside"): out.append("*Outside:* " + c["outside"] + "\n")
    out.append("*Quick:* " + "; ".join("`%s`" % show(r) for r in c["quick"]) + "\n")
    if c.get("thorough"): out.append("*Thorough:* " + "; ".join("`%s`" % show(r) for r in c["thorough"]) + "\n")
out.append(TAIL)
out.append("| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
