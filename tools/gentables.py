#!/usr/bin/env python3
"""Writes COVERAGE.md from the evidence of a complete quick run.

usage: gentables.py [EVIDENCE-DIR]
"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, "evidence")
props = {}
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    props[p["id"]] = p.get("title", "")
out = ["# What the quick checks explore", "",
       "Written by `tools/gentables.py` from the evidence of a quick run on 8 cores. *Executions* are complete runs of the code under test, "
       "each judged by the reference; *states* are distinct states of the reference; *transitions* are edges of the tree of choices. "
       "Thorough runs are the same families with greater bounds.", ""]
tot = [0, 0, 0]
body = []
for i in sorted(props):
    f = os.path.join(ev, i + ".json")
    if not os.path.exists(f):
        print("missing", f); continue
    d = json.load(open(f)); c = d["coverage"]
    if d.get("tier") != "quick" or len(c["families"]) < 1 or not c["exhaustive"]:
        print("not a complete quick run:", f)
    ex = sum(x["executions"] for x in c["families"])
    tot[0] += ex; tot[1] += c["states"]; tot[2] += c["transitions"]
    body += ["## %s %s" % (i, props[i]), "",
             "%d families, %d executions, %d states, %d transitions, %.0f s" % (len(c["families"]), ex, c["states"], c["transitions"], d["wall_s"]), "",
             "| family | bound | executions | s |", "|---|---|---:|---:|"]
    for x in c["families"]:
        body.append("| %s | %s | %d | %.1f |" % (x["family"], x["bound"].replace("|", "\\|"), x["executions"], x["wall_s"]))
    body.append("")
out += ["In all: %d executions, %d states, %d transitions." % tuple(tot), ""] + body
open(os.path.join(root, "COVERAGE.md"), "w").write("\n".join(out).rstrip() + "\n")
