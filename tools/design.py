"""Fills the generated parts of DESIGN.md (from tools/design.in.md): properties, counts, seeds."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/design.in.md").read()
how = open(V + "/tools/design_props.md").read()
seeds = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/planted/*/meta.json"), key=lambda d: d.split("/")[-2]):
    m = json.load(open(d))
    seeds.append("| %s | %s%s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                 " (not caught)" if m.get("missed") else "", m["needs"].replace("|", "/")))
na = json.load(open(V + "/tools/not_applicable.json"))
s = s.replace("@@PROPS@@", how).replace("@@NFIX@@", str(len(open(V + "/tools/fixed.txt").read().split("\n")) - 1))
s = s.replace("@@SEEDS@@", "\n".join(seeds)).replace("@@NA@@", "\n".join("* %s: %s" % (x["id"], x["reason"]) for x in na) or "None of the listed properties.")
open(V + "/DESIGN.md", "w").write(s)
