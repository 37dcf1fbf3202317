"""what a foreign file defines against what the rejected event of a replay shows"""
import json, sys
d = json.load(open(sys.argv[1]))
f = [e for e in d["case"]["ops"] if e["op"] == "file"][0]
open("/tmp/ff.pdf", "wb").write(bytes.fromhex(f["hex"]))
ent = {}
for r in f["revs"]:
    for e in r["tab"] + r["stm"]:
        ent.setdefault(e[0], e)
want = {"%d %d" % (e[0], e[2]): f["bodies"][e[3]] for e in ent.values() if e[1]}
ev = d["rejected_event"]
o = ev["out"]
print([(e["op"], e.get("ref"), e.get("how"), e.get("opts")) for e in d["case"]["ops"][:d["rejected_event_index"]]][1:])
print({k: v for k, v in ev.items() if k not in ("out", "hex", "revs", "bodies")})
got = o.get("objs") or o.get("image", {}).get("objs")
if got is None:
    print(json.dumps(o)[:600], "want", want.get(ev.get("ref")))
else:
    for k in sorted(set(want) | set(got), key=lambda x: int(x.split()[0])):
        if want.get(k) != got.get(k):
            print(k, "want", json.dumps(want.get(k))[:300], "got", json.dumps(got.get(k))[:300])
    if "layout" in o:
        print({k: v for k, v in o["layout"].items() if k != "objs"}, {k: v for k, v in o["image"].items() if k != "objs"}, "infra", f["enc"])
        print(o["layout"]["objs"])
