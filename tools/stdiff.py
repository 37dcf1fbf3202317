"""the rejected event of a containers replay, and how its state differs from that of the event before"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild
for f in sys.argv[1:]:
    d = json.load(open(f))
    e = d["rejected_event"]
    n = d["rejected_event_index"]
    c = dict(d["case"], id="0")
    with tempfile.TemporaryDirectory() as t:
        open(t + "/c", "w").write(json.dumps(c) + "\n")
        b = subprocess.run([sys.executable, vbuild.__file__], capture_output=True, text=True).stdout.split()[0]
        subprocess.run([b, d["driver"], t + "/c", t + "/o"])
        evs = json.loads(open(t + "/o").readline())["ev"]
    print(f, n, {k: v for k, v in e.items() if k not in ("out", "st")})
    prev = evs[n - 2]["out"] if n > 1 else {"st": e.get("st")}
    for k in range(n - 2, -1, -1):
        if "st" in evs[k]["out"]:
            prev = evs[k]["out"]
            break
    o = e["out"]
    if "st" not in o:
        print(json.dumps(o))
        t = e.get("t", {}).get("s")
        print(t, json.dumps(prev["st"].get(t)))
        continue
    print(o.get("err"), o.get("sound"), o.get("ret"))
    for k in prev["st"]:
        if prev["st"][k] != o["st"].get(k):
            print(" ", k, json.dumps(prev["st"][k]), "\n   ->", json.dumps(o["st"].get(k)))
