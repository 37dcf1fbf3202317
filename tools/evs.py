"""the last events of a replayed case and a structural diff between the observations before and at the rejection: tools/evs.py REPLAY.json [N]"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild
d = json.load(open(sys.argv[1]))
N = int(sys.argv[2]) if len(sys.argv) > 2 else 8
k = d["rejected_event_index"]
with tempfile.TemporaryDirectory() as t:
    open(t + "/c", "w").write(json.dumps(dict(d["case"], id="0")) + "\n")
    b = subprocess.run([sys.executable, vbuild.__file__], capture_output=True, text=True).stdout.split()[0]
    subprocess.run([b, d["driver"], t + "/c", t + "/o"])
    evs = json.loads(open(t + "/o").readline())["ev"]
def diff(a, b, p=""):
    if type(a) != type(b): print("  ", p, json.dumps(a), "->", json.dumps(b))
    elif isinstance(a, dict):
        for x in sorted(set(a) | set(b)):
            if a.get(x) != b.get(x): diff(a.get(x), b.get(x), p + "." + x)
    elif isinstance(a, list) and len(a) == len(b) and any(isinstance(x, (dict, list)) for x in a):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y: diff(x, y, p + "[%d%s]" % (i, ":n=%s" % x["n"] if isinstance(x, dict) and "n" in x else ""))
    elif a != b: print("  ", p, json.dumps(a), "->", json.dumps(b))
for i in range(max(0, k - N), k):
    e = evs[i]
    print(i + 1, {x: y for x, y in e.items() if x != "out"}, {x: y for x, y in e["out"].items() if x != "obs"})
if k > 1: diff(evs[k - 2]["out"].get("obs"), evs[k - 1]["out"].get("obs"))
