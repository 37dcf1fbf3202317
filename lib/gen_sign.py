"""signing: documents signed, edited, updated and signed again"""
import hashlib, re
import pdfraw


def sha(b):
    return hashlib.sha256(b).hexdigest()[:32]


def case(rng):
    big = rng.random() < .25
    enc = rng.choice(["", "", "", "rc4", "aes2", "aes3"])
    filler = rng.choice([65536, 131072, 64000, 65000]) + rng.randint(-3000, 700) if big else rng.choice([0, 0, 100])
    ops = [{"op": "start", "filler": filler, "enc": enc, "need": int(rng.random() < .3)}]
    names, fields = iter("ABCDEFGH"), 0

    def flags():
        return {"gc": rng.randrange(2), "nomod": rng.randrange(2)}
    for _ in range(rng.randint(1, 4)):
        if fields == 0 or rng.random() < .6:
            ops.append({"op": "field", "name": next(names), "page": rng.randrange(2)})
            fields += 1
        for _ in range(rng.choice([0, 0, 1, 3])):
            k = rng.choice(["name", "reason", "location", "date", "creator", "cert"])
            ops.append({"op": "attr", "f": rng.randrange(fields), "k": k, "perm": rng.randint(1, 3), "ensure": int(rng.random() < .85),
                        "v": [-1] if rng.random() < .15 else [rng.randint(32, 126) for _ in range(rng.randint(0, 6))], "s": rng.randrange(0, 2000000000)})
        if rng.random() < .5:
            ops.append({"op": "edit", "v": rng.randrange(1000)})
        if rng.random() < .2:
            ops += [dict({"op": "update"}, **flags()), {"op": "load"}]
        if rng.random() < .85:
            r = rng.choice([1, 2, 16, 100, 100, 3000]) if not big else rng.choice([16, 100, 3000, 32766, 32767, 32768, 40000, 70000])
            a = rng.choice([r, r, r - 1, max(0, r // 2), 0]) if rng.random() < .92 else r + 1
            ops.append(dict({"op": "sign", "f": rng.randrange(fields), "reserved": r, "actual": a, "seed": rng.randrange(255), "filter": rng.choice(["", "Mine"]), "sub": rng.choice(["adbe.pkcs7.detached", "ETSI.CAdES.detached"]),
                             "type": rng.choice(["Sig", "DocTimeStamp"]), "dev": rng.choice(["string", "string", "buffer", "file", "iostream"]), "ate": rng.randrange(2)}, **flags()))
        else:
            ops.append(dict({"op": "update"}, **flags()))
        ops.append({"op": "load"})
    return {"ops": ops}


def entry(b, off, key):
    """position and end of the value of a key of the dictionary of the object at off"""
    i = pdfraw.skip_ws(b, re.compile(rb"\d+\s+\d+\s+obj").match(b, off).end()) + 2
    while True:
        i = pdfraw.skip_ws(b, i)
        if b[i:i + 2] == b">>":
            return None
        k, i = pdfraw.value(b, i)
        i = pdfraw.skip_ws(b, i)
        v, j = pdfraw.value(b, i)
        if k[1] == key:
            return i, j, v
        i = j


def facts(b):
    secs = pdfraw.sections(b, int(re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", b).group(1)))
    ent = {}
    for s in secs:
        for e in s["ent"]:
            ent.setdefault(e[0], e)
    sigs = []
    for n in sorted(ent):
        if ent[n][1] != 1:
            continue
        o = pdfraw.object_at(b, ent[n][2], lambda v: v if isinstance(v, int) else pdfraw.object_at(b, ent[v[1]][2], None)["v"])
        v = o["v"]
        if not isinstance(v, dict) or "V" not in v or not (isinstance(v["V"], tuple) and v["V"][0] == "ref"):
            continue
        m = v["V"][1]
        off = ent[m][2]
        r, c = entry(b, off, b"ByteRange"), entry(b, off, b"Contents")
        if r is None or c is None:
            continue
        rg = r[2]
        ok = isinstance(rg, list) and len(rg) == 4 and all(isinstance(x, int) and x >= 0 for x in rg)
        sigs.append({"f": n, "v": m, "range": rg if ok else [], "pos": c[0], "end": c[1], "hex": b[c[0]:c[0] + 1] == b"<" and b[c[1] - 1:c[1]] == b">" and re.fullmatch(rb"[0-9A-Fa-f]*", b[c[0] + 1:c[1] - 1]) is not None,
                     "contents": sha(c[2][1]) if isinstance(c[2], tuple) and c[2][0] == "str" else "", "covered": sha(b[rg[0]:rg[0] + rg[1]] + b[rg[2]:rg[2] + rg[3]]) if ok else ""})
    return {"err": "", "len": len(b), "sha": sha(b), "sigs": sigs}


def post(trace):
    prev = b""
    for e in trace["ev"]:
        o = e.get("out")
        if isinstance(o, dict) and "hex" in o:
            b = bytes.fromhex(o.pop("hex"))
            try:
                o["file"] = facts(b)
            except Exception as x:
                o["file"] = {"err": "%s: %s" % (type(x).__name__, x), "len": len(b), "sha": sha(b), "sigs": []}
            o["file"]["prefix"] = sha(b[:len(prev)])
            if e.get("op") != "sign" or not o.get("serr"):
                prev = b
    return trace
