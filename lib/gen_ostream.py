"""Histories of stream operations (P07)."""
import base64
import zlib
import gen_filters as F

MEDIA = ["dct", "jpx", "ccitt", "jbig2"]
ENC = ["hex", "a85", "flate"]


def inflate(b):
    try:
        d = zlib.decompressobj()
        r = d.decompress(b)
        return list(r)
    except Exception:
        return [-1]


def unhex(b):
    t = bytes(c for c in b.split(b">")[0] if c not in b" \t\r\n\f\0")
    return bytes.fromhex((t + b"0" * (len(t) % 2)).decode())


def una85(b):
    t = b.split(b"~")[0]
    return base64.a85decode(t, ignorechars=b" \t\r\n\f\0")


def infls(f, raw, seen):
    """the inflated data at each flate stage (what the environment contributes)"""
    key = (tuple(f), bytes(raw))
    if key in seen:
        return seen[key]
    out, d = [], bytes(raw)
    for x in f:
        try:
            if x == "flate":
                i = inflate(d)
                out.append(i)
                d = b"" if i == [-1] else bytes(i)
            else:
                out.append([])
                d = unhex(d) if x == "hex" else una85(d) if x == "a85" else b""
        except ValueError:
            out += [[-1]] * (len(f) - len(out))
            break
    return out


def post(t):
    seen = {}
    for e in t["ev"]:
        if e["op"] == "inject":
            seen[(tuple(e["f"]), bytes(e["b"]))] = e["infl"]
        for x in e.get("st", []):
            if x.get("has"):
                x["infl"] = infls([y for y in x["f"] if y not in MEDIA], x["raw"], seen)
    return t


def blob(rng, big=False):
    if big:
        n = rng.choice([4095, 4096, 4097, 5000, 8192])
        k = rng.random()
        return [rng.randrange(256) for _ in range(n)] if k < .5 else ([rng.randrange(256)] * 3 + [0, 10, 13]) * (n // 6)
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 17, 40, 90])
    return list(F.data(rng, n))


def flist(rng):
    return rng.choice([["flate"], ["hex"], ["a85"], ["a85", "flate"], ["hex", "flate"], ["flate", "a85"], ["flate", "flate"], ["hex", "a85"],
                       ["flate", "hex", "a85"], ["lzw"], ["rle"], ["flate", "rle"], ["dct"]] if rng.random() < .9 else [["flate"]])


def foreign(rng, o):
    fs = []
    n = rng.choice([0, 1, 1, 1, 2, 2, 3])
    b = F.data(rng, rng.choice([0, 1, 5, 20, 60])) if n == 0 else None
    for i in range(n):
        b, st = F.one(rng, b, rng.choice(["hex", "a85", "rle", "lzw", "flate", "flate"]))
        st["q"].setdefault("given", [])
        fs.insert(0, st)
    m = [] if rng.random() < .65 else rng.choice([["dct"], ["jpx"], ["ccitt"], ["jbig2"], ["dct", "jpx"]])
    return {"op": "inject", "o": o, "b": list(b), "f": [x["f"] for x in fs], "q": [x["q"] for x in fs], "infl": [x["infl"] for x in fs],
            "m": m, "arr": rng.randrange(2), "ind": rng.randrange(2), "z": 1}


def history(rng, length, big=False):
    ops = []
    h = {1: None, 2: None}       # (kind, object)
    has, media, stayed = set(), {}, False
    q = lambda op: dict(op, quiet=1) if rng.random() < .35 else op

    def close(i):
        ops.append(q({"op": "close", "h": i}))
        if h[i][0] == "out":
            media[h[i][1]] = 0
        h[i] = None
    def objs_busy():
        return {x[1] for x in h.values() if x}

    while len(ops) < length:
        n0 = len(ops)
        r = rng.random()
        o = rng.choice([1, 2, 3, 4]) if rng.random() < .95 else 1
        busy = objs_busy()
        free = [x for x in (1, 2, 3, 4) if x not in busy]
        b = blob(rng, big and rng.random() < .5)
        openw = [i for i in h if h[i] and h[i][0] == "out"]
        openr = [i for i in h if h[i] and h[i][0] == "in"]
        slots = [i for i in h if not h[i]]
        if openw and r < .45:
            i = rng.choice(openw)
            if rng.random() < .3:
                close(i)
            else:
                ops.append(q({"op": "write", "h": i, "b": b[:1] if rng.random() < .2 else b, "n": rng.choice([0, 0, 1, 2])}))
            continue
        if openr and r < .5:
            i = rng.choice(openr)
            if rng.random() < .2:
                close(i)
            else:
                ops.append(q({"op": "read", "h": i, "k": rng.choice(["buf", "buf", "char", "exact"]), "n": rng.choice([0, 1, 2, 5, 20, 200] + ([4096, 9000] if big else []))}))
                if ops[-1]["k"] == "char":
                    ops[-1]["n"] = 1
            continue
        w = rng.random()
        if w < .16:
            how = rng.choice(["raw", "rawstream", "def", "defstream", "list", "liststream", "list"])
            f = [] if how.startswith("raw") else ["flate"] if how.startswith("def") else (flist(rng) if not big else ["flate"])
            ok = all(x in ENC for x in f) or o in busy
            if not ok and rng.random() < .7:
                continue
            ops.append(q({"op": "set", "o": o, "b": b, "f": f, "how": how}))
        elif w < .32 and slots:
            how = rng.choice(["raw", "def", "list", "list"])
            f = [] if how == "raw" else ["flate"] if how == "def" else (flist(rng) if not big else ["flate"])
            ok = all(x in ENC for x in f)
            if not ok and rng.random() < .7:
                continue
            i = rng.choice(slots)
            ops.append(q({"op": "openo", "h": i, "o": o, "f": f, "how": how, "app": rng.choice([0, 1])}))
            # may fail: the generator follows the rules of the specification
            if o not in busy and ok:
                h[i] = ("out", o) if not (ops[-1]["app"] and media.get(o)) else None
        elif w < .46 and slots:
            i = rng.choice(slots)
            if o in has and (o not in busy or rng.random() < .5):
                ops.append(q({"op": "openi", "h": i, "o": o, "israw": int(rng.random() < .3)}))
                if o not in busy:
                    h[i] = ("in", o)
        elif w < .52 and o not in busy:
            ops.append(q({"op": "copy", "o": o, "israw": int(rng.random() < .35), "safe": rng.randrange(2), "n": rng.randrange(3)}))
        elif w < .64:
            p = rng.choice([1, 2, 3, 4])
            if p in busy and not (("in", p) in h.values() and o != p):
                continue
            if o in busy and o == p:
                continue
            mv = rng.random() < .4
            if mv and p in busy:
                continue
            ops.append(q({"op": "move" if mv else "assign", "o": o, "p": p}))
            if p in has and o not in busy:
                if o != p:
                    media[o] = media.get(p, 0)
                    if mv:
                        media[p] = 0
            has.add(o)
            continue
        elif w < .74 and not busy:
            p = rng.choice([1, 2, 3, 4])
            mv = rng.random() < .35
            if mv:
                ops.append(q({"op": "omove", "o": o, "p": p}))
                if o != p:
                    has.discard(o)
                    if p in has:
                        has.add(o)
                    media[o] = media.get(p, 0)
                    has.discard(p)
                    media[p] = 0
            else:
                ops.append(q({"op": "oassign", "o": o, "p": p, "n": rng.randrange(2)}))
                if o != p:
                    has.discard(o)
                    if p in has:
                        has.add(o)
                    media[o] = media.get(p, 0)
            continue
        elif w < .76 and not busy:
            ops.append(q({"op": "oclear", "o": o}))
            has.discard(o)
            media[o] = 0
            continue
        elif w < .82:
            if o in has:
                if o in busy and media.get(o):
                    continue
                ops.append(q({"op": "unwrap", "o": o}))
            continue
        elif w < .86 and not busy and not big:
            o = rng.choice([1, 2, 3])
            ops.append(q(foreign(rng, o)))
            has.add(o)
            media[o] = len(ops[-1]["m"])
            stayed = False
            continue
        elif w < .94 and not busy:
            upd = rng.random() < .6 and not stayed
            ops.append(q({"op": "update" if upd else "save", "opts": rng.choice(["g", "gz", "", "gc", "gz"]), "stay": int(not upd and rng.random() < .3)}))
            stayed = bool(ops[-1]["stay"])
            continue
        elif w < .96 and any(h.values()):
            i = rng.choice([x for x in h if h[x]])
            g = 3 - i
            ops.append(q({"op": "hmove", "h": i, "g": g, "n": rng.randrange(2)}))
            if h[g] and h[g][0] == "out":
                has.add(h[g][1])
                media[h[g][1]] = 0
            h[g], h[i] = h[i], None
            continue
        else:
            continue
        # streams come into being with the first use
        if len(ops) == n0:
            continue
        last = ops[-1]
        if last["op"] in ("set", "openo"):
            has.add(o)
            if last["op"] == "set" and o not in busy and all(x in ENC for x in last["f"]):
                media[o] = 0
    return ops


def stale(rng):
    """streams replaced by streams of another making: nothing of the old one's filters and parameters may stay"""
    q = lambda op: dict(op, quiet=1) if rng.random() < .2 else op
    ops = []

    def make(o):
        k = rng.random()
        if k < .55:
            for _ in range(30):
                x = foreign(rng, o)
                if any(y.get("given") or y["pred"] > 1 for y in x["q"]):
                    break
            return x
        how = rng.choice(["raw", "rawstream", "def", "def", "defstream", "list", "liststream"])
        f = [] if how.startswith("raw") else ["flate"] if how.startswith("def") else rng.choice([["flate"], ["hex"], ["a85", "flate"], ["flate", "flate"], ["hex", "flate"]])
        return {"op": "set", "o": o, "b": blob(rng), "f": f, "how": how}
    has, media = set(), {}
    for _ in range(rng.choice([2, 3, 5])):
        for o in rng.sample([1, 2, 3], 2):
            ops.append(q(make(o)))
            has.add(o)
        o, p = rng.sample([1, 2, 3], 2)
        if p not in has:
            continue
        w = rng.random()
        if w < .4:
            ops.append({"op": "assign", "o": o, "p": p})
            has.add(o)
        elif w < .6:
            ops.append({"op": "move", "o": o, "p": p})
            has.add(o)
        elif w < .75:
            ops.append({"op": "oassign", "o": o, "p": p, "n": rng.randrange(2)})
            has.add(o)
        elif w < .85:
            ops.append({"op": "omove", "o": o, "p": p})
            has.add(o)
            has.discard(p)
        else:
            ops.append(dict(make(o), quiet=0))
            has.add(o)
        if rng.random() < .5:
            ops.append(q({"op": "save", "opts": rng.choice(["g", "gz", "", "gc", "gz"]), "stay": 0}))
        if o in has and rng.random() < .3:
            ops.append(q({"op": "unwrap", "o": o}))
    return ops
