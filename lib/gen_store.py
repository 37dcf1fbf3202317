"""Histories for the document store."""
import random, json, copy
import pdfraw, pdfcrypt, pdfimage

INTS = [0, 1, -1, 5, 12, 99, -250, 1000000, 2147483647, -2147483648, 4294967296, 9223372036854775807, -9223372036854775808]
REALS = ["0.5", "-0.25", "3.125", "100.001", "-7.75", "0.125", "12345.678", "1.5", "0.001", "1000000.25", "-40000.015625", "123456.000001", "-0.000001", "99999.999"]
NAMES = ["A", "Foo", "A B", "x#y", "a/b", "(p)", "\xe9\xff", "[z]", "<>", "{c}", "%c", "t\tb", "lower#20", "D\x7f", "Zz0_-.+*", "#41"]
KEYS = ["A", "B", "C", "Key One", "k#2", "D/", "\xe4u", "Z"]
STRS = [b"", b"abc", b"()", b"((", b"\\", b"\\)(", b"\r", b"\n", b"\r\n", b"a\tb\x08\x0c", b"\x00\x01\xff", bytes(range(256)),
        b"\xfe\xff\x00A\xd8\x3d\xde\x00", b"\xff\xfeA\x00", b"\xef\xbb\xbfq\xc3\xa9", b"trailing\\", b"\\053", b"\xc3\xa9", b"endobj", b"%%EOF", b"1 0 obj", b"\x7f\x9f\xad"]


def hexs(b):
    return b.hex()


def blob(b):
    if len(b) <= 48:
        return b.hex()
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return "#%d:%016x" % (len(b), h)


class G:
    def __init__(self, rng):
        self.r = rng

    def scalar(self):
        r = self.r
        k = r.randrange(7)
        if k == 0:
            return {"s": str(r.choice(INTS) if r.random() < .5 else r.randrange(-10**6, 10**6))}
        if k == 1:
            x = float(r.choice(REALS)) if r.random() < .5 else r.randrange(-10**9, 10**9) / 10 ** r.randrange(1, 7)
            return {"s": "f%.6f" % (x if x != int(x) else x + .5)}
        if k == 2:
            return {"s": "/" + r.choice(NAMES).encode("latin-1").hex()}
        if k in (3, 4):
            b = r.choice(STRS) if r.random() < .6 else bytes(r.randrange(256) for _ in range(r.randrange(1, 12)))
            return {"s": r.choice("(<") + b.hex()}
        if k == 5:
            return {"s": r.choice(["true", "false"])}
        return {"s": "null"} if r.random() < .3 else {"s": "7"}

    def value(self, refs, depth=3):
        r = self.r
        x = r.random()
        if refs and x < .25:
            return {"r": r.choice(refs)}
        if depth > 0 and x < .40:
            return {"a": [self.value(refs, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]}
        if depth > 0 and x < .55:
            return self.dict(refs, depth - 1)
        return self.scalar()

    def dict(self, refs, depth=3):
        r = self.r
        return {"d": {k: self.value(refs, depth) for k in r.sample(KEYS, r.randrange(0, 4))}}

    def data(self):
        r = self.r
        k = r.random()
        if k < .15:
            return b""
        if k < .5:
            return bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
        if k < .8:
            return (b"q 1 0 0 1 0 0 cm\n" * r.randrange(1, 60))[: r.randrange(1, 900)]
        if k < .9:
            return bytes([r.randrange(3)]) * r.randrange(1, 5000)
        return bytes(r.getrandbits(8) for _ in range(r.randrange(4000, 9000)))


def paths(v, want):
    """All paths inside v whose target satisfies want(target, is_root)."""
    out = []
    def rec(x, p):
        if want(x, not p):
            out.append(p)
        if "a" in x:
            for i, y in enumerate(x["a"]):
                rec(y, p + [i])
        if "d" in x:
            for k, y in x["d"].items():
                rec(y, p + [k])
    rec(v, [])
    return out


class Sim:
    """A light shadow of the document, used only to aim operations at existing places;
    it decides nothing (the specification does)."""
    def __init__(self, rng):
        self.r = rng
        self.g = G(rng)
        self.objs = {}        # predicted ref -> value
        self.ops = []
        self.removed = []

    def at(self, v, p):
        for k in p:
            v = v["a"][k] if "a" in v else v["d"][k]
        return v


WEIGHTS = {"new": 6, "put": 6, "del": 2, "clear": .5, "scalar": 3, "aadd": 3, "ains": 3, "aset": 3, "adel": 2, "setc": 1, "stream": 4,
           "remove": 2, "replace": 1, "get": 2, "gc": .4, "dump": .5, "count": .3, "clone": 1}


def history(rng, n, w=None, saves=("buffer", "xrs", "file"), reload_p=.12, update=True, anchor=.6, final=True, enc=None, opts=("", "g", "c", "z", "gc", "gz", "gcz"), badp=.03, wide=0):
    """One random history.  References are predicted (next number, or reuse) only to choose
    targets; a wrong prediction merely yields an operation on a missing object."""
    w = dict(WEIGHTS, **(w or {}))
    s = Sim(rng)
    g = s.g
    ops = [{"op": "init"}]
    live = {}     # slot -> [known value]; references are symbolic: "$k" resolved by the driver
    slots = []    # live symbolic slots
    dead = []
    streamed = set()
    counter = [0]
    names = list(w)
    hasfile = [False]
    fresh_loaded = [False]

    def rf():
        return ["$%d" % k for k in slots] + (["$%d" % k for k in dead[:2]] if rng.random() < .2 else [])

    def new(v=None, how=None):
        v = v if v is not None else (g.dict(rf()) if rng.random() < .7 else {"a": [g.value(rf()) for _ in range(rng.randrange(4))]} if rng.random() < .6 else g.scalar())
        if v.get("s") == "null":
            v = {"s": "1"}
        how = how or rng.choice(["copy", "move", "dict" if "d" in v else "arr" if "a" in v else "copy"])
        k = counter[0]
        counter[0] += 1
        ops.append({"op": "new", "v": copy.deepcopy(v), "how": how, "slot": k})
        live[k] = v
        slots.append(k)
        if rng.random() < anchor:
            # hang it below the catalog so that garbage collection keeps it
            ops.append({"op": "put", "ref": "$root", "path": [], "k": "X%d" % k, "v": {"r": "$%d" % k}, "how": rng.choice(["copy", "ref"])})
        return k

    if wide and rng.random() < wide:
        # many objects in a file first: sparse changes afterwards leave gaps between the entries
        for _ in range(rng.randint(10, 30)):
            new(g.scalar() if rng.random() < .5 else g.dict(rf(), 1), "copy")
        save(ops, rng, saves, False, opts, enc)
        load(ops, rng, enc)
        hasfile[0] = True
        w = dict(w, new=w["new"] * .3, remove=w["remove"] * 2)
    for _ in range(n):
        op = rng.choices(names, [w[x] for x in names])[0]
        if not slots or op == "new":
            new()
            continue
        k = rng.choice(slots)
        v = live[k]
        ref = "$%d" % k
        if op == "clone":
            kk = counter[0]
            counter[0] += 1
            ops.append({"op": "clone", "ref": ref, "slot": kk, "how": rng.choice(["copy", "assign"])})
            live[kk] = copy.deepcopy(v)
            if k in streamed:
                streamed.add(kk)
            slots.append(kk)
            continue
        if op in ("put", "del"):
            ps = paths(v, lambda x, root: "d" in x)
            if not ps:
                continue
            p = rng.choice(ps)
            d = s.at(v, p)["d"]
            if op == "put":
                key = rng.choice(KEYS)
                val = g.value(rf())
                ops.append({"op": "put", "ref": ref, "path": p, "k": key, "v": copy.deepcopy(val), "how": rng.choice(["copy", "move", "assign", "ref", "safe", "iter"])})
                d[key] = val
            else:
                key = rng.choice(sorted(d) or KEYS) if rng.random() < .8 else rng.choice(KEYS)
                ops.append({"op": "del", "ref": ref, "path": p, "k": key})
                d.pop(key, None)
        elif op == "clear":
            ps = [p for p in paths(v, lambda x, root: "d" in x or "a" in x) if p]
            if not ps:
                continue
            p = rng.choice(ps)
            x = s.at(v, p)
            ops.append({"op": "clear", "ref": ref, "path": p})
            if "a" in x:
                x["a"] = []
            else:
                x["d"] = {}
        elif op == "scalar":
            ps = paths(v, lambda x, root: "s" in x and x["s"] not in ("null",))
            if not ps:
                continue
            p = rng.choice(ps)
            x = s.at(v, p)
            val = None
            for _t in range(30):
                c = g.scalar()
                same = kind(c["s"]) == kind(x["s"]) or (kind(c["s"]) in "if" and kind(x["s"]) in "if")
                if same and c["s"] != "null" and not (kind(c["s"]) == "i" and kind(x["s"]) == "f") and not (kind(c["s"]) == "f" and kind(x["s"]) == "i"):
                    val = c
                    break
            if val is None:
                continue
            ops.append({"op": "scalar", "ref": ref, "path": p, "v": val})
            x["s"] = val["s"]
        elif op in ("aadd", "ains", "aset", "adel"):
            ps = paths(v, lambda x, root: "a" in x and (op == "aadd" or op == "ains" or x["a"]))
            if not ps:
                continue
            p = rng.choice(ps)
            a = s.at(v, p)["a"]
            val = g.value(rf(), 2)
            i = rng.randrange(len(a) + (1 if op == "ains" else 0)) if op != "aadd" else 0
            e = {"op": op, "ref": ref, "path": p, "i": i, "v": copy.deepcopy(val)}
            e["how"] = rng.choice({"adel": ["at", "erase", "range", "resize"], "aadd": ["copy", "move", "ref", "safe", "end", "range", "resize"],
                                   "ains": ["copy", "move", "range"], "aset": ["copy", "move", "ref", "safe", "index", "iter", "riter", "front", "back"]}[op])
            if e["how"] in ("ref", "safe") and slots and rng.random() < .7:
                val = {"r": "$%d" % rng.choice(slots)}
                e["v"] = copy.deepcopy(val)
            ops.append(e)
            if op == "aadd":
                a.append(val)
            elif op == "ains":
                a.insert(i, val)
            elif op == "aset":
                a[i] = val
            else:
                del a[i]
        elif op == "setc":
            ps = paths(v, lambda x, root: "d" in x or "a" in x)
            if not ps:
                continue
            p = rng.choice(ps)
            if k in streamed and not p:
                continue      # the entries that describe a stream are not the user's
            x = s.at(v, p)
            val = g.dict(rf(), 2) if "d" in x else {"a": [g.value(rf(), 2) for _ in range(rng.randrange(3))]}
            ops.append({"op": "setc", "ref": ref, "path": p, "v": copy.deepcopy(val), "how": rng.choice(["copy", "move"])})
            x.update(copy.deepcopy(val))
        elif op == "stream":
            if "d" not in v:
                continue
            b = g.data()
            streamed.add(k)
            ops.append({"op": "stream", "ref": ref, "x": b.hex(), "xb": blob(b), "mode": rng.choice(["F", "", "H", "8", "HF", "8F", "FH", "def", "app", "raw"])})
        elif op == "remove":
            if rng.random() < .1:
                ops.append({"op": "remove", "ref": "9999 0"})
                continue
            ops.append({"op": "remove", "ref": ref})
            slots.remove(k)
            dead.append(k)
            if rng.random() < .6:
                ops.append({"op": "get", "ref": ref})
        elif op == "replace":
            if rng.random() < .2:
                ops.append({"op": "replace", "ref": rng.choice(["9999 0", "$%d" % rng.choice(dead) if dead else "2 77"]), "v": g.dict(rf(), 1)})
                continue
            val = g.dict(rf(), 2)
            ops.append({"op": "replace", "ref": ref, "v": copy.deepcopy(val)})
            live[k] = val
        elif op == "get":
            ops.append({"op": "get", "ref": ref if rng.random() < .8 else rng.choice(["1 0", "3 0", "777 0", "2 3"] + (["$%d" % dead[-1]] if dead else []))})
        elif op == "gc":
            ops.append({"op": "gc"})
        elif op == "setenc":
            if enc is not None:
                ops.append(crypt(rng, enc))
                enc["changed"] = 1
        else:
            ops.append({"op": op})
        if rng.random() < reload_p:
            save(ops, rng, saves, update and hasfile[0], opts, enc)
            load(ops, rng, enc)
            hasfile[0] = True
    if final:
        ops.append({"op": "dump"})
        save(ops, rng, saves, update and hasfile[0], opts, enc)
        load(ops, rng, enc)
        if rng.random() < .5:
            # read in an unusual order before the dump
            for k in rng.sample(slots, min(len(slots), 4)):
                ops.append({"op": "get", "ref": "$%d" % k})
        ops.append({"op": "dump"})
    return {"ops": normalise(ops)}


def kind(s):
    if s in ("true", "false"):
        return "b"
    if s == "null":
        return "n"
    return s[0] if s[0] in "f/(<" else "i"


def save(ops, rng, saves, upd, opts, enc):
    o = rng.choice(list(opts))
    if upd and rng.random() < .6 and not (enc or {}).pop("changed", 0):
        ops.append({"op": "update", "opts": o})
    else:
        ops.append({"op": "save", "opts": o, "how": rng.choice(list(saves))})


def load(ops, rng, enc):
    if enc is not None:
        enc.pop("changed", 0)
        return cload(rng, enc, ops)
    ops.append({"op": "load", "how": rng.choice(["buffer", "file", "buffer", "file same", "same"])})


def normalise(ops):
    for e in ops:
        if e["op"] in ("put", "del", "clear", "scalar", "aadd", "ains", "aset", "adel", "setc"):
            e.setdefault("path", [])
        if e["op"] in ("save", "update"):
            e["gc"] = "g" not in e.get("opts", "")
    return ops


ALGS = ["RC4V1", "RC4V2", "AESV2", "AESV3", "AESV3R6"]
PWS = ["", "a", "user", "owner", "secret word", "x" * 31, "x" * 32, "x" * 33, "x" * 40, "y" * 126, "y" * 127, "y" * 128, "p\u00e9", "\u00aa", "I\u00adX",
       "\u2168", "a\u00a0b", "\u00fc" * 70, "(\\)", "tab~!"]


def crypt(rng, mem):
    """a setenc operation; mem: {} remembers the passwords"""
    if mem and rng.random() < .12:
        mem.clear()
        return {"op": "setenc", "alg": "none", "user": [], "owner": [], "perm": 0}
    alg = rng.choice(ALGS)
    def pw():
        p = rng.choice(PWS).encode("utf-8")
        return p
    u, o = pw(), rng.choice([pw, pw, lambda: b""])()
    if alg.startswith("AESV3"):
        up, op_ = (pdfcrypt.saslprep(x.decode()).encode() for x in (u, o))
    else:
        up, op_ = u, o
    mem.update(alg=alg, u=u, o=o if o else u, wrong=rng.choice([b"nope", u + b"x", b"", b"x" * 31 + b"y", u[:-1]]))
    ln = rng.choice([40, 56, 80, 96, 128, 128, 256] if alg in ("RC4V1", "RC4V2") else [40, 128])
    perm = rng.randrange(4096) & 0xF3C
    return {"op": "setenc", "alg": alg, "uraw": u.hex(), "oraw": o.hex(), "user": list(up), "owner": list(op_), "perm": perm, "len": ln}


def prep(alg, p):
    return list(pdfcrypt.saslprep(p.decode()).encode() if alg.startswith("AESV3") else p)


def cload(rng, mem, ops):
    """loads of a protected file: some with wrong passwords first"""
    if not mem:
        ops.append({"op": "load", "how": rng.choice(["buffer", "file"])})
        return
    if rng.random() < .3:
        w = mem["wrong"]
        try:
            ops.append({"op": "load", "how": rng.choice(["buffer", "file"]), "pwraw": w.hex(), "pw": prep(mem["alg"], w)})
        except UnicodeDecodeError:
            ops.pop() if ops[-1]["op"] == "load" else None
    p = rng.choice([mem["u"], mem["o"]])
    ops.append({"op": "load", "how": rng.choice(["buffer", "file", "same"]), "pwraw": p.hex(), "pw": prep(mem["alg"], p)})


def post(trace):
    """Turn recorded bytes into layout facts and into what an independent reader makes of them."""
    enc = None
    tried = []
    fenc, ftried = None, []
    foreign = False
    for e in trace["ev"]:
        o = e.get("out")
        if e.get("op") == "setenc" and not e["err"]:
            enc = e["alg"] if e["alg"] != "none" else None
            tried = [e["user"], e["owner"], [], [110, 111]] if enc else []
        if e.get("op") == "init":
            enc, tried = None, []
        if e.get("op") == "file":
            foreign = e["len"]
            fenc = e["enc"]["alg"]
            ftried = [e["enc"]["user"], e["enc"]["owner"], [], [110, 111]]
            if fenc == "none":
                fenc = None
        if e.get("op") == "load" and not e["err"]:
            enc, tried = fenc, ftried
        if e.get("op") in ("save", "update") and isinstance(o, dict) and "hex" in o:
            fenc, ftried = enc, tried
            b = bytes.fromhex(o.pop("hex"))
            if e["op"] == "save":
                foreign = False
            o["layout"] = pdfraw.facts(b, foreign or 0)
            o["layout"]["base"] = foreign or 0
            cut = 127 if (enc or "").startswith("AESV3") else 32
            im = pdfimage.read(b, [bytes(p)[:cut] for p in tried], bool(foreign))
            im["tried"] = tried if im["auth"] else []
            im["perm"] &= 0xfff
            im.pop("enc")
            o["image"] = im
        if e.get("op") == "load" and isinstance(o, dict) and "refs" in o:
            o["refs"] = [[int(x) for x in r.split()] for r in o["refs"]]
        if e.get("op") == "init" and isinstance(o, dict):
            o["refs"] = [[int(x) for x in r.split()] for r in o["objs"]]
        if e.get("op") in ("new", "clone") and isinstance(o, str):
            n, g = o.split()
            e["out"] = {"n": int(n), "g": int(g)}
    return trace


def foreign(rng, encrypted=False, edits=0, rounds=1, style=None, nrev=None, nobj=None, high=False, protect=False):
    """a file of another producer: read in any order, released and read again, changed, saved, updated"""
    import pdfwrite
    ev, p = pdfwrite.produce(rng, encrypted, style=style, nrev=nrev, nobj=nobj, high=high)
    ev["len"] = len(ev["hex"]) // 2
    mem = {}
    if encrypted:
        mem.update(alg=ev["enc"]["alg"], u=bytes(ev["enc"]["user"]), o=bytes(ev["enc"]["owner"]), wrong=b"nope")
    ops = [ev]
    how = rng.choice(["buffer", "file"])
    def load():
        e = {"op": "load", "how": rng.choice(["buffer", "file"])}
        if encrypted:
            if rng.random() < .2:
                ops.append(dict(e, pwraw=b"nope".hex(), pw=prep(mem["alg"], b"nope")))
            pw = rng.choice([mem["u"], mem["o"]])
            e.update(pwraw=pw.hex(), pw=prep(mem["alg"], pw))
        ops.append(e)
    load()
    if protect:
        ops.append(crypt(rng, mem))
        encrypted = True
        ops.append({"op": "save", "opts": rng.choice(["", "g"]), "how": "buffer"})
        load()
    g = G(rng)
    infra = {n for n, x in p.live.items() if x[2]}
    live = {"%d %d" % (n, x[0]): x for n, x in p.live.items() if not x[2]}
    objects = {"%d %d" % (n, x[0]) for n, x in p.live.items() if not x[2]}
    dead = [("%d %d" % (n, gg - 1)) for n, gg in p.freed.items() if 0 < gg < 65535]
    slot = [0]
    mine = []
    root = p.root["r"]
    safe = lambda: [x for x in live if x != root and (not p.info or x != p.info["r"]) and live[x][1].get("d", {}).get("Kids") is None]
    for rnd_ in range(rounds):
        for _ in range(rng.randrange(0, 12)):
            k = rng.random()
            refs = sorted(live)
            if k < .45:
                ops.append({"op": "get", "ref": rng.choice(refs + dead[:2] + ["4 7"])})
            elif k < .75:
                ops.append({"op": "free", "ref": rng.choice(refs)})
            elif k < .8:
                ops.append({"op": "dump"})
            elif k < .8 + edits * .2:
                x = rng.choice(safe() or [root])
                w = rng.random()
                v = live[x][1] if x in live else {}
                if w < .25:
                    ops.append({"op": "new", "v": g.dict(refs), "how": "copy", "slot": slot[0]})
                    ops.append({"op": "put", "ref": root, "path": [], "k": "N%d" % slot[0], "v": {"r": "$%d" % slot[0]}, "how": "copy"})
                    slot[0] += 1
                elif w < .55 and "d" in v:
                    ops.append({"op": "put", "ref": x, "path": [], "k": rng.choice(KEYS), "v": g.value(refs, 1), "how": "copy"})
                elif w < .7 and x != root:
                    ops.append({"op": "remove", "ref": x})
                    live.pop(x)
                    if rng.random() < .5:
                        ops.append({"op": "get", "ref": x})
                elif w < .8 and x != root:
                    nv = g.dict(refs, 1)
                    ops.append({"op": "replace", "ref": x, "v": nv})
                    live[x] = [0, nv, False, None]
                elif w < .9 and "d" in v and x != root:
                    b = g.data()[:400]
                    ops.append({"op": "stream", "ref": x, "x": b.hex(), "xb": blob(b), "mode": rng.choice(["F", "", "HF", "def", "app"])})
                else:
                    ops.append({"op": "gc"})
        o = rng.choice(["", "g", "gc", "gz", "g"])
        if edits and rng.random() < .65:
            ops.append({"op": "update", "opts": o})
        elif edits or rng.random() < .5:
            ops.append({"op": "save", "opts": o, "how": rng.choice(["buffer", "xrs", "file"])})
        else:
            continue
        load()
    ops.append({"op": "dump"})
    return {"ops": normalise(ops)}
