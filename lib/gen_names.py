"""names: name trees, destinations, attachments, of this library and of others; settings: how documents are viewed, extensions"""
DOC = {0x2022: 0x80, 0x20AC: 0xA0, 0x0152: 0x96}
TREES = ["Dests", "JavaScript", "EmbeddedFiles", "IDS"]


def enc(s):
    """the bytes of a text in files"""
    r = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 or 0xA1 <= o <= 0xFF and o != 0xAD:
            r.append(o)
        elif o in DOC:
            r.append(DOC[o])
        else:
            return [0xFE, 0xFF] + list(s.encode("utf-16-be"))
    return r


def key(s):
    return {"t": [ord(c) for c in s], "b": enc(s)}


def keys(rng, style, n):
    out = []
    while len(out) < n:
        if style == "num":
            out.append("k%04d" % rng.randrange(n * 2))
        elif style == "ascii":
            out.append("".join(rng.choice("abcAB(\\ ~") for _ in range(rng.choice([1, 1, 2, 3, 5]))))
        elif style == "latin":
            out.append("".join(rng.choice("azé\u2022\u20ac\u0152\xff") for _ in range(rng.choice([1, 2, 3]))))
        else:
            out.append("".join(rng.choice("azé\u2022\u0416\u65e5\U0001F600\xff") for _ in range(rng.choice([1, 2, 3, 4]))))
    return out


def value(rng, tree, np, n):
    if tree == "Dests":
        return {"k": rng.choice(["page", "pagedict"]), "v": rng.randrange(np), "ind": rng.randrange(2)}
    return {"k": rng.choice(["int", "int", "ref", "dict"]), "v": n, "ind": 0}


def node(rng, pairs, depth, root):
    """a tree of other programs, of sorted pairs"""
    x = {"ind": int(rng.random() < .2)}
    if not root:
        x["lo"], x["hi"] = pairs[0]["key"], pairs[-1]["key"]
    if depth == 0 or len(pairs) < 2 or (root and rng.random() < .2):
        x["names"] = pairs
        return x
    n = min(len(pairs), rng.choice([1, 2, 2, 3, 5]))
    cuts = sorted(rng.sample(range(1, len(pairs)), n - 1)) if n > 1 else []
    x["kids"] = [node(rng, pairs[a:b], depth - 1, False) for a, b in zip([0] + cuts, cuts + [len(pairs)])]
    return x


def case(rng, big=0):
    np = rng.choice([1, 2, 3])
    style = rng.choice(["num", "ascii", "latin", "all"])
    pool = sorted(set(keys(rng, style, rng.choice([4, 12, 40, 150]))))
    trees = rng.sample(["Dests", "JavaScript", "IDS"], rng.choice([1, 1, 2]))
    ops = []
    cnt = [10]

    def fresh():
        cnt[0] += 1
        return cnt[0]
    if rng.random() < .5:
        ts = []
        for t in trees:
            ks = sorted(rng.sample(pool, rng.randint(0, len(pool))), key=enc)
            pairs = [{"key": key(k), "val": value(rng, t, np, fresh())} for k in ks]
            root = node(rng, pairs, rng.choice([0, 1, 2, 3]), True) if pairs else rng.choice([{"ind": 0, "names": []}, {"ind": 0}])
            ts.append({"tree": t, "ind": rng.randrange(2), "root": root})
        old = [{"key": k, "val": value(rng, "Dests", np, 0)} for k in rng.sample(["a", "A1", "x y"], rng.choice([0, 0, 2]))]
        ops.append({"op": "build", "pages": np, "ind": rng.randrange(2), "trees": ts, "old": old})
        if old or rng.random() < .2:
            ops.append({"op": "old", "keys": ["a", "A1", "x y", "none"]})
    else:
        ops.append({"op": "start", "pages": np})
    files = ["a", "b_1", "Zz"]
    for _ in range(rng.choice([3, 6, 10, 14])):
        o = rng.choices(["addmany", "get", "check", "todict", "reload", "adddest", "attach", "getfile", "node"], [6, 4, 2, 2, 3, 2, 1, 1, .3])[0]
        t = rng.choice(trees)
        if o == "addmany":
            n = rng.choice([1, 1, 2, 5, 30, 140 if len(pool) > 60 else 5])
            ks = [rng.choice(pool) for _ in range(n)]
            order = rng.randrange(4)
            if order == 0:
                ks.sort(key=enc)
            elif order == 1:
                ks.sort(key=enc, reverse=True)
            ops.append({"op": "addmany", "tree": t, "raw": rng.randrange(2), "once": 0, "keys": [key(k) for k in ks], "vals": [value(rng, t, np, fresh()) for _ in ks]})
            if rng.random() < .5:
                ops.append({"op": "nodes", "tree": t})
        elif o == "get":
            ks = rng.sample(pool, min(len(pool), rng.choice([1, 5, 40]))) + keys(rng, style, 2)
            ops.append({"op": "getmany", "tree": t, "raw": rng.randrange(2), "keys": [key(k) for k in ks]})
        elif o == "check":
            ops.append({"op": "nodes", "tree": t})
        elif o == "todict":
            if t != "Dests":
                ops.append({"op": "todict", "tree": t})
        elif o == "reload":
            ops.append({"op": "reload", "how": rng.choice(["save", "update"])})
            if rng.random() < .5:
                ops.append({"op": "nodes", "tree": t})
        elif o == "adddest":
            ops.append({"op": "adddest", "raw": rng.randrange(2), "key": key(rng.choice(pool)), "val": {"v": rng.randrange(np)}})
            if rng.random() < .5:
                ops.append({"op": "nodes", "tree": "Dests"})
        elif o == "attach":
            f = rng.choice(files)
            ops.append({"op": "attach", "file": [ord(c) for c in f], "as": enc(f), "val": {"v": fresh()}})
        elif o == "getfile":
            ops.append({"op": "getmany", "tree": "EmbeddedFiles", "raw": rng.randrange(2), "keys": [key(f) for f in files + ["no"]]})
            if rng.random() < .4:
                ops.append({"op": "nodes", "tree": "EmbeddedFiles"})
        else:
            ops.append({"op": "node", "tree": t if t == "Dests" else "JavaScript"})
    ops.append({"op": "reload", "how": rng.choice(["save", "update"])})
    for t in trees:
        ops.append({"op": "nodes", "tree": t})
        ops.append({"op": "getmany", "tree": t, "raw": 0, "keys": [key(k) for k in pool]})
    return {"ops": ops}


def large(rng, n):
    """trees of several levels"""
    ks = ["%s%05d" % (rng.choice("ab"), i) for i in rng.sample(range(n * 2), n)]
    how = rng.randrange(3)
    if how == 0:
        ks.sort()
    elif how == 1:
        ks.sort(reverse=True)
    ops = [{"op": "start", "pages": 1}]
    step = max(1, n // 4)
    for i in range(0, n, step):
        part = ks[i:i + step]
        ops.append({"op": "addmany", "tree": "IDS", "raw": 0, "once": 1, "keys": [key(k) for k in part], "vals": [{"k": "int", "v": i + j, "ind": 0} for j in range(len(part))]})
        ops.append({"op": "nodes", "tree": "IDS"})
        ops.append({"op": "getmany", "tree": "IDS", "raw": 0, "keys": [key(k) for k in rng.sample(ks, 20) + ["zz", "a", "b0"]]})
        if rng.random() < .4:
            ops.append({"op": "reload", "how": rng.choice(["save", "update"])})
    return {"ops": ops}


def settings(rng):
    modes = ["UseNone", "UseThumbs", "UseOutlines", "UseOC", "UseAttachments", "FullScreen"]
    ops = [{"op": "new"}] if rng.random() < .5 else [{"op": "start", "mode": rng.choice([""] + modes), "prefs": rng.randrange(3), "type": rng.randrange(2),
                                                       "exts": [[n, rng.randrange(4)] for n in rng.sample(["ADBE", "ns", "GLGR"], rng.randrange(4))]}]
    for _ in range(rng.choice([2, 5, 10, 16])):
        o = rng.choices(["mode", "full", "layout", "pref", "lang", "base", "version", "addext", "remext", "reload"], [3, 3, 2, 4, 1, 1, 1, 5, 5, 3])[0]
        d = {"op": o}
        if o == "mode":
            d["v"] = rng.choice(modes + ["DontCare"])
        elif o == "layout":
            d["v"] = rng.choice(["Ignore", "Default", "SinglePage", "OneColumn", "TwoColumnLeft", "TwoColumnRight", "TwoPageLeft", "TwoPageRight"])
        elif o == "pref":
            d["key"] = rng.choice(["HideToolbar", "HideMenubar", "HideWindowUI", "FitWindow", "CenterWindow", "DisplayDocTitle", "PrintScaling", "Direction"])
            d["v"] = {"PrintScaling": rng.choice(["None", "AppDefault"]), "Direction": rng.choice(["L2R", "R2L"])}.get(d["key"], "true")
        elif o in ("lang", "base"):
            d["v"] = rng.choice(["en", "de-DE", "http://x/y"])
        elif o == "version":
            d["v"] = rng.choice([13, 14, 16, 17, 20])
        elif o in ("addext", "remext"):
            d.update(ns=rng.choice(["ADBE", "ns", "GLGR"]), level=rng.randrange(4))
        elif o == "reload":
            d["how"] = rng.choice(["save", "update"])
        ops.append(d)
    ops.append({"op": "reload", "how": "save"})
    return {"ops": ops}
