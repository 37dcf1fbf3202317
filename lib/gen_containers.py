"""containers as values: operations on locations of free objects and objects of a document.
A small simulation keeps the locations used valid; it is not an oracle."""
import copy, json

SCALARS = ["true", "false", "0", "5", "-7", "42", "f0.500000", "f-1.500000", "f2.250000", "f7.000000", "/41", "/6162", "(61", "(6162", "(", "null"]
KEYS = ["A", "B", "C", "Parent"]
DOCS = ["d1", "d2", "d3"]
FREE = ["f1", "f2", "f3"]


def lit(rng, depth=0, refs=True):
    k = rng.random()
    if depth >= 3 or k < .4:
        if refs and rng.random() < .25:
            return {"r": rng.choice(DOCS + DOCS + ["x"])}
        return {"s": rng.choice(SCALARS)}
    if k < .7:
        return {"a": [lit(rng, depth + 1, refs) for _ in range(rng.choice([0, 1, 2, 3, 4]))]}
    ks = rng.sample(KEYS, rng.choice([0, 1, 2, 3]))
    return {"d": {x: lit(rng, depth + 1, refs) for x in sorted(ks)}}


def root(rng):
    k = rng.random()
    if k > .88:
        return {"d": {x: lit(rng, 2) for x in sorted(rng.sample(KEYS, rng.choice([0, 1, 2])))}, "x": "".join(rng.choice(["00", "41", "ff", "0d", "0a"]) for _ in range(rng.choice([0, 1, 3, 12, 40])))}
    if k < .45:
        return {"d": {x: lit(rng, 1) for x in sorted(rng.sample(KEYS, rng.choice([1, 2, 3, 4])))}}
    if k < .8:
        return {"a": [lit(rng, 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]}
    return lit(rng)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.m = {s: root(rng) for s in FREE + DOCS}
        if rng.random() < .5:  # chains of parents, loops among them
            for s in DOCS:
                if "d" in self.m[s] and rng.random() < .8:
                    self.m[s]["d"]["Parent"] = {"r": rng.choice(DOCS)}
                    self.m[s].pop("x", None)
        self.ops = [{"op": "init", "st": copy.deepcopy(self.m)}]
        self.saved()

    def saved(self):  # whole real numbers are written as integers
        for s in DOCS:
            self.m[s] = json.loads(json.dumps(self.m[s]).replace('"f7.000000"', '"7"'))

    # locations
    def locs(self, want=None, slots=None):
        out = []

        def walk(s, p, v):
            if want is None or want in v:
                out.append((s, p))
            if "a" in v:
                for i, e in enumerate(v["a"]):
                    walk(s, p + [i], e)
            elif "d" in v:
                for k, e in v["d"].items():
                    walk(s, p + [k], e)
        for s in slots or sorted(self.m):
            walk(s, [], self.m[s])
        return out

    def get(self, loc):
        v = self.m[loc[0]]
        for k in loc[1]:
            v = v["d"][k] if "d" in v else v["a"][k]
        return v

    def put(self, loc, w):
        w = copy.deepcopy(w)
        if not loc[1]:
            self.m[loc[0]] = w
            return
        v = self.get((loc[0], loc[1][:-1]))
        if "d" in v:
            v["d"][loc[1][-1]] = w
        else:
            v["a"][loc[1][-1]] = w

    @staticmethod
    def L(loc):
        return {"s": loc[0], "p": loc[1], "id": "/".join([loc[0]] + [str(x) for x in loc[1]])}

    @staticmethod
    def within(a, b):  # a is b or below b
        return a[0] == b[0] and a[1][:len(b[1])] == b[1]

    def pick(self, want=None, slots=None):
        ls = self.locs(want, slots)
        if not ls:
            return None
        # prefer deep places
        if self.rng.random() < .5:
            ls = sorted(ls, key=lambda x: -len(x[1]))[:max(3, len(ls) // 2)]
        return self.rng.choice(ls)

    def depth(self, v):
        return 1 + max([0] + [self.depth(e) for e in (v.get("a") or (v["d"].values() if "d" in v else []))]) if "a" in v or "d" in v else 0

    def size(self, v):
        return 1 + sum(self.size(e) for e in (v["a"] if "a" in v else v["d"].values() if "d" in v else []))

    def source(self, t, want=None, indirect=False, streams=False):
        """a source for the location t: (json, value); never one that holds t when moved"""
        rng = self.rng
        for _ in range(20):
            k = rng.random()
            if indirect:
                loc = (rng.choice(DOCS), []) if k < .75 else self.pick(want)
                how = "copy"
            elif k < .3:
                v = lit(rng)
                if want and want not in v:
                    v = {"a": [lit(rng, 2) for _ in range(rng.randint(0, 3))]} if want == "a" else {"d": {x: lit(rng, 2) for x in rng.sample(KEYS, 2)}}
                return {"k": "lit", "v": v}, v
            elif k < .6:
                # in the same slot: below or above the target
                loc, how = self.pick(want, [t[0]]), rng.choice(["copy", "var"])
            elif k < .8:
                loc, how = self.pick(want), rng.choice(["copy", "copy", "var"])
            else:
                loc, how = self.pick(want, FREE), "move"
            if loc is None:
                continue
            v = self.get(loc)
            if "x" in v and not (streams and not t[1] and how != "var"):
                continue
            if self.size(v) > 40 or self.size(self.m[t[0]]) > 80:
                continue
            if how == "move" and self.within(t, loc):
                continue
            j = self.L(loc)
            j["k"] = how
            return j, copy.deepcopy(v)
        v = {"a": []} if want == "a" else {"d": {}} if want == "d" else {"s": "5"}
        return {"k": "lit", "v": v}, v

    def apply_move(self, src):
        if src["k"] == "move":
            self.put((src["s"], src["p"]), {"s": "null"})

    def streams(self, loc):
        return not loc[1] and "x" in self.m[loc[0]]

    def mutate(self):
        rng = self.rng
        k = rng.random()
        if k < .2:
            t = self.pick()
            src, v = self.source(t, streams=True)
            op = {"op": "assign", "t": self.L(t), "v": src}
            if src["k"] == "lit":
                op["rv"] = rng.randint(0, 1)
            self.apply_move(src)
            if src["k"] == "move" and src["id"] == op["t"]["id"]:
                return None
            self.put(t, v)
            return op
        if k < .25:
            a, b = self.pick(), self.pick()
            if self.within(a, b) or self.within(b, a):
                return None
            if (self.streams(a) and b[1]) or (self.streams(b) and a[1]):
                return None
            va, vb = copy.deepcopy(self.get(a)), copy.deepcopy(self.get(b))
            self.put(a, vb)
            self.put(b, va)
            return {"op": "swap", "t": self.L(a), "t2": self.L(b)}
        if k < .33:
            t = self.pick("s") or self.pick()
            name = rng.choice(["setbool", "setnum", "setreal", "setname", "setstr", "setref"])
            v = {"setbool": {"s": rng.choice(["true", "false"])}, "setnum": {"s": rng.choice(["5", "-7", "7", "2"])},
                 "setreal": {"s": rng.choice(["f0.500000", "f-1.500000", "f2.250000", "f7.000000"])}, "setname": {"s": "/41"},
                 "setstr": {"s": "(6162"}, "setref": {"r": rng.choice(DOCS)}}[name]
            cur = self.get(t)
            s = cur.get("s", "")
            num = name in ("setnum", "setreal")
            if num and s[:1] == "f" and s != "false":
                if name == "setnum":
                    v = {"s": "7"}
                    self.put(t, {"s": "f7.000000"})
                else:
                    self.put(t, v)
            elif num and s.lstrip("-").isdigit():
                self.put(t, v if name == "setnum" else {"s": {"f0.500000": "1", "f-1.500000": "-2", "f2.250000": "2", "f7.000000": "7"}[v["s"]]})
            elif (name == "setbool" and s in ("true", "false")) or (name == "setname" and s[:1] == "/") or (name == "setstr" and s[:1] == "(") \
                    or (name == "setref" and "r" in cur):
                self.put(t, v)
            return {"op": name, "t": self.L(t), "v": {"k": "lit", "v": v}}
        if k < .7:
            t = self.pick("a")
            if t is None or rng.random() < .03:
                t = self.pick()
            cur = self.get(t)
            a = cur.get("a")
            name = rng.choice(["add", "add", "insert", "insert", "insertrange", "setat", "setat", "removeat", "erase", "eraserange", "resize", "aclear", "reserve",
                               "addind", "addindsafe", "setind", "setindsafe", "aassign", "aassign", "reverse"])
            op = {"op": name, "t": self.L(t)}
            n = len(a) if a is not None else 0
            at = rng.randrange(n) if n else 0
            if name in ("setat", "removeat", "setind", "setindsafe"):
                op["i"] = rng.choice([n, n + 1, n + 100]) if rng.random() < .06 else at
            elif name == "erase":
                if n == 0:
                    return None
                op["i"] = at
            elif name in ("insert", "insertrange"):
                op["i"] = rng.randint(0, n)
            elif name == "eraserange":
                op["i"] = rng.randint(0, n)
                op["j"] = rng.randint(op["i"], n)
            elif name == "resize":
                op["n"] = rng.choice([0, n, n + 1, n + 3, max(0, n - 1)])
            elif name == "reserve":
                op["n"] = rng.choice([0, n, n + 1, n + 20])
            src = v = None
            ind = name in ("addind", "addindsafe", "setind", "setindsafe")
            if name in ("add", "insert", "setat") or ind or (name == "resize" and rng.random() < .6):
                src, v = self.source(t, None, ind)
                if src["k"] == "lit" and not ind:
                    op["rv"] = rng.randint(0, 1)
            elif name == "insertrange":
                src, v = self.source(t, "a")
                if src["k"] == "move" or (src["k"] != "lit" and self.within((src["s"], src["p"]), t)):
                    return None
                if src["k"] != "lit" and self.within(t, (src["s"], src["p"])):
                    return None
            elif name == "aassign":
                src, v = self.source(t, "a")
                if src["k"] == "move" and self.within(t, (src["s"], src["p"])):
                    return None
            if name == "resize" and src is not None and src["k"] == "move":
                src["k"] = "copy"
            if src is not None:
                if src["k"] == "var" and name not in ("add",):
                    src["k"] = "copy"
                op["v"] = src
            if a is None:
                return op
            if name in ("setat", "removeat", "setind", "setindsafe") and op["i"] >= n:
                return op
            isind = src is not None and src["k"] != "lit" and not src["p"] and src["s"] in DOCS and t[0] in DOCS
            if ind and not isind and name in ("addind", "setind"):
                return op
            if src is not None and name != "resize":
                self.apply_move(src)
            if ind and isind:
                v = {"r": src["s"]}
            v = copy.deepcopy(v)
            # the array may have been within what was moved out of
            a = self.get(t)["a"]
            if name in ("add", "addind", "addindsafe"):
                a.append(v)
            elif name == "insert":
                a.insert(op["i"], v)
            elif name == "insertrange":
                a[op["i"]:op["i"]] = v["a"]
            elif name in ("setat", "setind", "setindsafe"):
                a[op["i"]] = v
            elif name in ("removeat", "erase"):
                del a[op["i"]]
            elif name == "eraserange":
                del a[op["i"]:op["j"]]
            elif name == "resize":
                fill = v if v is not None else {"d": {}}
                while len(a) < op["n"]:
                    a.append(copy.deepcopy(fill))
                del a[op["n"]:]
            elif name == "aclear":
                a.clear()
            elif name == "aassign":
                a[:] = v["a"]
            elif name == "reverse":
                a.reverse()
            return op
        t = self.pick("d")
        if t is None or rng.random() < .03:
            t = self.pick()
        if self.streams(t):
            name = rng.choice(["addkey", "remove"])
        else:
            name = rng.choice(["addkey", "addkey", "addkey", "keyind", "keyindsafe", "remove", "remove", "dclear", "dassign", "dassign"])
        cur = self.get(t).get("d")
        op = {"op": name, "t": self.L(t)}
        if name in ("addkey", "keyind", "keyindsafe", "remove"):
            ks = KEYS if cur is None or rng.random() < .5 or not cur else sorted(cur)
            op["k"] = rng.choice(ks)
        src = v = None
        ind = name in ("keyind", "keyindsafe")
        if name == "addkey" or ind:
            src, v = self.source(t, None, ind)
            if src["k"] == "lit" and not ind:
                op["rv"] = rng.randint(0, 1)
        elif name == "dassign":
            src, v = self.source(t, "d")
            if src["k"] == "move" and self.within(t, (src["s"], src["p"])):
                return None
        if src is not None:
            if src["k"] == "var" and name != "addkey":
                src["k"] = "copy"
            op["v"] = src
        if cur is None:
            return op
        isind = src is not None and src["k"] != "lit" and not src["p"] and src["s"] in DOCS and t[0] in DOCS
        if name == "keyind" and not isind:
            return op
        if src is not None:
            self.apply_move(src)
        if ind and isind:
            v = {"r": src["s"]}
        v = copy.deepcopy(v)
        d = self.get(t)["d"]
        if name in ("addkey", "keyind", "keyindsafe"):
            d[op["k"]] = v
        elif name == "remove":
            d.pop(op["k"], None)
        elif name == "dclear":
            d.clear()
        elif name == "dassign":
            self.put(t, v)
        return op

    def follows(self, t):  # a dictionary with a stream would be shown with the keys of the stream
        return self.streams(t) or any("x" in self.m[s] for s in DOCS) and ( '"r"' in json.dumps(self.get(t)) or "Parent" in json.dumps(self.get(t)))

    def query(self):
        rng = self.rng
        k = rng.random()
        if k < .5:
            t = self.pick(rng.choice(["a", "d"]))
            if t is None or self.follows(t):
                return None
            v = self.get(t)
            if "d" in v:
                key = rng.choice(KEYS + ["Zz"]) if rng.random() < .6 or not v["d"] else rng.choice(sorted(v["d"]))
            else:
                key = rng.choice([len(v["a"]), len(v["a"]) + 7]) if rng.random() < .2 or not v["a"] else rng.randrange(len(v["a"]))
            return {"op": rng.choice(["find", "typed"]), "t": self.L(t), "k": key, "cst": rng.randint(0, 1)}
        if k < .65:
            return {"op": "scalar", "t": self.L(self.pick())}
        if k < .8:
            t = self.pick(rng.choice(["a", "d"]))
            return None if t is None or self.follows(t) else {"op": "iter", "t": self.L(t)}
        a = self.pick()
        va = self.get(a)
        same = [x for x in self.locs() if self.get(x) == va]
        b = rng.choice(same) if rng.random() < .6 else self.pick()
        if self.streams(a) or self.streams(b):
            return None
        return {"op": "eq", "t": self.L(a), "t2": self.L(b)}



def case(rng, n=None):
    g = Gen(rng)
    for _ in range(n or rng.randint(6, 22)):
        k = rng.random()
        op = g.query() if k < .3 else {"op": "reload"} if k < .38 else g.mutate()
        if op:
            g.ops.append(op)
            if op["op"] == "reload":
                g.saved()
            if op.get("v", {}).get("k") == "move":
                return_to_null(g, op)
    g.ops.append({"op": "reload"})
    return {"ops": g.ops}


def return_to_null(g, op):
    """a moved-from object is unspecified: give it a value again where it still is"""
    # the place may have shifted or gone; assign all of its slot anew
    s = op["v"]["s"]
    if s == op["t"]["s"]:
        v = copy.deepcopy(g.m[s])
        return_slot(g, s, v)
    else:
        return_slot(g, s, root(g.rng))


def return_slot(g, s, v):
    g.m[s] = copy.deepcopy(v)
    g.ops.append({"op": "assign", "t": {"s": s, "p": [], "id": s}, "v": {"k": "lit", "v": v}, "rv": 0})
