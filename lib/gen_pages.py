"""Random histories over page trees, imports and outlines."""
import random

RECTS = [[0, 0, 20000, 30000], [0, 0, 61200, 79200], [1000, 2000, 10000, 5050], [-5000, -2500, 20000, 20000], [0, 0, 59528, 84189]]


def corners(rng, boxed=True):
    r = rng.choice(RECTS)
    q = [r[0], r[1], r[0] + r[2], r[1] + r[3]]
    if rng.random() < .15:
        q[0], q[2] = q[2], q[0]
    if rng.random() < .15:
        q[1], q[3] = q[3], q[1]
    return q


class G:
    def __init__(self, rng):
        self.rng, self.k = rng, 0

    def name(self, p):
        self.k += 1
        return p + str(self.k)

    def attrs(self, n, leaf, dens):
        rng = self.rng
        if rng.random() < dens:
            n["M"] = corners(rng)
        if rng.random() < dens * .6:
            n["C"] = corners(rng)
        if rng.random() < dens * .6:
            n["R"] = rng.choice([0, 90, 180, 270, 90, 270, -90, 450])
            if rng.random() < .1:
                n["Rreal"] = 1
        if rng.random() < dens * .7:
            n["res"] = self.name("r")
        if rng.random() < .4:
            n["deep"] = rng.randrange(1 << 20)
        if rng.random() < (.25 if leaf else .1):
            n[rng.choice("TBA")] = corners(rng)
        if rng.random() < .2:
            n["ind"] = 1
        return n

    def tree(self, pages, depth, doc, dens=.5):
        rng = self.rng
        kids, left = [], pages
        while left > 0 or (rng.random() < .08):
            if rng.random() < .15:
                kids.append({"junk": 1})
            if depth > 0 and rng.random() < .4:
                c = rng.randint(0 if rng.random() < .1 else min(1, left), min(left, 4))
                kids.append(self.tree(c, depth - 1, doc, dens))
                left -= c
            elif left > 0:
                p = self.attrs({"m": self.name(doc.lower() + "p")}, True, dens)
                if rng.random() < .3:
                    p["carr"] = 1
                kids.append(p)
                left -= 1
        n = self.attrs({"kids": kids}, False, dens)
        if rng.random() < .15:
            n["kind"] = 1
        return n


W = {"create": 3, "createAt": 4, "remove": 4, "move": 3, "append": 0, "range": 0, "insert": 0, "handle": 2, "get": 2, "attr": 3,
     "content": 1, "view": 3, "reload": 1, "gc": .4, "oroot": 0, "ochild": 0, "onext": 0, "oerase": 0, "oset": 0}


def history(rng, length, w=None, src=0, maxp=8, fail=.04, depth=3, dens=.5):
    g = G(rng)
    W2 = dict(W)
    W2.update(w or {})
    ops, pages, items, created = [], {}, {}, {}
    docs = ["A"] + ["S", "U"][:src]
    for d in docs:
        n = rng.randint(1, maxp) if rng.random() < .9 else 0
        t = g.tree(n, rng.choice([0, 1, 2, depth]), d, dens)
        t.setdefault("M", corners(rng))      # a page without any MediaBox is not a valid page
        ops.append({"op": "build", "doc": d, "tree": t, "reload": int(rng.random() < .7), "gap": rng.choice([0, 0, 0, 3])})
        pages[d], items[d], created[d] = n, [], []
    if W2["ochild"] and src:
        for d in docs[1:]:
            for _ in range(rng.randint(0, 4)):
                if pages[d]:
                    t = g.name("o")
                    if items[d] and rng.random() < .5:
                        ops.append({"op": rng.choice(["ochild", "onext"]), "doc": d, "at": rng.choice(items[d]), "t": t, "page": rng.randrange(pages[d])})
                    else:
                        ops.append({"op": "ochild", "doc": d, "at": "", "t": t, "page": rng.randrange(pages[d])})
                    items[d].append(t)
            ops.append({"op": "view", "doc": d})
    names, weights = list(W2), list(W2.values())
    imports = 0
    for _ in range(length):
        op = rng.choices(names, weights)[0]
        d = "A" if rng.random() < .9 or not src else rng.choice(docs)
        n = pages[d]
        ix = lambda: (rng.randrange(n) if n and rng.random() > fail else n + rng.choice([0, 0, 1, 5]))
        if op == "create" or op == "createAt":
            if n > 25:
                continue
            m = g.name("n")
            e = {"op": "create", "doc": d, "m": m, "M": rng.choice(RECTS)}
            if op == "createAt":
                e["at"] = rng.randint(0, n + (2 if rng.random() < .1 else 0))
            pages[d] += 1
            created[d].append(m)
        elif op == "remove":
            i = ix()
            e = {"op": "remove", "doc": d, "i": i}
            if i < n:
                pages[d] -= 1
        elif op == "move":
            e = {"op": "move", "doc": d, "i": ix(), "j": rng.randint(0, max(0, n)) if n else 0}
        elif op in ("append", "range", "insert"):
            if imports >= 5 or n > 40:
                continue
            imports += 1
            s = rng.choice([x for x in docs if x != d]) if len(docs) > 1 and rng.random() > .07 else d
            k = pages[s]
            if op == "append":
                e = {"op": op, "doc": d, "src": s}
                pages[d] += k
            elif op == "range":
                a = rng.randint(0, k)
                c = rng.randint(0, k - a) if rng.random() > fail else k - a + rng.choice([1, 3])
                e = {"op": op, "doc": d, "src": s, "from": a, "n": c}
                if a + c <= k:
                    pages[d] += c
            else:
                if k == 0:
                    continue
                e = {"op": op, "doc": d, "src": s, "at": rng.randint(0, n), "i": rng.randrange(k)}
                pages[d] += 1
            if items[s]:
                ops.append(e)
                e = {"op": "view", "doc": d}
                items[d] = items[d] + items[s]
        elif op == "handle":
            if not created[d]:
                continue
            e = {"op": op, "doc": d, "m": rng.choice(created[d])}
        elif op == "get":
            e = {"op": op, "doc": d, "i": ix()}
        elif op == "attr":
            k = rng.choice("RMTWH")
            v = {"R": lambda: rng.choice([0, 90, 180, 270]) if rng.random() > fail else 45, "M": lambda: rng.choice(RECTS),
                 "T": lambda: rng.choice(RECTS), "W": lambda: rng.choice([100, 333]), "H": lambda: rng.choice([50, 777])}[k]()
            i = ix()
            e = {"op": op, "doc": d, "i": i, "k": k, "v": v}
            if k in "WH":
                # needs boxes in normal form and present: give the page its own first
                if i >= n:
                    continue
                ops.append({"op": "attr", "doc": d, "i": i, "k": "M", "v": rng.choice(RECTS)})
                if rng.random() < .5:
                    ops.append({"op": "view", "doc": d})
        elif op == "content":
            e = {"op": op, "doc": d, "i": ix(), "x": "q Q %d" % rng.randrange(1000)}
        elif op == "view":
            e = {"op": op, "doc": d, "lazy": int(rng.random() < .5)}
        elif op == "reload":
            e = {"op": op, "doc": d, "how": rng.choice(["full", "update"]), "opts": rng.choice(["", "g", "c"])}
            created[d] = []
        elif op == "gc":
            e = {"op": op, "doc": d}
        elif op == "oroot":
            t = g.name("o")
            e = {"op": op, "doc": d, "t": t}
            items[d].append(t)
        elif op in ("ochild", "onext"):
            if not n:
                continue
            at = rng.choice(items[d]) if items[d] and rng.random() < .75 else ""
            if op == "onext" and at == "":
                op = "ochild"
            t = g.name("o")
            e = {"op": op, "doc": d, "at": at, "t": t, "page": rng.randrange(n)}
            items[d].append(t)
            # the page the destination names must be known to the specification
        elif op == "oerase":
            if not items[d]:
                continue
            e = {"op": op, "doc": d, "at": rng.choice(items[d])}
        elif op == "oset":
            if not items[d]:
                continue
            at = rng.choice(items[d])
            t = g.name("o")
            e = {"op": op, "doc": d, "at": at, "t": t, "f": rng.randint(0, 3), "c": [rng.choice([0, 25, 50, 100]) for _ in range(3)]}
            items[d].append(t)
        ops.append(e)
    for d in docs:
        ops.append({"op": "view", "doc": d})
    ops.append({"op": "reload", "doc": "A", "how": "update", "opts": ""})
    ops.append({"op": "view", "doc": "A"})
    return ops
