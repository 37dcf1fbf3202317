"""painting: legal sequences of calls on pages and forms, over several sessions"""
import re, zlib
import pdfraw

TEXTSETS = ["Tf", "Tz", "Tc", "Tw", "Tr"]


def co(rng):
    r = rng.random()
    return rng.randrange(-100, 600) * 500 if r < .8 else rng.randrange(0, 20) * 1000 if r < .9 else rng.randrange(-99999, 99999)


def color(rng):
    sp = rng.choice(["gray", "gray", "rgb", "cmyk", "sep:Spot", "sep:My Spot#1", "lab"])
    if sp == "lab":
        return {"sp": sp, "n": [rng.choice([0, 50000, 100000]), rng.choice([0, -20000, 30500]), rng.choice([0, 1000])]}
    return {"sp": sp, "n": [rng.choice([0, 0, 500, 1000, 250]) for _ in range({"gray": 1, "rgb": 3, "cmyk": 4}.get(sp, 1))]}


def name(rng):
    return rng.choice(["Tag", "P", "A B", "x#y", "a/b", "(q)", "Q"])


class Gen:
    def __init__(s, rng):
        s.rng, s.ops, s.c, s.mode, s.depth, s.mc, s.font = rng, [], -1, "page", 0, 0, False
        s.fonts = []          # whether a font was set, as Save and Restore see it

    def call(self, k, n=(), **kw):
        self.ops.append(dict({"op": "call", "k": k, "n": list(n), "s": "", "eo": 0}, **kw))

    def text(s):
        return [s.rng.choice([9] * 8 + list(range(32, 127))) if s.rng.random() < .9 else 32 for _ in range(s.rng.randint(1, 7))]

    def textset(s):
        rng = s.rng
        k = rng.choice(TEXTSETS + ["Tf"])
        if k == "Tf":
            s.call(k, [rng.choice([12000, 12000, 9000, 30500])], r=rng.randrange(2))
            s.font = True
        elif k == "Tz":
            s.call(k, [rng.choice([100000, 50000, 120500])])
        elif k == "Tr":
            s.call(k, [rng.choice([0, 1, 2, 3, 7])])
        else:
            s.call(k, [rng.choice([0, 0, 1000, 2500, -500])])

    def gfxset(s):
        rng = s.rng
        k = rng.choice(["w", "w", "M", "J", "j", "ri", "fill", "fill", "stroke", "pattern", "spattern", "gs", "style", "dash"])
        if k in ("fill", "stroke"):
            s.call(k, color=color(rng))
        elif k in ("pattern", "spattern"):
            s.call(k, s=name(rng))
        elif k == "gs":
            s.call(k, r=2 + rng.randrange(2))
        elif k == "style":
            s.call(k, style=rng.randrange(5), inv=rng.randrange(2))
        elif k == "dash":
            s.call(k, [3000, 1000, 0], s="[3 1] 0")
        elif k == "ri":
            s.call(k, s=rng.choice(["Perceptual", "Saturation", "My Intent"]))
        elif k == "w":
            s.call(k, [rng.choice([0, 1000, 2000, 500])])
        elif k == "M":
            s.call(k, [rng.choice([10000, 4000])])
        else:
            s.call(k, [rng.randrange(3)])

    def path(s):
        rng = s.rng
        start = rng.random()
        pts = lambda n: [co(rng) for _ in range(n)]
        if start < .65:
            s.call("m", pts(2))
        elif start < .78:
            s.call("re", pts(4))
        elif start < .86:
            s.call("rounded", [co(rng), co(rng), 40000, 30500, rng.choice([1000, 5000]), rng.choice([0, 2000])])
        elif start < .94:
            s.call("circle", [co(rng), co(rng), rng.choice([1000, 30000, 100500])])
        else:
            s.call("ellipse", [co(rng), co(rng), rng.choice([20000, 60000]), rng.choice([1000, 45000])])
        for i in range(rng.choice([0, 1, 2, 4, 8])):
            k = rng.choice(["l", "l", "c", "H", "V", "smooth", "quad", "squad", "h", "m", "re"])
            if i == 0 and s.ops[-1]["k"] in ("rounded", "ellipse") and k in ("smooth", "squad"):
                k = "h"          # what the curves of a figure are is its own matter
            n = {"l": 2, "c": 6, "H": 1, "V": 1, "smooth": 4, "quad": 4, "squad": 2, "h": 0, "m": 2, "re": 4}[k]
            s.call(k, pts(n), **({"eo": rng.randrange(2)} if k == "h" else {}))
        k = rng.choice(["S", "S", "f", "B", "clip", "n"])
        s.call(k, eo=rng.randrange(2))

    def textobj(s):
        rng = s.rng
        s.call("BT", [co(rng), co(rng)])
        s.mode = "text"
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            if r < .4 and s.font:
                s.call("Tj", b=s.text())
            elif r < .55:
                s.call("Td", [co(rng), co(rng)])
            elif r < .8:
                s.textset()
            elif r < .93:
                s.gfxset()
            else:
                s.bad()
        s.call("ET")
        s.mode = "page"

    def bad(s):
        """a call that is refused"""
        rng = s.rng
        if s.mode == "text":
            s.call("BT", [0, 0]) if rng.random() < .5 else s.call("text", [0, 0], b=[65])
        elif rng.random() < .6 or s.font:
            k = rng.choice(["Tj", "ET", "Td"])
            s.call(k, [1000, 1000] if k == "Td" else [], b=[65])
        else:
            s.call("text", [0, 0], b=[65])

    def step(s):
        rng = s.rng
        r = rng.random()
        if r < .2:
            s.gfxset()
        elif r < .35:
            s.textset()
        elif r < .55:
            s.path()
        elif r < .6:
            s.call("line", [co(rng) for _ in range(4)])
        elif r < .7 and s.font:
            k = rng.choice(["text", "text", "aligned", "multi"])
            kw = {"b": s.text(), "al": rng.randrange(3), "val": rng.randrange(3), "clip": rng.randrange(2)}
            s.call(k, [co(rng), co(rng)] + ([300000] if k != "text" else []) + ([50000] if k == "multi" else []), **kw)
        elif r < .78:
            s.textobj()
        elif r < .85:
            s.call("q")
            s.depth += 1
            s.fonts.append(s.font)
        elif r < .9 and s.depth:
            s.call("Q")
            s.depth -= 1
            s.font = s.fonts.pop()
        elif r < .92:
            s.call("cliprect", [co(rng) for _ in range(4)])
        elif r < .94:
            s.call("do", [co(rng), co(rng), rng.choice([1000, 2500]), rng.choice([1000, -1000])], r=4 + rng.randrange(2))
        elif r < .945:
            s.call("cm", [rng.choice([1000, 2000]), 0, rng.randrange(9999), -1000, co(rng), co(rng)])
        elif r < .96:
            s.call("BMC", s=name(rng))
            s.mc += 1
        elif r < .965 and s.mc:
            s.call("EMC")
            s.mc -= 1
        elif r < .975:
            s.call("tab", [rng.choice([0, 1, 4, 8])])
        elif r < .985:
            s.bad()
        else:
            s.ops.append({"op": "state"})

    def end(s):
        while s.depth:
            s.call("Q")
            s.depth -= 1
            s.font = s.fonts.pop()
        while s.mc:
            s.call("EMC")
            s.mc -= 1
        s.ops.append({"op": "state"})


def rec(o, *n, **kw):
    return dict({"o": o, "n": list(n), "s": "", "b": [], "r": 0}, **kw)


RAW = [  # contents, their operators, whether they leave the state as it was
    (b"5 w 0 0 m 10 10 l S", [rec("w", 5000), rec("m", 0, 0), rec("l", 10000, 10000), rec("S")], False),
    (b"q 0 1 0 RG 0 0 m 10 10 l S Q", [rec("q"), rec("RG", 0, 1000, 0), rec("m", 0, 0), rec("l", 10000, 10000), rec("S"), rec("Q")], True),
    (b"q\n1 1 5 5 re\nf\nQ\n", [rec("q"), rec("re", 1000, 1000, 5000, 5000), rec("f"), rec("Q")], True),
    (b"2 0 0 2 0 0 cm 0 0 1 1 re f % end", [rec("cm", 2000, 0, 0, 2000, 0, 0), rec("re", 0, 0, 1000, 1000), rec("f")], False),
]


def case(rng):
    g = Gen(rng)
    g.ops.append({"op": "doc", "forms": [rng.choice(["", "", "My Form", "F#1"]), ""]})
    leak = [False] * 4
    for c in range(4):
        if rng.random() < .25:
            b, ops, clean = rng.choice(RAW)
            g.ops.append({"op": "raw", "c": c, "bytes": list(b), "ops": ops})
            leak[c] = leak[c] or not clean
    # forms that are drawn on one another are only drawn: nothing is followed
    for _ in range(rng.randint(1, 3)):
        flags = rng.choice([0, 0, 0, 2, 4, 6])
        g.ops.append({"op": "painter", "flags": flags})
        g.font = False
        if rng.random() < .15:
            g.call(rng.choice(["w", "J"]), [1])
        if rng.random() < .15:
            g.textset()
        for _ in range(rng.choice([1, 1, 2, 3])):
            cs = [c for c in range(4) if not (flags & 2 and leak[c])]
            if not cs:
                break
            c = rng.choice(cs[:2] if rng.random() < .7 and cs[0] < 2 else cs)
            g.ops.append({"op": "canvas", "c": c})
            if rng.random() < .05:
                g.ops.append({"op": "canvas", "c": c})
            n = len(g.ops)
            for _ in range(rng.randint(0, 12)):
                g.step()
            g.end()
            if flags & 4 and len(g.ops) > n + 1:
                leak[c] = True
            if rng.random() < .6:
                g.ops.append({"op": "finish"})
        if g.ops[-1]["op"] != "finish":
            g.ops.append({"op": "finish"})
        if rng.random() < .3:
            g.ops.append({"op": "show"})
    g.ops.append({"op": "show"})
    return {"ops": g.ops}


# ---- what the file holds
def num(v):
    return round(v * 1000)


def operators(b, res, deref):
    """the operators of a contents stream, with the names of resources resolved"""
    def look(kind, nm):
        d = deref(res.get(kind)) if res else None
        return d.get(nm) if isinstance(d, dict) else None
    out, args, i = [], [], 0
    while True:
        i = pdfraw.skip_ws(b, i)
        if i >= len(b):
            break
        m = re.compile(rb"[A-Za-z'\"][A-Za-z0-9*'\"]*").match(b, i)
        if m and m.group(0) not in (b"true", b"false", b"null"):
            o = m.group(0).decode()
            i = m.end()
            r = rec(o)
            for a in args:
                if isinstance(a, (int, float)) and not isinstance(a, bool):
                    r["n"].append(a if o in ("J", "j", "Tr") else num(a) if o != "Tz" else num(a))
                elif isinstance(a, list):
                    r["n"] += [num(v) for v in a]
                elif isinstance(a, tuple) and a[0] == "name":
                    r["s"] = a[1].decode("latin-1")
                elif isinstance(a, tuple) and a[0] == "str":
                    r["b"] = list(a[1])
                else:
                    r["o"] = "?arg"
            kind = {"Tf": "Font", "Do": "XObject", "gs": "ExtGState"}.get(o)
            if kind:
                v = look(kind, r["s"])
                r["r"] = v[1] if isinstance(v, tuple) and v[0] == "ref" else -1
                r["s"] = ""
            if o in ("cs", "CS") and r["s"] != "Pattern":
                v = deref(look("ColorSpace", r["s"]))
                head = v[0][1].decode("latin-1") if isinstance(v, list) and v and isinstance(v[0], tuple) else "none"
                r["s"] = "sep:" + deref(v[1])[1].decode("latin-1") if head == "Separation" else "lab" if head == "Lab" else "?" + head
            out.append(r)
            args = []
        else:
            try:
                v, j = pdfraw.value(b, i)
            except (pdfraw.Raw, ValueError):
                j = i
            if j <= i:
                return out + [rec("?syntax")]
            args.append(v)
            i = j
    if args:
        out.append(rec("?left"))
    return out


def shown(o):
    b = bytes.fromhex(o.pop("bytes"))
    secs = pdfraw.sections(b, int(re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", b).group(1)))
    ent = {}
    for s in secs:
        for e in s["ent"]:
            ent.setdefault(e[0], e)

    def obj(n):
        return pdfraw.object_at(b, ent[n][2], lambda v: v if isinstance(v, int) else obj(v[1])["v"])

    def deref(v):
        return obj(v[1])["v"] if isinstance(v, tuple) and v[0] == "ref" else v

    def data(n):
        s = obj(n)
        raw = s["data"]
        f = deref(s["v"].get("Filter"))
        f = [f] if isinstance(f, tuple) else f or []
        for x in f:
            if x[1] != b"FlateDecode":
                raise pdfraw.Raw("filter")
            raw = zlib.decompress(raw)
        return raw
    cv = []
    for n, cp in zip(o.pop("objs"), o.pop("copies")):
        d = obj(n)["v"]
        if d.get("Type") == ("name", b"Page"):
            c = d.get("Contents")
            c = deref(c) if isinstance(deref(c), list) else [c] if c is not None else []
            parts = [data(r[1]) for r in c]
        else:
            parts = [data(n)] if obj(n).get("data") is not None else []
        res = deref(d.get("Resources"))
        # the streams of a page are one, with a space between them (7.8.2)
        cv.append({"file": operators(b"\n".join(parts), res, deref), "copy": operators(bytes.fromhex(cp), res, deref)})
    return cv


def post(trace):
    for e in trace["ev"]:
        o = e.get("out")
        if isinstance(o, dict) and "bytes" in o:
            o["cv"] = shown(o)
        if e.get("op") == "raw":
            e.pop("bytes")
    return trace
