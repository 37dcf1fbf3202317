"""annots: histories of annotations on pages, of this library and of others"""
KINDS = ["Text", "Link", "FreeText", "Line", "Square", "Circle", "Polygon", "PolyLine", "Highlight", "Underline", "Squiggly", "StrikeOut", "Stamp", "Caret", "Ink", "Popup",
         "FileAttachment", "Sound", "Movie", "Widget", "Screen", "PrinterMark", "TrapNet", "Watermark", "3D", "RichMedia", "WebMedia", "Redact", "Projection"]
RICH = ["Text", "Link", "Popup", "FileAttachment", "Widget", "Screen", "Highlight", "Redact"]
ACTIONS = ["GoTo", "GoToR", "GoToE", "Launch", "Thread", "URI", "Sound", "Movie", "Hide", "Named", "SubmitForm", "ResetForm", "ImportData", "JavaScript", "SetOCGState", "Rendition", "Trans", "GoTo3DView", "RichMediaExecute"]
NONE = [-1]
STATES = ["On", "Off", "A x"]


def num(rng):
    return rng.choice([0, 1, 10, 99, -5, 100]) * 1000 + rng.choice([0, 0, 250, 500])


def size(rng):
    return rng.choice([0, 1, 10, 50]) * 1000 + rng.choice([0, 250, 500])


def rect(rng):
    return [num(rng), num(rng), size(rng), size(rng)]


def text(rng, none=.15):
    if rng.random() < none:
        return NONE
    return [ord(x) for x in "".join(rng.choice("ab é日\U0001F600(\\") for _ in range(rng.choice([1, 2, 4])))]


def color(rng, none=.15):
    if rng.random() < none:
        return NONE
    return [rng.choice([0, 250, 500, 1000]) for _ in range(rng.choice([0, 1, 3, 4]))]


def flags(rng):
    return rng.choice([0, 4, 1, 2, 64, 128, 512, 1023, 6, 256])


def build(rng, kinds):
    pages = []
    forms = rng.choice([1, 2, 3])
    for _ in range(rng.choice([1, 2, 3])):
        items = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            k = rng.choices(["annot", "null", "dangling", "int", "nosub", "unk"], [16, 1, 1, 1, 1, 1])[0]
            x = {"k": k}
            if k in ("annot", "direct"):
                ap = []
                for m in "NRD":
                    if rng.random() < .35:
                        if rng.random() < .5:
                            ap.append([m, "", rng.randrange(forms)])
                        else:
                            ap += [[m, s, rng.randrange(forms)] for s in rng.sample(STATES, rng.choice([1, 2]))]
                x.update({"type": rng.choice(kinds), "subind": int(rng.random() < .15), "rect": rect(rng), "flip": rng.randrange(4), "flags": rng.choice([-1, flags(rng)]), "title": text(rng, .5),
                          "contents": text(rng, .5), "color": color(rng, .5), "open": -1, "ap": ap, "apind": rng.randrange(2), "as": rng.choice(["", "", "On", "Off"]), "par": -1})
                if x["type"] in ("Text", "Popup"):
                    x["open"] = rng.choice([-1, 0, 1])
                ps = [i for i, y in enumerate(items) if y["k"] == "annot" and y["type"] not in ("Popup", "Widget")]
                if x["type"] == "Popup" and ps and rng.random() < .7:
                    x["par"] = rng.choice(ps)
                    x["flags"] = flags(rng)
            items.append(x)
        pages.append({"arr": rng.choice(["none", "direct", "direct", "indirect", "indirect"]), "items": items})
        if pages[-1]["arr"] == "none":
            pages[-1]["items"] = []
    return {"op": "build", "forms": forms, "pages": pages}


def case(rng):
    kinds = rng.choice([KINDS, RICH, rng.sample(KINDS, 2), ["Widget", "Screen"], ["Link", "Text"], ["Link", "FileAttachment", "Popup", "Text"]])
    first = build(rng, kinds) if rng.random() < .5 else {"op": "start", "pages": rng.choice([1, 2, 3])}
    np = len(first["pages"]) if first["op"] == "build" else first["pages"]
    ops = [first]
    focus = rng.choice([None, None, "look", "list"])
    attrs = ["rect", "flags", "title", "contents", "color", "border", "quad", "open", "dest", "destaction", "action", "file", "ap", "ap", "mk", "mk"]
    if focus == "look":
        attrs = ["ap"]
    w = [("create", 5), ("set", 16), ("remove", 1), ("removeref", 1), ("getref", 2), ("reload", 2)]
    if focus == "list":
        w = [("create", 8), ("set", 2), ("remove", 3), ("removeref", 4), ("getref", 3), ("reload", 2)]
    for i in range(rng.choice([6, 10, 16, 24])):
        op = "create" if i == 0 else rng.choices([x for x, _ in w], [y for _, y in w])[0]
        d = {"op": op, "page": 0 if rng.random() < .6 else rng.randrange(np)}
        if op == "create":
            d.update(type=rng.choice(kinds), rect=rect(rng))
        elif op == "remove":
            d.update(i=rng.choice([0, 0, 1, 1, 2, 3, 9]))
        elif op in ("removeref", "getref"):
            d.update(k=rng.randrange(60))
        elif op == "reload":
            d = {"op": op, "update": rng.randrange(2)}
        else:
            a = rng.choice(attrs)
            d.update(attr=a, k=rng.randrange(60))
            if a == "rect":
                d["v"] = rect(rng)
            elif a == "flags":
                d["v"] = flags(rng)
            elif a in ("title", "contents"):
                d["v"] = text(rng)
            elif a == "color":
                d["v"] = color(rng)
            elif a == "border":
                d["v"] = [size(rng) for _ in range(3 + rng.choice([0, 0, 1, 2]))]
            elif a == "quad":
                d["v"] = NONE if rng.random() < .2 else [num(rng) for _ in range(8 * rng.choice([1, 2]))]
            elif a == "open":
                d["v"] = rng.choice([-1, 0, 1])
            elif a in ("dest", "destaction"):
                t = rng.choice(["XYZ", "FitR", "Fit", "FitB", "FitH", "FitV", "FitBH", "FitBV"])
                d.update(to=rng.randrange(np), t=t, v={"XYZ": [num(rng), num(rng), size(rng)], "FitR": rect(rng), "Fit": [], "FitB": []}.get(t, [num(rng)]))
            elif a == "action":
                d.update(t=rng.choice(["URI", "JavaScript"] + ACTIONS), uri=text(rng, .4), js=text(rng, .5))
            elif a == "file":
                d.update(dir=[ord(x) for x in rng.choice(["", "/", "/a b/c/", "x/"])], name=[ord(x) for x in rng.choice(["a.txt", "é.pdf", "日", "a b"])], data=[rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40]))], strip=rng.randrange(2))
            elif a == "ap":
                d.update(x=rng.choice([0, 0, 1, 2]), t=rng.choice("NNNRD"), state=rng.choice(["", "", "On", "Off", "A x"]))
            elif a == "mk":
                k = rng.choice(["BC", "BG", "RC", "AC", "CA"])
                d.update(key=k, v=color(rng) if k in ("BC", "BG") else text(rng))
        ops.append(d)
    ops.append({"op": "reload", "update": 0})
    if rng.random() < .5:
        for o in ops[:-1]:
            o["quiet"] = int(rng.random() < .7)
    return {"ops": ops}
