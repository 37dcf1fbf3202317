"""forms: histories of fields, on the form and on pages, with names that coincide, children, values, saves"""
TYPES = ["PushButton", "CheckBox", "RadioButton", "TextBox", "ComboBox", "ListBox", "Signature"]
FLAGS = ["ReadOnly", "Required", "NoExport", "MultiLine", "Password", "File", "Spell", "Scroll", "Comb", "Rich", "Sorted", "Multi", "Commit", "Edit"]
AA = ["E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "K", "V"]
NONE = [-1]


def c(s):
    return [ord(x) for x in s]


def name(rng, names):
    if rng.random() < .06:
        return c(rng.choice(["a.b", ".", "x."]))
    return c(rng.choice(names))


def text(rng, none=.15):
    if rng.random() < none:
        return NONE
    return c("".join(rng.choice("ab é日\U0001F600(") for _ in range(rng.choice([1, 2, 3, 4, 6]))))


FT = {"PushButton": ("Btn", [17]), "CheckBox": ("Btn", []), "RadioButton": ("Btn", [15, 16]), "TextBox": ("Tx", []), "ComboBox": ("Ch", [18]), "ListBox": ("Ch", []), "Signature": ("Sig", [])}


def built(rng, names, types):
    """a form of another program: attributes at any level of the tree"""
    nodes = []

    def add(p, type, has, depth):
        ft, bits = FT[type]
        own = p == 0 or rng.random() < .3
        x = {"p": p, "ft": ft if own and rng.random() < .9 or (p and rng.random() < .2) else "", "hasff": int(has is None and bool(bits) or rng.random() < .3), "ff": [], "t": NONE, "tu": NONE, "tm": NONE, "v": NONE, "rv": NONE,
             "maxlen": -1, "hasopt": 0, "opt": [], "page": 0, "indirect": int(rng.random() < .3)}
        if x["hasff"]:
            extra = [1, 2, 3] + ([13, 14, 21, 23, 24, 25, 26] if ft == "Tx" else [19, 20, 22, 23, 27] if ft == "Ch" else [])
            x["ff"] = sorted(set(bits + rng.sample(extra, rng.choice([0, 1, 2, 3 if len(extra) > 3 else 1]))))
        if p == 0 or rng.random() < .5:
            x["t"] = c(rng.choice(names + ["a.b"])) if rng.random() < .95 else NONE
        for k in ("tu", "tm"):
            if rng.random() < .3:
                x[k] = text(rng, 0)
        if ft in ("Tx", "Ch") and rng.random() < .4:
            x["v"] = text(rng, 0)
        if ft == "Tx" and rng.random() < .2:
            x["rv"] = text(rng, 0)
        if ft == "Tx" and rng.random() < .3:
            x["maxlen"] = rng.choice([0, 2, 4])
        if ft == "Ch" and rng.random() < .6:
            x["hasopt"] = 1
            x["opt"] = [[text(rng, 0), text(rng, .5)] for _ in range(rng.choice([0, 1, 2, 3]))]
            if x["opt"] and rng.random() < .6:
                x["v"] = rng.choice(x["opt"])[0]
        nodes.append(x)
        me = len(nodes)
        kids = 0 if depth > 2 else rng.choice([0, 0, 1, 2, 2])
        for _ in range(kids):
            add(me, type, 1, depth + 1)
        if not kids and rng.random() < .7:
            x["page"] = rng.choice([1, 2])
        return me
    roots = [add(0, rng.choice(types), None, 0) for _ in range(rng.choice([1, 2, 3]))]
    bad = rng.choice([0, 0, 0, 1, 2, 3])
    if bad:
        roots.insert(rng.randrange(len(roots) + 1), 0)
    return {"op": "build", "nodes": nodes, "roots": roots, "bad": bad, "indarr": rng.randrange(2)}


def case(rng):
    names = rng.sample(["a", "b", "name", "é", "日本", "A"], rng.choice([1, 2, 3]))
    types = rng.sample(TYPES, rng.choice([1, 2, 3, 4]))
    focus = rng.choice([None, None, "text", "choice", "tree"])
    if focus == "text":
        types = ["TextBox"] + types[:1]
    if focus == "choice":
        types = ["ComboBox", "ListBox"]
    ops = [{"op": "start"} if rng.random() < .55 else built(rng, names, types)]
    n = rng.choice([5, 8, 12, 18, 25])

    def t(op, **kw):
        d = {"op": op, "k": rng.randrange(60), "via": int(rng.random() < .3)}
        d.update(kw)
        return d
    w = [("form", 5), ("page", 7), ("child", 3), ("childw", 3), ("flag", 9), ("name", 2), ("rawname", 1), ("alt", 2), ("map", 2), ("text", 5), ("maxlen", 3), ("insert", 5), ("remove", 2),
         ("select", 4), ("check", 3), ("mode", 2), ("action", 3), ("caption", 3), ("removeat", 1), ("removeref", 1), ("removekid", 1), ("need", 1), ("reload", 3)]
    if focus == "tree":
        w = [("form", 5), ("page", 7), ("child", 8), ("childw", 6), ("flag", 4), ("name", 3), ("removeat", 1), ("removeref", 2), ("removekid", 4), ("reload", 4), ("text", 2), ("check", 1)]
    for i in range(n):
        op = rng.choice(["form", "page"]) if i == 0 else rng.choices([x for x, _ in w], [y for _, y in w])[0]
        if op == "form":
            ops.append({"op": op, "name": name(rng, names), "type": rng.choice(types)})
        elif op == "page":
            ops.append({"op": op, "page": rng.randrange(2), "name": name(rng, names), "type": rng.choice(types)})
        elif op == "child":
            ops.append(t(op, via=0))
        elif op == "childw":
            ops.append(t(op, via=0, page=rng.randrange(2)))
        elif op == "flag":
            ops.append(t(op, f=rng.choice(FLAGS), b=rng.randrange(2)))
        elif op == "name":
            ops.append(t(op, v=NONE if rng.random() < .1 else name(rng, names)))
        elif op == "rawname":
            ops.append(t(op, v=c(rng.choice(["a.b", "..", "x.", ".y", "a"]))))
        elif op in ("alt", "map", "text"):
            ops.append(t(op, v=text(rng)))
        elif op == "maxlen":
            ops.append(t(op, v=rng.choice([0, 1, 2, 3, 4, 10])))
        elif op == "insert":
            ops.append(t(op, v=text(rng, 0), disp=text(rng, .5)))
        elif op == "remove":
            ops.append(t(op, i=rng.randrange(4)))
        elif op == "select":
            ops.append(t(op, i=rng.choice([-1, 0, 0, 1, 1, 2, 3])))
        elif op == "check":
            ops.append(t(op, b=rng.randrange(2)))
        elif op == "mode":
            ops.append(t(op, v=rng.choice("NIOP")))
        elif op == "action":
            ops.append(t(op, key=rng.choice(AA)))
        elif op == "caption":
            ops.append(t(op, key=rng.choice(["CA", "RC", "AC"]), v=text(rng)))
            if rng.random() < .7:
                ops[-1]["via"] = 1
        elif op == "removeat":
            ops.append({"op": op, "i": rng.randrange(4)})
        elif op == "removeref":
            ops.append(t(op, via=0))
        elif op == "removekid":
            ops.append(t(op, via=0, i=rng.randrange(4), byref=rng.randrange(2)))
        elif op == "need":
            ops.append({"op": op, "b": rng.randrange(2)})
        elif op == "reload":
            ops.append({"op": op, "update": rng.randrange(2)})
    ops.append({"op": "reload", "update": 0})
    if rng.random() < .6:
        for o in ops[:-1]:
            o["quiet"] = int(rng.random() < .7)
    return {"ops": ops}
