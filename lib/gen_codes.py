"""codemap: the table of codes; cmap: CMaps as files have them; simple: encodings of one byte; fonttext: text written with fonts and read back"""
POINTS = [0x41, 0x42, 0x43, 0x61, 0x66, 0x69, 0x6C, 0xE9, 0x20AC, 0x4E00, 0x1F600]


def bts(v, n):
    return list(v.to_bytes(n, "big"))


def codemap(rng):
    ops, pushed, texts = [], [], []
    pool = POINTS[:rng.choice([3, 5, 11])]
    def seq(n=None):
        return [rng.choice(pool) for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3]))]
    def code():
        if pushed and rng.random() < .25:
            c = rng.choice(pushed)
            return rng.choice([c, [0] * rng.randrange(1, 5 - len(c)) + c if len(c) < 4 else c, c[1:] or c, c + [rng.randrange(3)] if len(c) < 4 else c])
        return [rng.choice([0, 1, 2, 0x41, 0xFF, rng.randrange(256)]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    for _ in range(rng.randrange(4, 24)):
        w = rng.random()
        if w < .5:
            t = rng.choice(texts) + seq(1) if texts and rng.random() < .3 else seq()
            if rng.random() < .04:
                t = []
            c = code()
            ops.append({"op": "push", "code": c if rng.random() > .03 else [], "cps": t, "one": rng.randrange(2)})
            pushed.append(c)
            if t:
                texts.append(t)
        elif w < .62:
            ops.append({"op": "points", "code": rng.choice(pushed) if pushed and rng.random() < .7 else code()})
        elif w < .76:
            t = list(rng.choice(texts)) if texts and rng.random() < .8 else seq()
            if rng.random() < .3:
                t = t[:-1] or t
            ops.append({"op": "code", "cps": t, "one": rng.randrange(2)})
        elif w < .92:
            t = (list(rng.choice(texts)) if texts and rng.random() < .8 else seq()) + seq()
            ops.append({"op": "next", "cps": t})
        elif w < .97:
            ops.append({"op": "all"})
        else:
            ops.append({"op": "move", "assign": rng.randrange(3)})
    for c in pushed:
        ops.append({"op": "points", "code": c})
    ops.append({"op": "all"})
    return {"ops": ops}


def hx(b, rng):
    s = "".join("%02x" % x for x in b)
    if rng.random() < .5:
        s = s.upper()
    if rng.random() < .1 and len(s) > 2:
        s = s[:2] + " " + s[2:]
    return "<%s>" % s


def u16(cps):
    return list("".join(chr(c) for c in cps).encode("utf-16-be"))


def cmapText(cl, rng, cid):
    """the clauses as sections of a CMap"""
    sp = lambda: rng.choice([" ", " ", "\n", "  ", "\t", "\r\n"])
    out = ["/CIDInit /ProcSet findresource begin", "12 dict begin", "begincmap", "/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def", "/CMapName /X def /CMapType 2 def"]
    i = 0
    while i < len(cl):
        k = "range" if cl[i]["k"] == "array" else cl[i]["k"]
        j = i
        while j < len(cl) and ("range" if cl[j]["k"] == "array" else cl[j]["k"]) == k:
            j += 1
        name = "codespacerange" if k == "space" else ("cid" if cid else "bf") + k
        rows = []
        for x in cl[i:j]:
            row = hx(x["lo"], rng)
            if k != "char":
                row += (sp() if rng.random() < .9 else "") + hx(x["hi"], rng)
            if x["k"] == "array":
                row += sp() + "[" + sp().join(hx(u16(d), rng) for d in x["dsts"]) + "]"
            elif k != "space":
                row += sp() + ("%d" % x["dst"][0] if cid else hx(u16(x["dst"]), rng))
            rows.append(row)
        if rng.random() < .15:
            rows.insert(rng.randrange(len(rows) + 1), "% a comment <41> <42>")
        n = j - i if cid or rng.random() < .9 else 100
        out.append("%d begin%s\n%s\nend%s" % (n, name, "\n".join(rows), name))
        i = j
    out += ["endcmap", "CMapName currentdict /CMap defineresource pop", "end end"]
    return "\n".join(out)


def clauses(rng, widths, cid):
    """clauses whose codes are not parts of each other: the first byte tells the length"""
    tops = {1: (0, 0x7F), 2: (0x80, 0xBF), 3: (0xC0, 0xDF), 4: (0xE0, 0xFF)}
    if len(widths) == 1:
        tops = {widths[0]: (0, 255)}
    few = rng.random() < .5
    def code(n, room=0):
        lo, hi = tops[n]
        a = [rng.randint(lo, min(hi, lo + 2) if few else hi)] + [rng.choice([0, 1, 0xFF, rng.randrange(256)]) if not few else rng.randrange(3) for _ in range(n - 1)]
        if a[-1] + room > (hi if n == 1 else 255):
            a[-1] = (hi if n == 1 else 255) - room
        return a
    cl = []
    for n in widths:
        if rng.random() < .95:
            cl.append({"k": "space", "lo": [tops[n][0]] + [0] * (n - 1), "hi": [tops[n][1]] + [255] * (n - 1)})
    def dst():
        if cid:
            return [rng.choice([0, 1, 5, 200, 255, 256, 300, 65535, rng.randrange(70000)])]
        return [rng.choice(POINTS + [0x41, 0x42, 0x30, 0xFFFD, 0x10000]) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
    ident = rng.random() < .12
    for _ in range(rng.randrange(1, 7)):
        n = rng.choice(widths)
        k = rng.choice(["char", "range"] + ([] if cid else ["array"]))
        if k == "char":
            c = code(n)
            cl.append({"k": "char", "lo": c, "dst": [int.from_bytes(bytes(c), "big") % 0xD800 or 65] if ident else dst()})
        else:
            w = rng.choice([0, 1, 2, 5, 16, 90])
            if n == 1:
                w = min(w, 16)
            c = code(n, w)
            h = c[:-1] + [c[-1] + w]
            if n > 1 and k == "range" and rng.random() < .1:
                v = int.from_bytes(bytes(c), "big") + 300
                if v < (tops[n][1] + 1) << (8 * (n - 1)):
                    h = bts(v, n)
                    w = 300
            d = dst()
            if not cid and 0xD800 - 400 < d[-1] < 0xE000:
                d[-1] = 65
            if ident and n < 3:
                v = int.from_bytes(bytes(c), "big")
                if v and v + w < 0xD800 and k == "range":
                    d = [v]
            if k == "range":
                cl.append({"k": "range", "lo": c, "hi": h, "dst": d})
            else:
                w = min(w, 5)
                cl.append({"k": "array", "lo": c, "hi": c[:-1] + [c[-1] + w], "dsts": [dst() for _ in range(w + 1)]})
    return cl


def someCodes(cl, rng):
    r = []
    for x in cl:
        if x["k"] != "space":
            lo = int.from_bytes(bytes(x["lo"]), "big")
            hi = int.from_bytes(bytes(x.get("hi", x["lo"])), "big")
            for v in {lo, hi, rng.randint(lo, hi)}:
                r.append(bts(v, len(x["lo"])))
    return r


def someTexts(cl, rng):
    r = []
    for x in cl:
        if x["k"] == "array":
            r += x["dsts"]
        elif x["k"] == "char":
            r.append(x["dst"])
        elif x["k"] == "range":
            w = min(int.from_bytes(bytes(x["hi"]), "big") - int.from_bytes(bytes(x["lo"]), "big"), 90)
            i = rng.randint(0, w)
            r.append(x["dst"][:-1] + [x["dst"][-1] + i])
    return [[c for c in t if 0 < c < 0x110000 and not 0xD800 <= c < 0xE000] or [65] for t in r]


def cmap(rng):
    widths = rng.choice([[1], [2], [2], [1, 2], [3], [1, 2, 3], [4], [2, 4]])
    cid = rng.random() < .3
    cl = clauses(rng, widths, cid)
    two = None
    op = {"op": "load", "clauses": cl, "cidclauses": [], "text": cmapText(cl, rng, cid).encode().hex(), "cidtext": ""}
    if not cid and rng.random() < .5:
        w2 = widths
        two = clauses(rng, w2, True)
        op["cidclauses"] = two
        op["cidtext"] = cmapText(two, rng, True).encode().hex()
    ops = [op]
    single = cid or two is not None
    known, texts = someCodes(cl, rng) + (someCodes(two, rng) if two else []), someTexts(cl, rng)
    for _ in range(rng.randrange(3, 9)):
        s = []
        for _ in range(rng.randrange(0, 6)):
            s += rng.choice(known) if known and rng.random() < .85 else [rng.randrange(256) for _ in range(rng.choice(widths))]
        if rng.random() < .1 and s:
            s = s[:-1]
        k = rng.choice(["text", "text", "encode", "encode", "points"] + (["cids", "scan"] * 2 if single else []))
        if k == "encode":
            t = []
            for _ in range(rng.randrange(0, 5)):
                t += rng.choice(texts) if texts and rng.random() < .9 else [rng.choice(POINTS)]
            ops.append({"op": k, "cps": t})
        elif k == "points":
            w = rng.choice(widths)
            ops.append({"op": k, "code": rng.choice([x for x in known if len(x) == w] or [[0] * w]) if rng.random() < .7 else [rng.randrange(256) for _ in range(w)]})
        else:
            ops.append({"op": k, "bytes": s})
    return {"ops": ops}


NAMES = {"A": 65, "B": 66, "Z": 90, "a": 97, "z": 122, "zero": 48, "nine": 57, "space": 32, "hyphen": 45, "quotesingle": 39, "Euro": 0x20AC, "Aogonek": 0x104, "alpha": 0x3B1,
         "fi": 0xFB01, "bullet": 0x2022, "Lslash": 0x141, "ccaron": 0x10D, "germandbls": 0xDF, "infinity": 0x221E, "dotlessi": 0x131, "union": 0x222A, "AE": 0xC6, "Scaron": 0x160,
         "ellipsis": 0x2026, "uni20AC": 0x20AC, "uni0416": 0x416, "uniFB02": 0xFB02, "uni0041": 0x41, "summation": 0x2211, "g12": 0, "unicycle": 0, "unix": 0, ".notdef": 0, "afii10017": 0x410}


def _standard():
    """more names of the Adobe glyph list, by its naming rules"""
    import unicodedata
    out = {}
    acc = {"ACUTE": "acute", "GRAVE": "grave", "CIRCUMFLEX": "circumflex", "DIAERESIS": "dieresis", "TILDE": "tilde", "RING ABOVE": "ring", "CARON": "caron",
           "OGONEK": "ogonek", "MACRON": "macron", "BREVE": "breve", "DOT ABOVE": "dotaccent", "DOUBLE ACUTE": "hungarumlaut"}
    for c in list(range(0xC0, 0x180)):
        n = unicodedata.name(chr(c)).split(" WITH ")
        if len(n) == 2 and n[1] in acc and n[0].startswith("LATIN ") and len(n[0].split()[-1]) == 1:
            ch = n[0].split()[-1]
            out[(ch if "CAPITAL" in n[0] else ch.lower()) + acc[n[1]]] = c
    for i, n in enumerate("exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk plus comma hyphen period slash "
                          "zero one two three four five six seven eight nine colon semicolon less equal greater question at".split()):
        out[n] = 33 + i
    for n, c in zip("bracketleft backslash bracketright asciicircum underscore grave braceleft bar braceright asciitilde".split(), [91, 92, 93, 94, 95, 96, 123, 124, 125, 126]):
        out[n] = c
    for n, c in zip("exclamdown cent sterling currency yen brokenbar section dieresis copyright ordfeminine guillemotleft logicalnot".split(), range(0xA1, 0xAD)):
        out[n] = c
    out.update(registered=0xAE, degree=0xB0, plusminus=0xB1, acute=0xB4, paragraph=0xB6, cedilla=0xB8, ordmasculine=0xBA, guillemotright=0xBB, onequarter=0xBC,
               onehalf=0xBD, threequarters=0xBE, questiondown=0xBF, multiply=0xD7, divide=0xF7, Eth=0xD0, eth=0xF0, Thorn=0xDE, thorn=0xFE, Oslash=0xD8, oslash=0xF8,
               quoteleft=0x2018, quoteright=0x2019, quotedblleft=0x201C, quotedblright=0x201D, endash=0x2013, emdash=0x2014, dagger=0x2020, perthousand=0x2030, trademark=0x2122)
    for i, n in enumerate("Alpha Beta Gamma - Epsilon Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho - Sigma Tau Upsilon Phi Chi Psi".split()):
        if n != "-":
            out[n] = 0x391 + i
            if n != "Mu":
                out[n.lower()] = 0x3B1 + i
    for i in range(33):
        k = 0x401 if i == 6 else 0x410 + i - (i > 6)
        out["afii%d" % (10017 + i)] = k
        out["afii%d" % (10065 + i)] = 0x451 if i == 6 else k + 32
    out.update(a1=0x2701, a2=0x2702, a3=0x2704, a4=0x260E, a5=0x2706, a19=0x2713, a20=0x2714, a21=0x2715, a22=0x2716, a23=0x2717, a24=0x2718,
               a109=0x2660, a110=0x2665, a111=0x2666, a112=0x2663, a191=0x27BE)
    return out


STANDARD = _standard()


def simple(rng):
    diff = rng.randrange(4) > 0
    base = rng.choice(["WinAnsiEncoding", "MacRomanEncoding"] + [""] * diff)
    ds = []
    if diff:
        for _ in range(rng.randrange(0, 5)):
            n = rng.choice([0, 1, 32, 65, 97, 127, 128, 250, rng.randrange(250)])
            ds.append({"n": n, "u": 0, "name": ""})
            for _ in range(min(rng.choice([0, 1, 1, 2, 4, 6]), 256 - n)):
                k = rng.choice(list(NAMES) if rng.random() < .6 else list(STANDARD))
                ds.append({"n": -1, "u": NAMES.get(k, STANDARD.get(k)), "name": k})
    ops = [{"op": "start", "diff": int(diff), "base": base, "diffs": ds, "empty": rng.randrange(2)}]
    # codes of which the standard tells what they are
    sure = [c for c in range(48, 58)] + [c for c in range(65, 91)] + [c for c in range(97, 123)]
    at = 0
    for d in ds:
        if d["n"] >= 0:
            at = d["n"]
        else:
            sure.append(at)
            at += 1
    for _ in range(rng.randrange(1, 4)):
        ops.append({"op": "text", "bytes": [rng.choice(sure[-6:] if rng.random() < .5 else sure) for _ in range(rng.randrange(0, 6))]})
        ops.append({"op": "encode", "cps": [rng.choice([d["u"] for d in ds if d["u"]] or [65]) if rng.random() < .5 else rng.choice([65, 66, 0x20AC, 0x4E00, 0x1F600, 90, 97]) for _ in range(rng.randrange(0, 5))]})
    return {"ops": ops}


def fonttext(rng, many=False):
    fonts = []
    for _ in range(rng.choice([1, 1, 2])):
        std = rng.choice([-1, -1, rng.choice([1, 4, 5, 8, 12])]) if not many else -1
        e = rng.choice(["", "", "win", "mac"]) if not many else ""
        fonts.append({"std": std, "name": "" if std >= 0 else rng.choice(["DejaVu Sans", "DejaVu Sans Mono", "DejaVu Serif"]), "enc": e,
                      "flags": rng.choice([0, 0, 2, 2] + [4, 6] * (not many) + [1, 3] * (std >= 0 and e != ""))})
    ops = [{"op": "start", "fonts": fonts}]
    def text(f):
        d = fonts[f]
        pool = list(range(32, 127))
        if many:
            pool = list(range(0x21, 0x7F)) + list(range(0xA1, 0x180)) + list(range(0x391, 0x3A2)) + list(range(0x410, 0x450))
        elif rng.random() < .5:
            pool = [ord(c) for c in "fifflAVé€ÄßŒ•–“ ffi" + ("ЖλŁĄ" if not d["enc"] else "") + ("ж漢😀" if rng.random() < .2 else "")]
        return [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 6, 12]) if not many else 100)]
    for _ in range(rng.randrange(1, 8) if not many else 8):
        f = rng.randrange(len(fonts))
        ops.append({"op": "write", "f": f, "cps": text(f), "must": True})
    ops.append({"op": "reload"})
    if rng.random() < .4:
        for _ in range(rng.randrange(1, 3)):
            f = rng.randrange(len(fonts))
            ops.append({"op": "write", "f": f, "cps": text(f), "must": False})
        ops.append({"op": "reload"})
    return {"ops": ops}


def readCMap(text):
    """the clauses of a CMap of a file, and whether its sections count them right"""
    import re
    toks = re.findall(rb"%[^\r\n]*|<<|>>|<[0-9A-Fa-f\s]*>|\[|\]|\((?:\\.|[^()\\])*\)|/[^\s<>\[\]()/%]*|[^\s<>\[\]()/%]+", text)
    toks = [t for t in toks if not t.startswith(b"%")]
    hexb = lambda t: list(bytes.fromhex(re.sub(rb"\s", b"", t[1:-1]).decode()))
    cps = lambda t: [ord(c) for c in bytes(hexb(t)).decode("utf-16-be", "surrogatepass")]
    cl, good, i = [], True, 0
    while i < len(toks):
        t = toks[i]
        if t in (b"begincodespacerange", b"beginbfchar", b"beginbfrange", b"begincidchar", b"begincidrange"):
            n, kind = int(toks[i - 1]), t[5:]
            i += 1
            k = 0
            while toks[i] != b"end" + kind:
                lo = hexb(toks[i])
                x = {"lo": lo}
                i += 1
                if kind != b"bfchar" and kind != b"cidchar":
                    x["hi"] = hexb(toks[i])
                    i += 1
                if kind == b"codespacerange":
                    x["k"] = "space"
                elif toks[i] == b"[":
                    x["k"], x["dsts"] = "array", []
                    i += 1
                    while toks[i] != b"]":
                        x["dsts"].append(cps(toks[i]))
                        i += 1
                    i += 1
                    if len(x["dsts"]) != int.from_bytes(bytes(x["hi"]), "big") - int.from_bytes(bytes(lo), "big") + 1:
                        good = False
                        x["dsts"] += [[0]] * 256
                else:
                    x["k"] = "range" if "hi" in x else "char"
                    x["dst"] = cps(toks[i]) if kind.startswith(b"bf") else [int(toks[i])]
                    i += 1
                cl.append(x)
                k += 1
            good = good and n == k
        i += 1
    return cl, good


def post(trace):
    for e in trace["ev"]:
        if e["op"] == "reload" and "fonts" in e.get("out", {}):
            for f in e["out"]["fonts"]:
                try:
                    a, x = readCMap(bytes.fromhex(f.pop("unitext")))
                    b, y = readCMap(bytes.fromhex(f.pop("cidtext")))
                except (IndexError, ValueError, KeyError):
                    a, b, x, y = [{"k": "space", "lo": [0], "hi": [0]}], [], False, False
                f["uni"], f["cid"], f["counts"] = a, b, x and y
    return trace
