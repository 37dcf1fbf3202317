"""metadata: information dictionaries, XMP packets of several shapes, histories of changes"""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

NS = {"dc": "http://purl.org/dc/elements/1.1/", "pdf": "http://ns.adobe.com/pdf/1.3/", "xmp": "http://ns.adobe.com/xap/1.0/",
      "pdfaid": "http://www.aiim.org/pdfa/ns/id/", "xe": "http://example.com/xe/", "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#"}
TEXTS = ["Title", "Author", "Subject", "Creator", "Producer"]
PROP = {"Title": "dc:title", "Author": "dc:creator", "Subject": "dc:description", "Keywords": "pdf:Keywords", "Creator": "xmp:CreatorTool",
        "Producer": "pdf:Producer", "CreationDate": "xmp:CreateDate", "ModDate": "xmp:ModifyDate"}
LEVELS = ["1B", "1A", "2B", "2A", "2U", "3B", "3A", "3U", "4E", "4F"]
NONE = [-1]


def text(rng):
    pool = rng.choice(["abc", "ab c", "a&b", "<x>", "&amp;", "a;b", "\"q\" 'r'", "éü", "žλ", "日本", "\U0001F600", "]]>", "a\tb", "&#65;", "%s", "a\nb", "\r\nx", "(a)\\", "- "])
    t = "".join(rng.choice([pool, rng.choice(["x", "y z", "&", "<", "1", "é", "€", "\u2022"])]) for _ in range(rng.choice([1, 1, 2, 3, 9])))
    t = t.strip()
    return t if t else "t"


def kwd(rng):
    return text(rng).replace("\r", "").replace("\n", "") or "k"


def datev(rng):
    return [rng.choice([0, 10957, 19782, 20000, rng.randint(-20000, 30000)]), rng.choice([0, 86399, rng.randrange(86400)]), rng.choice([9999, 0, 60, -300, 330])]


def two(n):
    return "%02d" % n


def pdfdate(rng):
    if rng.random() < .12:
        return rng.choice(["D:2020130100", "yesterday", "2020-01-01", "D:20200101000000+99", "D:2020x", "x"])
    z = rng.choice(["", "Z", "+01'00'", "-05'30'", "+02'00"])
    t = "%04d%02d%02d%02d%02d%02d" % (rng.choice([1999, 2004, 2020]), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
    return rng.choice(["D:", "D:", ""]) + t + z


def xmpdate(rng):
    if rng.random() < .12:
        return rng.choice(["yesterday", "2020-13-01", "2020/01/01", "D:20200101", "2020-01-01T10:00:00+1x"])
    t = "%04d-%02d-%02d" % (rng.choice([1999, 2004, 2020]), rng.randint(1, 12), rng.randint(1, 28))
    if rng.random() < .8:
        t += "T%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60)) + rng.choice(["", "Z", "+01:00", "-05:30"])
    return t


def quoted(rng, t):
    """the text as character data, in one of its spellings"""
    k = rng.random()
    if k < .15 and "]]>" not in t and "\r" not in t:
        return "<![CDATA[" + t + "]]>"
    r = escape(t).replace("\r", "&#13;")
    if k < .35:
        r = "".join(("&#x%X;" % ord(c)) if (ord(c) > 127 and rng.random() < .7) else c for c in r)
    if k > .9:
        r = "".join(("&#%d;" % ord(c)) if c.isalpha() and ord(c) < 128 and 0 else c for c in r)
    return r


def attr(t):
    return escape(t).replace('"', "&quot;").replace("\n", "&#10;").replace("\r", "&#13;").replace("\t", "&#9;")


def packet(rng):
    props = []
    for k, q in PROP.items():
        if rng.random() < .5:
            v = xmpdate(rng) if k.endswith("Date") else kwd(rng) if k == "Keywords" and rng.random() < .5 else text(rng)
            props.append((k, q, v))
    if rng.random() < .4:
        lv = rng.choice(LEVELS)
        props.append(("part", "pdfaid:part", lv[0]))
        props.append(("conf", "pdfaid:conformance", lv[1]))
        if lv[0] == "4":
            props.append(("rev", "pdfaid:rev", "2020"))
    if rng.random() < .5:
        props.append(("custom", "xe:Custom", text(rng)))
    rng.shuffle(props)
    nd = rng.choice([1, 1, 2, 3])
    descs = [[] for _ in range(nd)]
    for p in props:
        rng.choice(descs).append(p)
    nl = rng.choice(["\n", "", "\n  "])
    used = "".join(' xmlns:%s="%s"' % (p, NS[p]) for p in ("dc", "pdf", "xmp", "pdfaid", "xe"))
    onrdf = rng.random() < .3
    out = '<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>' + nl if rng.random() < .8 else ""
    out += '<x:xmpmeta xmlns:x="adobe:ns:meta/"%s>%s<rdf:RDF xmlns:rdf="%s"%s>%s' % (rng.choice(["", ' x:xmptk="kit"']), nl, NS["rdf"], used if onrdf else "", nl)
    for d in descs:
        atts, els = "", ""
        for k, q, v in d:
            if k in ("Title", "Subject"):
                alts = [('x-default', v)] + ([("de", text(rng))] if rng.random() < .3 else [])
                els += "<%s><rdf:Alt>%s</rdf:Alt></%s>" % (q, "".join('%s<rdf:li xml:lang="%s">%s</rdf:li>' % (nl, l, quoted(rng, x)) for l, x in alts), q) + nl
            elif k == "Author":
                els += "<%s>%s<rdf:Seq>%s</rdf:Seq></%s>" % (q, nl, "".join("<rdf:li>%s</rdf:li>" % quoted(rng, x) for x in [v] + ([text(rng)] if rng.random() < .2 else [])), q)
            elif rng.random() < .35:
                atts += '%s%s="%s"' % (rng.choice([" ", "\n   "]), q, attr(v))
            else:
                els += "<%s>%s</%s>" % (q, quoted(rng, v), q) + nl
            if rng.random() < .1:
                els += "<!-- c -->"
        head = '<rdf:Description rdf:about=""%s%s' % ("" if onrdf else used, atts)
        out += head + "/>" + nl if not els and rng.random() < .5 else head + ">" + nl + els + "</rdf:Description>" + nl
    out += "</rdf:RDF>%s</x:xmpmeta>" % nl
    if out.startswith("<?xp"):
        out += nl + '<?xpacket end="w"?>'
    return list(out.encode("utf-8"))


def badpacket(rng):
    return list(rng.choice([b"", b"not xml", b"<a/>", b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF", b"<?xml version='1.0'?>"]))


def cps(s):
    return [ord(c) for c in s]


def start(rng, over):
    info = {}
    for k in TEXTS + ["Keywords"]:
        if rng.random() < .45:
            info[k] = cps(text(rng))
    for k in ("CreationDate", "ModDate"):
        if rng.random() < .6:
            info[k] = cps(pdfdate(rng))
    if rng.random() < .3:
        info["Foo"] = cps(text(rng))
    if rng.random() < .3:
        info["Trapped"] = rng.choice(["True", "False", "Unknown"])
    has = rng.random() < .65
    op = {"op": "start", "info": info, "noinfo": int(rng.random() < .08), "hasxmp": int(has), "flate": int(rng.random() < .5), "over": int(over), "xml": []}
    if has:
        op["xml"] = badpacket(rng) if rng.random() < .08 else packet(rng)
    return op


def case(rng):
    ops = [start(rng, False)]
    vals = [cps(text(rng)) for _ in range(3)]
    dates = [datev(rng) for _ in range(2)]

    def val():
        return NONE if rng.random() < .25 else rng.choice(vals) if rng.random() < .6 else cps(text(rng))
    for _ in range(rng.randint(2, 14)):
        k = rng.random()
        sync = int(rng.random() < .4)
        if k < .25:
            ops.append({"op": "set", "f": rng.choice(TEXTS), "v": val(), "sync": sync})
        elif k < .35:
            ops.append({"op": "setdate", "f": rng.choice(["CreationDate", "ModDate"]), "v": NONE if rng.random() < .25 else rng.choice(dates + [datev(rng)]), "sync": sync})
        elif k < .41:
            ops.append({"op": "keywords", "list": [cps(kwd(rng)) for _ in range(rng.choice([0, 1, 2, 4]))], "sync": sync})
        elif k < .49:
            ops.append({"op": "level", "v": rng.choice(LEVELS + ["", ""]), "sync": sync})
        elif k < .53:
            ops.append({"op": "trapped", "v": rng.choice(["True", "False", "Unknown", "Other", ""])})
        elif k < .58:
            ops.append({"op": "ensure"})
        elif k < .66:
            ops.append({"op": "sync", "force": int(rng.random() < .5)})
        elif k < .69:
            ops.append({"op": "setxmp", "xml": badpacket(rng) if rng.random() < .15 else packet(rng)})
        elif k < .74:
            ops.append({"op": "take"})
        elif k < .90:
            ops.append({"op": "save", "nomod": int(rng.random() < .4), "update": int(rng.random() < .3), "over": int(rng.random() < .3)})
        else:
            ops.append(start(rng, rng.random() < .7))
        if rng.random() < .45:
            ops.append({"op": "get"})
        if rng.random() < .35:
            ops.append({"op": "peek"})
    ops += [{"op": "get"}, {"op": "peek"}, {"op": "save", "nomod": int(rng.random() < .5), "update": 0, "over": 0}, {"op": "peek"}, {"op": "get"}]
    return {"ops": ops}


# --- facts: an independent reader of packets --------------------------------
def q(name):
    p, n = name.split(":")
    return "{%s}%s" % (NS[p], n)


def facts(b):
    r = {"has": False, "f": {k: NONE for k in PROP}, "level": "", "rev": "", "custom": NONE}
    try:
        root = ET.fromstring(bytes(b).decode("utf-8"))
    except Exception:
        return r
    if root.tag != "{adobe:ns:meta/}xmpmeta":
        return r
    r["has"] = True
    rdf = root.find(q("rdf:RDF"))
    v = {}
    for d in [] if rdf is None else rdf.findall(q("rdf:Description")):
        for a, t in d.attrib.items():
            v.setdefault(a, []).append(t)
        for e in d:
            kids = list(e)
            if kids:
                lis = kids[0].findall(q("rdf:li"))
                v.setdefault(e.tag, []).append((lis[0].text or "") if lis else "")
            else:
                v.setdefault(e.tag, []).append(e.text or "")
    def one(name):
        x = v.get(q(name))
        # a property given twice is none of the two
        return NONE if x is None else cps(x[0]) if len(x) == 1 else [-2]
    for k, n in PROP.items():
        r["f"][k] = one(n)
    r["custom"] = one("xe:Custom")
    lv = "".join("".join(map(chr, x)) for x in (one("pdfaid:part"), one("pdfaid:conformance")) if x[0] >= 0)
    r["level"] = lv if lv in LEVELS else ("" if lv == "" else "?" + lv)
    rev = one("pdfaid:rev")
    r["rev"] = "" if rev == NONE else "".join(map(chr, rev)) if rev[0] >= 0 else "twice"
    return r


def post(t):
    for e in t["ev"]:
        if e["op"] in ("start", "setxmp"):
            e["x"] = facts(e.pop("xml"))
        if e["op"] in ("take", "peek") and "xml" in e["out"]:
            e["out"]["x"] = facts(e["out"].pop("xml"))
    return t
