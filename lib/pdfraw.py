"""Independent reader of the physical layout of a PDF file (no code of the library).

layout(bytes) -> facts as plain ints/strings, judged by spec/FileLayout.tla.
"""
import re, zlib

WS = b"\x00\t\n\x0c\r "
DELIM = b"()<>[]{}/%"


class Raw(Exception):
    pass


def skip_ws(b, i):
    while i < len(b):
        if b[i] in WS:
            i += 1
        elif b[i:i + 1] == b"%":
            while i < len(b) and b[i] not in b"\r\n":
                i += 1
        else:
            break
    return i


FOLD = [True]       # an unescaped end of line in a string is a line feed (7.3.4.2)
GAP = rb"(?:[ \t\r\n\f\0]|%[^\r\n]*[\r\n])+"
REF = re.compile(rb"(\d+)" + GAP + rb"(\d+)" + GAP + rb"R(?![A-Za-z0-9])")


def value(b, i):
    """Parse one value at i -> (value, next). dict/list/('ref',n,g)/('name',bytes)/('str',bytes)/num/bool/None"""
    i = skip_ws(b, i)
    if i >= len(b):
        raise Raw("eof")
    c = b[i:i + 1]
    if b[i:i + 2] == b"<<":
        d = {}
        i += 2
        while True:
            i = skip_ws(b, i)
            if b[i:i + 2] == b">>":
                return d, i + 2
            k, i = value(b, i)
            if not (isinstance(k, tuple) and k[0] == "name"):
                raise Raw("dict key at %d" % i)
            v, i = value(b, i)
            d[k[1].decode("latin-1")] = v
    if c == b"[":
        a = []
        i += 1
        while True:
            i = skip_ws(b, i)
            if b[i:i + 1] == b"]":
                return a, i + 1
            v, i = value(b, i)
            a.append(v)
    if c == b"/":
        j = i + 1
        while j < len(b) and b[j] not in WS and b[j] not in DELIM:
            j += 1
        n = re.sub(rb"#([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), b[i + 1:j])
        return ("name", n), j
    if c == b"(":
        depth, j, out = 1, i + 1, bytearray()
        while j < len(b):
            ch = b[j:j + 1]
            if ch == b"\\":
                e = b[j + 1:j + 2]
                m = re.match(rb"[0-7]{1,3}", b[j + 1:j + 4])
                if m:
                    out.append(int(m.group(0), 8) & 255)
                    j += 1 + len(m.group(0))
                    continue
                if e == b"\r" and b[j + 2:j + 3] == b"\n":
                    j += 3
                    continue
                if e in (b"\r", b"\n"):
                    j += 2
                    continue
                out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}.get(e, e)
                j += 2
                continue
            if ch == b"\r" and FOLD[0]:
                out += b"\n"
                j += 2 if b[j + 1:j + 2] == b"\n" else 1
                continue
            if ch == b"(":
                depth += 1
            if ch == b")":
                depth -= 1
                if depth == 0:
                    return ("str", bytes(out), False), j + 1
            out += ch
            j += 1
        raise Raw("string")
    if c == b"<":
        j = b.index(b">", i)
        h = re.sub(rb"[\s\0]", b"", b[i + 1:j])
        if len(h) % 2:
            h += b"0"
        return ("str", bytes.fromhex(h.decode("latin-1")), True), j + 1
    m = REF.match(b, i)
    if m:
        return ("ref", int(m.group(1)), int(m.group(2))), m.end()
    m = re.compile(rb"[-+]?\d*\.?\d*").match(b, i)
    if m and m.end() > i and re.search(rb"\d", m.group(0)):
        t = m.group(0)
        return (float(t) if b"." in t else int(t)), m.end()
    for kw, v in ((b"true", True), (b"false", False), (b"null", None)):
        if b.startswith(kw, i):
            return v, i + len(kw)
    raise Raw("token %r at %d" % (b[i:i + 12], i))


OBJ = re.compile(rb"(\d+)[ ](\d+)[ ]obj")


def scan_objects(b, start=0, stop=None):
    """Sequential scan of 'n g obj ... endobj' bodies, skipping stream data by /Length."""
    out = []
    i = start
    stop = len(b) if stop is None else stop
    while True:
        m = OBJ.search(b, i, stop)
        if not m:
            break
        n, g, off = int(m.group(1)), int(m.group(2)), m.start()
        rec = {"n": n, "g": g, "off": off}
        try:
            v, j = value(b, m.end())
        except (Raw, ValueError):
            rec["bad"] = 1
            out.append(rec)
            i = m.end()
            continue
        rec["v"] = v
        j = skip_ws(b, j)
        if b.startswith(b"stream", j):
            j += 6
            if b[j:j + 2] == b"\r\n":
                j += 2
            elif b[j:j + 1] == b"\n":
                j += 1
            else:
                rec["bad"] = 2
            ln = v.get("Length") if isinstance(v, dict) else None
            if isinstance(ln, int):
                rec["data"] = b[j:j + ln]
                j += ln
                j2 = skip_ws(b, j)
                if not b.startswith(b"endstream", j2):
                    rec["bad"] = 3
                    e = b.find(b"endstream", j)
                    j2 = e if e >= 0 else j
                j = skip_ws(b, j2 + 9)
            else:
                e = b.find(b"endstream", j)
                rec["data"] = b[j:e]
                j = skip_ws(b, e + 9)
        if not b.startswith(b"endobj", j):
            rec["bad"] = 4
        else:
            j += 6
        rec["end"] = j
        out.append(rec)
        i = j
    return out


def inflate_xref(d, data):
    import pdfimage
    return pdfimage.decode(d, data, lambda v: v)


def object_at(b, off, length):
    """the indirect object at off -> record like those of scan_objects; length(v) resolves /Length"""
    i = skip_ws(b, off)
    m = re.compile(rb"(\d+)[ \t\r\n\f\0]+(\d+)[ \t\r\n\f\0]+obj").match(b, i)
    if not m:
        raise Raw("no object at %d" % off)
    o = {"n": int(m.group(1)), "g": int(m.group(2)), "off": off}
    v, j = value(b, m.end())
    o["v"] = v
    j = skip_ws(b, j)
    if b.startswith(b"stream", j):
        j += 8 if b[j + 6:j + 8] == b"\r\n" else 7
        n = length(v["Length"])
        o["data"] = b[j:j + n]
        j = skip_ws(b, j + n)
        if not b.startswith(b"endstream", j):
            raise Raw("endstream of %d" % o["n"])
        j = skip_ws(b, j + 9)
    if not b.startswith(b"endobj", j):
        raise Raw("endobj of %d" % o["n"])
    return o


def section(b, off):
    if b.startswith(b"xref", off):
        i = skip_ws(b, off + 4)
        ent, subs = [], []
        while True:
            m = re.compile(rb"(\d+) (\d+)[ ]*[\r\n]+").match(b, i)
            if not m:
                break
            first, cnt = int(m.group(1)), int(m.group(2))
            subs.append([first, cnt])
            i = m.end()
            for k in range(cnt):
                e = b[i:i + 20]
                m2 = re.match(rb"(\d{10}) (\d{5}) ([fn])( \n| \r|\r\n)$", e)
                if not m2:
                    raise Raw("xref entry %r" % e)
                ent.append([first + k, 1 if m2.group(3) == b"n" else 0, int(m2.group(1)), int(m2.group(2))])
                i += 20
        if not b.startswith(b"trailer", i):
            raise Raw("trailer")
        d, _ = value(b, i + 7)
        return {"kind": "table", "off": off, "subs": subs, "ent": ent, "d": d}
    m = OBJ.match(b, off)
    if not m:
        raise Raw("no section at %d" % off)
    o = scan_objects(b, off, None)[0]
    d = o["v"]
    if d.get("Type") != ("name", b"XRef"):
        raise Raw("not an xref stream")
    data = inflate_xref(d, o["data"])
    w = d["W"]
    idx = d.get("Index", [0, d["Size"]])
    ent, subs, p, tot = [], [], 0, sum(w)
    for k in range(0, len(idx), 2):
        subs.append([idx[k], idx[k + 1]])
        for n in range(idx[k], idx[k] + idx[k + 1]):
            row = data[p:p + tot]
            if len(row) < tot:
                raise Raw("short xref stream")
            p += tot
            f1 = int.from_bytes(row[:w[0]], "big") if w[0] else 1
            f2 = int.from_bytes(row[w[0]:w[0] + w[1]], "big")
            f3 = int.from_bytes(row[w[0] + w[1]:], "big")
            ent.append([n, f1, f2, f3])
    if p != len(data):
        raise Raw("xref stream length")
    return {"kind": "stream", "off": off, "subs": subs, "ent": ent, "d": d, "self": [o["n"], o["g"]]}


def sections(b, off):
    """all sections, newest first; the stream of a hybrid section follows its table"""
    secs, seen = [], set()
    while off is not None:
        if off in seen:
            raise Raw("Prev loop")
        seen.add(off)
        s = section(b, off)
        secs.append(s)
        x = s["d"].get("XRefStm")
        if x is not None:
            secs.append(section(b, x))
        off = s["d"].get("Prev")
        if off is not None and not isinstance(off, int):
            raise Raw("Prev")
    return secs


def facts(b, base=0):
    """Layout facts as JSON-able structure for TLA+; 'err' non-empty when unreadable."""
    try:
        m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", b)
        if not m:
            raise Raw("startxref")
        secs = sections(b, int(m.group(1)))
        objs = scan_objects(b, base)
        d0 = secs[0]["d"]
        def ref(v):
            return "%d %d" % (v[1], v[2]) if isinstance(v, tuple) and v[0] == "ref" else "none"
        merged = {}
        for sc in secs:
            for x in sc["ent"]:
                merged.setdefault(x[0], x)
        encs = set()
        for sc in secs:      # encryption dictionaries not overwritten by later revisions
            v = sc["d"].get("Encrypt")
            if isinstance(v, tuple):
                mine = [x for x in sc["ent"] if x[0] == v[1]]
                if not mine or mine[0] == merged.get(v[1]):
                    encs.add(ref(v))
        encs = sorted(encs)
        # an object of the same number that took its place is no part of the structure
        gone = lambda n, off: n not in merged or (merged[n][1] == 2 or merged[n][1] == 1 and merged[n][2] != off)
        infra = ["%d %d" % (s["self"][0], s["self"][1]) for s in secs if "self" in s and not gone(s["self"][0], s["off"])]
        # every XRef stream or Encrypt dictionary physically present
        for o in objs:
            if isinstance(o.get("v"), dict) and o["v"].get("Type") in (("name", b"XRef"), ("name", b"ObjStm")) and not gone(o["n"], o["off"]):
                infra.append("%d %d" % (o["n"], o["g"]))
        infra += encs
        eofs, at = [], base
        for o in objs + [{"off": len(b)}]:
            eofs += re.findall(rb"%%EOF\s*", b[at:o["off"]])
            at = o.get("end", o["off"])
        return {"err": "", "header": b[:5].decode("latin-1"),
                "secs": [{"kind": s["kind"], "off": s["off"], "subs": s["subs"], "ent": s["ent"],
                          "size": s["d"].get("Size", -1), "root": ref(s["d"].get("Root")),
                          "info": ref(s["d"].get("Info")),
                          "prev": s["d"].get("Prev", -1),
                          "nid": len(s["d"].get("ID", [])),
                          "id": [x[1].hex() for x in s["d"].get("ID", [])],
                          "enc": ref(s["d"].get("Encrypt"))} for s in secs],
                "objs": [[o["n"], o["g"], o["off"], o.get("bad", 0)] for o in objs],
                "infra": sorted(set(infra)), "encs": encs, "len": len(b), "eofs": len(eofs)}
    except (Raw, ValueError, KeyError, IndexError, TypeError, AttributeError, zlib.error) as e:
        return {"err": "%s: %s" % (type(e).__name__, e), "header": "", "secs": [], "objs": [], "infra": [], "encs": [], "len": len(b), "eofs": 0}
