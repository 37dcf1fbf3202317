"""Independent reader of what a file means: the newest revision of every object, deciphered and
decoded, in the value universe of the specifications (driver/common_pdf.cpp spells the same)."""
import re, zlib, base64
import pdfraw, pdfcrypt
from pdfraw import Raw


def blob(b):
    if len(b) <= 48:
        return b.hex()
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return "#%d:%016x" % (len(b), h)


def conv(v, dec):
    if v is None:
        return {"s": "null"}
    if v is True or v is False:
        return {"s": "true" if v else "false"}
    if isinstance(v, int):
        return {"s": str(v)}
    if isinstance(v, float):
        s = "f%.6f" % v
        return {"s": "f0.000000" if s == "f-0.000000" else s}
    if isinstance(v, list):
        return {"a": [conv(x, dec) for x in v]}
    if isinstance(v, dict):
        return {"d": {k: conv(x, dec) for k, x in v.items()}}
    if v[0] == "name":
        return {"s": "/" + v[1].hex()}
    if v[0] == "ref":
        return {"r": "%d %d" % (v[1], v[2])}
    return {"s": ("<" if v[2] else "(") + dec(v[1]).hex()}


def decode(d, data, look):
    f = look(d.get("Filter"))
    f = [] if f is None else [look(x) for x in f] if isinstance(f, list) else [f]
    p = look(d.get("DecodeParms"))
    p = [look(x) for x in p] if isinstance(p, list) else [p]
    for i, x in enumerate(f):
        n = x[1]
        parm = p[i] if i < len(p) and isinstance(p[i], dict) else {}
        if n == b"FlateDecode":
            data = zlib.decompressobj().decompress(data)
            data = unpredict(data, parm)
        elif n == b"ASCIIHexDecode":
            h = re.sub(rb"[\s\0]", b"", data.split(b">")[0])
            data = bytes.fromhex((h + b"0" * (len(h) % 2)).decode())
        elif n == b"ASCII85Decode":
            data = base64.a85decode(re.sub(rb"[\s\0]", b"", data.split(b"~>")[0]))
        elif n == b"RunLengthDecode":
            out, k = bytearray(), 0
            while k < len(data) and data[k] != 128:
                c = data[k]
                if c < 128:
                    out += data[k + 1:k + 2 + c]
                    k += 2 + c
                else:
                    out += data[k + 1:k + 2] * (257 - c)
                    k += 2
            data = bytes(out)
        else:
            raise Raw("filter %r" % n)
    return data


def unpredict(data, parm):
    pr = parm.get("Predictor", 1)
    if pr < 10:
        if pr != 1:
            raise Raw("predictor")
        return data
    bpp = max(1, parm.get("Colors", 1) * parm.get("BitsPerComponent", 8) // 8)
    row = (parm.get("Columns", 1) * parm.get("Colors", 1) * parm.get("BitsPerComponent", 8) + 7) // 8
    out, prev = bytearray(), bytearray(row)
    for r in range(0, len(data), row + 1):
        t, cur = data[r], bytearray(data[r + 1:r + 1 + row])
        for k in range(len(cur)):
            a = cur[k - bpp] if k >= bpp else 0
            b = prev[k]
            c = prev[k - bpp] if k >= bpp else 0
            if t == 1:
                x = a
            elif t == 2:
                x = b
            elif t == 3:
                x = (a + b) // 2
            elif t == 4:
                q = a + b - c
                x = min((abs(q - a), 0, a), (abs(q - b), 1, b), (abs(q - c), 2, c))[2]
            else:
                x = 0
            cur[k] = (cur[k] + x) & 255
        out += cur
        prev = cur + bytearray(row - len(cur))
    return bytes(out)


def bodies(b):
    """{(n, offset): record} of every indirect object scanned from the bytes"""
    return {(o["n"], o["off"]): o for o in pdfraw.scan_objects(b)}


def read(b, pws=(), foreign=False):
    """-> {"err", "objs", "root", "enc", "auth": [role per password], "alg", "perm"}"""
    try:
        m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", b)
        if not m:
            raise Raw("startxref")
        secs = pdfraw.sections(b, int(m.group(1)))
        ent, top = {}, secs[0]["d"]
        for s in secs:
            for e in s["ent"]:
                ent.setdefault(e[0], e)
        recs = {} if foreign else bodies(b)
        raw, busy = {}, set()

        def get(n):
            if n in raw or n not in ent:
                return raw.get(n)
            e = ent[n]
            if e[1] == 1:
                if foreign:
                    if n in busy:
                        raise Raw("loop at %d" % n)
                    busy.add(n)
                    o = pdfraw.object_at(b, e[2], lambda v: v if isinstance(v, int) else get(v[1])["v"])
                else:
                    o = recs.get((n, e[2]))
                if o is None or o.get("bad") or o["g"] != e[3] or o["n"] != n:
                    raise Raw("object %d" % n)
                raw[n] = o
            elif e[1] == 2:
                raw[n] = {"n": n, "g": 0, "in": e[2], "i": e[3]}
            return raw.get(n)
        for n in ent:
            get(n)

        def look(v):
            if isinstance(v, tuple) and v[0] == "ref":
                o = raw.get(v[1])
                return o["v"] if o else None
            return v
        encv = top.get("Encrypt")
        encref = encv[1] if isinstance(encv, tuple) else None
        res = {"err": "", "enc": encv is not None, "alg": "none", "perm": 0, "auth": [], "permsok": True}
        imgs = []
        keys = [None]
        sec = None
        if encv is not None:
            sec = pdfcrypt.parse(look(encv))
            res["alg"], res["perm"], keys = pdfcrypt.name_of(sec), sec.P & 0xffffffff, []
            for pw in pws:
                a = sec.auth(pw, top["ID"][0][1]) if pw is not None else None
                res["auth"].append(a[0] if a else "no")
                if a:
                    res["permsok"] = res["permsok"] and sec.perms_ok(a[1])
                    if a[1] not in keys:
                        keys.append(a[1])
            if len(keys) != 1:
                raise Raw("%d keys" % len(keys))
        key = keys[0]
        objs = {}
        plain = {}
        def inside(o):
            """value of an object in an object stream"""
            t = raw[o["in"]]
            if o["in"] not in plain:
                x = t["data"] if sec is None else sec.decrypt(key, t["n"], t["g"], t["data"])
                plain[o["in"]] = decode(t["v"], x, look)
            x = plain[o["in"]]
            i, v = 0, []
            for _ in range(2 * (o["i"] + 1)):
                y, i = pdfraw.value(x, i) if not re.match(rb"\s*\d+\s+\d+\s+R", x[i:i + 40]) else (None, i)
                v.append(y)
            if v[2 * o["i"]] != o["n"]:
                raise Raw("object stream %d" % o["in"])
            return pdfraw.value(x, t["v"]["First"] + v[2 * o["i"] + 1])[0]
        for n, o in raw.items():
            if "in" in o:
                o["v"] = inside(o)
        for n, o in raw.items():
            if "in" in o:
                objs["%d 0" % n] = conv(o["v"], lambda x: x)
                continue
            if n == encref or isinstance(o["v"], dict) and o["v"].get("Type") == ("name", b"XRef"):
                continue
            dec = (lambda x: x) if sec is None else (lambda x, n=n, g=o["g"]: sec.decrypt(key, n, g, x) if x else x)
            v = conv(o["v"], dec)
            if "data" in o:
                x = decode(o["v"], dec(o["data"]), look)
                v = {"d": {k: y for k, y in v["d"].items() if k not in ("Length", "Filter", "DecodeParms")}, "x": blob(x)}
            objs["%d %d" % (n, o["g"])] = v
        res["objs"] = objs
        res["root"] = {k: conv(top[k], lambda x: x) if k in top else {"s": "none"} for k in ("Root", "Info")}
        return res
    except (Raw, ValueError, KeyError, IndexError, TypeError, AttributeError, zlib.error) as e:
        return {"err": "%s: %s" % (type(e).__name__, e), "enc": False, "alg": "none", "perm": 0, "auth": [], "objs": {}, "root": {}, "permsok": True}
