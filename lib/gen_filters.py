"""Data for the stream filters: random encoders (every choice the format leaves open is random)."""
import zlib

WS = b"\0\t\n\x0c\r "


def data(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 33, 64, 130, 200]) if n is None else n
    k = rng.randrange(5)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(rng.choice(b"ab") for _ in range(n))
    if k == 2:
        return bytes(rng.choice([0, 0, 0, 255, 128]) for _ in range(n))
    if k == 3:
        out = bytearray()
        while len(out) < n:
            out += bytes([rng.randrange(256)]) * rng.choice([1, 1, 2, 5, 130, 200])
        return bytes(out[:n])
    return bytes(128 + (i * 37) % 128 for i in range(n))


def ws(rng, s, p=.05):
    o = bytearray()
    for c in s:
        o.append(c)
        if rng.random() < p:
            o.append(rng.choice(WS))
    return bytes(o)


def e_hex(rng, d):
    s = d.hex()
    if rng.random() < .3 and s.endswith("0"):
        s = s[:-1]
    s = "".join(c.upper() if rng.random() < .5 else c for c in s).encode()
    s = ws(rng, s)
    if rng.random() < .7:
        s += b">" + (rng.choice([b"", b"\n", b"abc", b">41"]))
    return s


def e_a85(rng, d):
    o = bytearray()
    for i in range(0, len(d), 4):
        g = d[i:i + 4]
        if g == b"\0\0\0\0" and rng.random() < .7:
            o += b"z"
            continue
        x = int.from_bytes(g.ljust(4, b"\0"), "big")
        t = []
        for _ in range(5):
            t.append(33 + x % 85)
            x //= 85
        o += bytes(t[::-1][:len(g) + 1])
    o = ws(rng, bytes(o))
    if rng.random() < .7:
        o += b"~>" + rng.choice([b"", b"\n", b"abc", b"xxxxx"])
    return o


def e_rle(rng, d):
    o = bytearray()
    i = 0
    while i < len(d):
        r = 1
        while i + r < len(d) and d[i + r] == d[i] and r < 128:
            r += 1
        if r > 1 and rng.random() < .8:
            o += bytes([257 - r, d[i]])
            i += r
        else:
            n = min(len(d) - i, rng.choice([1, 2, 3, 10, 128]))
            o += bytes([n - 1]) + d[i:i + n]
            i += n
    if rng.random() < .8:
        o += b"\x80" + rng.choice([b"", b"\x01", b"\xff\x00"])
    return bytes(o)


def e_lzw(rng, d, early=1):
    bits = []

    def put(c, w):
        for k in range(w - 1, -1, -1):
            bits.append((c >> k) & 1)
    def width(n):
        # the decoder is one entry behind the encoder (n: first free code of the encoder)
        n -= 1
        return 12 if n + early >= 2048 else 11 if n + early >= 1024 else 10 if n + early >= 512 else 9
    table = {bytes([i]): i for i in range(256)}
    n = 258
    put(256, 9)
    w = b""
    # n: entries of the encoder; it adds one after each code but the first after a clear
    for c in d:
        wc = w + bytes([c])
        if wc in table and not (w and rng.random() < .02):
            w = wc
            continue
        put(table[w], width(n))
        table[wc] = n
        n += 1
        if n >= 4094 or rng.random() < .004:
            put(256, width(n))
            table = {bytes([i]): i for i in range(256)}
            n = 258
        w = bytes([c])
    if w:
        put(table[w], width(n))
        n += 1
    put(257, width(n))
    while len(bits) % 8:
        bits.append(0)
    return bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


def parms(rng, lzw):
    """-> (q for the specification incl. what is spelled out) or None"""
    q = {"pred": 1, "colors": 1, "bpc": 8, "cols": 1, "early": 1}
    given = []
    if rng.random() < .75:
        q["pred"] = rng.choice([2, 10, 11, 12, 13, 14, 15, 12, 15])
        given.append("pred")
        if rng.random() < .9:
            q["cols"] = rng.choice([1, 2, 3, 4, 5, 8, 16])
            given.append("cols")
        if rng.random() < .5:
            q["colors"] = rng.choice([1, 2, 3, 4])
            given.append("colors")
        if rng.random() < .5 and q["pred"] != 2:
            q["bpc"] = rng.choice([1, 2, 4, 8, 16])
            given.append("bpc")
    if lzw and rng.random() < .5:
        q["early"] = rng.randrange(2)
        given.append("early")
    q["given"] = given
    return q


def predict(rng, q, rows):
    """random encoded rows: any tag bytes and any residues are a legal encoding of something"""
    row = (q["cols"] * q["colors"] * q["bpc"] + 7) // 8
    out = bytearray()
    for _ in range(rows):
        if q["pred"] >= 10:
            out.append(rng.randrange(5))
        out += data(rng, row)[:row].ljust(row, b"\x7f")
    return bytes(out)


def deflate(rng, d):
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]))
    return c.compress(d) + c.flush()


def one(rng, payload, f):
    """wraps payload in filter f; returns (encoded, stage)"""
    q = {"pred": 1, "colors": 1, "bpc": 8, "cols": 1, "early": 1}
    if f in ("lzw", "flate") and rng.random() < .6 and payload is None:
        q = parms(rng, f == "lzw")
    if payload is None:
        payload = predict(rng, q, rng.choice([0, 1, 2, 3, 6])) if q["pred"] > 1 else data(rng, rng.choice([0, 1, 5, 40, 300, 700]) if f == "lzw" else None)
    elif f == "lzw" and rng.random() < .3:
        q = dict(q, early=rng.randrange(2), given=["early"])
    st = {"f": f, "q": q, "infl": []}
    if f == "flate":
        st["infl"] = list(payload)
        return deflate(rng, payload), st
    if f == "lzw":
        return e_lzw(rng, payload, q["early"]), st
    return {"hex": e_hex, "a85": e_a85, "rle": e_rle}[f](rng, payload), st


def cuts(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [1] * min(n, 2000)
    if k == 1:
        return [rng.randrange(0, 8) for _ in range(n // 3 + 1)]
    if k == 2:
        return [rng.randrange(0, max(1, n + 1))]
    return []


def dec_case(rng, big=False):
    ops = []
    for _ in range(1 if big else rng.choice([3, 6])):
        f = rng.choice(["hex", "a85", "rle", "lzw", "lzw", "flate", "flate"])
        if rng.random() < .5:
            b, st = one(rng, None, f)
            fs = [st]
            mode = rng.choice(["whole", "cut", "cut", "stream"])
        else:
            b, st = one(rng, None, f)
            fs = [st]
            for _ in range(rng.choice([0, 1, 1, 2])):
                b, st = one(rng, b, rng.choice(["hex", "a85", "rle", "flate", "lzw"]) if len(b) < 300 else "flate")
                fs.insert(0, st)
            mode = "stream"
        if len(b) > 3000 and not big:
            continue
        op = {"op": "dec", "fs": fs, "b": list(b), "mode": mode}
        if mode == "cut":
            op["cuts"] = cuts(rng, len(b))
        if mode == "stream":
            op["chunk"] = rng.choice([0, 1, 3, 7, 64])
            op["indirect"] = int(rng.random() < .3)
        ops.append(op)
    return {"ops": ops or [{"op": "dec", "fs": [{"f": "hex", "q": {}, "infl": []}], "b": [], "mode": "whole"}]}


def big_case(rng):
    """codes of every width"""
    early = rng.randrange(2)
    d = data(rng, rng.choice([900, 2100]))
    k = rng.random()
    if k < .6:
        d = bytes(rng.randrange(256) for _ in range(len(d)))
    b = e_lzw(rng, d, early)
    q = {"pred": 1, "colors": 1, "bpc": 8, "cols": 1, "early": early, "given": ["early"]}
    mode = rng.choice(["whole", "cut", "stream"])
    op = {"op": "dec", "fs": [{"f": "lzw", "q": q, "infl": []}], "b": list(b), "mode": mode, "chunk": rng.choice([0, 100, 1000])}
    if mode == "cut":
        op["cuts"] = [rng.randrange(1, 400) for _ in range(20)]
    return {"ops": [op]}


def enc_case(rng):
    ops = []
    for _ in range(rng.choice([3, 6])):
        f = rng.choice(["hex", "a85", "a85", "flate", "flate", "rle", "lzw"])
        d = data(rng)
        op = {"op": "enc", "f": f, "b": list(d)}
        if rng.random() < .6:
            op["cuts"] = cuts(rng, len(d))
        ops.append(op)
    return {"ops": ops}


def post(t):
    for e in t["ev"]:
        if e.get("op") == "enc":
            e["infl"] = [-1]
            if e.get("f") == "flate" and not e.get("err") and "out" in e:
                try:
                    dc = zlib.decompressobj()
                    e["infl"] = list(dc.decompress(bytes(e["out"])))
                    if not dc.eof or dc.unused_data:
                        e["infl"] = [-1]
                except zlib.error:
                    pass
    return t
