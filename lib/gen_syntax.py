"""Random PDF objects, spelled in every way the syntax allows."""
WS = b"\0\t\n\x0c\r "


def num_int(rng):
    k = rng.random()
    n = rng.choice([0, 1, 7, 12, 255, 65535, 2147483647, 4294967296, 9223372036854775807]) if k < .5 else rng.randrange(0, 10 ** rng.randrange(1, 10))
    return -n if rng.random() < .3 else n


def value(rng, depth=3, refs=True):
    k = rng.random()
    if depth > 0 and k < .16:
        return {"t": "arr", "a": [value(rng, depth - 1, refs) for _ in range(rng.choice([0, 1, 2, 3, 5, 11]))]}
    if depth > 0 and k < .32:
        d, seen = [], set()
        for _ in range(rng.choice([0, 1, 2, 4])):
            n = name(rng)
            if tuple(n) not in seen:
                seen.add(tuple(n))
                d.append([n, value(rng, depth - 1, refs)])
        return {"t": "dict", "d": d}
    k = rng.random()
    if k < .2:
        return {"t": "int", "v": list(str(num_int(rng)).encode())}
    if k < .35:
        s = "%s%d.%06d" % (rng.choice(["", "", "-"]), rng.choice([0, 0, 1, 12, 595, 100000]), rng.choice([0, 500000, 1, 999999, 250000, rng.randrange(10 ** 6)]))
        if set(s) <= set("-0."):
            s = s.replace("-", "")
        return {"t": "real", "v": list(s.encode())}
    if k < .5:
        return {"t": "name", "n": name(rng)}
    if k < .8:
        return {"t": "str", "s": string(rng), "hex": rng.random() < .35}
    if k < .88 and refs:
        return {"t": "ref", "r": [list(str(rng.choice([1, 2, 10, 77, 8388607])).encode()), list(str(rng.choice([0, 0, 0, 1, 65535])).encode())]}
    return {"t": rng.choice(["null", "true", "false"])}


def name(rng):
    n = rng.choice([0, 1, 1, 2, 3, 6, 12])
    al = rng.choice([list(range(65, 91)), list(range(97, 123)), list(range(1, 256)), [35, 40, 41, 60, 62, 47, 37, 91, 93, 123, 125, 32, 48, 65, 126, 127, 128, 255]])
    r = [rng.choice(al) for _ in range(n)]
    if rng.random() < .1:
        r = list(rng.choice([b"Type", b"Contents", b"Length", b"Filter", b"R", b"obj", b"true"]))
    return r


def string(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 20])
    al = rng.choice([list(range(97, 123)), list(range(256)), [10, 13, 40, 41, 92, 9, 8, 12, 110, 48, 49, 55, 56, 0, 255], [40, 41, 92, 65], [48, 49, 50, 51, 92, 7, 1, 10, 13]])
    return [rng.choice(al) for _ in range(n)]


def spell_str(rng, s):
    """a literal string in one of its many spellings"""
    out = bytearray(b"(")
    # which parentheses may stay unescaped: balanced ones
    keep, st = set(), []
    for i, c in enumerate(s):
        if c == 40:
            st.append(i)
        elif c == 41 and st:
            j = st.pop()
            if rng.random() < .6:
                keep |= {i, j}
    # a kept pair is only balanced if everything inside is: escaped ones do not count
    i = 0
    while i < len(s):
        c = s[i]
        nxt = s[i + 1] if i + 1 < len(s) else -1
        if rng.random() < .06:
            out += rng.choice([b"\\\n", b"\\\r\n"] + ([b"\\\r"] if c != 10 else []))
            if out.endswith(b"\\\r") and False:
                pass
        octs = []
        if nxt not in range(48, 56):
            octs += [b"\\%o" % c]
            if c < 64:
                octs += [b"\\%02o" % c]
        octs += [b"\\%03o" % c]
        esc = {10: b"\\n", 13: b"\\r", 9: b"\\t", 8: b"\\b", 12: b"\\f", 40: b"\\(", 41: b"\\)", 92: b"\\\\"}.get(c)
        k = rng.random()
        if k < .15 and i not in keep:
            out += rng.choice(octs)
        elif c in (40, 41):
            out += bytes([c]) if i in keep else esc
        elif c == 92:
            out += esc
        elif c == 10:
            o = [b"\\n", b"\n"] + ([b"\r\n"] if True else [])
            if nxt != 10:
                o.append(b"\r")
            x = rng.choice(o)
            # a raw LF after a raw or line-continuing CR would merge with it
            if out.endswith(b"\r") and x[:1] == b"\n":
                x = b"\\n"
            out += x
        elif c == 13:
            out += esc
        elif esc and rng.random() < .5:
            out += esc
        elif k < .2 and c > 32 and chr(c) not in "nrtbf()\\01234567" and c < 127:
            out += b"\\" + bytes([c])
        else:
            out += bytes([c])
        if out.endswith(b"\r") and nxt == 10:
            pass
        i += 1
    # a raw CR followed by a raw LF was avoided above for values; guard the general case
    return bytes(out + b")")


def spell(rng, v):
    """-> list of tokens (bytes)"""
    t = v["t"]
    if t in ("null", "true", "false"):
        return [t.encode()]
    if t == "int":
        b = bytes(v["v"])
        neg = b.startswith(b"-")
        d = b.lstrip(b"-")
        if rng.random() < .15 and len(d) < 15:
            d = b"0" * rng.randrange(1, 4) + d
        return [(b"-" if neg else b"+" if rng.random() < .1 else b"") + d]
    if t == "real":
        b = bytes(v["v"])
        neg = b.startswith(b"-")
        ip, fp = b.lstrip(b"-").split(b".")
        if rng.random() < .7:
            fp = fp.rstrip(b"0")
        if ip == b"0" and fp and rng.random() < .5:
            ip = b""
        if rng.random() < .1:
            ip = b"00" + ip
        return [(b"-" if neg else b"+" if rng.random() < .1 else b"") + ip + b"." + fp]
    if t == "name":
        o = b"/"
        for c in v["n"]:
            if 33 <= c <= 126 and chr(c) not in "()<>[]{}/%#" and rng.random() < .9 or (c > 126 and rng.random() < .4):
                o += bytes([c])
            else:
                o += (b"#%02x" if rng.random() < .5 else b"#%02X") % c
        return [o]
    if t == "str":
        if v["hex"]:
            h = bytes(v["s"]).hex()
            if rng.random() < .3 and h.endswith("0"):
                h = h[:-1]
            h = "".join((c.upper() if rng.random() < .5 else c) + (rng.choice([" ", "\n", "\t", "\r\n"]) if rng.random() < .08 else "") for c in h)
            return [b"<" + h.encode() + b">"]
        return [spell_str(rng, v["s"])]
    if t == "ref":
        return [bytes(v["r"][0]), bytes(v["r"][1]), b"R"]
    if t == "arr":
        r = [b"["]
        for x in v["a"]:
            r += spell(rng, x)
        return r + [b"]"]
    if t == "dict":
        r = [b"<<"]
        for k, x in v["d"]:
            r += spell(rng, {"t": "name", "n": k}) + spell(rng, x)
        return r + [b">>"]
    if t == "kw":
        return [bytes(v["k"])]
    raise ValueError(t)


def sep(rng, need, style):
    s = b""
    if style == 0:
        return b" " if need else b""
    if need or rng.random() < .4:
        s = bytes([rng.choice(WS)])
        while rng.random() < .25:
            s += bytes([rng.choice(WS)])
    if rng.random() < (.1 if style == 2 else 0):
        s += b"%" + rng.choice([b"", b" comment", b"(not a string", b">> 1 0 R", b"%%", b"<"]) + rng.choice([b"\n", b"\r", b"\r\n"])
    return s


DELIM = b"()<>[]{}/%"


def join(rng, toks, style=None):
    style = rng.randrange(3) if style is None else style
    out = b""
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            need = p[-1] not in DELIM and t[0] not in DELIM
            if p[:1] == b"/" and t[0] not in DELIM:
                need = True
            # "<" "<<" etc. are delimited tokens; "/" (empty name) needs nothing before a delimiter
            out += sep(rng, need, style)
        out += t
    return out


KW = [b"q", b"Q", b"cm", b"BT", b"T*", b"'", b"\"", b"d0", b"foo", b"endobj", b"obj", b"R", b"f*", b"stream", b"trueish", b"nul", b"1a", b"-", b"a.b", b"--1x"]


def read_case(rng):
    refs = rng.random() < .6
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        toks = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            if rng.random() < .12:
                toks += [rng.choice(KW)]
            else:
                toks += spell(rng, value(rng, rng.choice([0, 1, 2, 3]), refs))
        b = join(rng, toks)
        if rng.random() < .5:
            b += sep(rng, False, 2)
        if rng.random() < .3:
            b = sep(rng, False, 2) + b
        if len(b) < 700:
            ops.append({"op": "read", "b": list(b), "refs": refs})
    return {"ops": ops or [{"op": "read", "b": [32], "refs": True}]}


def noise_case(rng):
    """strings of significant characters: whatever is well-formed must be read as the syntax says"""
    al = rng.choice([b"01.+-R \n/a#", b"()\\01n\r\n8a", b"<>aF0[] /", b"[]<</A>>()1 R\n%", b"/#41 A[<>", b"truefalsn ulR0 1"])
    ops = []
    for _ in range(12):
        ops.append({"op": "read", "b": [rng.choice(al) for _ in range(rng.randrange(1, 14))], "refs": rng.random() < .5})
    return {"ops": ops}


def write_case(rng):
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        v = value(rng, rng.choice([0, 1, 2, 3, 4]), True)
        f = rng.choice(["", "c", "o", "oc", "s"])
        ops.append({"op": "write", "v": v, "f": f})
    return {"ops": ops}
