"""Random text: PDFDocEncoding, beyond it, beyond the basic plane, marks of encodings."""
DOC = list(range(0, 24)) + [0x02D8, 0x02C7, 0x02C6, 0x02D9, 0x02DD, 0x02DB, 0x02DA, 0x02DC] + list(range(32, 127)) + \
    [0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x0192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122,
     0xFB01, 0xFB02, 0x0141, 0x0152, 0x0160, 0x0178, 0x017D, 0x0131, 0x0142, 0x0153, 0x0161, 0x017E, 0x20AC] + [c for c in range(161, 256) if c != 173]
EDGE = [0x18, 0x1F, 0x7F, 0x80, 0x9F, 0xA0, 0xAD, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0x10000, 0x10FFFF, 0x1F600, 0x419, 0x4E2D, 0x0A0D, 0x2829, 0x5C5C]
SPEC = [0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 10, 13, 40, 41, 92, 0]


def text(rng, zero=True):
    al = rng.choice([DOC, EDGE, SPEC, DOC + EDGE, list(range(97, 123)), list(range(0x390, 0x3F0)) + [32], [0x1F600 + i for i in range(64)]])
    t = [rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12, 40]))]
    if rng.random() < .12:
        t = rng.choice([[0xFE, 0xFF], [0xFF, 0xFE], [0xEF, 0xBB, 0xBF], [0xFEFF]]) + t
    return [c for c in t if zero or c]


def u8(t):
    return "".join(map(chr, t)).encode("utf8", "surrogatepass")


def raw(rng):
    k = rng.random()
    t = text(rng)
    s = "".join(map(chr, t))
    if k < .25:
        b = b"\xfe\xff" + s.encode("utf-16-be")
    elif k < .35:
        b = b"\xff\xfe" + s.encode("utf-16-le")
    elif k < .5:
        b = b"\xef\xbb\xbf" + s.encode("utf8")
    elif k < .6:
        b = rng.choice([b"\xfe\xff", b"\xff\xfe", b"\xef\xbb\xbf", b"\xef\xbb", b"\xfe"]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 4, 7])))
    else:
        b = bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), rng.choice(range(128, 161)), rng.choice(range(24, 32))]) for _ in range(rng.choice([0, 1, 2, 8, 30])))
    return list(b)


def case(rng):
    ops = []
    for _ in range(rng.choice([4, 8])):
        k = rng.random()
        if k < .3:
            t = text(rng)
            cs = rng.random() < .3 and 0 not in t
            ops.append({"op": "mk", "cp": t, "cstr": cs})
        elif k < .55:
            ops.append({"op": "raw", "b": raw(rng), "hex": rng.random() < .4})
        elif k < .7:
            ops.append({"op": "name", "cp": text(rng)})
        elif k < .78:
            ops.append({"op": "rawname", "b": [c for c in raw(rng)]})
        elif k < .92:
            a = text(rng)
            b = list(a) if rng.random() < .4 else text(rng)
            if rng.random() < .4 and b:
                b = list(a)
                if b:
                    b[rng.randrange(len(b))] = rng.choice(DOC + EDGE)
            ops.append({"op": "eq", "cp": a, "cp2": b})
        else:
            items = []
            for _ in range(rng.choice([1, 4])):
                if rng.random() < .6:
                    items.append({"k": "cp", "cp": text(rng)})
                else:
                    items.append({"k": "raw", "b": raw(rng), "hex": rng.random() < .5})
            ops.append({"op": "doc", "items": items, "enc": rng.choice(["", "", "rc4", "aes"]), "rounds": rng.choice([0, 1, 2])})
    return {"ops": ops}
