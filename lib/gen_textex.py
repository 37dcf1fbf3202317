"""Pages with text shown by every operator, under matrices, in forms."""
WIDTHS = {  # thousandths, of the characters 32 to 126
    "F1": [600] * 95,
    "F2": [300 if i == 0 else 400 if chr(32 + i) in "abcil" else 1000 if chr(32 + i) in "MW" else 700 for i in range(95)],
    "F3": [500 if i == 0 else 900 if chr(32 + i) in "XYZ" else 800 for i in range(95)],
}
CMAP = b"/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /U def 1 begincodespacerange <0000> <FFFF> endcodespacerange 1 beginbfrange <0020> <007E> <0020> endbfrange endcmap end end"
WORDS = ["a", "Word", "XYZ", "i", "MaW", "ab cd", "one two", "x y z", "Q", "Lil", "word", "cab"]


def pstr(rng, font, s):
    if font == "F3":
        return b"<" + b"".join(b"%04X" % ord(c) for c in s) + b">"
    if rng.random() < .2:
        return b"<" + s.encode().hex().encode() + b">"
    return b"(" + s.encode() + b")"


def matrix(rng):
    k = rng.random()
    if k < .45:
        return [1, 0, 0, 1, rng.randrange(-20, 200), rng.randrange(-20, 200)]
    if k < .7:
        s = rng.choice([2, 3])
        return [s, 0, 0, s, rng.randrange(0, 100), rng.randrange(0, 100)]
    if k < .8:
        return [1, 0, 0, 2, rng.randrange(0, 100), rng.randrange(0, 100)]
    return rng.choice([[0, 1, -1, 0], [-1, 0, 0, -1], [0, -1, 1, 0], [0, 2, -2, 0]]) + [rng.randrange(0, 300), rng.randrange(0, 300)]


def body(rng, depth, n, forms, budget, st):
    """operations and their bytes"""
    ops, out = [], b""

    def op(k, **kw):
        ops.append(dict(op="o", k=k, **kw))
    open_, font, pushed = False, st["font"], [0]
    fonts = [font]

    def show(k, s, **kw):
        nonlocal out
        op(k, s=[ord(c) for c in s], **kw)
    for _ in range(n):
        r = rng.random()
        if not open_:
            if r < .2 and len(fonts) < 4:
                out += b"q "; op("q"); fonts.append(font)
            elif r < .32 and len(fonts) > 1:
                out += b"Q "; op("Q"); font = fonts.pop()
            elif r < .5:
                m = matrix(rng); out += b"%d %d %d %d %d %d cm " % tuple(m); op("cm", m=m)
            elif r < .62 and depth < 2 and forms is not None and budget[0] > 0:
                budget[0] -= 1
                m = matrix(rng) if rng.random() < .5 else []
                o2, b2 = body(rng, depth + 1, rng.randrange(3, 9), forms, budget, {"font": font})
                name = "X%d" % len(forms)
                forms.append((name, m, b2))
                out += b"/" + name.encode() + b" Do "
                op("Do", m=m or [1, 0, 0, 1, 0, 0]); ops.extend(o2); op("EndDo")
            else:
                out += b"BT "; op("BT"); open_ = True
                if font == "" or rng.random() < .3:
                    font = rng.choice(list(WIDTHS)); z = rng.choice([10, 10, 20])
                    out += b"/%s %d Tf " % (font.encode(), z); op("Tf", font=font, size=z)
                if rng.random() < .5:
                    m = matrix(rng); out += b"%d %d %d %d %d %d Tm " % tuple(m); op("Tm", m=m)
        else:
            s = rng.choice(WORDS)
            if r < .12:
                out += b"ET "; op("ET"); open_ = False
            elif r < .2:
                m = matrix(rng); out += b"%d %d %d %d %d %d Tm " % tuple(m); op("Tm", m=m)
            elif r < .32:
                x, y = rng.choice([0, 0, 3, 30, 200, -7]), rng.choice([0, -12, -12, 5, 40]); k = rng.choice([b"Td", b"TD"])
                out += b"%d %d %s " % (x, y, k); op(k.decode(), x=x, y=y)
            elif r < .38:
                y = rng.choice([12, 14, -9]); out += b"%d TL " % y; op("TL", x=y)
            elif r < .44:
                out += b"T* "; op("T*")
            elif r < .5:
                k = rng.choice([b"Tc", b"Tw"]); x = rng.choice([0, 2, 4]); out += b"%d %s " % (x, k); op(k.decode(), x=x)
            elif r < .54:
                x = rng.choice([100, 100, 200, 50]); out += b"%d Tz " % x; op("Tz", x=x)
            elif r < .58:
                font = rng.choice(list(WIDTHS)); z = rng.choice([10, 10, 20])
                out += b"/%s %d Tf " % (font.encode(), z); op("Tf", font=font, size=z)
            elif r < .76:
                out += pstr(rng, font, s) + b" Tj "; show("Tj", s)
            elif r < .83:
                out += pstr(rng, font, s) + b" ' "; show("'", s)
            elif r < .88:
                w, c = rng.choice([0, 2]), rng.choice([0, 4])
                out += b"%d %d %s \" " % (w, c, pstr(rng, font, s)); show('"', s, w=w, c=c)
            else:
                parts, a = [], b"["
                for _ in range(rng.randrange(1, 5)):
                    if rng.random() < .45:
                        x = rng.choice([200, -200, -400, -2000, -10000]); a += b" %d" % x; parts.append({"n": x, "s": []})
                    else:
                        w = rng.choice(WORDS); a += pstr(rng, font, w); parts.append({"n": 0, "s": [ord(c) for c in w]})
                out += a + b"] TJ "; op("TJ", parts=parts)
    if open_:
        out += b"ET "; op("ET")
    while len(fonts) > 1 and (depth == 0 or rng.random() < .7):
        out += b"Q "; op("Q"); fonts.pop()
    return ops, out


def pdf(rng, contents, forms, rot, size):
    objs = {}
    fd = b"/FontDescriptor 20 0 R"
    objs[20] = b"<< /Type /FontDescriptor /FontName /Foo /Flags 32 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80 >>"
    objs[11] = b"<< /Type /Font /Subtype /Type1 /BaseFont /Courier /Encoding /WinAnsiEncoding >>"
    objs[12] = b"<< /Type /Font /Subtype /Type1 /BaseFont /Foo /FirstChar 32 /LastChar 126 /Widths [%s] /Encoding /WinAnsiEncoding %s >>" % (b" ".join(b"%d" % w for w in WIDTHS["F2"]), fd)
    w = WIDTHS["F3"]
    objs[13] = b"<< /Type /Font /Subtype /Type0 /BaseFont /Foo /Encoding /Identity-H /DescendantFonts [14 0 R] /ToUnicode 15 0 R >>"
    objs[14] = b"<< /Type /Font /Subtype /CIDFontType2 /BaseFont /Foo /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /DW 800 /W [32 [500] 88 90 900] %s >>" % fd
    objs[15] = b"<< /Length %d >>\nstream\n%s\nendstream" % (len(CMAP), CMAP)
    xo = b" ".join(b"/%s %d 0 R" % (f[0].encode(), 30 + i) for i, f in enumerate(forms))
    objs[3] = b"<< /Font << /F1 11 0 R /F2 12 0 R /F3 13 0 R >> /XObject << %s >> >>" % xo
    objs[1] = b"<< /Type /Catalog /Pages 2 0 R >>"
    objs[2] = b"<< /Type /Pages /Kids [8 0 R 4 0 R] /Count 2 >>"
    objs[8] = b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 100 100] >>"
    objs[4] = b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %d %d] /Rotate %d /Resources 3 0 R /Contents 5 0 R >>" % (size[0], size[1], rot)
    objs[5] = b"<< /Length %d >>\nstream\n%s\nendstream" % (len(contents), contents)
    for i, f in enumerate(forms):
        m = (b"/Matrix [%d %d %d %d %d %d]" % tuple(f[1])) if f[1] else b""
        objs[30 + i] = b"<< /Type /XObject /Subtype /Form /BBox [-1000 -1000 1000 1000] /Resources 3 0 R %s /Length %d >>\nstream\n%s\nendstream" % (m, len(f[2]), f[2])
    b, off = b"%PDF-1.7\n", {}
    for n in sorted(objs):
        off[n] = len(b)
        b += b"%d 0 obj\n%s\nendobj\n" % (n, objs[n])
    x = len(b)
    b += b"xref\n0 1\n0000000000 65535 f \n"
    for n in sorted(objs):
        b += b"%d 1\n%010d 00000 n \n" % (n, off[n])
    return b + b"trailer\n<< /Size 100 /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % x


def case(rng):
    forms = []
    ops, out = body(rng, 0, rng.choice([4, 8, 14, 25]), forms, [2], {"font": ""})
    rot = rng.choice([0, 0, 0, 90, 180, 270])
    size = rng.choice([[600, 800], [500, 500]])
    res = [{"op": "load", "file": pdf(rng, out, forms, rot, size).hex(), "fonts": WIDTHS, "rot": rot, "w": size[0], "h": size[1]}] + ops
    for _ in range(rng.randrange(1, 4)):
        pattern = rng.choice(["", "", "", "", "or", "W", "wor", "a", "ab c"])
        flags = rng.choice([0, 0, 64, 4, 68, 4]) + (rng.choice([0, 1, 8, 9]) if pattern else 0)
        clip = [] if rng.random() < .7 else [rng.randrange(-50, 100), rng.randrange(-50, 100), rng.randrange(50, 400), rng.randrange(50, 400)]
        res.append({"op": "extract", "page": 1, "flags": flags, "pattern": [ord(c) for c in pattern], "clip": clip})
    return {"ops": res}
