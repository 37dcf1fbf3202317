"""Random contents: operators with operands, inline images, forms; malformed ones too."""
import gen_syntax as S

T = """w 1 J 1 j 1 M 1 d 2 ri 1 i 1 gs 1 q 0 Q 0 cm 6 m 2 l 2 c 6 v 4 y 4 h 0 re 4 S 0 s 0 f 0 F 0 f* 0 B 0 B* 0 b 0 b* 0 n 0 W 0 W* 0 BT 0 ET 0 Tc 1 Tw 1 Tz 1 TL 1 Tf 2 Tr 1 Ts 1 Td 2 TD 2 Tm 6 T* 0 Tj 1 TJ 1 ' 1 " 3 d0 2 d1 6 CS 1 cs 1 SC 3 SCN 1 sc 4 scn 2 G 1 g 1 RG 3 rg 3 K 4 k 4 sh 1 ID 0 EI 0 MP 1 DP 2 BMC 1 BDC 2 EMC 0 BX 0 EX 0""".split()
OPS = [(k.encode(), int(n)) for k, n in zip(T[::2], T[1::2])]
UNK = [b"qq", b"Dox", b"T", b"obj", b"R", b"endstream", b"x1", b"{", b"}", b"nul", b"W**", b"BIx", b"re*", b"tRue"]
NAMES = [b"A", b"B", b"Fm0", b"Im 1"]


def image(rng):
    n = rng.choice([0, 1, 3, 8, 30])
    al = rng.choice([b"EI \n", bytes(range(256)), b"EIEa", b"abc"])
    data = bytes(rng.choice(al) for _ in range(n))
    ws = rng.choice([b"", b"\n", b" ", b"\r\n"])
    data += ws
    for w in b" \n\r\t\0\x0c":
        data = data.replace(b"EI" + bytes([w]), b"EJ" + bytes([w]))
    toks = [b"BI"]
    ents = [(b"L", None)] + [(bytes([c]), None) for c in rng.sample(b"WHDF", rng.randrange(0, 3))]
    if rng.random() < .5:
        rng.shuffle(ents)
    for k, _ in ents:
        v = {"t": "int", "v": list(str(len(data)).encode())} if k == b"L" else S.value(rng, 2, False)
        if rng.random() < .06:
            toks += [rng.choice([b"1", b"(x)", b"foo", b"[/A]", b"}"])]
        toks += [b"/" + k] + S.spell(rng, v)
    toks += [b"ID"]
    return S.join(rng, toks, rng.choice([0, 1])) + rng.choice([b" ", b"\n", b"\r"]) + data + b"EI"


def items(rng, n, bad, do=.14):
    toks = []
    for _ in range(n):
        k = rng.random()
        if rng.random() < do:
            toks += [b"/" + {b"Im 1": b"Im#201"}.get(x, x) if True else x for x in [rng.choice(NAMES)]] + [b"Do"]
        elif k < .24:
            toks.append(image(rng))
            continue
        elif k < .24 + bad:
            j = rng.random()
            if j < .3:
                toks.append(rng.choice(UNK))
            elif j < .5:
                for _ in range(rng.choice([0, 2])):
                    toks += S.spell(rng, S.value(rng, 2, False))
                toks.append(b"Do")
            else:
                op, c = rng.choice(OPS)
                for _ in range(max(0, c + rng.choice([-1, 1, 2]))):
                    toks += S.spell(rng, S.value(rng, 2, False))
                toks.append(op)
        else:
            op, c = rng.choice(OPS)
            for _ in range(c):
                toks += S.spell(rng, S.value(rng, 2, False) if rng.random() < .4 else {"t": "int", "v": list(str(S.num_int(rng)).encode())})
            toks.append(op)
    if rng.random() < bad / 2:
        toks += S.spell(rng, S.value(rng, 1, False))
    return toks


def text(rng, toks):
    out = []
    for i, t in enumerate(toks):
        out.append(t)
    b = b""
    st = rng.randrange(3)
    run = []
    for i, t in enumerate(out):
        if t.startswith(b"BI") and t.endswith(b"EI") and len(t) > 3:
            b += S.join(rng, run, st)
            run = []
            if b and b[-1:] not in b" \n\r\t":
                b += b" "
            b += t
            if i < len(out) - 1 or rng.random() < .6:
                b += rng.choice([b" ", b"\n", b"\r\n"])
        else:
            run.append(t)
    b += S.join(rng, run, st)
    if rng.random() < .3 and not b.endswith(b"EI"):
        b += S.sep(rng, False, 2)
    return b


def parts(rng, toks):
    n = rng.choice([1, 1, 2, 3, 5])
    cuts = sorted(rng.randrange(len(toks) + 1) for _ in range(n - 1))
    out, p = [], 0
    for c in cuts + [len(toks)]:
        out.append(list(text(rng, toks[p:c])))
        p = c
    return out


def world(rng, bad, forms=False):
    nobj = rng.choice([2, 3, 4]) if forms else rng.choice([0, 1, 2, 4])
    objs = []

    def res():
        r = []
        for n in NAMES:
            if nobj and rng.random() < (.95 if forms else .75):
                r.append([list(n), rng.randrange(nobj) + 1])
        return r
    for _ in range(nobj):
        k = rng.choice(["form", "form", "form", "image", "ps", "junk"] if not forms else ["form"] * 8 + ["image"])
        b = list(text(rng, items(rng, rng.choice([0, 1, 2] if forms else [0, 1, 3]), bad, .6 if forms else .14))) if k == "form" else [rng.randrange(256) for _ in range(3)]
        objs.append({"k": k, "b": b[:400] if len(b) > 400 else b, "res": res(), "type": rng.random() < .8})
    return objs, res()


def case(rng, forms=False):
    ops = []
    for _ in range(rng.choice([1, 2])):
        bad = rng.choice([0, .1, .3])
        objs, res = world(rng, bad, forms)
        ps = parts(rng, items(rng, rng.choice([2, 4] if forms else [1, 4, 10, 16]), bad, .6 if forms else .14))
        if sum(map(len, ps)) > 1200:
            continue
        fl = "".join(f for f, p in (("t", .12), ("d", .15), ("h", .25)) if rng.random() < p)
        ops.append({"op": "open", "objs": objs, "res": res, "parts": ps, "single": rng.random() < .5, "flate": rng.random() < .3,
                    "flags": fl, "throw": "t" in fl, "follow": "d" not in fl, "handler": "h" in fl,
                    "mode": "device" if rng.random() < (0 if forms else .3) else "page"})
        ops.append({"op": "all"})
        if rng.random() < .4 and not forms:
            c = dict(ops[-2], op="copen")
            ops.append(c)
            tot = sum(map(len, ps)) + len(ps)
            got = 0
            while got < tot + 3 and len(ops) < 80:
                m = rng.choice(["buf", "buf", "ch", "peek"])
                n = rng.choice([1, 2, 7, 20, 100, len(ps[0]) or 1, len(ps[0]) + 1])
                ops.append({"op": "cread", "m": m, "n": n})
                got += n if m == "buf" else 1
    return {"ops": ops or [{"op": "cread0"}]} if ops else case(rng, forms)
