"""devices: opening, writing, reading, positioning"""


def data(rng, n=None):
    return [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 9]) if n is None else n)]


def opening(rng, big):
    kind = rng.choice(["string", "string", "stringr", "vector", "buffer", "span", "span", "spanr", "null", "ss", "ss", "iss", "oss", "file", "file", "file", "file"])
    n = rng.choice([4095, 4096, 4097, 8192, 8195]) if big else rng.choice([0, 1, 4, 7, 12])
    return {"op": "open", "kind": kind, "data": data(rng, n), "access": rng.choice(["r", "w", "rw", "rw", "rw"]), "ate": rng.randrange(2),
            "mode": rng.choice(["CreateNew", "Create", "Open", "Open", "Open", "OpenOrCreate", "Truncate", "Append"]), "exists": int(rng.random() < .8), "show": 1}


def case(rng, big=False):
    ops = [opening(rng, big)]
    if ops[0]["kind"] == "file" and rng.random() < .7:
        ops[0].update({"mode": "Open", "access": "rw", "exists": 1})
    length = len(ops[0]["data"])
    for _ in range(rng.randint(3, 22) if not big else rng.randint(2, 5)):
        k = rng.random()
        if k < .04 and not big:
            ops.append(opening(rng, big))
            length = len(ops[-1]["data"])
        elif k < .27:
            b = data(rng)
            length += len(b)
            ops.append({"op": "write", "b": b, "how": rng.randrange(3)})
        elif k < .62:
            n = rng.choice([0, 1, 2, 3, 6, 20]) if not big else rng.choice([1, 4095, 4096, 4097, 9000])
            o = rng.choice(["read", "reade", "readch", "readb", "peek", "copy"])
            ops.append({"op": o, "n": -1 if o == "copy" and rng.random() < .5 else n})
        elif k < .95:
            d = rng.choice(["set", "begin", "cur", "end", "end"])
            kind = next(o["kind"] for o in reversed(ops) if o["op"] == "open")
            off = rng.choice([0, 0, 1, 2, 3, 5]) if d in ("set", "begin", "cur") else -rng.choice([0, 0, 1, 2, 3])
            if d == "cur" and rng.random() < .5:
                off = -off
            if big:
                off *= 1000
            if kind != "file" and rng.random() < .15:
                off = rng.choice([-50, 50]) if d != "set" else 50
            elif kind == "file" and d != "set" and rng.random() < .15:
                off = -50
            ops.append({"op": "seek", "off": off, "dir": d})
        else:
            ops.append({"op": "flush"})
    ops[-1]["show"] = 1
    return {"big": int(big), "ops": ops}
