"""dates: texts of both formats, well formed and not"""
import datetime


def inst(rng):
    y = rng.choice([0, 1, 4, 99, 100, 400, 1582, 1600, 1899, 1900, 1904, 1969, 1970, 1971, 1999, 2000, 2001, 2004, 2023, 2024, 2026, 2038, 2100, 2400, 9998, rng.randrange(1, 9999)])
    m, d = rng.choice([(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (6, 30), (rng.randint(1, 12), rng.randint(1, 31))])
    H, M, S = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    return [y, m, d, H, M, S]


def zone(rng, w3c):
    k = rng.random()
    if k < .25:
        return ""
    if k < .4:
        return "Z"
    h, m = rng.choice([0, 0, 1, 5, 8, 12, 14, 23, rng.randrange(24)]), rng.choice([0, 0, 30, 45, 59, rng.randrange(60)])
    s = rng.choice("+-")
    if w3c:
        return "%s%02d:%02d" % (s, h, m)
    return "%s%02d" % (s, h) + rng.choice(["'%02d'" % m, "'%02d'" % m, "'%02d" % m, "'", ""])


def text(rng, w3c):
    f = inst(rng)
    if w3c:
        n = rng.choice([1, 2, 3, 5, 6, 6, 6])
        parts = ["%04d" % f[0]] + ["%s%02d" % (c, x) for c, x in zip("--T::", f[1:])]
        t = "".join(parts[:n])
        if n == 6 and rng.random() < .3:
            t += "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 6)))
        if n >= 5:
            t += zone(rng, True)
        return t
    n = rng.choice([1, 2, 3, 4, 5, 6, 6, 6, 6])
    t = rng.choice(["D:", "D:", "D:", ""]) + "%04d" % f[0] + "".join("%02d" % x for x in f[1:n])
    if n >= 5 or rng.random() < .1:
        t += zone(rng, False)
    return t


def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        c = rng.choice(list("0123456789D:+-Z'T. x\0") + ["/", ";", "6", "9"])
        k = rng.random()
        t = t[:i] + c + t[i:] if k < .35 else t[:i] + t[i + 1:] if k < .6 else t[:i] + c + t[i + 1:]
    return t


def case(rng):
    ops = []
    for _ in range(rng.randint(4, 12)):
        if rng.random() < .3:
            off = rng.choice([9999, 9999, 0, 0, 60, -60, 330, -480, 840, 1439, -1439, rng.randint(-1439, 1439)])
            days = rng.choice([0, -1, 1, 10957, 11016, 19782, -719163, -719162, 2932893, rng.randint(-719162, 2932893), rng.randint(-30000, 60000)])
            ops.append({"op": "format", "days": days, "sod": rng.choice([0, 1, 59, 86399, rng.randrange(86400)]), "off": off})
        else:
            w = rng.random() < .45
            t = text(rng, w)
            k = rng.random()
            if k < .3:
                t = mutate(rng, t)
            tail = rng.choice(["", "", "0", "5", "12", "Z", "+01'00'", "'30", ":30", "-05:00", "garbage"])
            ops.append({"op": "parse", "w3c": int(w), "b": list(t.encode("latin-1")), "tail": list(tail.encode())})
    return {"ops": ops}
