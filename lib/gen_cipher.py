"""The security handler on its own: data of objects of any number and generation, deciphered by lib/pdfcrypt.py."""
import pdfcrypt, pdfraw
from gen_store import ALGS, PWS

NUMS = [1, 2, 255, 256, 300, 4660, 65535, 65536, 70000, 0x123456, 8388607]
GENS = [0, 0, 1, 255, 256, 300, 4660, 65534, 65535]


def case(rng):
    alg = rng.choice(ALGS)
    u, o = rng.choice(PWS).encode(), rng.choice(PWS + ["", ""]).encode()
    if alg.startswith("AESV3"):
        up = pdfcrypt.saslprep(u.decode()).encode()
    else:
        up = u
    ln = rng.choice([40, 56, 80, 96, 128, 128]) if alg in ("RC4V1", "RC4V2") else 128
    ops = [{"op": "make", "alg": alg, "uraw": u.hex(), "oraw": (o or u).hex(), "user": list(up), "perm": rng.randrange(4096) & 0xF3C, "len": ln,
            "id": bytes(rng.randrange(256) for _ in range(16)).hex(), "again": rng.choice([0, 1, 2]), "copy": rng.choice([0, 0, 1])}]
    for _ in range(rng.randint(3, 12)):
        n = rng.choice([0, 1, 1, 5, 15, 16, 17, 31, 32, 33, 64, 200, 1000, 4079, 4080, 4095, 4096, 5000, 9000])
        ops.append({"op": "seal", "n": rng.choice(NUMS + [rng.randrange(1, 8388608)]), "g": rng.choice(GENS + [rng.randrange(65536)]),
                    "x": bytes(rng.randrange(256) for _ in range(n)).hex(), "chunk": rng.choice([64, 512, 4096])})
    return {"ops": ops}


def post(trace):
    """what an independent reader makes of the dictionary and of the sealed data"""
    sec = key = None
    for e in trace["ev"]:
        o = e["out"]
        if e["op"] == "make":
            o["role"], o["method"] = "none", ""
            if o["err"] == "":
                try:
                    sec = pdfcrypt.parse(pdfraw.value(bytes.fromhex(o.pop("dict")), 0)[0])
                    cut = 127 if sec.V == 5 else 32
                    r = sec.auth(bytes(e["user"])[:cut], bytes.fromhex(e["id"]))
                    if r:
                        o["role"], key = r
                    o["alg"], o["perm"], o["bits"] = pdfcrypt.name_of(sec), sec.P & 0xfff, sec.n * 8
                except (pdfraw.Raw, ValueError, KeyError):
                    pass
        elif o["err"] == "" and key is not None:
            b = bytes.fromhex(o.pop("hex"))
            o["len"] = len(b)
            try:
                o["read"] = sec.decrypt(key, e["n"], e["g"], b).hex()
            except ValueError:
                o["read"] = "?"
    return trace
