"""The standard security handler of ISO 32000 (revisions 2-6), written from the standard and
independent of the library: authentication, keys, and (de)ciphering of strings and streams."""
import ctypes, ctypes.util, hashlib, os, stringprep, unicodedata

_c = None


def _lib():
    global _c
    if _c is None:
        _c = ctypes.CDLL("libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_128_cbc", "EVP_aes_256_cbc", "EVP_aes_256_ecb"):
            getattr(_c, f).restype = ctypes.c_void_p
    return _c


def aes(key, iv, data, enc, mode="cbc"):
    """AES without padding."""
    if len(data) % 16:
        raise ValueError("AES length")
    c = _lib()
    ctx = ctypes.c_void_p(c.EVP_CIPHER_CTX_new())
    ciph = ctypes.c_void_p({(16, "cbc"): c.EVP_aes_128_cbc, (32, "cbc"): c.EVP_aes_256_cbc, (32, "ecb"): c.EVP_aes_256_ecb}[(len(key), mode)]())
    out = ctypes.create_string_buffer(len(data) + 32)
    n = ctypes.c_int(0)
    try:
        if c.EVP_CipherInit_ex(ctx, ciph, None, bytes(key), bytes(iv) if iv else None, 1 if enc else 0) != 1:
            raise ValueError("aes init")
        c.EVP_CIPHER_CTX_set_padding(ctx, 0)
        if c.EVP_CipherUpdate(ctx, out, ctypes.byref(n), bytes(data), len(data)) != 1:
            raise ValueError("aes update")
        return out.raw[:n.value]
    finally:
        c.EVP_CIPHER_CTX_free(ctx)


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    out = bytearray(len(data))
    i = j = 0
    for k, ch in enumerate(data):
        i = (i + 1) & 255
        t = s[i]
        j = (j + t) & 255
        s[i] = s[j]
        s[j] = t
        out[k] = ch ^ s[(s[i] + t) & 255]
    return bytes(out)


def md5(b):
    return hashlib.md5(b).digest()


PAD = bytes.fromhex("28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A")


def pad(pw):
    return (pw + PAD)[:32]


def saslprep(u):
    """str -> str, or None when prohibited"""
    s = "".join("" if stringprep.in_table_b1(c) else " " if stringprep.in_table_c12(c) else c for c in u)
    s = unicodedata.ucd_3_2_0.normalize("NFKC", s)
    for c in s:
        if any(f(c) for f in (stringprep.in_table_c12, stringprep.in_table_c21_c22, stringprep.in_table_c3, stringprep.in_table_c4,
                              stringprep.in_table_c5, stringprep.in_table_c6, stringprep.in_table_c7, stringprep.in_table_c8, stringprep.in_table_c9, stringprep.in_table_a1)):
            return None
    if any(stringprep.in_table_d1(c) for c in s):
        if any(stringprep.in_table_d2(c) for c in s) or not (stringprep.in_table_d1(s[0]) and stringprep.in_table_d1(s[-1])):
            return None
    return s


def norm(alg, pw):
    """what a password (bytes) amounts to for an algorithm, as bytes; None if not admissible"""
    if alg.startswith("AESV3"):
        try:
            s = saslprep(pw.decode("utf-8"))
        except UnicodeDecodeError:
            return None
        return None if s is None else s.encode("utf-8")[:127]
    return pw[:32]


def hash2b(pw, salt, udata, r):
    k = hashlib.sha256(pw + salt + udata).digest()
    if r < 6:
        return k
    i = 0
    while True:
        k1 = (pw + k + udata) * 64
        e = aes(k[:16], k[16:32], k1, True)
        k = (hashlib.sha256, hashlib.sha384, hashlib.sha512)[int.from_bytes(e[:16], "big") % 3](e).digest()
        i += 1
        if i >= 64 and e[-1] <= i - 32:
            return k[:32]


def p4(p):
    return (p & 0xffffffff).to_bytes(4, "little")


class Sec:
    """Parameters of an encryption dictionary: V R n(bytes) P O U OE UE Perms emd method(rc4|aes128|aes256)"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def key2(self, upad, id0):
        k = md5(upad + self.O + p4(self.P) + id0 + (b"\xff\xff\xff\xff" if self.R >= 4 and not self.emd else b""))
        n = self.n if self.R >= 3 else 5
        if self.R >= 3:
            for _ in range(50):
                k = md5(k[:n])
        return k[:n]

    def u_of(self, key, id0):
        if self.R == 2:
            return rc4(key, PAD)
        x = rc4(key, md5(PAD + id0))
        for i in range(1, 20):
            x = rc4(bytes(b ^ i for b in key), x)
        return x

    def owner_rc4(self, opad):
        k = md5(opad)
        if self.R >= 3:
            for _ in range(50):
                k = md5(k[:self.n])     # as the library and others do; equals the standard for 128 bits
        return k[:self.n if self.R >= 3 else 5]

    def auth(self, pw, id0):
        """-> (role, key) or None; user is tried first.  pw: already normalised bytes"""
        if self.V < 5:
            k = self.key2(pad(pw), id0)
            u = self.u_of(k, id0)
            if u == (self.U[:16] if self.R >= 3 else self.U):
                return "user", k
            ok = self.owner_rc4(pad(pw))
            x = self.O
            if self.R == 2:
                x = rc4(ok, x)
            else:
                for i in range(19, -1, -1):
                    x = rc4(bytes(b ^ i for b in ok), x)
            k = self.key2(x, id0)
            if self.u_of(k, id0) == (self.U[:16] if self.R >= 3 else self.U):
                return "owner", k
            return None
        if hash2b(pw, self.U[32:40], b"", self.R) == self.U[:32]:
            return "user", aes(hash2b(pw, self.U[40:48], b"", self.R), bytes(16), self.UE, False)
        if hash2b(pw, self.O[32:40], self.U[:48], self.R) == self.O[:32]:
            return "owner", aes(hash2b(pw, self.O[40:48], self.U[:48], self.R), bytes(16), self.OE, False)
        return None

    def objkey(self, key, n, g):
        if self.method == "aes256":
            return key
        k = key + n.to_bytes(3, "little") + g.to_bytes(2, "little")
        if self.method == "aes128":
            k += b"sAlT"
        return md5(k)[:min(len(key) + 5, 16)]

    def decrypt(self, key, n, g, data):
        k = self.objkey(key, n, g)
        if self.method == "rc4":
            return rc4(k, data)
        if not data:
            return b""
        d = aes(k, data[:16], data[16:], False)
        if not d or not 1 <= d[-1] <= 16 or d[-d[-1]:] != bytes([d[-1]]) * d[-1]:
            raise ValueError("AES padding of %d %d" % (n, g))
        return d[:-d[-1]]

    def encrypt(self, key, n, g, data, rng):
        k = self.objkey(key, n, g)
        if self.method == "rc4":
            return rc4(k, data)
        p = 16 - len(data) % 16
        iv = bytes(rng.randrange(256) for _ in range(16))
        return iv + aes(k, iv, data + bytes([p]) * p, True)

    def perms_ok(self, key):
        """Perms of revision 5/6 agrees with P and EncryptMetadata"""
        if self.V < 5:
            return True
        d = aes(key, None, self.Perms, False, "ecb")
        return d[9:12] == b"adb" and d[:4] == p4(self.P) and d[8:9] == (b"T" if self.emd else b"F")


def parse(d):
    """Sec of a parsed encryption dictionary (values as lib/pdfraw.py gives them)"""
    def s(k, n):
        v = d[k]
        if not (isinstance(v, tuple) and v[0] == "str" and len(v[1]) >= n):
            raise ValueError("Encrypt /" + k)
        return v[1][:n]
    if d.get("Filter") != ("name", b"Standard"):
        raise ValueError("Encrypt /Filter")
    V, R = d.get("V", 0), d["R"]
    if (V, R) not in ((1, 2), (2, 3), (1, 3), (4, 4), (5, 5), (5, 6)):
        raise ValueError("V %s R %s" % (V, R))
    ln = d.get("Length", 40)
    emd = d.get("EncryptMetadata", True)
    kw = {}
    method = "rc4"
    if V >= 4:
        cf = d["CF"][d["StmF"][1].decode()]
        if d["StrF"] != d["StmF"]:
            raise ValueError("StrF")
        m = cf["CFM"][1]
        method = {b"V2": "rc4", b"AESV2": "aes128", b"AESV3": "aes256"}[m]
        ln = 256 if V == 5 else 128
        if V == 5 and m != b"AESV3" or V == 4 and m == b"AESV3":
            raise ValueError("CFM")
    if V == 1:
        ln = 40
    if ln % 8 or not (40 <= ln <= (128 if V < 5 else 256)):
        raise ValueError("Length %s" % ln)
    if V == 5:
        kw = dict(OE=s("OE", 32), UE=s("UE", 32), Perms=s("Perms", 16))
    n = 48 if V == 5 else 32
    P = d["P"]
    if not -2 ** 31 <= P < 2 ** 31:
        raise ValueError("P")
    return Sec(V=V, R=R, n=ln // 8, P=P, O=s("O", n), U=s("U", n), emd=emd, method=method, **kw)


def name_of(sec):
    return {1: "RC4V1", 2: "RC4V2"}.get(sec.V) or ("AESV3R6" if sec.R == 6 else "AESV3" if sec.V == 5 else "AESV2" if sec.method == "aes128" else "V4RC4")


def make(V, R, bits, method, P, user, owner, id0, emd, rng):
    """-> (Sec, key): a fresh security handler from the two normalised passwords"""
    sec = Sec(V=V, R=R, n=bits // 8, P=P, emd=emd, method=method)
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    if V < 5:
        ok = sec.owner_rc4(pad(owner or user))
        o = pad(user)
        for i in range(20 if R >= 3 else 1):
            o = rc4(bytes(b ^ i for b in ok), o)
        sec.O = o
        key = sec.key2(pad(user), id0)
        u = sec.u_of(key, id0)
        sec.U = u if R == 2 else u + rb(16)
        return sec, key
    key = rb(32)
    vs, ks = rb(8), rb(8)
    sec.U = hash2b(user, vs, b"", R) + vs + ks
    sec.UE = aes(hash2b(user, ks, b"", R), bytes(16), key, True)
    vs, ks = rb(8), rb(8)
    sec.O = hash2b(owner, vs, sec.U, R) + vs + ks
    sec.OE = aes(hash2b(owner, ks, sec.U, R), bytes(16), key, True)
    sec.Perms = aes(key, None, p4(P) + b"\xff" * 4 + (b"T" if emd else b"F") + b"adb" + rb(4), True, "ecb")
    return sec, key
