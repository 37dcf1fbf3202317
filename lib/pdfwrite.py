"""An independent producer of PDF files: revisions with cross-reference tables, streams and hybrid
sections, object streams, generations, free entries, filters, predictors, indirect lengths,
encryption, linearised section order, any spelling.  Yields the bytes and, for the specification,
the entries of every section with the values behind them (what they mean is decided there)."""
import zlib
import gen_syntax as Y
import gen_store as GS
import pdfcrypt, pdfraw
from gen_store import blob

EOLS = [b"\n", b"\r\n", b"\r"]


def conv(v, enc):
    """value of the specification -> value of gen_syntax; enc(bytes) enciphers strings"""
    if "r" in v:
        n, g = v["r"].split()
        return {"t": "ref", "r": [list(n.encode()), list(g.encode())]}
    if "a" in v:
        return {"t": "arr", "a": [conv(x, enc) for x in v["a"]]}
    if "d" in v:
        return {"t": "dict", "d": [[list(k.encode("latin-1")), conv(x, enc)] for k, x in v["d"].items()]}
    s = v["s"]
    if s in ("null", "true", "false"):
        return {"t": s}
    if s[0] == "f":
        return {"t": "real", "v": list(s[1:].encode())}
    if s[0] == "/":
        return {"t": "name", "n": list(bytes.fromhex(s[1:]))}
    if s[0] in "(<":
        return {"t": "str", "s": list(enc(bytes.fromhex(s[1:]))), "hex": s[0] == "<"}
    return {"t": "int", "v": list(s.encode())}


def plain(v):
    """value of gen_syntax -> what pdfraw.value yields for it"""
    t = v["t"]
    if t in ("null", "true", "false"):
        return {"null": None, "true": True, "false": False}[t]
    if t == "arr":
        return [plain(x) for x in v["a"]]
    if t == "dict":
        return {bytes(k).decode("latin-1"): plain(x) for k, x in v["d"]}
    if t == "ref":
        return ("ref", int(bytes(v["r"][0])), int(bytes(v["r"][1])))
    if t == "name":
        return ("name", bytes(v["n"]))
    if t == "str":
        return ("str", bytes(v["s"]), v["hex"])
    return (float if t == "real" else int)(bytes(v["v"]))


def spelled(rng, v, style=None):
    """one of the spellings of a value; one that the independent reader takes for another is not used"""
    want = plain(v)
    for _ in range(30):
        t = Y.join(rng, Y.spell(rng, v), style)
        try:
            # unescaped carriage returns are left out: the library is pinned to keep them (see Syntax.tla)
            got = []
            for fold in (True, False):
                pdfraw.FOLD[0] = fold
                got.append(pdfraw.value(t + b" ", 0)[0] == want)
            if all(got):
                return t
        except (pdfraw.Raw, ValueError):
            pass
        finally:
            pdfraw.FOLD[0] = True
    raise ValueError("no spelling of %r" % (v,))


def predict(rng, data, cols, colors=1, bpc=8):
    bpp = max(1, colors * bpc // 8)
    row = (cols * colors * bpc + 7) // 8
    out, prev = bytearray(), bytearray(row)
    for i in range(0, len(data), row):
        cur = bytearray(data[i:i + row])
        t = rng.randrange(5)
        out.append(t)
        for k, x in enumerate(cur):
            a = cur[k - bpp] if k >= bpp else 0
            b = prev[k]
            c = prev[k - bpp] if k >= bpp else 0
            p = a + b - c
            m = min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
            out.append((x - (0, a, b, (a + b) // 2, m)[t]) & 255)
        prev = cur
    return bytes(out)


def encode(rng, data, small=False):
    """-> (bytes, Filter value or None, DecodeParms value or None)"""
    n = rng.choice([0, 1, 1, 1, 2] if not small else [0, 1, 1])
    fs, ps = [], []
    for i in range(n):
        f = rng.choice(["Flate", "Flate", "Flate", "Hex", "A85", "RL"] if not small else ["Flate", "Flate", "Hex"])
        parm = {"s": "null"}
        if f == "Flate":
            if data and rng.random() < .4:
                cols = rng.choice([c for c in (1, 2, 3, 4, 5, 7) if len(data) % c == 0])
                colors = rng.choice([1, 1, 3]) if len(data) % (cols * 3) == 0 else 1
                data = predict(rng, data, cols, colors)
                parm = {"d": {"Predictor": {"s": str(rng.randint(10, 15))}, "Columns": {"s": str(cols)}}}
                if colors > 1:
                    parm["d"]["Colors"] = {"s": "3"}
            data = zlib.compress(data, rng.choice([1, 6, 9]))
        elif f == "Hex":
            data = data.hex().encode() + b">"
        elif f == "A85":
            import base64
            data = base64.a85encode(data) + b"~>"
        else:
            out = b""
            for k in range(0, len(data), 128):
                ch = data[k:k + 128]
                out += bytes([len(ch) - 1]) + ch
            data = out + b"\x80"
        fs.insert(0, {"Flate": "FlateDecode", "Hex": "ASCIIHexDecode", "A85": "ASCII85Decode", "RL": "RunLengthDecode"}[f])
        ps.insert(0, parm)
    if not fs:
        return data, None, None
    names = [{"s": "/" + f.encode().hex()} for f in fs]
    one = len(fs) == 1 and rng.random() < .6
    flt = names[0] if one else {"a": names}
    if all("s" in p for p in ps) and rng.random() < .8:
        dp = None
    else:
        dp = ps[0] if one else {"a": ps}
    return data, flt, dp


class Producer:
    def __init__(self, rng, enc=None, style=None, high=False):
        self.r = rng
        self.high = high             # numbers and generations of several bytes
        self.out = bytearray()
        self.sections = []           # newest first: {"tab": [...], "stm": [...]}
        self.bodies = {}             # id -> value or {"infra": 1}
        self.live = {}               # n -> [g, value (with optional "x" data), isinfra]
        self.freed = {}              # n -> next generation (or 65535: never again)
        self.next = 1
        self.prev = None
        self.g = GS.G(rng)
        self.enc = enc
        self.sec = None
        self.entries = {}            # n -> current physical entry [n, t, g, body]
        self.style = style or rng.choice(["table", "stream", "mixed"])
        self.encnum = None
        self.id = [bytes(rng.randrange(256) for _ in range(16)) for _ in range(2)]
        self.nb = 0
        self.hidden = {}

    # --- content ------------------------------------------------------------
    def refs(self):
        return ["%d %d" % (n, x[0]) for n, x in self.live.items() if not x[2]]

    def alloc(self):
        self.freed = {n: g for n, g in self.freed.items()}
        c = [n for n, g in self.freed.items() if g < 65535]
        if c and self.r.random() < .5:
            n = self.r.choice(c)
            return n, self.freed.pop(n)
        self.next += 0 if self.r.random() < .9 else 1
        g = 0
        if self.high:
            if self.next < 500 and self.r.random() < .2:
                self.next += self.r.choice([60, 256, 300])
            if self.r.random() < .3:
                g = self.r.choice([1, 255, 256, 300, 4660, 65534])
        n = self.next
        self.next += 1
        return n, g

    def put(self, v, infra=False, data=None):
        n, g = self.alloc()
        self.live[n] = [g, v, infra, data]
        self.changed.add(n)
        return n, g

    # --- physical -----------------------------------------------------------
    def text(self, v, ref, style=None):
        e = (lambda b: b) if self.sec is None or ref is None else (lambda b: self.sec[0].encrypt(self.sec[1], ref[0], ref[1], b, self.r))
        return spelled(self.r, conv(v, e), style)

    def obj(self, n, g, v, data=None, crypt=True, infra=False, plain=False):
        """writes 'n g obj'; returns its offset"""
        r = self.r
        if r.random() < .2:
            self.out += r.choice([b"% a comment 9 0 obj\n", b"\n\n", b" \t", b"%%EOF\n", b"\0\n"])
        off = len(self.out)
        ws = r.choice([b" ", b" ", b"\n", b"\t"]) if not plain else b" "
        ref = (n, g) if crypt else None
        self.out += b"%d%s%d%sobj" % (n, ws, g, ws)
        self.out += r.choice([b"\n", b" ", b"\r\n", b"\r", b"%x\n"])
        if data is None:
            t = self.text(v, ref)
            self.out += t
        else:
            d = dict(v["d"])
            if "Filter" not in d:
                data, flt, dp = encode(r, data, infra)
                if flt is not None:
                    d["Filter"] = self.maybe_indirect(flt, plain or infra)
                if dp is not None:
                    d["DecodeParms"] = self.maybe_indirect(dp, plain or infra)
            if self.sec is not None and crypt:
                data = self.sec[0].encrypt(self.sec[1], n, g, data, r) if data or self.sec[0].method != "rc4" else data
            d["Length"] = {"s": str(len(data))} if plain or infra and r.random() < .7 else self.maybe_indirect({"s": str(len(data))}, plain)
            items = list(d.items())
            r.shuffle(items)
            self.out += self.text({"d": dict(items)}, ref)
            self.out += r.choice([b"\n", b" ", b"\r\n"]) + b"stream" + r.choice([b"\n", b"\r\n"]) + data
            self.out += r.choice([b"\n", b"\r\n", b"\r", b"" if data[-1:] not in b"\r\n" else b"\n"]) + b"endstream"
        self.out += r.choice([b"\n", b" ", b"\r\n"]) + b"endobj" + r.choice(EOLS)
        return off

    def maybe_indirect(self, v, never=False):
        r = self.r
        if never or r.random() < .65:
            return v
        # the object that holds the entry: written afterwards, never compressed with what it describes
        n = self.next
        self.next += 1
        self.live[n] = [0, v, True, None]
        self.later.append(n)
        return {"r": "%d 0" % n}

    def body(self, v, infra):
        self.nb += 1
        i = "b%d" % self.nb
        self.bodies[i] = {"s": "infra"} if infra else v
        return i

    def meaning(self, n):
        g, v, infra, data = self.live[n]
        if data is not None:
            return {"d": dict(v["d"]), "x": blob(data)}
        return v

    def revision(self, first):
        r = self.r
        kind = self.style if self.style != "mixed" else r.choice(["table", "stream", "hybrid"] if not first else ["table", "stream"])
        if kind == "hybrid" and first:
            kind = "table"
        self.later = []
        tab, stm = [], []            # entries: [n, t, g/-, body, offset | (objstm, index)]
        todo = sorted(self.changed)
        r.shuffle(todo)
        comp = []
        if kind in ("stream", "hybrid"):
            cand = [n for n in todo if n in self.live and self.live[n][0] == 0 and self.live[n][3] is None and n != self.encnum
                    and not (self.sec and self.live[n][1].get("d", {}).get("Type") == {"s": "/" + b"Catalog".hex()} and False)]
            p = r.choice([0, .5, 1])
            comp = [n for n in cand if r.random() < p]
            if kind == "hybrid":      # a hidden object must be unknown to the tables of this section
                comp = [n for n in comp if n not in self.hidden]
        place = {}
        groups = []
        while comp:
            k = r.choice([1, 2, 5, 50])
            groups.append(comp[:k])
            comp = comp[k:]
        for gr in groups:
            self.objstm(gr, place)
        for n in todo:
            if n in self.live and n not in place:
                g, v, infra, data = self.live[n]
                place[n] = (1, self.obj(n, g, v, data, crypt=n != self.encnum))
        while self.later:
            n = self.later.pop()
            if n not in place:
                g, v, infra, data = self.live[n]
                place[n] = (1, self.obj(n, g, v, None))
        for n in self.stms:
            place[n[0]] = (1, n[1])
        self.stms = []
        ents = {}
        for n, p in place.items():
            g, infra = (self.live[n][0], self.live[n][2])
            ents[n] = [n, p[0], g if p[0] == 1 else 0, self.body(self.meaning(n), infra), p[1:]]
        # free entries: all that are free now, linked; numbers never used in the first revision as well
        free = dict(self.freed)
        if first:
            for n in range(1, self.next):
                if n not in ents and n not in free and not self.high:
                    free[n] = r.choice([0, 0, 65535])
                    self.freed[n] = free[n]
        chain = sorted(free)
        if r.random() < .3:
            r.shuffle(chain)
        if not first and r.random() < .2:
            pass
        nxt = 0
        for n in reversed(chain):
            ents[n] = [n, 0, free[n], "", (nxt,)]
            nxt = n
        ents[0] = [0, 0, 65535, "", (nxt,)]
        self.changed = set()
        self.section(kind, ents, first)

    def objstm(self, nums, place):
        r = self.r
        n = self.next
        self.next += 1
        parts, head, pos = [], [], 0
        order = list(nums)
        stale = []
        for i, m in enumerate(order):
            t = spelled(r, conv(self.live[m][1], lambda b: b), r.choice([0, 1]))
            gap = r.choice([b" ", b"\n", b"\r\n ", b"  "])
            head += [b"%d" % m, b"%d" % pos]
            parts.append(t + gap)
            pos += len(t) + len(gap)
            place[m] = (2, n, i)
        h = b""
        for i, x in enumerate(head):
            h += x + r.choice([b" ", b" ", b"\n", b"\t "])
        data = h + b"".join(parts)
        if r.random() < .3:
            data = data.rstrip(b" \n\r")
        d = {"Type": {"s": "/" + b"ObjStm".hex()}, "N": {"s": str(len(order))}, "First": {"s": str(len(h))}}
        if self.stmhist and r.random() < .3:
            d["Extends"] = {"r": "%d 0" % r.choice(self.stmhist)}
        self.live[n] = [0, {"d": d}, True, data]
        self.stmhist.append(n)
        self.stms.append((n, self.obj(n, 0, {"d": d}, data, infra=True)))

    def trailer(self):
        d = {"Root": self.root, "ID": {"a": [{"s": "<" + x.hex()} for x in self.id]}}
        if self.info:
            d["Info"] = self.info
        if self.enc:
            d["Encrypt"] = self.encref
        if self.prev is not None:
            d["Prev"] = {"s": str(self.prev)}
        return d

    def xrefstream(self, ents, extra, n):
        """writes a cross-reference stream as object n with the given entries; returns offset"""
        r = self.r
        off = len(self.out)
        if n is not None:
            ents = dict(ents)
            ents[n] = [n, 1, 0, self.body(None, True), (off,)]
            self.live[n] = [0, None, True, None]
        nums = sorted(ents)
        size = self.next
        full = nums == list(range(size))
        w0 = 0 if all(e[1] == 1 for e in ents.values()) and r.random() < .7 else r.choice([1, 1, 2])
        f2 = max([e[4][0] for e in ents.values()] + [0])
        w1 = max(1, (f2.bit_length() + 7) // 8) + r.choice([0, 0, 1, 2])
        f3 = max([e[2] if e[1] != 2 else e[4][1] for e in ents.values()] + [0])
        w2 = (f3.bit_length() + 7) // 8 + r.choice([0, 0, 1])
        if w2 == 0 and r.random() < .5:
            w2 = 1
        data = b""
        for k in nums:
            e = ents[k]
            a, b = (e[4][0], e[2]) if e[1] != 2 else (e[4][0], e[4][1])
            data += e[1].to_bytes(w0, "big") if w0 else b""
            data += a.to_bytes(w1, "big") + (b.to_bytes(w2, "big") if w2 else b"")
        d = {"Type": {"s": "/" + b"XRef".hex()}, "Size": {"s": str(size)}, "W": {"a": [{"s": str(x)} for x in (w0, w1, w2)]}}
        if not full or r.random() < .3:
            idx, i = [], 0
            while i < len(nums):
                j = i
                while j + 1 < len(nums) and nums[j + 1] == nums[j] + 1:
                    j += 1
                # a run may be split into several subsections
                k = j if r.random() < .8 or j == i else r.randrange(i, j)
                idx += [nums[i], k - i + 1]
                i = k + 1
            d["Index"] = {"a": [{"s": str(x)} for x in idx]}
        d.update(extra)
        cols = w0 + w1 + w2
        if r.random() < .5 and data:
            data = zlib.compress(predict(r, data, cols))
            d["Filter"] = {"s": "/" + b"FlateDecode".hex()}
            d["DecodeParms"] = {"d": {"Predictor": {"s": "12"}, "Columns": {"s": str(cols)}}}
        elif r.random() < .5:
            data = zlib.compress(data)
            d["Filter"] = {"s": "/" + b"FlateDecode".hex()}
        else:
            d["Filter"] = {"a": []} if r.random() < .1 else {"s": "/" + b"ASCIIHexDecode".hex()}
            if "a" not in d["Filter"]:
                data = data.hex().encode() + b">"
        d["Length"] = {"s": str(len(data))}
        m = n if n is not None else self.next - 1
        self.out += b"%d 0 obj\n" % m + spelled(r, conv({"d": d}, lambda b: b)) + b"\nstream\r\n" + data + b"\nendstream\nendobj\n"
        return off, ents

    def table(self, ents, extra):
        r = self.r
        off = len(self.out)
        self.out += b"xref" + r.choice(EOLS)
        nums = sorted(ents)
        i = 0
        eol = r.choice([b" \n", b" \r", b"\r\n"])
        while i < len(nums):
            j = i
            while j + 1 < len(nums) and nums[j + 1] == nums[j] + 1:
                j += 1
            self.out += b"%d %d" % (nums[i], j - i + 1) + r.choice([b"\n", b" \n", b"\r\n"])
            for k in nums[i:j + 1]:
                e = ents[k]
                self.out += b"%010d %05d %s" % (e[4][0], e[2], b"n" if e[1] == 1 else b"f") + eol
            i = j + 1
        d = {"Size": {"s": str(self.next)}}
        d.update(extra)
        self.out += b"trailer" + r.choice([b"\n", b" ", b"\r\n"]) + spelled(r, conv({"d": d}, lambda b: b)) + r.choice(EOLS)
        return off

    def section(self, kind, ents, first):
        r = self.r
        pub = lambda es: [[e[0], e[1], e[2], e[3]] for e in es]
        if kind == "stream":
            n = None
            if r.random() < .9:
                n = self.next
                self.next += 1
            else:
                self.next += 1       # its number is below Size but has no entry
            off, ents = self.xrefstream(ents, self.trailer(), n)
            s = {"tab": pub(ents.values()), "stm": []}
        elif kind == "table":
            off = self.table(ents, self.trailer())
            s = {"tab": pub(ents.values()), "stm": []}
        else:
            hid = {n: e for n, e in ents.items() if e[1] == 2}
            vis = {n: e for n, e in ents.items() if e[1] != 2}
            n = self.next
            self.next += 1
            x, hid2 = self.xrefstream(hid, {}, n)
            # the stream itself is an ordinary object as well
            off = self.table(vis, dict(self.trailer(), XRefStm={"s": str(x)}))
            s = {"tab": pub(vis.values()), "stm": pub(hid2.values())}
        for e in ents:
            self.hidden[e] = 1
        self.sections.insert(0, s)
        self.prev = off
        self.start = off
        self.out += b"startxref" + r.choice(EOLS) + b"%d" % off + r.choice(EOLS) + b"%%EOF" + (r.choice(EOLS + [b""]) if True else b"\n")
        if not self.out.endswith((b"\n", b"\r")):
            self.tail = True

    def run(self, nrev, nobj):
        r = self.r
        ver = r.choice([b"1.3", b"1.4", b"1.5", b"1.7"]) if self.style == "table" else r.choice([b"1.5", b"1.6", b"1.7"])
        if self.enc and self.enc["V"] == 5:
            ver = b"1.7"
        self.out += b"%PDF-" + ver + r.choice(EOLS)
        if r.random() < .7:
            self.out += b"%\xe2\xe3\xcf\xd3" + r.choice(EOLS)
        self.changed, self.stms, self.stmhist = set(), [], []
        nm = lambda s: {"s": "/" + s.encode().hex()}
        if self.enc:
            e = self.enc
            self.sec = pdfcrypt.make(e["V"], e["R"], e["bits"], e["method"], e["P"], e["user"], e["owner"], self.id[0], True, r)
            s = self.sec[0]
            st = lambda b: {"s": r.choice("(<") + b.hex()}
            d = {"Filter": nm("Standard"), "V": {"s": str(s.V)}, "R": {"s": str(s.R)}, "P": {"s": str(s.P)}, "O": st(s.O), "U": st(s.U)}
            if s.V == 2 and (s.n != 5 or r.random() < .5) or s.V >= 4 and r.random() < .6:
                d["Length"] = {"s": str(s.n * 8)}
            if s.V >= 4:
                cf = {"CFM": nm({"rc4": "V2", "aes128": "AESV2", "aes256": "AESV3"}[s.method]), "AuthEvent": nm("DocOpen")}
                if r.random() < .7:
                    cf["Length"] = {"s": str(s.n)}
                d.update(CF={"d": {"StdCF": {"d": cf}}}, StmF=nm("StdCF"), StrF=nm("StdCF"))
                if r.random() < .5:
                    d["EncryptMetadata"] = {"s": "true"}
            if s.V == 5:
                d.update(OE=st(s.OE), UE=st(s.UE), Perms=st(s.Perms))
            self.encref = {"d": d}
            if r.random() < .75:
                n, g = self.put({"d": d}, infra=True)
                self.encnum = n
                self.encref = {"r": "%d %d" % (n, g)}
        pg = self.put({"d": {"Type": nm("Pages"), "Kids": {"a": []}, "Count": {"s": "0"}}})
        cat = self.put({"d": {"Type": nm("Catalog"), "Pages": {"r": "%d %d" % pg}}})
        self.root = {"r": "%d %d" % cat}
        self.info = None
        if r.random() < .6:
            n, g = self.put({"d": {"Title": {"s": "(" + b"T(1)".hex()}}})
            self.info = {"r": "%d %d" % (n, g)}
        for rev in range(nrev):
            if rev:
                if self.out[-1:] not in b"\r\n":
                    self.out += b"\n"
                self.edit()
            for _ in range(nobj if rev == 0 else r.randrange(0, 4)):
                self.add()
            self.revision(rev == 0)
        return bytes(self.out)

    def nonull(self, v):
        return {"s": "1"} if v.get("s") == "null" else v

    def add(self):
        r = self.r
        k = r.random()
        data = None
        if k < .3:
            v = self.g.dict(self.refs(), 2)
            data = self.g.data()
            if len(data) > 3000:
                data = data[:r.randrange(3000)]
        elif k < .7:
            v = self.g.dict(self.refs())
        else:
            v = self.nonull(self.g.value(self.refs(), 2))
        if "r" in v:
            v = {"a": [v]}
        n, g = self.put(v, data=data)
        if r.random() < .75:
            c = int(self.root["r"].split()[0])
            self.live[c][1] = {"d": dict(self.live[c][1]["d"], **{"X%d" % n: {"r": "%d %d" % (n, g)}})}
            self.changed.add(c)

    def edit(self):
        r = self.r
        fixed = {int(self.root["r"].split()[0]), 1 if not self.encnum else self.encnum, self.encnum or 0}
        fixed |= {int(self.info["r"].split()[0])} if self.info else set()
        fixed |= {int(self.live[int(self.root["r"].split()[0])][1]["d"]["Pages"]["r"].split()[0])}
        c = [n for n, x in self.live.items() if not x[2] and n not in fixed]
        r.shuffle(c)
        for n in c[:r.randrange(0, 4)]:
            x = self.live[n]
            if r.random() < .5:
                del self.live[n]
                self.freed[n] = x[0] + 1 if r.random() < .9 else 65535
                self.changed.discard(n)
            else:
                self.live[n] = [x[0], self.nonull(self.g.dict(self.refs(), 2)), False, self.g.data()[:500] if r.random() < .3 else None]
                self.changed.add(n)
        if r.random() < .15:
            # another catalog takes over
            old = int(self.root["r"].split()[0])
            n, g = self.put({"d": dict(self.live[old][1]["d"], Moved={"s": "true"})})
            self.root = {"r": "%d %d" % (n, g)}


CRYPT = [(1, 2, 40, "rc4", "RC4V1"), (2, 3, 40, "rc4", "RC4V2"), (2, 3, 56, "rc4", "RC4V2"), (2, 3, 128, "rc4", "RC4V2"), (4, 4, 128, "rc4", "V4RC4"),
         (4, 4, 128, "aes128", "AESV2"), (5, 5, 256, "aes256", "AESV3"), (5, 6, 256, "aes256", "AESV3R6")]


def produce(rng, encrypted=False, nrev=None, nobj=None, style=None, high=False):
    """-> (event {"op": "file", ...}, producer)"""
    enc = None
    ev = {"op": "file", "enc": {"alg": "none", "user": [], "owner": [], "perm": 0, "refs": []}}
    if encrypted:
        V, R, bits, method, alg = rng.choice(CRYPT)
        u, o = rng.choice([b"", b"user", b"p" * 40]), rng.choice([b"owner", b"", b"q" * 130])
        cut = 127 if V == 5 else 32
        P = -4096 | (rng.randrange(4096) & 0xF3C) | 0xC0
        enc = {"V": V, "R": R, "bits": bits, "method": method, "P": P, "user": u[:cut], "owner": (o or u)[:cut]}
        ev["enc"] = {"alg": "RC4V2" if alg == "V4RC4" else alg, "user": list(u), "owner": list(o or u), "perm": P & 0xfff, "refs": []}
    p = Producer(rng, enc, style=style, high=high)
    b = p.run(nrev or rng.choice([1, 1, 2, 3, 4]), nobj if nobj is not None else rng.choice([2, 5, 9, 20]))
    ev["hex"] = b.hex()
    ev["revs"] = [{"tab": s["tab"], "stm": s["stm"]} for s in p.sections]
    ev["bodies"] = p.bodies
    ev["root"] = {"Root": p.root, "Info": p.info or {"s": "none"}}
    if "r" in (p.encref if enc else {}):
        ev["enc"]["refs"] = [p.encref["r"]]
    return ev, p
