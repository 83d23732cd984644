"""Builds hive images from abstract descriptions.

Nothing here judges anything: it only lays out bytes and remembers where every field went, so that
generators can place faults.  The meaning of the bytes is defined by spec/HiveFormat.tla alone.

A key is a dict:   n (name), e ("L"/"U"), flags (other flag bits), vol, sub (list or None), vals (list or None),
                   cls (bytes or None), junk (True: random bytes in the fields the reader must ignore)
A list is a dict:  t ("lf"/"lh"/"li"), items [key | {"ref": off} | {"same": label}]   or   t "ri", leaves [list | ...]
A value is a dict: n, e, flags, ty, d (bytes), form ("inline"/"cell"/"big"), seg (segments, see below)
Names are lists of UTF-16 code units or strings.
"""
import itertools
import random
import struct

NIL = 0xFFFFFFFF
SEG = 16344


def units(n):
    if isinstance(n, str):
        b = n.encode("utf-16-le", "surrogatepass")
        return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
    return list(n)


def name_bytes(n, e):
    if isinstance(n, (bytes, bytearray)):
        return bytes(n)
    u = units(n)
    if e == "L":
        return bytes(u)
    return b"".join(struct.pack("<H", x) for x in u)


def query_hex(n):
    """A query string as hex UTF-8 ("-" when empty); surrogates must be paired."""
    s = n if isinstance(n, str) else b"".join(struct.pack("<H", x) for x in n).decode("utf-16-le")
    return s.encode().hex() or "-"


class Image:
    def __init__(self, minor=5, pad=False, seed=0):
        self.d = bytearray()
        self.fields = []          # (name, pos, size, kind): where a field of the data lies
        self.cells = []           # (pos, size, what)
        self.labels = {}
        self.rng = random.Random(seed)
        # 5 stands for any version with big data
        self.minor = random.Random("%s" % seed).choice([4, 5, 5, 6]) if minor == 5 else minor
        self.pad = pad
        self.hdr = {}
        self.seq = random.Random("%s seq" % seed).choice([1, 2, 0x1234, 0x80000001, 0xFFFFFFFF])
        self.root = NIL
        self.extra_hdr = None

    # ---- cells -----------------------------------------------------------
    def cell(self, body, what, slack=0, junk=True):
        """Appends an allocated cell and returns its offset; pads to a multiple of 8."""
        size = 4 + len(body) + slack
        size += -size % 8
        off = len(self.d)
        self.d += struct.pack("<i", -size) + bytes(body)
        self.d += bytes(self.rng.randrange(256) if junk else 0 for _ in range(off + size - len(self.d)))
        self.fields.append((what + ".cell", off, 4, "cell"))
        self.cells.append((off, size, what))
        return off

    def raw(self, data):
        off = len(self.d)
        self.d += data
        return off

    def field(self, what, pos, size, kind):
        self.fields.append((what, pos, size, kind))

    def put32(self, pos, v):
        self.d[pos:pos + 4] = struct.pack("<I", v & NIL)

    def odd_flags(self, without):
        """Flag bits the reader must not care about: mostly none, else one, two or any."""
        k = self.rng.randrange(8)
        bit = lambda: 1 << self.rng.randrange(16)
        return (0 if k < 3 else bit() if k < 6 else bit() | bit() if k == 6 else self.rng.randrange(65536)) & ~without

    def shuffle(self, keep=0):
        """Puts the cells in another order; references follow."""
        starts = sorted({keep} | {o for o, _, _ in self.cells if o >= keep} | {o + n for o, n, _ in self.cells if o >= keep and o + n <= len(self.d)})
        blocks = [(a, b) for a, b in zip(starts, starts[1:] + [len(self.d)]) if a < b]
        order = list(blocks)
        self.rng.shuffle(order)
        new, at = {}, keep
        for a, b in order:
            new[a] = at
            at += b - a
        import bisect
        firsts = [a for a, _ in blocks]

        def move(x):
            if not firsts or x < keep or x >= len(self.d):
                return x
            a = firsts[bisect.bisect(firsts, x) - 1]
            return new[a] + x - a
        offs = [(p, struct.unpack_from("<I", self.d, p)[0]) for _, p, n, kind in self.fields if kind == "off" and n == 4]
        for p, v in offs:
            self.put32(p, move(v))
        self.d[keep:] = b"".join(bytes(self.d[a:b]) for a, b in order)
        self.fields = [(w, move(p), n, kind) for w, p, n, kind in self.fields]
        self.cells = [(move(o), n, w) for o, n, w in self.cells]
        self.labels = {k: move(o) for k, o in self.labels.items()}
        self.root = move(self.root)

    # ---- keys ------------------------------------------------------------
    def key(self, k, what="key"):
        nb = name_bytes(k.get("n", ""), k.get("e", "L"))
        flags = k.get("flags", self.odd_flags(0x20) if k.get("junk", True) else 0) & ~0x20 | (0x20 if k.get("e", "L") == "L" else 0)
        body = bytearray(76)
        junk = k.get("junk", True)
        if junk:
            body[:] = bytes(self.rng.randrange(256) for _ in range(76))
        body[0:2] = b"nk"
        struct.pack_into("<H", body, 2, flags)
        struct.pack_into("<I", body, 24, k.get("vol", 0))
        struct.pack_into("<I", body, 28, NIL)
        struct.pack_into("<I", body, 32, NIL)
        nv = len(k["vals"]) if k.get("vals") else 0
        struct.pack_into("<I", body, 36, k.get("count", nv))
        struct.pack_into("<I", body, 40, NIL)
        struct.pack_into("<I", body, 48, NIL)
        struct.pack_into("<H", body, 72, k.get("len", len(nb)))
        cls = k.get("cls")
        struct.pack_into("<H", body, 74, k.get("clen", len(cls) if cls is not None else (self.rng.randrange(99) if junk else 0)))
        off = self.cell(bytes(body) + nb, what, k.get("slack", 0), junk)
        b = off + 4
        self.field(what + ".sig", b, 2, "sig")
        self.field(what + ".flags", b + 2, 2, "kflags")
        self.field(what + ".junk1", b + 4, 4, "junk")
        self.field(what + ".nsub", b + 20, 4, "junk")
        self.field(what + ".vol", b + 24, 4, "vol")
        self.field(what + ".sub", b + 28, 4, "off")
        self.field(what + ".vsub", b + 32, 4, "junkoff")
        self.field(what + ".nval", b + 36, 4, "count32")
        self.field(what + ".vals", b + 40, 4, "off")
        self.field(what + ".sec", b + 44, 4, "junkoff")
        self.field(what + ".cls", b + 48, 4, "off")
        self.field(what + ".junk2", b + 52, 4, "junk")
        self.field(what + ".len", b + 72, 2, "len16")
        self.field(what + ".clen", b + 74, 2, "len16")
        if len(nb):
            self.field(what + ".name", b + 76, min(2, len(nb)), "text")
        if "label" in k:
            self.labels[k["label"]] = off
        if cls is not None:
            c = self.cell(cls, what + ".class", k.get("cslack", 0))
            self.put32(b + 48, c)
        if k.get("vals") is not None:
            offs = [self.value(v, "%s.v%d" % (what, i)) for i, v in enumerate(k["vals"])]
            lo = self.cell(b"".join(struct.pack("<I", x) for x in offs), what + ".vlist", k.get("vslack", 0))
            for i in range(len(offs)):
                self.field("%s.vlist%d" % (what, i), lo + 4 + 4 * i, 4, "off")
            self.put32(b + 40, lo)
        if k.get("sub") is not None:
            self.put32(b + 28, self.list(k["sub"], what))
        return off

    def list(self, l, what):
        if "ref" in l:
            return l["ref"]
        sig = l["t"].encode()
        if l["t"] == "ri":
            offs = [self.list(x, "%s.%d" % (what, i)) for i, x in enumerate(l["leaves"])]
            step = 4
        else:
            offs = []
            for i, x in enumerate(l["items"]):
                if "ref" in x:
                    offs.append(x["ref"])
                elif "same" in x:
                    offs.append(self.labels[x["same"]])
                else:
                    offs.append(self.key(x, "%s/%d" % (what, i)))
            step = 4 if l["t"] == "li" else 8
        body = bytearray(sig + struct.pack("<H", l.get("count", len(offs)) & 0xFFFF))
        for x in offs:
            body += struct.pack("<I", x)
            if step == 8:
                body += bytes(self.rng.randrange(256) for _ in range(4))
        lo = self.cell(bytes(body), what + "." + l["t"], l.get("slack", 0))
        self.field(what + ".lsig", lo + 4, 2, "sig")
        self.field(what + ".lcount", lo + 6, 2, "count16")
        for i in range(len(offs)):
            self.field("%s.item%d" % (what, i), lo + 8 + step * i, 4, "off")
            if step == 8:
                self.field("%s.hint%d" % (what, i), lo + 12 + step * i, 4, "junk")
        return lo

    # ---- values ----------------------------------------------------------
    def value(self, v, what):
        if "ref" in v:
            return v["ref"]
        nb = name_bytes(v.get("n", ""), v.get("e", "L"))
        d = v.get("d", b"")
        form = v.get("form", "cell")
        junk = v.get("junk", True)
        body = bytearray(20)
        body[0:2] = b"vk"
        struct.pack_into("<H", body, 2, v.get("len", len(nb)))
        size = v.get("size", len(d))
        if form == "inline":
            size |= 0x80000000
            body[8:12] = (d + bytes(self.rng.randrange(256) if junk else 0 for _ in range(4)))[:4]
        struct.pack_into("<I", body, 4, size & NIL)
        struct.pack_into("<I", body, 12, v.get("ty", 3))
        struct.pack_into("<H", body, 16, v.get("flags", self.odd_flags(1) if v.get("junk", True) else 0) & ~1 | (1 if v.get("e", "L") == "L" else 0))
        struct.pack_into("<H", body, 18, self.rng.randrange(65536) if junk else 0)
        off = self.cell(bytes(body) + nb, what, v.get("slack", 0), junk)
        b = off + 4
        self.field(what + ".sig", b, 2, "sig")
        self.field(what + ".len", b + 2, 2, "len16")
        self.field(what + ".size", b + 4, 4, "dsize")
        self.field(what + ".data", b + 8, 4, "off" if form != "inline" else "junk")
        self.field(what + ".type", b + 12, 4, "type")
        self.field(what + ".flags", b + 16, 2, "vflags")
        self.field(what + ".spare", b + 18, 2, "junk16")
        if form == "cell":
            o = v["doff"] if "doff" in v else self.cell(d, what + ".data", v.get("dslack", 0))
            self.put32(b + 8, o)
        elif form == "big":
            self.put32(b + 8, self.big(v, d, what))
        return off

    def big(self, v, d, what):
        """seg: list of per-segment overrides, or None: split d into segments of 16344 bytes."""
        seg = v.get("seg")
        if seg is None:
            offs = [self.cell(d[i:i + SEG], "%s.seg%d" % (what, i // SEG), v.get("sslack", 0))
                    for i in range(0, len(d), SEG)]
        else:
            offs = list(seg)
        lo = self.cell(b"".join(struct.pack("<I", x & NIL) for x in offs), what + ".slist", v.get("lslack", 0))
        body = b"db" + struct.pack("<HI", v.get("nseg", len(offs)), lo)
        ho = self.cell(body, what + ".db")
        self.field(what + ".dbsig", ho + 4, 2, "sig")
        self.field(what + ".nseg", ho + 6, 2, "count16")
        self.field(what + ".slist", ho + 8, 4, "off")
        for i in range(len(offs)):
            self.field("%s.seg%d" % (what, i), lo + 4 + 4 * i, 4, "off")
        return ho

    # ---- the whole -------------------------------------------------------
    def header(self, **over):
        h = bytearray(512)
        h[0:4] = b"regf"
        f = dict(p=1, s=1, ts=0x01D0AABBCCDDEEFF, maj=1, min=self.minor, type=0, fmt=1, root=self.root,
                 size=len(self.d) // 4096 * 4096, clus=1)
        if "p" not in over and "s" not in over and "p" not in self.hdr:
            f["p"] = f["s"] = self.seq
        f.update(self.hdr)
        f.update({k: x for k, x in over.items() if k not in ("sum", "sig", "sumx")})
        if "sig" in over:
            h[0:4] = over["sig"]
        struct.pack_into("<IIQIIIIIII", h, 4, f["p"], f["s"], f["ts"], f["maj"], f["min"], f["type"], f["fmt"],
                         f["root"] & NIL, f["size"], f["clus"])
        for i in range(32):
            struct.pack_into("<H", h, 48 + 2 * i, self.rng.randrange(65536) if f.get("jn", 1) else 0)
        x = 0
        for i in range(127):
            x ^= struct.unpack_from("<I", h, 4 * i)[0]
        x = 1 if x == 0 else 0xFFFFFFFE if x == NIL else x
        struct.pack_into("<I", h, 508, over.get("sum", x ^ over.get("sumx", 0)))
        return bytes(h)

    def done(self):
        if self.pad:
            free = -len(self.d) % 4096
            if free:
                self.d += struct.pack("<i", free) + bytes(free - 4)
        return self


def build(root, minor=5, pad=False, seed=0, zoo=False, shuffle=None):
    im = Image(minor, pad, seed)
    if zoo:
        add_zoo(im)
    keep = len(im.d)
    im.root = im.key(root, "root")
    if shuffle if shuffle is not None else random.Random("%s order" % seed).random() < 0.5:
        im.shuffle(keep)
    return im.done()


def add_zoo(im):
    """Cells that references must not be followed to, and odd ones that they may."""
    z = {}
    z["pre"] = im.raw(bytes(8))                                   # a zero cell size
    z["free"] = im.raw(struct.pack("<i", 16) + b"nk" + bytes(10))  # unallocated
    z["mis"] = im.raw(struct.pack("<i", -12) + b"vk" + bytes(10))  # misaligned size
    z["tiny"] = im.raw(struct.pack("<i", -4) + bytes(4))           # smaller than aligned
    z["empty"] = im.cell(b"", "zoo.empty")
    z["huge"] = im.raw(struct.pack("<i", -2147483648) + b"lf" + bytes(2))
    z["one"] = im.raw(struct.pack("<i", -1) + bytes(4))
    z["max"] = im.raw(struct.pack("<i", 2147483647) + bytes(4))
    im.zoo = z
    return z


class Out:
    """Scenario text for the harness; every image and session has a name of its own."""
    names = itertools.count(1)

    def __init__(self):
        self.lines = []

    @property
    def n(self):
        return next(Out.names)

    def image(self, im, hdr=None, total=None, data=None):
        d = bytes(im.d) if data is None else bytes(data)
        h = im.header() if hdr is None else hdr
        self.total = 4096 + len(d) if total is None else total
        self.lines.append("I i%d %d %s %s" % (self.n, 4096 + len(d) if total is None else total, h.hex(), d.hex() or "-"))

    def patch(self, patches=(), hpatches=(), total=None, tag=""):
        f = lambda ps: ";".join("%d:%s" % (p, bytes(b).hex()) for p, b in ps if len(b)) or "-"
        self.lines.append("P p%d%s %d %s %s" % (self.n, tag, self.total if total is None else total, f(hpatches), f(patches)))

    def session(self, ops, kind="s", align=0, place="h", tag=""):
        self.lines.append("S s%d%s %s %d %s" % (self.n, tag, kind, align, place))
        self.lines.extend(ops)

    def fuzz(self, seed, count):
        self.lines.append("F f%d %d %d" % (self.n, seed, count))

    def text(self):
        return "\n".join(self.lines) + "\n"
