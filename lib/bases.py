"""The hives that faults are placed into, and random ones."""
import os
import random
import struct

import hive


def u16(s, nul=True):
    return s.encode("utf-16-le", "surrogatepass") + (b"\0\0" if nul else b"")


def mixed(minor=5, zoo=True, seed=0):
    """Every kind of list, classes, both name encodings, a few values."""
    root = dict(n="root", vol=3, cls=u16("top", False), sub=dict(t="lf", items=[
        dict(n="aa"),
        dict(n="Bb", e="U", cls=u16("Cls", False), vol=1, sub=dict(t="ri", leaves=[
            dict(t="li", items=[dict(n="x")]),
            dict(t="lh", items=[dict(n="y", sub=dict(t="li", items=[dict(n="deep", vol=9)])), dict(n="z", vol=7)])])),
        dict(n="CC", vals=[dict(n="v", d=b"\1\2\3\4", ty=4, form="inline"),
                           dict(n="w", d=u16("hällo"), ty=1)])]))
    return hive.build(root, minor=minor, zoo=zoo, seed=seed)


def values(minor=5, zoo=False, seed=0):
    """Values of every type and storage form."""
    q = bytes(range(1, 9))
    v = [
        dict(n="", d=u16("default"), ty=1),
        dict(n="none", d=b"", ty=0, form="inline"),
        dict(n="sz3", d=b"a\0b", ty=1, form="inline"),
        dict(n="Sz", e="U", d=u16("hé\U0001F600x\ud800"), ty=2, dslack=6),
        dict(n="dw", d=b"\x78\x56\x34\xf2", ty=4),
        dict(n="dwi", d=b"\x11\x22\x33\x84", ty=4, form="inline"),
        dict(n="be", d=b"\x80\x56\x34\x12", ty=5, dslack=3),
        dict(n="bei", d=b"\x01\x02\x03\xf4", ty=5, form="inline"),
        dict(n="qw", d=q[:7] + b"\xff", ty=11),
        dict(n="multi", d=u16("one") + u16("") + u16("never"), ty=7),
        dict(n="m2", d=u16("a") + u16("b") + u16("c", False) + b"z", ty=7),
        dict(n="bin", d=bytes(range(13)), ty=3, dslack=2),
        dict(n="odd", d=b"x\0y\0z", ty=1),
        dict(n="dwx", d=b"\1\2\3\4\5", ty=4),
        dict(n="unk", d=b"\1\2\3\4", ty=12, form="inline"),
    ]
    return hive.build(dict(n="root", vals=v), minor=minor, zoo=zoo, seed=seed)


def names(seed=0):
    """Keys and values with names and classes of many shapes."""
    lat = bytes(range(0xC0, 0x100))
    ks = [
        dict(n=b"A", e="L"), dict(n=lat, e="L"), dict(n=b"", e="L"), dict(n=b"", e="U"),
        dict(n=b"b\0\xe4\0", e="U", cls=u16("class", False)),
        dict(n=b"\x3d\xd8\x00\xde", e="U", cls=b"\x00\xd8a\0"),
        dict(n=b"\x00\xdc\x00\xd8", e="U", cls=b"odd"),
        dict(n=b"d\0d", e="U", cls=b""),
        dict(n=b"e\\e", e="L", flags=0x0C, clen=3, cls=b"a\0b\0c\0", cslack=0),
        dict(n=b"f\0", e="L", flags=0x10),
        dict(n=b"\x00\xd8\x00\xd8\x00\xdc", e="U", flags=0x40),
    ]
    vs = [dict(n=lat[:9], e="L"), dict(n=b"\xff\0\x01\x30", e="U"), dict(n=b"v\0w", e="U", flags=0x20),
          dict(n=b"\x3d\xd8\x00\xde\x00\xde", e="U"), dict(n=b"", e="U"), dict(n=b"q", e="L", flags=0xFE)]
    return hive.build(dict(n="rööt".encode("latin1"), sub=dict(t="lh", items=ks), vals=vs, cls=u16("Root", False)), seed=seed)


def big(seed=0, minor=5, sizes=(16345, 32688, 32689), surplus=2, ty=3, fill=None, zoo=False):
    """Big data whose segments share one cell, so that the image stays small."""
    im = hive.Image(minor, seed=seed)
    if zoo:
        hive.add_zoo(im)
    rng = random.Random(seed)
    data = fill if fill is not None else bytes(rng.randrange(256) for _ in range(hive.SEG))
    seg = im.cell(data, "seg", 0)
    im.shared = seg
    vals = []
    for i, s in enumerate(sizes):
        n = -(-s // hive.SEG) + (surplus if i % 2 == 0 else 0)
        vals.append(dict(n="b%d" % i, ty=ty if i != 1 else 1, form="big", size=s, seg=[seg] * n))
    im.root = im.key(dict(n="root", vals=vals), "root")
    return im.done()


def bigdistinct(seed=0, size=40000, ty=3, minor=5):
    """Three segments with different contents."""
    rng = random.Random(seed)
    d = bytes(rng.randrange(256) for _ in range(size))
    return hive.build(dict(n="root", vals=[dict(n="b", ty=ty, form="big", d=d)]), minor=minor, seed=seed)


def old(seed=0, size=16400, minor=3):
    """A hive without big data: everything is in one cell."""
    rng = random.Random(seed)
    d = bytes(rng.randrange(256) for _ in range(size))
    return hive.build(dict(n="root", vals=[dict(n="b", ty=3, d=d), dict(n="s", ty=1, d=u16("text"))]), minor=minor, seed=seed)


ALPHA = ["a", "A", "b", "B", "c", "d", "z", "Z", "0", "1", "_", "~", "[", "ä", "Ä", "ß", "ÿ", "Ÿ", "é", "µ", "ı", "İ", "Ж", "ж", "ſ", "中",
         "Ω", "Ω", "\U00010428", "\U00010400", "ǆ", "ǅ", "Ǆ", "ﬁ", "ա", "Ա", "ა", "Ა", "ꭰ"]


def fold(s):
    r = []
    for c in s:
        u = c.upper()
        r += hive.units(u if len(u) == 1 and ord(u) < 0x10000 else c)
    return r


def rname(g, maxlen=4):
    return "".join(g.choice(ALPHA) for _ in range(g.randrange(1, maxlen + 1)))


def enc(g, s):
    return "L" if all(ord(c) < 256 for c in s) and g.random() < 0.6 else "U"


def names_list(g, n, order):
    out, seen = [], set()
    while len(out) < n:
        s = rname(g, 3 if n < 12 else 5)
        k = tuple(fold(s))
        if order != "dup" and k in seen:
            continue
        seen.add(k)
        out.append(s)
    if order == "sorted":
        out.sort(key=fold)
    elif order == "raw":
        out.sort(key=hive.units)
    elif order == "swap" and n > 1:
        out.sort(key=fold)
        i = g.randrange(n - 1)
        out[i], out[i + 1] = out[i + 1], out[i]
    elif order == "dup":
        out.sort(key=fold)
    return out


def klist(g, keys, kind=None):
    kind = kind or g.choice(["lf", "lh", "li", "ri", "ri"])
    if kind != "ri":
        return dict(t=kind, items=keys, slack=g.choice([0, 0, 8]))
    leaves, i = [], 0
    while i < len(keys):
        m = g.randrange(1, max(2, min(len(keys) - i, 5) + 1))
        leaves.append(dict(t=g.choice(["lf", "lh", "li"]), items=keys[i:i + m]))
        i += m
    return dict(t="ri", leaves=leaves)


def rdata(g, ty):
    if ty in (1, 2, 7):
        s = "".join(g.choice(["a", "b", "\0", "é", "\U0001F600", "\ud800", "\udc00", "中"]) for _ in range(g.randrange(0, 9)))
        return s.encode("utf-16-le", "surrogatepass") + bytes(g.randrange(2))
    return bytes(g.randrange(256) for _ in range(g.choice([0, 1, 3, 4, 4, 5, 7, 8, 8, 9, 12])))


def rvalue(g):
    ty = g.choice([0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 11, 11, 12])
    n = g.choice(["", rname(g), rname(g), rname(g, 2)])
    d = rdata(g, ty)
    form = "inline" if len(d) <= 4 and g.random() < 0.5 else "cell"
    return dict(n=n, e=enc(g, n), ty=ty, d=d, form=form, dslack=g.choice([0, 0, 1, 5]), flags=g.choice([0, 0, 2, 0x10]))


def rkey(g, depth, n=None):
    n = n or rname(g)
    k = dict(n=n, e=enc(g, n), vol=g.choice([0, 0, 1, 300, 1 << 31]), flags=g.choice([0, 0, 0x0C, 0x10, 0x80]))
    if g.random() < 0.3:
        k["cls"] = rname(g).encode("utf-16-le")
    if depth > 0 and g.random() < 0.8:
        m = g.choice([0, 1, 2, 3, 5, 8]) if depth < 3 else g.randrange(1, 7)
        order = g.choice(["sorted", "sorted", "sorted", "raw", "swap", "dup"])
        k["sub"] = klist(g, [rkey(g, depth - 1, s) for s in names_list(g, m, order)])
        if not k["sub"].get("items", True) and k["sub"]["t"] == "ri":
            k["sub"] = None
    if g.random() < 0.4:
        k["vals"] = [rvalue(g) for _ in range(g.randrange(0, 5))]
    return k


def rnd(seed, depth=3, zoo=None):
    g = random.Random(seed)
    return hive.build(rkey(g, depth, "root"), minor=g.choice([3, 4, 5, 6]), pad=g.random() < 0.3, seed=seed,
                      zoo=g.random() < 0.3 if zoo is None else zoo)


def twins(seed):
    """Few names, many equal lists and cells: structures that only their places tell apart."""
    g = random.Random(seed)
    names = sorted(g.sample(["a", "B", "c", "dd", "Ä", "eeee", "f" * 12], 4), key=fold)
    form = g.choice(["lf", "lh", "li", "ri", "ri"])
    data = [dict(n=n, ty=ty, d=d, form=f, junk=False) for n, ty, d, f in
            [("v", 4, b"\1\2\3\4", "inline"), ("V2", 1, u16("text"), "cell"), ("", 7, u16("one") + u16("two") + u16("", False), "cell"),
             ("w", 11, b"12345678", "cell"), ("x", 5, b"\4\3\2\1", "inline")]]

    def node(n, depth):
        k = dict(n=n, e=enc(g, n) if depth else "L", junk=False, vol=g.choice([0, 0, 5]))
        if depth:
            k["sub"] = klist(g, [node(x, depth - 1) for x in names[:g.choice([2, 3, 3, 4])]], form)
        if g.random() < 0.6:
            k["vals"] = [dict(v) for v in data[g.randrange(3):g.choice([3, 5])]]
            if g.random() < 0.3:
                g.shuffle(k["vals"])
        return k
    return hive.build(node("root", g.choice([2, 2, 3])), minor=g.choice([3, 5]), seed=seed)


def long_list(seed, n=40, kind=None, order="sorted"):
    """One key with many subkeys."""
    g = random.Random(seed)
    ns = names_list(g, n, order)
    return hive.build(dict(n="root", sub=klist(g, [dict(n=s, e=enc(g, s)) for s in ns], kind)), seed=seed), ns


class Real(hive.Image):
    """A hive file written by Windows; its fields are located for the fault generators."""

    def __init__(self, path):
        super().__init__()
        raw = open(path, "rb").read()
        self.head, self.d = raw[:512], bytearray(raw[4096:])
        self.keys = []           # (path as a list of names, value names)
        self.paths = {}          # what -> path
        self.seen = set()
        self.locate(struct.unpack_from("<I", raw, 36)[0], "root", [])

    def header(self, **over):
        return bytes(self.head)

    def u16(self, p):
        return struct.unpack_from("<H", self.d, p)[0]

    def u32(self, p):
        return struct.unpack_from("<I", self.d, p)[0]

    def mark(self, off, what):
        if off in self.seen:
            return False
        self.seen.add(off)
        self.fields.append((what + ".cell", off, 4, "cell"))
        self.cells.append((off, -struct.unpack_from("<i", self.d, off)[0], what))
        return True

    def text(self, p, n, latin):
        b = bytes(self.d[p:p + n])
        return b.decode("latin-1" if latin else "utf-16-le", "replace")

    def locate(self, off, what, path):
        if not self.mark(off, what):
            return
        b = off + 4
        for f, p, s, k in (("sig", 0, 2, "sig"), ("flags", 2, 2, "kflags"), ("vol", 24, 4, "vol"), ("sub", 28, 4, "off"), ("nval", 36, 4, "count32"),
                           ("vals", 40, 4, "off"), ("cls", 48, 4, "off"), ("len", 72, 2, "len16"), ("clen", 74, 2, "len16"),
                           ("junk2", 52, 4, "junk")):
            self.field(what + "." + f, b + p, s, k)
        vs = []
        if self.u32(b + 40) != hive.NIL and self.u32(b + 36):
            lo = self.u32(b + 40)
            self.mark(lo, what + ".vlist")
            for i in range(self.u32(b + 36)):
                self.field("%s.vlist%d" % (what, i), lo + 4 + 4 * i, 4, "off")
                vs.append(self.value_fields(self.u32(lo + 4 + 4 * i), "%s.v%d" % (what, i)))
        self.keys.append((path, vs))
        self.paths[what] = path
        if self.u32(b + 28) != hive.NIL:
            self.list_fields(self.u32(b + 28), what, path)

    def list_fields(self, lo, what, path):
        self.mark(lo, what + ".list")
        self.field(what + ".lsig", lo + 4, 2, "sig")
        self.field(what + ".lcount", lo + 6, 2, "count16")
        sig = bytes(self.d[lo + 4:lo + 6])
        step = 8 if sig in (b"lf", b"lh") else 4
        for i in range(self.u16(lo + 6)):
            p = lo + 8 + step * i
            self.field("%s.item%d" % (what, i), p, 4, "off")
            o = self.u32(p)
            if sig == b"ri":
                self.list_fields(o, "%s.%d" % (what, i), path)
            else:
                n = self.text(o + 4 + 76, self.u16(o + 4 + 72), self.u16(o + 4 + 2) & 0x20)
                self.locate(o, "%s/%d" % (what, i), path + [n])

    def value_fields(self, off, what):
        self.mark(off, what)
        b = off + 4
        size = self.u32(b + 4)
        for f, p, s, k in (("sig", 0, 2, "sig"), ("len", 2, 2, "len16"), ("size", 4, 4, "dsize"), ("data", 8, 4, "off"), ("type", 12, 4, "type"),
                           ("flags", 16, 2, "vflags")):
            self.field(what + "." + f, b + p, s, k if (f, size >> 31) != ("data", 1) else "junk")
        if not size >> 31:
            c = self.u32(b + 8)
            self.mark(c, what + ".data")
            if size > hive.SEG:
                self.field(what + ".dbsig", c + 4, 2, "sig")
                self.field(what + ".nseg", c + 6, 2, "count16")
                self.field(what + ".slist", c + 8, 4, "off")
                lo = self.u32(c + 8)
                self.mark(lo, what + ".slist")
                for i in range(self.u16(c + 6)):
                    self.field("%s.seg%d" % (what, i), lo + 4 + 4 * i, 4, "off")
                    self.mark(self.u32(lo + 4 + 4 * i), "%s.seg%d" % (what, i))
        return self.text(b + 20, self.u16(b + 2), self.u16(b + 16) & 1)


def real():
    p = "/repo/testdata/testhive"
    return Real(p) if os.path.exists(p) else None
