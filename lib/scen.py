"""Turns what the design models export into images and calls.  Layout only: nothing here judges."""
import random

import bases
import hive

KINDS = ["s", "m", "r", "g"]
PLACES = "hkt"


def chunked(xs, n):
    k = max(1, -(-len(xs) // n))
    return [xs[i:i + k] for i in range(0, len(xs), k)]


# ------------------------------------------------------------------ C02 (MCHeader)
def headers(ctx, exports, data_len, parts=16):
    im = bases.mixed()
    data = (bytes(im.d) + bytes(data_len))[:data_len]
    g = random.Random(ctx.seed)
    rest = bytes(g.randrange(256) for _ in range(4096 - 512))
    for part in chunked(exports, parts):
        o = hive.Out()
        o.image(im, hdr=bytes(part[0]["h"]) + rest, total=4096 + data_len, data=data)
        for i, e in enumerate(part):
            o.patch(hpatches=[(0, bytes(e["h"]))], total=e["n"])
            o.session(["validate", "ver"], KINDS[i % 4], i % 8, PLACES[i % 3])
        ctx.add(o.text(), 100 * len(part))
    # bytes of the base block after the checksum have no meaning
    ok = [e for e in exports if e["v"] == "ok"]
    o = hive.Out()
    o.image(im, hdr=bytes(ok[0]["h"]) + rest, total=ok[0]["n"], data=data)
    for i, p in enumerate(list(range(512, 4096, 97)) + [512, 515, 4087, 4088, 4091, 4092, 4095]):
        o.patch(hpatches=[(p, bytes([rest[p - 512] ^ 0xFF]))])
        o.session(["validate", "ver"], KINDS[i % 4], i % 8, PLACES[i % 3])
    ctx.add(o.text(), 100 * 50)


# ------------------------------------------------------------------ subkeys lists (ListShapes)
TRICKY = (["a", "B", "c", "Z", "z0", "_", "~", "[", "^", "`", "{", "0", "1", "10", "2", "aa", "AB", "Ab c", "ä", "ÄX", "ß", "ÿ", "Ÿ", "é", "µ",
           "ı", "i", "I", "İ", "Ж", "ж1", "ſ", "中", "Ω", "Ω", "K", "k", "Å", "å", "\U00010428", "\U00010400", "\U0001F600", "ǆ", "ǅ", "ﬁ",
           "ա", "ა", "ꭰ", "Ａ", "ａ1", "\uE000", "\uFFFD", "\uFFFF", "key1", "key10", "key2", "Key", "KEYS", "a\0", "\x01", "\x7f", "\x80", "\xa0",
           "\xad", "×", "÷", "\u0100", "\u0130", "\u1e9e", "\u2126", "\uD7FF", "\u0345", "\u03c2", "\u03c3", "\u1c88", "\ua64b"])


def ladder(g, n):
    """n names in strictly ascending registry order, with odd cases near each other."""
    seen, out = set(), []
    pool = TRICKY + [g.choice(TRICKY) + g.choice(TRICKY) for _ in range(2 * n + 20)]
    g.shuffle(pool)
    common = g.choice(["", "", "pre", "ÄÖ"])
    for s in pool:
        s = common + s
        k = tuple(bases.fold(s))
        if k not in seen and "\\" not in s:
            seen.add(k)
            out.append(s)
        if len(out) == n:
            break
    assert len(out) == n
    return sorted(out, key=bases.fold)


def recase(g, s):
    """The same name in another case."""
    r = []
    for c in s:
        o = [x for x in (c, c.upper(), c.lower()) if len(x) == 1 and bases.fold(x) == bases.fold(c)]
        r.append(g.choice(o))
    return "".join(r)


def bad_ref(g, im):
    z = im.zoo
    return g.choice([z["free"], z["mis"], z["tiny"], z["empty"], z["huge"], z["pre"], z["max"], 0xFFFFFFFF, 0x7FFFFFF8, 0x80000000])


def key_list(g, im, shape, names):
    """The builder's description of an abstract list."""
    def item(x):
        if x == 0:
            return dict(ref=bad_ref(g, im))
        s = recase(g, names[abs(x)])
        k = dict(n=s, e=bases.enc(g, s))
        if x < 0:
            k["len"] = 0xFFFF if g.random() < 0.3 else len(hive.name_bytes(k["n"], k["e"])) + 8
        return k

    def leaf(f):
        t = g.choice(["lf", "lh", "li"])
        if f["t"] == "ok":
            return dict(t=t, items=[item(x) for x in f["i"]], slack=g.choice([0, 0, 8]))
        if f["t"] == "empty":
            return dict(t=t, items=[], slack=g.choice([0, 8]))
        if f["t"] == "nested":
            return dict(t="ri", leaves=[dict(t=t, items=[item(1)])])
        if f["t"] == "junk":
            return dict(t=g.choice(["xx", "lg", "Lf", "il", "\0\0", "nk"]), items=[item(1)])
        if f["t"] == "over":
            return dict(t=t, items=[item(1)], count=g.choice([3, 300, 0xFFFF, 0x4000]))
        return dict(ref=bad_ref(g, im))
    if shape["form"] == "leaf":
        return leaf(shape["l"][0])
    return dict(t="ri", leaves=[leaf(f) for f in shape["l"]], slack=g.choice([0, 0, 8]))


def list_image(ctx, shape, salt):
    g = random.Random("%d list %d" % (ctx.seed, salt))
    names = ladder(g, max([shape.get("top", 12), 2] + [abs(x) for f in shape["l"] for x in f["i"]]) + 1)
    im = hive.Image(5, seed=salt)
    hive.add_zoo(im)
    im.root = im.key(dict(n="root", sub=key_list(g, im, shape, names)), "root")
    return im.done(), names, g


def lookups(ctx, shapes, parts=24):
    for part in chunked(list(enumerate(shapes)), parts):
        o = hive.Out()
        w = 0
        for i, sh in part:
            im, names, g = list_image(ctx, sh, i)
            o.image(im)
            qs = [recase(g, names[k]) for k in range(sh["top"] + 1)]
            o.session(["root 1"] + ["subkey 1 %s 2" % hive.query_hex(q) for q in qs], KINDS[i % 4] if i % 5 == 0 else "s", i % 8)
            w += 60 + 10 * len(qs)
        ctx.add(o.text(), w)


def enumerations(ctx, shapes, parts=24):
    for part in chunked(list(enumerate(shapes)), parts):
        o = hive.Out()
        for i, sh in part:
            im, names, g = list_image(ctx, sh, i)
            n = sum(max(1, len(f["i"])) for f in sh["l"])
            o.image(im)
            o.session(["root 1", "subkeys 1 2"] + ["next 2 3"] * (n + 2) + ["subkeys 1 4", "nth 4 %d 5" % g.randrange(n + 1)] + ["next 4 5"] * 2,
                      KINDS[i % 4] if i % 5 == 0 else "s", i % 8)
        ctx.add(o.text(), 200 * len(part))


def long_leaf(ctx, forms):
    """Lists with far more than 32767 items (the count field goes to 65535); few keys, listed again and again in order."""
    for n, form in enumerate(forms):
        g = random.Random("%d long %d" % (ctx.seed, n))
        names = ladder(g, 9)
        im = hive.Image(5, seed=n)
        keys = [im.key(dict(n=names[k], e=bases.enc(g, names[k])), "k%d" % k) for k in (1, 3, 5, 7)]
        counts = [20000, 20000, 1, 15000 + 10535 * (n % 2)]
        items = [dict(ref=k) for k, c in zip(keys, counts) for _ in range(c)]
        if form == "ri":
            l = dict(t="ri", leaves=[dict(t="li", items=items[:40000]), dict(t="li", items=items[40000:])])
        else:
            l = dict(t=form, items=items)
        fields = im.fields
        im.root = im.key(dict(n="root", sub=l), "root")
        im.fields = fields
        im.done()
        o = hive.Out()
        o.image(im)
        o.session(["root 1"] + ["subkey 1 %s 2" % hive.query_hex(recase(g, names[k])) for k in range(9)] +
                  ["subkeys 1 3", "hint 3", "nth 3 39999 4", "next 3 4", "next 3 4", "hint 3"])
        ctx.add(o.text(), 60000)


# ------------------------------------------------------------------ iterators (MCIter)
TOKENS = {"max": (1 << 64) - 1, "max2": 1 << 63, "max4": 1 << 62, "max8": 1 << 61}


def overlapping_segments(im, g, n):
    """n cells of one segment each, 8 bytes apart: different slices that share their bytes."""
    b = bytearray(g.randrange(256) for _ in range(hive.SEG + 8 * n + 8))
    for i in range(n):
        b[8 * i:8 * i + 4] = ((1 << 32) - (hive.SEG + 8)).to_bytes(4, "little")
    o = im.raw(bytes(b))
    return [o + 8 * i for i in range(n)]


def stretch(g, piece, units):
    """A piece of model text (0 = NUL, 1 = something else) as exactly that many code units."""
    out, first = [], True
    for x in piece:
        if x == 1:
            run = units - len(piece) + 1 if first and units else 1
            out += [g.choice([0x61, 0xE9, 0xD83D, 0xDE00, 0x4E2D]) for _ in range(run)]
            first = False
        else:
            out.append(0)
    return out + [0] * (units - len(out))


def iter_image(g, c, step, salt):
    """The image, and the calls that open the iterator in slot 5 (handles 1, 2)."""
    im = hive.Image(5, seed=salt)
    hive.add_zoo(im)
    names = ladder(g, 30)
    keys = iter(names)
    sub = lambda n, f: [dict(ref=bad_ref(g, im)) if g.random() < f else dict(n=next(keys)) for _ in range(n)]
    fk = g.choice([0, 0.3])
    enc_all = lambda l: [dict(x, e=bases.enc(g, x["n"])) if "n" in x else x for x in l]
    if c["k"] == "list" and c.get("of") == "values":
        vals = [dict(ref=bad_ref(g, im)) if g.random() < fk else dict(n="v%d" % i, d=b"\1") for i in range(c["n"])]
        im.root = im.key(dict(n="root", vals=vals, vslack=g.choice([0, 8])), "root")
        return im.done(), ["root 1"], "values 1 5"
    if c["k"] == "list":
        l = dict(t=g.choice(["lf", "lh"]) if c["s"] == 8 else "li", items=enc_all(sub(c["n"], fk)), slack=g.choice([0, 8]))
        im.root = im.key(dict(n="root", sub=l), "root")
        return im.done(), ["root 1"], "subkeys 1 5"
    if c["k"] == "root":
        leaves = [dict(t=g.choice(["lf", "lh", "li"]), items=enc_all(sub(n, fk)), slack=g.choice([0, 8])) if n else
                  g.choice([dict(ref=bad_ref(g, im)), dict(t="li", items=[]), dict(t="ri", leaves=[])]) for n in c["l"]]
        im.root = im.key(dict(n="root", sub=dict(t="ri", leaves=leaves)), "root")
        return im.done(), ["root 1"], "subkeys 1 5"
    if c["k"] == "big":
        n, m = c["n"], c["m"]
        rem = n % step
        size = n // step * hive.SEG + (0 if rem == 0 else 1 if rem == 1 else hive.SEG - 1 if rem == step - 1 else g.randrange(2, hive.SEG - 1))
        seg = overlapping_segments(im, g, m)
        seg = [bad_ref(g, im) if g.random() < fk else s for s in seg]
        v = dict(n="v", ty=3, form="big", size=size, seg=seg)
        opened = ["root 1", "values 1 2", "next 2 3"], "vdata 3 5"
    else:
        p = c["p"]
        if len(p) == 1:
            d = b"".join(x.to_bytes(2, "little") for x in stretch(g, p[0], 0)) + bytes(g.randrange(2))
            v = dict(n="v", ty=7, d=d, dslack=3)
        else:
            seg = []
            for q in p[:-1]:
                seg.append(bad_ref(g, im) if q == [2] else
                           im.cell(b"".join(x.to_bytes(2, "little") for x in stretch(g, q, hive.SEG // 2)), "seg"))
            last = b"".join(x.to_bytes(2, "little") for x in stretch(g, p[-1], 0)) + bytes(g.randrange(2))
            seg.append(im.cell(last, "seg"))
            v = dict(n="v", ty=7, form="big", size=hive.SEG * (len(p) - 1) + len(last), seg=seg)
        opened = ["root 1", "values 1 2", "next 2 3"], "vmulti 3 5"
    im.root = im.key(dict(n="root", vals=[v]), "root")
    return im.done(), opened[0], opened[1]


def distance(c, op, top, step):
    """The machine's counterpart of a distance in the model's small words."""
    if op < 4:
        return str(op)
    if op == top:
        return "max"
    if c["k"] == "list":
        q = (1 << 64) // c["s"]
        return str(q if op == (top + 1) // c["s"] else q - 1)
    if op == top // step or op == top // step + 1:
        return str(((1 << 64) - 1) // hive.SEG + (op - top // step))
    return str((1 << 62) if op == (top + 1) // 4 else (1 << 62) - 1)


def iterators(ctx, exports, top, step, texts):
    by = {}
    for e in exports:
        by.setdefault(repr(e["c"]), (e["c"], []))[1].append(e["h"])
    jobs = []
    g = random.Random("%d iterators" % ctx.seed)
    for c, hs in by.values():
        if c["k"] == "list":
            jobs.append((c, hs))
            if c["s"] == 4:
                jobs.append((dict(c, of="values"), hs))
        elif c["k"] == "multi" and len(c["p"]) > 1:
            if texts and g.random() < texts[0]:
                jobs.append((c, g.sample(hs, min(len(hs), texts[1]))))
        else:
            jobs.append((c, hs))
    for i, (c, hs) in enumerate(jobs):
        im, first, opening = iter_image(g, c, step, i)
        exact = c["k"] in ("list", "big")
        for part in chunked(hs, 1 + len(hs) // 400):
            ops = list(first)
            for h in part:
                ops.append(opening)
                for op in h:
                    ops.append("next 5 4" if op == -1 else "nth 5 %s 4" % distance(c, op, top, step))
                ops += ["hint 5"] + (["len 5"] if exact else []) + ["clone 5 6", "last 6 4", "clone 5 6", "count 6", "next 5 4", "hint 5"]
            o = hive.Out()
            o.image(im)
            o.session(ops, KINDS[i % 4] if i % 3 == 0 else "s", i % 8)
            ctx.add(o.text(), len(ops) * (40 if c["k"] == "multi" and len(c["p"]) > 1 else 4) + len(im.d) // 4)


# ------------------------------------------------------------------ value data (MCData)
def le(v, n=4):
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")


def data_image(g, minor, long_cell, salt):
    """One value, and cells of many sizes for it to point at; what it points at is patched in."""
    im = hive.Image(minor, seed=salt)
    hive.add_zoo(im)
    room = {}
    n = 20
    b = bytearray(g.randrange(256) for _ in range((3 * hive.SEG + 64 if long_cell else hive.SEG) + 8 * n + 8))
    for i in range(n):          # bodies of 16348, 16340, 16356 bytes, 8 bytes apart
        size = hive.SEG + (8, 0, 16)[i % 3] if i < n - 3 else len(b) - 8 * i - 8
        b[8 * i:8 * i + 4] = le(-(size - size % 8))
    o = im.raw(bytes(b))
    room["enough"] = [o + 8 * i for i in range(n - 3) if i % 3 != 1]
    room["short"] = [o + 8 * i for i in range(n - 3) if i % 3 == 1]
    room["long"] = [o + 8 * i for i in range(n - 3, n)]
    small = {}
    for size in (4, 12, 20, 28):
        small[size] = [im.cell(bytes(g.randrange(256) for _ in range(size)), "small") for _ in range(2)]
    lst = im.cell(bytes(44), "list")
    db = im.cell(b"db" + bytes(6) + le(lst) * 2, "db")
    tiny = im.cell(b"db\0\0", "tinydb")
    im.root = im.key(dict(n="root", vals=[dict(n="v", ty=3, d=b"1234", doff=lst)]), "root")
    at = {name: pos for name, pos, _, _ in im.fields}
    return im.done(), room, small, lst, db, tiny, at["root.v0.size"], at["root.v0.data"], at["root.v0.type"]


def data_patch(g, c, step, im, room, small, lst, db, tiny, vsize, vdata, vtype):
    def fit(want, r):
        """A cell for `want` bytes."""
        if r == "gone":
            return bad_ref(g, im)
        if want > hive.SEG + 12:
            return g.choice(room["long"]) if r == "enough" else g.choice(room["enough"])
        if want > 28:
            return g.choice(room["enough"] if r == "enough" else room["short"])
        ok = [s for s in small if (s >= want) == (r == "enough")] or [4]
        s = (min(ok) if r == "enough" else max(ok)) if g.random() < 0.7 else g.choice(ok)
        return g.choice(small[s])
    rem = c["n"] % step
    tail = 0 if rem == 0 else g.choice([1, 5, 12, 13]) if rem == 1 else hive.SEG - 1 if rem == step - 1 else g.choice([2, 20, 9000, 16340])
    if c["inline"]:
        return [(vsize, le(c["n"] | 0x80000000)), (vdata, bytes(g.randrange(256) for _ in range(4)))], c["n"]
    size = c["n"] // step * hive.SEG + tail
    if not c["segs"] and (c["n"] <= step or not c["big"]):
        return [(vsize, le(size)), (vdata, le(fit(size, c["cell"])))], size
    ps = [(vsize, le(size))]
    need = -(-c["n"] // step)
    for j, r in enumerate(c["segs"]):
        want = hive.SEG if j < need - 1 or not tail else tail if j == need - 1 else g.choice([hive.SEG, 12])
        ps.append((lst + 4 + 4 * j, le(fit(want, r))))
    if c["list"] == "short":
        body = max(4, 4 * c["m"] - 4)
        ps.append((lst, le(-(4 + body - (body + 4) % 8))))
    ps.append((vdata, le(bad_ref(g, im) if c["hdr"] == "gone" else tiny if c["hdr"] == "tiny" else db)))
    ps.append((db + 4, b"db" if c["hdr"] != "sig" else g.choice([b"dB", b"\0\0", b"lf"])))
    ps.append((db + 6, le(c["m"], 2)))
    ps.append((db + 8, le(bad_ref(g, im) if c["list"] == "gone" else lst)))
    return ps, size


def value_data(ctx, exports, step, ops, types=(3,), vec=0.15, ms=(3, 4, 5, 6)):
    """ops: calls on value 3, a list iterator goes to slot 4; "vvec 3" only now and then when the data is readable."""
    g = random.Random("%d data" % ctx.seed)
    long_ = [e for e in exports if not e["big"] and not e["inline"] and e["n"] > step]
    rest = [e for e in exports if e["big"] or e["inline"] or e["n"] <= step]
    for part, lc in [(p, True) for p in chunked(long_, 2)] + [(p, False) for p in chunked(rest, 16)]:
        for big in (True, False):
            es = [e for e in part if e["big"] == big]
            if not es:
                continue
            minor = g.choice([m for m in ms if (m >= 4) == big])
            pic = data_image(g, minor, lc, g.randrange(1 << 30))
            im = pic[0]
            o = hive.Out()
            o.image(im)
            w = 0
            for n, e in enumerate(es):
                ps, size = data_patch(g, e, step, *pic)
                o.patch(ps + [(pic[-1], le(g.choice(types)))])
                bad = "gone" in e["segs"] or "short" in e["segs"] or e["cell"] != "enough" or e["hdr"] != "ok" or e["list"] != "ok"
                heavy = size > 200 and not bad
                take = [x for x in ops if not (heavy and x.split()[0] in ("vvec", "vstr", "vmulti") and g.random() > vec)]
                o.session(["root 1", "values 1 2", "next 2 3"] + take, KINDS[n % 4] if n % 5 == 0 else "s", n % 8, "h")
                w += 300 + (size // 3 if len(take) == len(ops) and heavy else 0)
            ctx.add(o.text(), w)


# ------------------------------------------------------------------ text (MCText)
ORDINARY = [1, 9, 0x20, 0x41, 0x61, 0x7F, 0x80, 0xE9, 0xFF, 0x100, 0x3042, 0x4E2D, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x0A00, 0x2028, 0xFF00]
HIGH = [0xD800, 0xD83D, 0xDBFF, 0xDB00, 0xD8FF]
LOW = [0xDC00, 0xDE00, 0xDFFF, 0xDC0A, 0xDCFF]


def concrete(g, piece):
    return b"".join(le(g.choice([[0], ORDINARY, HIGH, LOW][x]), 2) for x in piece)


def texts(ctx, exports, cuts):
    """Pieces in one cell or inline: many values in one hive.  Pieces in several: at the borders of segments, in a sample."""
    g = random.Random("%d texts" % ctx.seed)
    one = [e for e in exports if len(e["p"]) == 1 and e["bad"] == 0]
    for part in chunked([(e, ty) for e in one for ty in (1, 2, 7)], 16 if len(one) < 400 else 48):
        vals = []
        for e, ty in part:
            d = concrete(g, e["p"][0])
            d += bytes([g.choice([0, 1, 0x41, 0xD8])]) if g.random() < 0.3 else b""
            vals.append(dict(n="%d" % len(vals), ty=ty, d=d, form="inline" if len(d) <= 4 and g.random() < 0.5 else "cell", dslack=g.choice([0, 0, 1, 2, 3, 6])))
        im = hive.build(dict(n="root", vals=vals), minor=g.choice([3, 5, 6]), seed=g.randrange(1 << 30))
        ops = ["root 1", "values 1 2"]
        for e, ty in part:
            ops += ["next 2 3", "vstr 3", "vmulti 3 4"]
            ops += ["next 4 5"] * (e["p"][0].count(0) + 3) if ty == 7 else []
        o = hive.Out()
        o.image(im)
        o.session(ops)
        ctx.add(o.text(), len(ops) * 4)
    several = [e for e in exports if len(e["p"]) > 1]
    several = g.sample(several, min(len(several), cuts))
    for part in chunked(several, 16):
        data = b"".join(le(g.choice([0x61, 0x62, 0x4E2D]), 2) for _ in range(3 * hive.SEG // 2))
        im = hive.Image(5, seed=g.randrange(1 << 30))
        hive.add_zoo(im)
        im.root = im.key(dict(n="root", vals=[dict(n="v", ty=1, d=data, form="big")]), "root")
        im.done()
        at = {name: pos for name, pos, _, _ in im.fields}
        base = [at["root.v0.seg%d" % k] for k in range(3)]                              # list entries
        body = [int.from_bytes(im.d[p:p + 4], "little") + 4 for p in base]
        o = hive.Out()
        o.image(im)
        for n, e in enumerate(part):
            p, ps = e["p"], []
            for k, piece in enumerate(p):
                b = concrete(g, piece)
                if k == len(p) - 1:
                    ps.append((body[k], b))
                else:
                    m = 0 if k == 0 else len(piece) // 2 * 2
                    ps += [(body[k], b[:m]), (body[k] + hive.SEG - len(b) + m, b[m:])]
            ps += [(base[k], le(bad_ref(g, im))) for k in range(len(p)) if e["bad"] and k >= e["bad"]]
            size = hive.SEG * (len(p) - 1) + 2 * len(p[-1]) + g.randrange(2)
            ty = g.choice([1, 2, 7])
            o.patch(ps + [(at["root.v0.size"], le(size)), (at["root.v0.type"], le(ty))])
            o.session(["root 1", "values 1 2", "next 2 3", "vstr 3", "vmulti 3 4"] +
                      (["next 4 5"] * (sum(x.count(0) for x in p) + 3) if ty == 7 else []))
        ctx.add(o.text(), 9000 * len(part))


# ------------------------------------------------------------------ value lists (MCValues)
def value_lists(ctx, exports):
    g = random.Random("%d value lists" % ctx.seed)
    g.shuffle(exports)
    for part in chunked(exports, 16 if len(exports) < 6000 else 64):
        names = [None, ""] + g.sample([s for s in TRICKY if "\\" not in s], 8)
        im = hive.Image(5, seed=g.randrange(1 << 30))
        hive.add_zoo(im)
        good, dup = {}, {}
        for store in (good, dup):
            for n in range(1, 5):
                s = recase(g, names[n])
                store[n] = im.value(dict(n=s, e=bases.enc(g, s), d=bytes([n]), form="inline"), "v")
        bad = []
        for n in range(1, 5):
            bad.append(im.value(dict(n=names[n], e=bases.enc(g, names[n]), d=b"x", form="inline", len=g.choice([99, 0xFFFF, 0x7FFF])), "v"))
        keys = []
        for n, e in enumerate(part):
            vals = [dict(ref=g.choice(bad) if x == -1 else bad_ref(g, im) if x == 0 else g.choice([good, dup])[x]) for x in e["l"]]
            body = 4 * len(vals) + (-(4 * len(vals) + 4)) % 8
            count = dict(fits=len(vals), fewer=max(0, len(vals) - 1), over=g.choice([body // 4 + 1, 0x10001, 0x40000001, 0x80000000, 0xFFFFFFFF]))[e["cnt"]]
            if e["cnt"] == "fits" and not vals and g.random() < 0.5:
                keys.append(dict(n="k%04d" % n, count=g.choice([0, 5])))
            else:
                keys.append(dict(n="k%04d" % n, vals=vals, count=count))
        im.root = im.key(dict(n="root", sub=dict(t="li", items=keys)), "root")
        o = hive.Out()
        o.image(im.done())
        ops = ["root 1", "subkeys 1 2"]
        for e in part:
            ops.append("next 2 3")
            ops += ["value 3 %s 4" % hive.query_hex(recase(g, names[q])) for q in range(1, 6)]
            ops += ["values 3 5", "len 5"] + ["next 5 6"] * (len(e["l"]) + 1)
        o.session(ops)
        ctx.add(o.text(), 4 * len(ops))


# ------------------------------------------------------------------ paths (MCPath)
def paths(ctx, exports, sets):
    """One tree, every path; the spelling of the letters changes."""
    g = random.Random("%d paths" % ctx.seed)
    for n in range(sets):
        a, b = g.choice([("a", "b"), ("/", "a"), ("ä", "\U0001F600"), (" ", "."), ("\0", "a"), ("ı", "i"), ("\u2216", "c"), ("x", "\uFF3C"), ("..", "%")])
        names = sorted({x for k in (1, 2, 3) for x in map("".join, __import__("itertools").product([a, b], repeat=k))}, key=bases.fold)
        names = [x for i, x in enumerate(names) if i == 0 or bases.fold(x) != bases.fold(names[i - 1])]
        im = hive.Image(5, seed=g.randrange(1 << 30))
        hive.add_zoo(im)

        def node(name, depth):
            k = dict(n=recase(g, name))
            k["e"] = bases.enc(g, k["n"])
            if depth < 4:
                r = g.random()
                if r < 0.12:
                    k["sub"] = dict(ref=bad_ref(g, im))
                elif r < 0.95:
                    kids = [x for x in names if len(x) <= 2 * len(a) and g.random() < (0.55 if depth > 1 else 0.8)]
                    items = [node(x, depth + 1) for x in kids]
                    items = [dict(ref=bad_ref(g, im)) if g.random() < 0.03 else x for x in items]
                    if items:
                        k["sub"] = bases.klist(g, items, g.choice(["lf", "lh", "li", "ri"]))
            return k
        r = node("root", 0)
        while "items" not in r.get("sub", {}) and "leaves" not in r.get("sub", {}):
            r = node("root", 0)
        im.root = im.key(r, "root")
        o = hive.Out()
        o.image(im.done())
        word = lambda p: "".join("\\" if x == 0 else (a, b)[x - 1] for x in p)
        ops = ["root 1", "subpath 1 %s 2" % hive.query_hex(names[0]), "subpath 1 %s 3" % hive.query_hex(names[-1])]
        ops += ["subkey 1 %s 4" % hive.query_hex(x) for x in names[:6]]
        for e in exports:
            ops.append("subpath %d %s 4" % (g.choice([1, 1, 2, 3]), hive.query_hex(recase(g, word(e["p"])))))
        o.session(ops)
        ctx.add(o.text(), 8 * len(ops))


# ------------------------------------------------------------------ integers (MCInt)
def integers(ctx, exports):
    g = random.Random("%d integers" % ctx.seed)
    codes = {12: [12, 13, 0xFF], 13: [0x80000004, 0x10004, 0x100, 0x1000B, 0xFFFFFFFF]}
    for part in chunked(exports, 8):
        im = hive.Image(g.choice([3, 4, 5]), seed=g.randrange(1 << 30))
        hive.add_zoo(im)
        vals = []
        for e in part:
            d = bytes(g.choice([0, 1, 0x7F, 0x80, 0xFF, g.randrange(256)]) for _ in range(e["n"]))
            v = dict(n="", ty=g.choice(codes.get(e["ty"], [e["ty"]])))
            if e["inline"]:
                v.update(form="inline", d=d, size=e["n"])
            elif e["room"] == "gone":
                v.update(doff=bad_ref(g, im), d=d)
            elif e["room"] == "short":
                v.update(doff=im.zoo["empty"] if e["n"] < 5 else im.cell(d[:4], "short"), d=d, size=e["n"])
            else:
                v.update(d=d, dslack=g.choice([0, 0, 1, 4, 9]))
            vals.append(v)
        im.root = im.key(dict(n="root", vals=vals), "root")
        ops = ["root 1", "values 1 2"]
        for _ in part:
            ops += ["next 2 3"] + g.sample(["vtype 3", "vsize 3", "vdword 3", "vqword 3", "vdata 3 4"], 5)
        o = hive.Out()
        o.image(im.done())
        o.session(ops, g.choice(KINDS))
        ctx.add(o.text(), 4 * len(ops))


# ------------------------------------------------------------------ names (MCNames)
def stored_names(ctx, exports):
    g = random.Random("%d names" % ctx.seed)
    g.shuffle(exports)
    for part in chunked(exports, 16):
        im = hive.Image(5, seed=g.randrange(1 << 30))
        keys, vals = [], []
        for e in part:
            if e["enc"] == "L":
                b = bytes(0 if x == 0 else g.choice([1, 0x41, 0x61, 0x7F, 0x80, 0x9F, 0xA0, 0xC4, 0xE4, 0xFF, g.randrange(1, 256)]) for x in e["u"])
            else:
                b = concrete(g, e["u"]) + (bytes([g.choice([0, 0x41, 0xD8, 0xDC])]) if e["odd"] else b"")
            more = e["room"] if e["room"] >= 0 else 0
            other = g.choice([0, 0, 0x10, 0xFFDF, 1, 2, 4, 8, 0x40, 0x80, 0x100, 0x8000])
            k = dict(n=b + bytes(g.randrange(256) for _ in range(more)), e=e["enc"], len=len(b), flags=other & ~0x20)
            v = dict(n=k["n"], e=e["enc"], len=len(b), d=b"1", form="inline", flags=g.choice([0, 0, 2, 4, 0x10, 0x20, 0x8000, 0xFFFE]))
            c = dict(cls=b, clen=len(b), cslack=0)
            if e["room"] < 0 and b:      # one byte short of what the cell holds
                fill = lambda hdr: -(4 + hdr + len(b)) % 8
                k["len"] = len(b) + fill(76) + 1
                v["len"] = len(b) + fill(20) + 1
                c["clen"] = len(b) + fill(0) + 1
            keys.append(dict(k, **(c if e["enc"] == "U" else {})))
            vals.append(v)
        im.root = im.key(dict(n="root", sub=dict(t=g.choice(["lf", "lh", "li"]), items=keys), vals=vals), "root")
        ops = ["root 1", "subkeys 1 2", "values 1 5"]
        for _ in part:
            ops += ["next 2 3", "kname 3", "ktext 3", "kclass 3", "ktclass 3", "next 5 6", "vname 6", "vtext 6"]
        o = hive.Out()
        o.image(im.done())
        o.session(ops, g.choice(KINDS), g.randrange(8))
        ctx.add(o.text(), 6 * len(ops))


# ------------------------------------------------------------------ comparisons (MCOrder)
FOLDS = None


def fold_classes():
    """All units of the Basic Multilingual Plane that fold to the same unit (only to choose interesting names)."""
    global FOLDS
    if FOLDS is None:
        by = {}
        for c in range(65536):
            f = c if 0xD800 <= c < 0xE000 else bases.fold(chr(c))[0]
            by.setdefault(f, []).append(c)
        FOLDS = by
    return FOLDS


def comparisons(ctx, exports, ranks, sets):
    g = random.Random("%d comparisons" % ctx.seed)
    by = fold_classes()
    varied = [f for f in by if len(by[f]) > 1]
    low = [f for f in by if f < 256]
    lowvaried = [f for f in low if len(by[f]) > 1]
    for n in range(sets):
        pool = g.choice([lowvaried + [0, 0x5B, 0x5F, 0x60, 0x7B, 0xD7, 0xF7, 0xDF], low, varied, varied + [0, 1, 0xD800, 0xDC00, 0xDBFF, 0xFFFF, 0xE000],
                         [0, 0x41, 0x5A, 0x5B, 0x7B, 0x178, 0x39C, 0x1E9E, 0x49, 0x53, 0x4B, 0xC5, 0xD8, 0xDF, 0xF7]])
        pick = sorted(g.sample(sorted(set(pool)), ranks))
        units = {}
        for r, f in enumerate(pick):
            v = by[f][:]
            g.shuffle(v)
            units[r + 1] = (v[0], v[-1])
        ops = []
        sub = exports if len(exports) < 2500 else g.sample(exports, 2500)
        for e in sub:
            x, y = ([units[c["c"]][c["v"]] for c in e[s]] for s in "xy")

            def code(w):
                es = ["U"]
                if all(c < 256 for c in w):
                    es += ["L", "L"]
                if not any(0xD800 <= c < 0xE000 for c in w):
                    es += ["S"]
                t = g.choice(es)
                if t == "L":
                    return "L " + (bytes(w).hex() or "-")
                if t == "S":
                    return "S " + ("".join(map(chr, w)).encode().hex() or "-")
                b = b"".join(le(c, 2) for c in w) + (bytes([g.choice([0, 0x41])]) if g.random() < 0.1 else b"")
                return "U " + (b.hex() or "-")
            ops.append("cmp %s %s" % (code(x), code(y)))
        im = bases.values()
        o = hive.Out()
        o.image(im)
        o.session(ops)
        ctx.add(o.text(), 3 * len(ops))


def boundaries(ctx):
    """Every pair of short names around the surrogates, beyond the BMP, and around letters with and without case mapping."""
    g = random.Random("%d boundaries" % ctx.seed)
    chars = [0x41, 0x61, 0xC9, 0xE9, 0xFF, 0x178, 0xD7FF, 0xE000, 0xFF21, 0xFF41, 0xFFFD, 0xFFFF, 0x10000, 0x10400, 0x10428, 0x1F600, 0x10FFFF]
    lone = [0x41, 0x61, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x0]
    units = lambda w: [x for c in w for x in ([c] if c < 0x10000 else [0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)])]
    u = lambda w: "U " + ("".join(le(x, 2).hex() for x in units(w)) or "-")
    t = lambda w: "S " + ("".join(map(chr, w)).encode().hex() or "-")
    l = lambda w: "L " + (bytes(w).hex() or "-")

    def words(alphabet, n):
        return [()] + [w + (c,) for w in words(alphabet, n - 1) for c in alphabet] if n else [()]

    def pairs_of(ws, forms, count):
        ops = []
        for a in ws:
            for b in ws:
                fa, fb = g.choice([f for f in forms if f != l or max(a, default=0) < 256]), g.choice([f for f in forms if f != l or max(b, default=0) < 256])
                if fa == t and fb == t:
                    fa = u
                ops.append("cmp %s %s" % (fa(a), fb(b)))
        return ops if len(ops) <= count else g.sample(ops, count)

    ops = pairs_of(words(chars, 1), [u], 10**6) + pairs_of(words(chars, 1), [u, t, t], 10**6) + pairs_of(words(chars, 1), [l, t], 10**6)
    ops += pairs_of(words(chars, 2), [u, t, l], ctx.pick(9000, 10**6)) + pairs_of(words(lone, 2), [u], ctx.pick(5000, 10**6))
    im = bases.values()
    for i in range(0, len(ops), 1500):
        o = hive.Out()
        o.image(im)
        o.session(ops[i:i + 1500])
        ctx.add(o.text(), 4500)


def long_names(ctx):
    """Names that agree for a long time, of lengths around the powers of two, in every pair of encodings."""
    g = random.Random("%d long names" % ctx.seed)
    by = {f: v for f, v in fold_classes().items() if not 0xD800 <= f < 0xE000}
    latin = {f: [c for c in v if c < 256] for f, v in by.items() if f < 256}
    ns = [x + d for x in (16, 32, 64, 128, 256, 512, 1024, 2048, 4096) for d in (-1, 0, 1)] + [1000, 8192, 16384, 32767]
    ops = []
    for n in ns:
        for fa, fb in ("LL", "UU", "LU", "UL", "SL", "LS", "SU", "US"):
            table = latin if "L" in (fa, fb) else by
            keys = g.sample(sorted(table), 12)
            pre = [g.choice(keys) for _ in range(n)]
            for how in ["same", "last", "longer", "shorter"] if n < 2000 else g.sample(["same", "last", "longer", "shorter"], 1):
                a, b = pre[:], pre[:]
                if how == "last":
                    b[-1 - g.choice([0, 0, 0, 1, 2])] = g.choice(keys)
                elif how == "longer":
                    b.append(g.choice(keys))
                elif how == "shorter":
                    b.pop()

                def code(f, w):
                    w = [g.choice(table[x]) for x in w]
                    return f + " " + ({"L": lambda: bytes(w), "U": lambda: b"".join(le(x, 2) for x in w),
                                       "S": lambda: "".join(map(chr, w)).encode()}[f]().hex() or "-")
                ops.append("cmp %s %s" % (code(fa, a), code(fb, b)))
    im = bases.values()
    g.shuffle(ops)
    for i in range(0, len(ops), 110):
        o = hive.Out()
        o.image(im)
        o.session(ops[i:i + 110])
        ctx.add(o.text(), 6000)


# ------------------------------------------------------------------ cells (MCCell)
def cells(ctx, exports, word, count):
    g = random.Random("%d cells" % ctx.seed)
    es = g.sample(exports, min(len(exports), count))
    im = hive.Image(5, seed=ctx.seed)
    im.root = im.key(dict(n="root", cls=b"c\0", vals=[dict(n="v", d=b"12345")], sub=dict(t="li", items=[])), "root")
    arena = im.raw(b"")
    arena = im.raw(bytes(-len(im.d) % 8)) and len(im.d) if len(im.d) % 8 else arena
    im.raw(bytes(g.randrange(256) for _ in range(128)))
    at = {name: pos for name, pos, _, _ in im.fields}
    for part in chunked(es, 16):
        o = hive.Out()
        o.image(im.done())
        for n, e in enumerate(part):
            off = (1 << 32) - word + e["o"] if e["o"] >= word - 9 else arena + e["o"]
            size = e["s"] if e["s"] >= 9 - word // 2 else e["s"] + word // 2 - (1 << 31)
            body = max(0, -e["s"] - 4)
            d = max(0, min(body + g.choice([0, 0, 0, 1, -1]), 300)) if g.random() < 0.8 else g.choice([0, 1, 5])
            ps = [(at["root.v0.data"], le(off)), (at["root.v0.size"], le(d)), (at["root.cls"], le(off)), (at["root.clen"], le(d, 2)), (at["root.sub"], le(off))]
            if e["o"] < word - 9:
                ps.append((arena + e["o"], le(size)))
                k = g.random()
                if k < 0.6:
                    ps.append((arena + e["o"] + 4, g.choice([b"li", b"lf", b"lh", b"ri"]) + le(g.choice([0, 1, body // 4, body // 8]), 2)))
            o.patch(ps, total=4096 + arena + e["n"])
            o.session(["root 1", "kclass 1", "subkeys 1 6", "values 1 2", "next 2 3", "vdata 3 4", "vvec 3"], KINDS[n % 4], n % 8, PLACES[n % 3])
        ctx.add(o.text(), 60 * len(part))


# ------------------------------------------------------------------ trees (MCTree)
def trees(ctx, exports, each):
    g = random.Random("%d trees" % ctx.seed)
    for part in chunked(exports, 16 if len(exports) < 3000 else 96):
        o = hive.Out()
        w = 0
        for e in part:
            for _ in range(each):
                im = hive.Image(5, seed=g.randrange(1 << 30), pad=g.random() < 0.2)
                hive.add_zoo(im)
                p = e["p"]
                at = [[f["t"], f["n"], f["at"]] for f in e["fs"]]

                def node(k):
                    r = dict(n="n%d" % k, vol=g.choice([0, 1, 0x100, 0x10000, 0x80000000, 0xFFFFFFFF]), cls=g.choice([None, None, b"c\0"]),
                             vals=g.choice([None, None, [dict(n="v", d=b"abc", form="inline")]]))
                    kids = [x for x in range(2, len(p) + 1) if p[x - 1] == k]
                    items = [dict(ref=bad_ref(g, im))] if ["item", k, 0] in at else []
                    for j, x in enumerate(kids):
                        items.append(node(x))
                        if ["item", k, j + 1] in at:
                            items.append(dict(ref=bad_ref(g, im)))
                    if ["list", k, 0] in at:
                        how = g.randrange(4)
                        l = dict(t="li", items=items)
                        if how == 0:
                            r["sub"] = dict(ref=bad_ref(g, im))
                        elif how == 1:
                            r["sub"] = dict(l, count=len(items) + g.choice([3, 0x4000, 0xFFFF - len(items)]))
                        elif how == 2:
                            r["sub"] = dict(l, t="xx")
                        else:
                            r["sub"] = dict(t="ri", leaves=[g.choice([dict(t="lf", items=[]), dict(t="ri", leaves=[l])])])
                    elif items:
                        r["sub"] = bases.klist(g, items, g.choice(["lf", "lh", "li", "ri", "ri"]))
                        if r["sub"]["t"] == "ri" and g.random() < 0.3:
                            for f in r["sub"]["leaves"]:
                                f["slack"] = 8
                    elif g.random() < 0.3:
                        r["sub"] = dict(t=g.choice(["lf", "lh", "li", "ri"]), items=[], leaves=[])
                    return r
                im.root = im.key(node(1), "root")
                o.image(im.done())
                o.session(["walk 120", "clear", "clear", "walk 120"], g.choice("mg"), g.randrange(8))
                w += 200
        ctx.add(o.text(), w)


# ------------------------------------------------------------------ several faults at once (C15)
def combined(ctx, im, fs, ops, count, chunk=30):
    """Two or three faults that do not touch the same bytes."""
    g = random.Random("%d combined %d" % (ctx.seed, count))
    lists = [f for f in fs if f and f[0] != "len"]
    for c in range(0, count, chunk):
        o = hive.Out()
        o.image(im)
        m = min(chunk, count - c)
        for _ in range(m):
            ps, used = [], set()
            for f in g.sample(lists, g.choice([2, 2, 3])):
                touched = {q for p, b in f for q in range(p, p + len(b))}
                if not touched & used:
                    ps += f
                    used |= touched
            o.patch(ps)
            o.session(ops)
        ctx.add(o.text(), (300 + len(im.d) // 8) * m)


# ------------------------------------------------------------------ sessions over an abstract registry (MCSession)
def world(desc, minor, seed, queries, vqueries, paths):
    """A hive as bytes and as the tree that was laid out: nothing in the tree is read back from the bytes."""
    im = hive.build(desc, minor=minor, seed=seed)
    nodes, vals, labels = [], [], {}

    def units_of(n, e):
        b = hive.name_bytes(n, e)
        return list(b) if e == "L" else [b[i] | b[i + 1] << 8 for i in range(0, len(b) - 1, 2)]

    def utf16(b):
        return [b[i] | b[i + 1] << 8 for i in range(0, len(b) - 1, 2)]

    def value(v):
        d = v.get("d", b"")
        u = utf16(d)
        lines, cur = [], []
        for x in u + [0]:
            if x:
                cur.append(x)
            elif cur:
                lines.append(cur)
                cur = []
            else:
                break
        vals.append(dict(name=units_of(v.get("n", ""), v.get("e", "L")), ty=v.get("ty", 3), data=list(d), form=v.get("form", "cell"),
                         text=u[:u.index(0)] if 0 in u else u, lines=lines,
                         parts=[min(hive.SEG, len(d) - i) for i in range(0, len(d), hive.SEG)]))
        return len(vals)

    def node(k):
        i = len(nodes)
        n = dict(name=units_of(k.get("n", ""), k.get("e", "L")), cls=[utf16(k["cls"])] if k.get("cls") is not None else [],
                 haslist=int(k.get("sub") is not None), hasvals=int(k.get("vals") is not None))
        nodes.append(n)
        if "label" in k:
            labels[k["label"]] = i + 1
        n["vals"] = [value(v) for v in k.get("vals") or []]
        ls = [] if k.get("sub") is None else [k["sub"]] if k["sub"]["t"] != "ri" else k["sub"]["leaves"]
        n["kids"] = [labels[x["same"]] if "same" in x else node(x) for l in ls for x in l["items"]]
        return i + 1

    node(desc)
    q = lambda xs: [hive.units(x) for x in xs]
    return im, dict(n=4096 + len(im.d), h=list(im.header()), d=list(im.d), nodes=nodes, vals=vals, queries=q(queries), vqueries=q(vqueries),
                    paths=q(paths))


def worlds(seed):
    u16 = bases.u16
    tree = dict(n="root", sub=dict(t="lf", items=[
        dict(n="aa", cls=u16("Cl", False), sub=dict(t="li", items=[dict(n="x", sub=dict(t="lh", items=[]))])),
        dict(n="Bb", e="U", vol=3)]), vals=[])
    roots = dict(n="root", vol=7, sub=dict(t="ri", leaves=[
        dict(t="lh", items=[dict(n="A", label="a", vol=1)]),
        dict(t="li", items=[dict(n="b"), dict(n="ä", e="U", sub=dict(t="ri", leaves=[dict(t="lf", items=[dict(n="z", vol=9)])]))])]))
    vals = dict(n="root", vals=[
        dict(n="", d=u16("d\U0001F600"), ty=1),
        dict(n="Dw", d=b"\1\2\3\4", ty=4, form="inline"),
        dict(n="dw", e="U", d=b"\1\2\3\x84", ty=5)],
        sub=dict(t="li", items=[dict(n="k", vals=[dict(n="q", d=b"\1\2\3\4\5\6\7\x88", ty=11)])]))
    # the same names, in lists of the same length, below different keys; cells that differ by their place only
    twin = lambda n, **k: dict(n=n, junk=False, **k)
    pair = lambda f: dict(t=f, items=[twin("x"), twin("yy", e="U")])
    twins = dict(n="root", sub=dict(t="li", items=[twin("p", sub=pair("li")), twin("Q", sub=pair("lf"))]))
    same = lambda: [dict(n="v", d=b"\1\2\3\4", ty=4, form="inline", junk=False), dict(n="w", d=b"\5\6\7\x88", ty=5, form="inline", junk=False)]
    tvals = dict(n="root", vals=same(), sub=dict(t="lh", items=[twin("k", vals=same())]))
    texts = dict(n="r", vals=[
        dict(n="m", d=u16("a") + u16("bc") + u16("") + u16("zz"), ty=7),
        dict(n="i", d=b"x\0y\0", ty=7, form="inline"),
        dict(n="s", d=b"a\0\0\xd8b\0z", ty=2)])
    g = random.Random(seed)
    bulk = dict(n="r", vals=[dict(n="b", d=bytes(g.randrange(256) for _ in range(33000)), ty=3, form="big"),
                             dict(n="c", d=b"\7" * 5, ty=12)])
    return {
        "tree": (world(tree, 5, seed, ["AA", "bb", "c"], ["v"], ["aa\\X", "\\", "aa\\\\x\\y"]), [(2, 0, 1), (3, 0, 0), (1, 0, 2)]),
        "roots": (world(roots, 3, seed, ["a", "Ä"], [], ["ä\\Z"]), [(2, 0, 1), (1, 0, 2)]),
        "vals": (world(vals, 5, seed, ["K"], ["", "DW", "x"], []), [(1, 2, 1), (2, 1, 0)]),
        "texts": (world(texts, 4, seed, [], ["m", "i", "s"], []), [(1, 1, 2), (1, 2, 1)]),
        "twins": (world(twins, 5, seed, ["X", "yY", "q", "P"], [], ["P\\yy", "q\\yy"]), [(2, 0, 0), (1, 0, 1)]),
        "twin-values": (world(tvals, 5, seed, ["K"], ["V", "w"], []), [(1, 2, 0), (2, 1, 0), (1, 1, 1)]),
        "bulk": (world(bulk, 4, seed, [], ["b"], []), [(1, 1, 1)]),
    }


def call_text(c):
    o, a = c[0], list(c[1]) if len(c) > 1 else []
    if o in ("subkey", "subpath", "value"):
        a[1] = hive.query_hex(a[1])
    return " ".join([o] + [str(x) for x in a])


def sessions(ctx, im, states, clearing, count, chunk=60):
    """Explored states with their history, then every read; and enabled calls, each between reads."""
    g = random.Random("%d sessions %d" % (ctx.seed, len(states)))
    pick = lambda xs: xs if len(xs) <= count else g.sample(xs, count)
    runs = []
    for s, m in [(s, None) for s in pick(states)] + pick([(s, m) for s in states for m in s["m"]]):
        h = [call_text(c) for c in s["h"]]
        reads = [call_text(c) for c in s["r"]]
        g.shuffle(reads)
        if clearing and m is None:
            # everything again after clearing
            h = [x for x in h if x != "clear"]
            if len(h) < len(s["h"]):
                reads = []
            runs.append(h + reads + ["clear"] + h + reads)
        elif m is None:
            runs.append(h + reads)
        else:
            runs.append(h + reads[:len(reads) // 2] + [call_text(m)] + ([] if m[0] == "clear" else [x for x in reads if alive(x, m)]))
    n = 0
    for c in range(0, len(runs), chunk):
        o = hive.Out()
        o.image(im)
        for r in runs[c:c + chunk]:
            o.session(r, ("m", "g")[n % 2] if clearing else ("s" if any(x.startswith("root2") for x in r) else "srmg"[n % 4]), n % 8, "hkt"[n % 3])
            n += 1
        ctx.add(o.text(), sum(map(len, runs[c:c + chunk])) * 3 + len(im.d) // 8)


CONSUMES = {"kdrop": ("k", 0), "vdrop": ("v", 0), "idrop": ("i", 0), "count": ("i", 0), "last": ("i", 0)}
READS_OF = {"k": ("kname", "ktext", "kclass", "ktclass", "keq"), "v": ("vname", "vtext", "vtype", "vsize", "vvec", "vdword", "vqword",
            "vstr", "veq"), "i": ("hint", "len")}


def alive(read, move):
    """The read does not use a handle that the move gave up or replaced by something else."""
    t = read.split(" ")
    gone = []
    o, a = move[0], list(move[1])
    if o in CONSUMES:
        gone.append((CONSUMES[o][0], a[0]))
    if o in ("root", "root2"):
        gone.append(("k", a[0]))
    elif o in ("subkey", "subpath"):
        gone.append(("k", a[2]))
    elif o == "value":
        gone.append(("v", a[2]))
    elif o == "nth":
        gone += [("k", a[2]), ("v", a[2])]
    elif o in ("kclone", "next", "last"):
        gone.append(("k", a[1]))
    if o in ("vclone", "next", "last"):
        gone.append(("v", a[1]))
    if o in ("subkeys", "values", "vdata", "vmulti", "clone"):
        gone.append(("i", a[1]))
    return not any(t[0] in READS_OF[k] and str(s) in t[1:] for k, s in gone)


# ------------------------------------------------------------------ extreme sizes
def extremes(ctx):
    """Structures at the limits of their count and length fields, each judged for the properties that speak of them."""
    g = random.Random("%d extremes" % ctx.seed)
    q = hive.query_hex

    def go(props, im, ops, kind="s", patch=(), weight=30000):
        if ctx.prop in ("C01", "C03", "C15", "C17") or ctx.prop in props.split():
            o = hive.Out()
            o.image(im)
            if patch:
                o.patch(list(patch))
            o.session(ops, kind, g.randrange(8), g.choice("hkt"))
            ctx.add(o.text(), weight)

    def shared(root_of, seed):
        im = hive.Image(5, seed=seed)
        im.root = im.key(root_of(im), "root")
        im.done()
        return im

    # leaves of up to 65535 items
    for n in (65535, g.choice([65534, 40000, 32769])):
        names = ladder(g, 5)
        form = g.choice(["li", "lf", "lh"])

        def leaf(im):
            ks = [im.key(dict(n=names[k], e=bases.enc(g, names[k])), "k%d" % k) for k in (1, 3)]
            im.fields = []
            return dict(n="root", sub=dict(t=form, items=[dict(ref=ks[0])] * (n - 7) + [dict(ref=ks[1])] * 7))
        im = shared(leaf, 1)
        im.fields = []
        if n < 65535:
            go("C04 C13", im, ["root 1", "subkeys 1 1", "hint 1", "nth 1 32767 2", "kname 2", "nth 1 %d 3" % max(0, n - 32768 - 9), "clone 1 2"] +
               ["next 1 4", "kname 4"] * 10 + ["hint 2", "nth 2 7 5", "kname 5", "next 2 5", "next 2 6", "next 2 6", "subkeys 1 3", "last 3 7", "kname 7", "count 1"])
        go("C05", im, ["root 1"] + ["subkey 1 %s 2" % q(recase(g, x)) for x in names])

    # index roots of thousands of leaves; leaves are shared
    n = g.choice(ctx.pick([34000, 32769, 33333], [65535, 65534, 40000]))

    def roots(im):
        names = ladder(g, 9)
        ls = []
        for a in (1, 3, 5):
            ks = [im.key(dict(n=names[k], e=bases.enc(g, names[k])), "k%d" % k) for k in (a, a + 1)]
            ls.append(im.list(dict(t=g.choice(["li", "lf", "lh"]), items=[dict(ref=k) for k in ks]), "l%d" % a))
        im.fields = []
        im.names = names
        return dict(n="root", sub=dict(t="ri", leaves=[dict(ref=ls[0])] * (n - 20) + [dict(ref=ls[1])] * 8 + [dict(ref=ls[2])] * 12))
    im = shared(roots, 2)
    im.fields = []
    go("C05", im, ["root 1"] + ["subkey 1 %s 2" % q(recase(g, x)) for x in im.names])   # such a list is not in order

    def ordered(im):
        im.names = names = ladder(g, 11)
        ks = [im.key(dict(n=names[k], e=bases.enc(g, names[k])), "k%d" % k) for k in (1, 3, 5, 7, 9)]
        ls = [im.list(dict(t=g.choice(["li", "lf", "lh"]), items=[dict(ref=k) for k in x]), "l%d" % x[0]) for x in (ks[:1], ks[1:2], ks[2:3], ks[3:])]
        im.fields = []
        return dict(n="root", sub=dict(t="ri", leaves=[dict(ref=ls[0])] * 11 + [dict(ref=ls[1])] * (n - 24) + [dict(ref=ls[2])] * 12 + [dict(ref=ls[3])]))
    io = shared(ordered, 2)
    io.fields = []
    go("C05 C06", io, ["root 1"] + ["%s 1 %s 2" % (g.choice(["subkey", "subpath"]), q(recase(g, x))) for x in io.names])
    go("C04 C13", im, ["root 1", "subkeys 1 1", "hint 1", "nth 1 %d 2" % (2 * n - 45), "kname 2", "clone 1 2"] + ["next 1 3", "kname 3"] * 8 +
       ["next 2 3", "kname 3"] * 3 + ["last 1 4", "kname 4", "nth 2 100 5", "next 2 6"])

    # an index root of as many leaves as can be counted
    n = 65535
    io = shared(ordered, 2)
    io.fields = []
    go("C05", io, ["root 1"] + ["subkey 1 %s 2" % q(recase(g, x)) for x in io.names[::2]])
    if ctx.prop == "C04":
        go("C04", io, ["root 1", "subkeys 1 1", "nth 1 %d 2" % (n - 3), "kname 2"] + ["next 1 3", "kname 3"] * 5)

    # some hundred distinct leaves
    n = g.choice([257, 300, 513])
    im = hive.build(dict(n="root", sub=dict(t="ri", leaves=[dict(t=g.choice(["li", "lf", "lh"]), items=[dict(n="n%04d%s" % (2 * i, x)) for x in "bd"])
                                                            for i in range(n)])), seed=3)
    go("C05 C06", im, ["root 1"] + ["%s 1 %s 2" % (c, q(x % i)) for i in g.sample(range(2 * n), 60) + [0, 2 * n - 2, 256, 510, 512]
                                    for c, x in (("subkey", "n%04db"), ("subpath", "N%04dD"), ("subkey", "n%04dc"))])
    go("C04", im, ["root 1", "subkeys 1 1", "nth 1 255 2", "kname 2", "nth 1 0 2", "kname 2"] + ["next 1 3", "kname 3"] * 6 + ["count 1"])

    # more values than 16 bits can count
    n = g.choice([65536, 65537, 70000])

    def vals(im):
        vs = [im.value(dict(n=x, d=b"1234", ty=4, form="inline"), "w%d" % i) for i, x in enumerate("aabbc")]
        im.fields = []
        return dict(n="root", vals=[dict(ref=x) for x in vs[:1] * (n - 4) + vs[1:]])
    im = shared(vals, 4)
    im.fields = []
    go("C07 C13", im, ["root 1", "values 1 1", "hint 1", "nth 1 %d 1" % (n - 5), "vname 1", "clone 1 2"] + ["next 1 2", "vname 2"] * 6 +
       ["nth 2 3 3", "vname 3", "next 2 4", "values 1 3", "last 3 5", "vname 5", "values 1 4", "nth 4 %d 5" % n, "count 1"] +
       ["value 1 %s 6" % q(x) for x in ("A", "b", "C", "d")])

    # values of the same name in long lists, some of them with entries that lead nowhere
    for n in (g.choice([40, 100, 129]), 257, g.choice([300, 513, 1025]), g.choice([4097, 33000])):
        def alike(im):
            vs = [im.value(dict(n=x, d=b"1234", ty=4, form="inline"), "w%d" % i) for i, x in enumerate(["a", "A", "b", "B", "b", "c", "C"])]
            im.fields = []
            items = [dict(ref=g.choice(vs[:2])) for _ in range(n)]
            for i in g.sample(range(n), 7):
                items[i] = dict(ref=g.choice(vs[2:]))
            if lost:
                items[g.randrange(n)] = dict(ref=0x7ffffff8)
            return dict(n="root", vals=items)
        for lost in (0, 0, 1, 1):
            im = shared(alike, g.randrange(1000))
            im.fields = []
            go("C07 C13", im, ["root 1"] + ["value 1 %s 6" % q(x) for x in "AbCd"] + ["values 1 1", "nth 1 %d 2" % (n // 2), "hint 1", "last 1 2"],
               weight=1000 + n // 3)

    # names of 65535 bytes
    a = "".join(g.choice("abcxyzäö") for _ in range(100)) * 656
    u = "".join(g.choice("abcÿĀЖ") for _ in range(60))
    u = (u * 546)[:32700] + "\U00010331"
    keys = sorted([(a[:65534] + x, "L") for x in "ck"] + [(a[:65535 - 65533], "L"), (u + "z", "U")], key=lambda x: bases.fold(x[0]))
    im = hive.build(dict(n="root", sub=dict(t=g.choice(["li", "lh"]), items=[dict(n=x, e=e) for x, e in keys]),
                         vals=[dict(n=a[:65535], d=b"x"), dict(n=u, e="U", d=b"y", form="inline")], cls=bytes(65535)), seed=5)
    go("C05 C12 C11 C06", im, ["root 1", "kclass 1", "subkeys 1 1"] + ["next 1 2", "kname 2", "ktext 2"] * 5 +
       ["subkey 1 %s 3" % q(x) for x in (a[:65534] + "C", a[:65534] + "d", a[:65534] + "k", a[:65534], u + "Z", u, u + "zz")] +
       ["subpath 1 %s 3" % q("\\" + a[:65534] + "k\\")])
    go("C07 C12", im, ["root 1", "value 1 %s 1" % q(a[:65535].upper()), "value 1 %s 2" % q(u), "vname 2", "value 1 %s 2" % q(a[:65534])])

    # data in up to 65535 segments, which share their bytes
    n = g.choice([65535, 40000, 257])
    for more in (0, 1):
        im = hive.Image(g.choice([4, 5, 6]), seed=6)
        so = overlapping_segments(im, g, 3)
        im.root = im.key(dict(n="root", vals=[dict(n="v", form="big", seg=[so[i * i % 3] for i in range(n)],
                                                   size=n * hive.SEG - 5 * (1 - more) + more)]), "root")
        im.done()
        im.fields = []
        go("C08 C13", im, ["root 1", "value 1 76 1", "vsize 1", "vdata 1 1", "hint 1", "nth 1 255 0", "next 1 0", "nth 1 %d 0" % max(0, n - 260), "clone 1 2",
                           "hint 2", "next 1 0", "next 1 0", "next 1 0", "last 2 0", "vdata 1 3", "nth 3 %d 0" % n, "vdata 1 4", "count 4", "vdword 1"])

    # integers that are said to be long
    im = hive.Image(5, seed=7)
    im.raw(bytes(70000))
    so = overlapping_segments(im, g, 6)
    sizes = [16345, 65540, 65544, 70000, 81720, 65536 + g.randrange(16000)]
    im.root = im.key(dict(n="root", vals=[dict(n="", ty=t, form="big", seg=so[:5], size=z) for z in g.sample(sizes, 4) for t in (4, 5, 11)]), "root")
    im.done()
    im.fields = []
    go("C09 C10", im, ["root 1", "values 1 1"] + ["next 1 2", "vdword 2", "vqword 2", "vstr 2", "vmulti 2 3", "vsize 2", "vtype 2"] * 12)

    # a deep tree
    n = ctx.pick(260, 1100)
    node = dict(n="d", vol=9)
    for i in range(n):
        node = dict(n="k%d" % (i % 7), vol=i % 3, sub=dict(t=["li", "lf", "lh"][i % 3], items=[node]))
    path = ["k%d" % (i % 7) for i in range(n - 2, -1, -1)] + ["D"]
    im = hive.build(node, seed=7)
    im.fields = []
    go("C06", im, ["root 1"] + ["subpath 1 %s 2" % q(x) for x in
                                ("\\".join(path), "\\" + "\\\\".join(path) + "\\", "\\".join(path[:-1]), "\\".join(path[:256]), "\\".join(path + ["x"]),
                                 "\\".join(path[:255] + ["x"] + path[256:]), "\\" * 5000, "\\" * 3000 + path[0] + "\\" * 3000)] + ["kname 2"])
    go("C14", im, ["clear", "root 1", "clear"], kind=g.choice("mg"))

    # paths of very many components, most of them empty
    n = ctx.pick(150000, 1000000)
    im = hive.build(dict(n="root", sub=dict(t="li", items=[dict(n="a", sub=dict(t="lf", items=[dict(n="b")]))])), seed=10)
    im.fields = []
    paths = ["\\" * n, "\\" * n + "a" + "\\" * n + "B", "a\\b" + "\\" * n, "a" + "\\" * n + "c" + "\\" * n, "/" * n]
    for x in g.sample(paths, ctx.pick(2, 5)):
        go("C06", im, ["root 1", "subpath 1 %s 2" % q(x), "kname 2"], weight=20 + n // 8)

    # a path that walks in a circle
    n = ctx.pick(3000, 30000)
    im = hive.Image(5, seed=11)
    at = im.key(dict(n="r", sub=dict(t="lf", items=[dict(n="b"), dict(n="k")])), "root")
    im.root = at
    im.done()
    lst = next(pos for name, pos, *_ in im.fields if name == "root.item0")
    im.put32(lst, at)
    im.put32(lst + 8, at)
    im.fields = []
    go("C06", im, ["root 1"] + ["subpath 1 %s 2" % q(x) for x in ("R\\r" * 3, "r\\" * n, "\\".join(g.choice("rR") for _ in range(n)) + "\\x")] + ["kname 2"],
       weight=n * 10)

    # long texts
    s = "".join(g.choice("abcäЖ\U00010331") for _ in range(500))
    for minor in (3, 5):
        im = hive.build(dict(n="root", vals=[dict(n="s", ty=1, d=bases.u16(s * 13, False), form="cell"),
                                             dict(n="m", ty=7, d=bases.u16("ab\0c\0" * 1500), form="cell")]), minor=minor, seed=8)
        go("C10", im, ["root 1", "value 1 73 1", "vstr 1", "value 1 6d 2", "vmulti 2 1", "nth 1 290 0", "hint 1"] + ["next 1 0"] * 12)
    im = hive.build(dict(n="root", vals=[dict(n="s", ty=2, d=bases.u16(s * 140), form="cell"), dict(n="m", ty=7, d=bases.u16((s + "\0") * 140), form="cell"),
                                         dict(n="b", ty=3, d=bytes(g.randrange(256) for _ in range(70001)), form="cell")]), minor=3, seed=9)
    im.fields = []
    go("C10 C08", im, ["root 1", "value 1 73 1", "vsize 1", "vstr 1", "vdata 1 2", "value 1 6d 2", "vmulti 2 1", "nth 1 138 0", "next 1 0", "next 1 0", "next 1 0",
                       "value 1 62 3", "vdata 3 4", "vvec 3", "vsize 3", "vdword 3"], weight=60000)


# ------------------------------------------------------------------ every character
ODD_NAMES = [".", "..", "...", "*", "?", " ", "  ", "\t", "\0", "%", "%41", "~1", "/", "//", "./", "|", ":", "\uFEFF", "\uFF3C", "\u2216", "\u29F5", "\u20E5",
             "\xa5", "\u20a9", "\n", "\r\n", "\x1a", "\x7f", "\x85", "\xa0", "\xad", "\u200b", "\u200e", "\u2028", "\u2029", "\u0301", "e\u0301", "\u00e9",
             "\ufffd", "\ufffe", "\uffff", "\ufdd0", "\U0001FFFF", "\U0010FFFF", "\U0001F600", "'", '"', "`", "$", "@", "#", "&", "=", "+", "-", ",", ";", "[", "]",
             "{", "}", "(", ")", "<", ">", "^", "!", "_", "0", "00", "1", "-1", "a.", ".a", " a", "a ", "a b", "Default", "(Default)", "default", "HKEY_LOCAL_MACHINE",
             "CurrentControlSet", "ControlSet001", "root", "con", "nul", "\u0130", "\u0131", "\u00df", "ss", "\u1e9e", "\ufb01", "fi", "\u212a", "k", "\u017f", "s"]


def tail_of(g, im):
    im.fields = []
    return im


def census(ctx):
    """Every code unit and many odd names where their treatment could depend on which they are."""
    g = random.Random("%d census" % ctx.seed)
    q = hive.query_hex
    p = ctx.prop
    u = bases.u16
    pack = lambda xs: b"".join(le(x, 2) for x in xs)
    special = [0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 1, 9, 10, 13, 0x1A, 0x20, 0x22, 0x25, 0x5C, 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0xFF, 0x100, 0x300, 0x2028, 0x2029, 0x200B,
               0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDD0, 0xFFF9, 0x3000, 0x0D00, 0x0A00, 0x2000, 0x4100, 0x0041, 0x5C00, 0x0061, 0x6100]

    def go(im, ops, kind="s", weight=None):
        o = hive.Out()
        o.image(im)
        o.session(ops, kind, g.randrange(8), g.choice("hkt"))
        ctx.add(o.text(), weight or 3 * len(ops) + len(im.d) // 8)

    # odd names as subkeys, values and components
    odd = sorted({tuple(bases.fold(x)): x for x in ODD_NAMES}.values(), key=bases.fold)
    if p in ("C05", "C06", "C12"):
        for form in ("lf", "li", "lh", "ri") if p == "C05" else (g.choice(["lf", "li", "lh", "ri"]),):
            inner = lambda: bases.klist(g, [dict(n=y, e=bases.enc(g, y)) for y in sorted(g.sample(odd, 3), key=bases.fold)], "li")
            im = hive.build(dict(n="root", sub=bases.klist(g, [dict(n=x, e=bases.enc(g, x), sub=inner()) for x in odd], form)), seed=g.randrange(1 << 30))
            ops = ["root 1"] + ["subkey 1 %s 2" % q(recase(g, x)) for x in ODD_NAMES]
            if p != "C05":
                ops += ["subkeys 1 1"] + ["next 1 3", "kname 3", "ktext 3"] * (len(odd) + 1)
                for x in ODD_NAMES:
                    y = g.choice(ODD_NAMES)
                    ops += ["subpath 1 %s 2" % q(t) for t in (x + "\\" + y, x + y, y + "\\" + x + "\\", x + "\\" + x, "\\" + x)]
            go(im, ops)
    if p in ("C07", "C12"):
        im = hive.build(dict(n="root", vals=[dict(n=x, e=bases.enc(g, x), d=b"%d" % i, form="inline" if i < 999 else "cell") for i, x in enumerate(g.sample(odd, len(odd)))]),
                        seed=g.randrange(1 << 30))
        go(im, ["root 1"] + ["value 1 %s 2" % q(recase(g, x)) for x in ODD_NAMES] + ["values 1 1"] + ["next 1 3", "vname 3", "vtext 3"] * len(odd), weight=60 * len(odd))

    # every character inside a path
    if p == "C06":
        im = hive.build(dict(n="root", sub=dict(t="li", items=[dict(n="a", sub=dict(t="lf", items=[dict(n="b")]))])), seed=1)
        every = [chr(c) for c in range(0, 65536, 1) if not 0xD800 <= c < 0xE000]
        every = every if ctx.deep else every[:700] + g.sample(every[700:], 2500) + [chr(c) for c in special if not 0xD800 <= c < 0xE000]
        for part in chunked(every, 3000):
            go(im, ["root 1"] + ["subpath 1 %s 2" % q(t) for c in part for t in ("a%sb" % c, "%sa" % c if ord(c) % 2 else "a%s" % c)])

    # every letter with case, as a name of its own
    if p in ("C05", "C07"):
        by = fold_classes()
        letters = [v for f, v in sorted(by.items()) if len(v) > 1 and not 0xD800 <= f < 0xE000]
        if p == "C07":
            letters = g.sample(letters, ctx.pick(150, 600))
        names = [g.choice(v) for v in letters]
        asks = [chr(g.choice(v)) for v in letters]
        if p == "C05":
            im = hive.build(dict(n="root", sub=dict(t=g.choice(["lf", "lh", "li"]), items=[dict(n=chr(c), e=bases.enc(g, chr(c))) for c in names])), seed=2)
            go(tail_of(g, im), ["root 1"] + ["subkey 1 %s 2" % q(x) for x in asks], weight=120000)
        else:
            im = hive.build(dict(n="root", vals=[dict(n=chr(c), e=bases.enc(g, chr(c)), d=b"1", form="inline") for c in names]), seed=2)
            go(tail_of(g, im), ["root 1"] + ["value 1 %s 2" % q(x) for x in asks], weight=120000)

    # every unit in names, alone and in stretches
    if p == "C12":
        parts = [pack(range(i, i + 256)) for i in range(0, 65536, 256)] + [bytes(range(256)), bytes(reversed(range(256)))]
        parts += [pack([h, l]) for h, l in zip(g.sample(range(0xD800, 0xDC00), 60), g.sample(range(0xDC00, 0xE000), 60))]
        parts += [pack(x) for c in special for x in ([c], [c, 0x61], [0x61, c], [c, c])]
        parts = parts if ctx.deep else g.sample(parts[:256], 64) + parts[256:]
        for part in chunked(parts, 64):
            ks = [dict(n=b, e="U" if len(b) != 256 or b[0] in (0,) and b[2:3] == b"\1" else "L", cls=b) for b in part]
            for k, b in zip(ks, part):
                k["e"] = "L" if b in (bytes(range(256)), bytes(reversed(range(256)))) else "U"
            im = hive.build(dict(n="root", sub=dict(t="li", items=ks), vals=[dict(n=k["n"], e=k["e"], d=b"1", form="inline") for k in ks]), seed=3)
            go(tail_of(g, im), ["root 1", "subkeys 1 1", "values 1 2"] + ["next 1 3", "kname 3", "ktext 3", "kclass 3", "ktclass 3", "next 2 4", "vname 4", "vtext 4"] * len(ks),
               g.choice(KINDS), weight=12000)

    # every unit in texts
    if p == "C10":
        every = list(range(1, 65536))
        for minor, form in ((3, "cell"), (5, "big")):
            lines = [x for i in range(0, 65535, 512) for x in every[i:i + 512] + [0]]
            im = hive.build(dict(n="root", vals=[dict(n="s", ty=1, d=pack(every), form=form), dict(n="m", ty=7, d=pack(lines), form=form)]), minor=minor, seed=4)
            go(tail_of(g, im), ["root 1", "value 1 73 1", "vstr 1", "value 1 6d 2", "vmulti 2 1"] + ["next 1 0"] * 130, weight=100000)
        some = special + g.sample(every, ctx.pick(700, 20000))
        lines = pack([x for c in some for x in g.choice([[c], [c, 0x62], [0x62, c]]) + [0]])
        im = hive.build(dict(n="root", vals=[dict(n="m", ty=7, d=lines)]), minor=3, seed=5)
        go(tail_of(g, im), ["root 1", "value 1 6d 1", "vmulti 1 1"] + ["next 1 0"] * (len(some) + 2), weight=40000)
        vals = [dict(n="v", ty=ty, d=pack(x), form=g.choice(["cell", "cell", "inline"]) if len(x) < 3 else "cell")
                for c in special for ty, x in ((g.choice([1, 2]), [c]), (g.choice([1, 2]), [c, 0x61]), (1, [0x61, 0x62, c]), (7, [c]), (7, [0x61, 0, c, 0]))]
        im = hive.build(dict(n="root", vals=vals), seed=6)
        go(tail_of(g, im), ["root 1", "values 1 1"] + ["next 1 1", "vstr 1", "vmulti 1 2", "next 2 0", "next 2 0", "next 2 0"] * len(vals), g.choice(KINDS))
