"""Systematic faults: every field of an image, with every interesting value for its kind."""
import struct

NIL = 0xFFFFFFFF
SIGS = [b"nk", b"vk", b"lf", b"lh", b"li", b"ri", b"db", b"kn", b"\0\0", b"LF", b"l\0", b"\0f"]


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def offsets(im, cur, deep):
    n = len(im.d)
    v = [0, 1, 3, 4, 8, NIL, NIL - 1, NIL - 3, NIL - 7, 0x7FFFFFFF, 0x80000000, 0x7FFFEFFF, 0xFFFFEFFF, 0xFFFFF000,
         n, n - 1, n - 2, n - 3, n - 4, n - 5, n - 8, n - 12, n + 1, n + 4, n + 8, n + 4096, n - 4096,
         cur + 1, cur - 1, cur + 2, cur + 4, cur - 4, cur + 8, cur - 8, cur ^ 0x80000000, cur + 0x10000, cur + 4096,
         cur - 4096, cur ^ 0x01000000]
    v += list(getattr(im, "zoo", {}).values())
    cells = [c for c, _, _ in im.cells]
    if deep or len(cells) <= 40:
        v += cells
    else:
        v += cells[:: max(1, len(cells) // 40)]
    return [x & NIL for x in v if x >= -8]


def cellsizes(im, pos, cur):
    """cur is the stored (negative) size"""
    n = len(im.d)
    left = n - pos
    m = -cur
    v = [0, 1, 8, m, -1, -2, -4, -5, -7, -8, -12, -16, -24, -28, -32, -80, -84, -88, -m + 1, -m - 1, -m + 2, -m + 4, -m - 4,
         -m + 8, -m - 8, -m + 16, -m - 16, -left, -left + 8, -left - 8, -left + 4, -left - 4, -left - 1, -left + 1,
         -(left - left % 8), -(left - left % 8) - 8, -2147483648, -2147483640, 2147483647, -65536, -65544, -(m + 0x10000),
         -(m | 0x01000000), -n, -n - 4096]
    return [x & NIL for x in v if -2147483648 <= x <= 2147483647]


def counts(cur, room):
    v = [0, 1, 2, 3, cur - 1, cur + 1, cur + 2, room // 4, room // 4 + 1, room // 8, room // 8 + 1, 0x7FFF, 0x8000, 0xFFFF,
         0xFFFE, cur | 0x100, cur | 0x8000, 0x4000, 0x2000]
    return [x & 0xFFFF for x in v if x >= 0]


def lens(cur):
    return [x & 0xFFFF for x in
            [0, 1, 2, 3, cur - 1, cur + 1, cur + 2, cur + 3, cur + 4, cur + 5, cur + 7, cur + 8, cur + 9, cur + 16, 0x7FFF, 0x8000, 0xFFFF,
             0xFFFE, cur | 0x100, cur | 0x8000] if x >= 0]


def values(im, name, pos, size, kind, deep=False):
    """The byte strings to put at a field."""
    cur = int.from_bytes(im.d[pos:pos + size], "little")
    p16 = lambda xs: [struct.pack("<H", x & 0xFFFF) for x in xs]
    p32 = lambda xs: [struct.pack("<I", x & NIL) for x in xs]
    if kind == "off":
        out = p32(offsets(im, cur, deep))
    elif kind == "junkoff":
        out = p32([0, NIL, len(im.d), cur + 8, 0x80000000])
    elif kind == "cell":
        out = p32(cellsizes(im, pos, struct.unpack("<i", im.d[pos:pos + 4])[0]))
    elif kind == "count16":
        out = p16(counts(cur, 64))
    elif kind == "count32":
        out = p32([0, 1, 2, cur - 1 if cur else 7, cur + 1, cur + 2, cur + 8, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, 0x80000000,
                   0xC0000000, NIL, NIL - 1, 0x10000, cur | 0x10000, cur | 0x80000000, cur | 0x40000000])
    elif kind == "len16":
        out = p16(lens(cur))
    elif kind == "sig":
        out = SIGS + [bytes([im.d[pos], im.d[pos + 1] ^ 1]), bytes([im.d[pos] ^ 0x20, im.d[pos + 1]])]
    elif kind == "kflags":
        out = p16([0, 0x20, 0x10, 0x30, 0x2C, 0x0C, 1, 2, 4, 8, 0x40, 0x80, 0xFFFF, 0xFFDF, 0x2000, 0x2020, cur ^ 0x20])
    elif kind == "vflags":
        out = p16([0, 1, 2, 3, 0x20, 0x100, 0xFFFF, 0xFFFE, cur ^ 1, 0x8001])
    elif kind == "dsize":
        b = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 16343, 16344, 16345, 2 * 16344, 2 * 16344 + 1, 3 * 16344, 0xFFFF, 0x10000, 0x7FFFFFFF,
             0x40000000, 65535 * 16344, 65535 * 16344 + 1]
        c = cur & 0x7FFFFFFF
        b += [c - 1 if c else 1, c + 1, c + 2, c + 3, c + 4, c + 8]
        out = p32(b + [x | 0x80000000 for x in [0, 1, 2, 3, 4, 5, 8, c, 0x7FFFFFFF, 0x100, 0x10000]])
    elif kind == "type":
        out = p32(list(range(0, 14)) + [NIL, 0x100, 0x101, 0x10001, 0x104, 0x80000004, 0x80000001, 0xFFFF0004, 0x20000000, 16, 0x0B000000])
    elif kind == "vol":
        out = p32([0, 1, 0x100, 0x10000, 0x01000000, NIL])
    elif kind in ("junk", "junk16", "text"):
        out = [bytes(size), b"\xff" * size, bytes((x ^ 0x55) for x in im.d[pos:pos + size])]
        if kind == "text":
            out += [b"\x00\xd8"[:size], b"\\"[:size], b"a\0"[:size], b"\xe4\0"[:size], b"\xff\x01"[:size], b"\x00\xdc"[:size]]
    else:
        raise ValueError(kind)
    now = bytes(im.d[pos:pos + size])
    return [x for x in uniq(out) if x != now and len(x) == size]


def all_faults(im, kinds=None, deep=False, names=None):
    """(name, patches) for every field and value."""
    for name, pos, size, kind in im.fields:
        if kinds and kind not in kinds:
            continue
        if names and not names(name):
            continue
        for v in values(im, name, pos, size, kind, deep):
            yield name, [(pos, v)]


def truncations(im):
    """Lengths that cut the image at or near every cell and field boundary."""
    n = len(im.d)
    cuts = set()
    for c, s, _ in im.cells:
        for x in (c, c + 1, c + 3, c + 4, c + 5, c + s - 8, c + s - 1, c + s):
            cuts.add(x)
    for _, p, s, _ in im.fields:
        cuts.add(p)
        cuts.add(p + s)
    return sorted(x for x in cuts if 0 <= x <= n)
