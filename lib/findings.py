"""Known findings: defects recorded rather than repaired.  Each is shown again on every run of its check."""
import json
import os
import struct

import hive
import run


def clear_cycle():
    im = hive.Image(5)
    im.root = 0
    im.key(dict(n="root", vol=1, sub=dict(t="lf", items=[dict(ref=0)])), "root")
    return im.done()


def chain(depth, twice=False):
    """A chain of keys, built bottom-up so that children come first."""
    d = bytearray()
    child = None
    for i in range(depth):
        if child is not None:
            n = 2 if twice else 1
            lst = len(d)
            body = b"li" + struct.pack("<H", n) + struct.pack("<I", child) * n
            size = 4 + len(body)
            size += -size % 8
            d += struct.pack("<i", -size) + body + bytes(size - 4 - len(body))
        else:
            lst = hive.NIL
        k = bytearray(84)
        k[0:2] = b"nk"
        struct.pack_into("<H", k, 2, 0x20)
        for at, v in ((24, 1), (28, lst), (32, hive.NIL), (36, 0), (40, hive.NIL), (44, hive.NIL), (48, hive.NIL)):
            struct.pack_into("<I", k, at, v)
        struct.pack_into("<H", k, 72, 1)
        k[76] = 97
        child = len(d)
        d += struct.pack("<i", -88) + k
    im = hive.Image(5)
    im.d = d
    im.root = child
    return im.done()


INPUTS = {"clear-cycle": clear_cycle, "clear-deep": lambda: chain(100000), "clear-shared": lambda: chain(65, True)}


def known(prop):
    out = []
    for line in open(os.path.join(run.ROOT, "known_findings.txt")):
        if line.startswith("known: property=%s " % prop):
            rest = line.split(" input=", 1)[1].strip()
            name, what = rest.split(" ", 1)
            out.append((name, what))
    return out


def is_clear(v):
    e = json.loads(v["event"])
    return v["what"] == "crash" and e.get("o") == "clear" and e["r"]["t"] in ("abort", "timeout")


def demonstrate(ctx):
    """Runs the input of each known finding; the specification (totality of every call) judges the outcome."""
    res = run.Result()
    listed = dict(known(ctx.prop))
    for name, make in INPUTS.items():
        o = hive.Out()
        o.image(make())
        o.session(["clear"], "m")
        tr = ctx.work.path(name + ".nd")
        run.drive(ctx.binary, o.text(), tr, limit=4, extra=["--force-clear"])
        r = run.validate(tr, ctx.prop, ctx.work, scenario=o.text())
        os.unlink(tr)
        if r.violations and name in listed:
            run.say("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, name, listed[name]))
            r.violations = [v for v in r.violations if not is_clear(v)]
        res.add(r)
    return res
