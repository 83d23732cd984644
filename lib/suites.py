"""What is explored for each property: design models, and executions of the real crate judged by the specification."""
import json
import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

import bases
import faults
import findings
import hive
import run
import scen
from run import Group


class Context:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.deep = tier == "thorough"
        self.models = []
        self.extra = {}
        self.assumptions = [
            "TLC's evaluation of the TLA+ specification and its Json module are trusted",
            "the harness reports the results of the public API faithfully (it contains no judgement)",
        ]
        self.groups = []
        self.binary = None

    def pick(self, quick, thorough):
        return thorough if self.deep else quick

    def run_models(self, jobs):
        """jobs: list of dicts for run.model (key "module" first); returns their exports in order."""
        def one(j):
            j = dict(j)
            return run.model(j.pop("module"), self.work, **j)
        with ThreadPoolExecutor(min(len(jobs), run.PROCS)) as ex:
            ms = list(ex.map(one, jobs))
        for m in ms:
            m["scenarios"] = len(m["exports"])
            self.models.append(m)
        return [m["exports"] for m in ms]

    def prove(self, *modules):
        """Proofs, for sizes without bound, of what the design models check up to a size (thorough tier)."""
        if self.deep:
            self.extra["proof_obligations"] = {m: run.prove(m, self.work) for m in modules}

    def add(self, text, weight):
        self.groups.append(Group(text, weight))


# ------------------------------------------------------------------ corpora
KINDS = ["s", "m", "r", "g"]


def fault_groups(ctx, im, fs, ops, kinds=("s",), chunk=30, each=1, aligns=(0,), places=("h",)):
    """Groups of sessions over the image with one fault each.  fs: iterable of patch lists or ("len", n)."""
    fs = list(fs)
    vec = weight_of(im)
    n = 0
    for c in range(0, len(fs), chunk):
        o = hive.Out()
        o.image(im)
        for f in fs[c:c + chunk]:
            if f and f[0] == "len":
                o.patch(total=4096 + f[1])
            else:
                o.patch(f)
            for _ in range(each):
                o.session([x.replace("$", str(n + 7 * ctx.seed)) for x in ops], kinds[n % len(kinds)], aligns[n % len(aligns)],
                          places[n % len(places)])
                n += 1
        ctx.add(o.text(), vec * len(fs[c:c + chunk]) * each)


def weight_of(im):
    return 300 + len(im.d) // 8


def image_group(ctx, im, sessions, hdr=None):
    o = hive.Out()
    o.image(im, hdr=hdr)
    for s in sessions:
        if isinstance(s, tuple):
            o.session(*s)
        else:
            o.session(s)
    ctx.add(o.text(), weight_of(im) * len(sessions))


def patches(im, ctx=None, **kw):
    return [p for _, p in faults.all_faults(im, **kw)]


def cuts(im, every=1):
    return [("len", t) for t in faults.truncations(im)[::every]]


def pairs(im, rng, n, kinds=None):
    """Two faults at once."""
    fs = patches(im, kinds=kinds)
    return [a + b for a, b in ((rng.choice(fs), rng.choice(fs)) for _ in range(n)) if a[0][0] != b[0][0]]


def sample(ctx, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return random.Random(ctx.seed).sample(xs, n)


def twin_hives(ctx, n, ops):
    """Random histories over hives with many equal names, lists and cells."""
    for i in range(n):
        im = bases.twins(ctx.seed * 7001 + i)
        image_group(ctx, im, [([x.replace("$", str(i * 13 + s)) for x in ops], KINDS[(i + s) % 4], (i + s) % 8, "hkt"[(i + s) % 3]) for s in range(2)])


def random_hives(ctx, n, ops, kinds=("s",), depth=3, sessions=1, salt=0):
    for i in range(n):
        im = bases.rnd(ctx.seed * 100003 + salt * 7919 + i, depth)
        image_group(ctx, im, [([x.replace("$", str(i * 31 + s + ctx.seed)) for x in ops], kinds[(i + s) % len(kinds)], (i + s) % 8,
                               "hkt"[(i + s) % 3]) for s in range(sessions)])


# ------------------------------------------------------------------ a hive written by Windows
LOOK = ["kname 2", "kclass 2", "values 2 1", "hint 1"] + ["next 1 %d" % (10 + i) for i in range(10)] + \
       [x.replace("$", str(i)) for i in range(10, 13) for x in ("vdata $ 2", "vstr $", "vmulti $ 3", "next 3 0", "vdword $", "vqword $")] + \
       ["subkeys 2 4", "hint 4", "next 4 3", "kname 3", "nth 4 2 4", "next 4 5", "kname 5", "last 4 6", "count 4"]


def whose(im, what):
    """The path of the key that a field belongs to, and that key's place."""
    while what not in im.paths:
        cut = max(what.rfind("."), what.rfind("/"))
        what = what[:cut] if cut > 0 else "root"
    return im.paths[what]


def real_corpus(ctx, count):
    """The hive that the repository ships, as it is, and with one fault each; the calls go to the faulty place."""
    im = bases.real()
    if im is None:
        return
    g = random.Random(ctx.seed * 77 + 5)
    sep = lambda p: g.choice(["", "", "\\"]) + g.choice(["\\", "\\", "\\\\"]).join(p) + g.choice(["", "", "\\"])
    case = lambda s: scen.recase(g, s) if g.random() < 0.5 else s
    image_group(ctx, im, [(["validate", "ver", "root 1", "walk 6500"], "s", 0, "h")])
    ops = ["root 1"]
    some = [k for k in im.keys if k[1] or len(k[0]) != 2] + g.sample(im.keys, ctx.pick(80, 500))
    for path, vs in some:
        ops += ["subpath 1 %s 2" % hive.query_hex(sep([case(x) for x in path])), "kname 2"]
        if path:
            ops += ["subpath 1 %s 3" % hive.query_hex(sep(path[:-1])), "subkey 3 %s 4" % hive.query_hex(case(path[-1])), "keq 2 4", "kname 4",
                    "subkey 3 %s 5" % hive.query_hex(path[-1] + g.choice("a0~")), "kdrop 4"]
        for v in vs:
            ops += ["value 2 %s 1" % hive.query_hex(case(v)), "vname 1", "vtype 1", "vsize 1", "vdata 1 1", "vvec 1", "vstr 1", "vdword 1",
                    "vqword 1", "vmulti 1 2"] + ["next 2 0"] * 4
    image_group(ctx, im, [(ops, KINDS[i % 4], i, "hkt"[i % 3]) for i in range(2)])
    image_group(ctx, im, [(["rand %d %d" % (ctx.seed * 31 + i, ctx.pick(600, 3000))], KINDS[i % 4]) for i in range(ctx.pick(4, 16))])
    image_group(ctx, im, [(["walk 40", "clear", "walk 200", "rand %d 100" % ctx.seed], k) for k in "mg"])
    fields = [f for f in im.fields if not f[0].endswith((".junk2", ".vol"))]
    groups = {}
    for f in fields:
        groups.setdefault((f[3], len(whose(im, f[0]))), []).append(f)
    for i in range(count):
        name, pos, size, kind = g.choice(groups[g.choice(sorted(groups))])
        v = g.choice(faults.values(im, name, pos, size, kind))
        path = whose(im, name)
        up = path[:-1] if path and g.random() < 0.5 else path
        ops = ["root 1", "subpath 1 %s 2" % hive.query_hex("\\".join(up))] + LOOK + \
              (["subkey 2 %s 7" % hive.query_hex(path[-1]), "subpath 1 %s 7" % hive.query_hex("\\".join(path))] if path else [])
        if i % 15 == 0:
            o = hive.Out()
            o.image(im)
        o.patch([(pos, v)])
        o.session(ops, "sr"[i % 2], i % 8)
        if i % 15 == 14 or i == count - 1:
            ctx.add(o.text(), 60000)


# ------------------------------------------------------------------ replay
def replay(ctx, text):
    ctx.binary = run.build()
    if ctx.prop == "C16":
        return c16_replay(ctx, text)
    return run.check_groups(ctx.binary, [Group(text, 1)], ctx.prop, ctx.work, shards=1)


def decide(ctx):
    ctx.binary = run.build()
    SUITES[ctx.prop](ctx)
    if ctx.prop not in ("C02", "C11", "C16"):
        real_corpus(ctx, ctx.pick(60, 3000))
        scen.extremes(ctx)
    scen.census(ctx)
    res = run.check_groups(ctx.binary, ctx.groups, ctx.prop, ctx.work)
    extra = getattr(ctx, "late", None)
    if extra:
        for f in extra:
            res.add(f())
    return res


# ------------------------------------------------------------------ behaviours of all design models
def behaviours(ctx, share, headers=True):
    """Behaviours generated from every design model, for the properties that speak of every call."""
    big = ctx.pick(0, 1)
    step = 3
    todo = [
        (dict(module="MCCell", consts="Word = 64\nMaxLen = %d" % (24, 40)[big], invariants=["FollowedIffSound", "Inside", "NamesFault", "Export"]),
         lambda ex: scen.cells(ctx, ex, 64, ctx.pick(2500, 30000))),
        (dict(module="MCLookup", consts="Sorted = %d\nLoose = %d\nLooseNames = %d\nItems = %d\nLeaves = %d" % ((5, 3, 2, 3, 3), (7, 3, 3, 3, 3))[big],
              invariants=LOOKUP), lambda ex: (scen.enumerations(ctx, ex), scen.lookups(ctx, ex))),
        (dict(module="MCPath", consts="MaxLen = %d\nLetters = 2\nDepth = 3" % (4, 6)[big], invariants=["Chained", "NoEmptyQuestions", "Export"]),
         lambda ex: scen.paths(ctx, ex, ctx.pick(3, 10))),
        (dict(module="MCValues", consts="MaxLen = %d\nNameCount = 2" % (3, 4)[big], invariants=["Exact", "NeverOther", "Export"]),
         lambda ex: scen.value_lists(ctx, ex)),
        (dict(module="MCData", consts="Step = %d\nMaxSize = %d\nSurplus = 1" % (step, (7, 10)[big]), invariants=["AllOrError", "NeverMore", "Export"]),
         lambda ex: scen.value_data(ctx, ex, step, ["vsize 3", "vdata 3 4", "hint 4", "next 4 5", "nth 4 1 5", "next 4 5", "vvec 3", "vstr 3", "vmulti 3 6",
                                                    "next 6 5", "vdword 3", "vqword 3"], vec=0.1)),
        (dict(module="MCInt", consts="MaxType = 13\nMaxSize = 9", invariants=["ExactlyWhen", "Export"]), lambda ex: scen.integers(ctx, ex)),
        (dict(module="MCText", consts="MaxUnits = %d\nMaxSlices = 3" % (3, 4)[big], invariants=["Exact", "Export"]),
         lambda ex: scen.texts(ctx, ex, ctx.pick(60, 1500))),
        (dict(module="MCNames", consts="MaxUnits = %d" % (3, 4)[big], invariants=["Decides", "Converts", "Strict", "Export"]),
         lambda ex: scen.stored_names(ctx, ex)),
        (dict(module="MCIter", consts="Depth = 3\nTop = 63\nMaxItems = 3\nMaxLeaves = 2\nMaxLeaf = 2\nMaxText = 3\nStep = 5", invariants=ITER),
         lambda ex: scen.iterators(ctx, ex, 63, 5, (0.05, 2))),
        (dict(module="MCTree", consts="MaxNodes = %d\nMaxBad = 2" % (3, 4)[big], invariants=["OnlyReachable", "AllOrError", "Parenthood", "Export"]),
         lambda ex: scen.trees(ctx, ex, 1)),
    ]
    if headers:
        todo.append((dict(module="MCHeader", consts="DataLen = 4096\nPairs = FALSE\nJunk = 4",
                          invariants=["AcceptsExactly", "NamesAFault", "NeverTrivialSum", "Export"]), lambda ex: scen.headers(ctx, ex, 4096)))
    g = random.Random("%d behaviours %s" % (ctx.seed, ctx.prop))
    for (_, make), ex in zip(todo, ctx.run_models([dict(j, exports=True, workers=2) for j, _ in todo])):
        mine, ctx.groups = ctx.groups, []
        make(ex)
        new, ctx.groups = ctx.groups, mine
        g.shuffle(new)
        left = share
        for x in new:
            if left > 0:
                ctx.groups.append(x)
                left -= x.weight


# ------------------------------------------------------------------ properties
def c01(ctx):
    ops = ["walk 500", "rand $ 120"]
    clear = ["walk 200", "clear", "clear", "walk 100", "rand $ 60"]
    for im in (bases.mixed(), bases.values(zoo=True), bases.names()):
        fs = patches(im, deep=ctx.deep) + cuts(im)
        fault_groups(ctx, im, fs, ops, kinds=("s", "r"), aligns=(0, 3, 1), places=("h", "k", "t"))
    im = bases.mixed()
    fault_groups(ctx, im, patches(im, deep=ctx.deep) + cuts(im), clear, kinds=("m", "g"))
    big = bases.big()
    fault_groups(ctx, big, sample(ctx, patches(big), ctx.pick(150, 100000)), ops)
    random_hives(ctx, ctx.pick(40, 800), ["walk 400", "rand $ 300"], sessions=2)
    behaviours(ctx, ctx.pick(250000, 4000000))
    ctx.late = [lambda: findings.demonstrate(ctx), lambda: fuzz(ctx)]


def fuzz(ctx):
    """Mutants in bulk: the harness keeps only executions in which a call crashed; those are judged as always."""
    count = ctx.pick(2500, 120000)
    ims = [bases.mixed(), bases.values(zoo=True), bases.names(), bases.rnd(ctx.seed), bases.rnd(ctx.seed + 1), bases.rnd(ctx.seed + 2),
           bases.big(), bases.mixed(minor=3)]

    def one(i):
        o = hive.Out()
        o.image(ims[i])
        im = o.text()
        n = count if len(ims[i].d) < 9000 else count // 8
        first = (ctx.seed * 64 + i) * 10000000
        tr, pr = ctx.work.path("f%d.nd" % i), ctx.work.path("f%d.pr" % i)
        res = run.fuzz(ctx.binary, im, "z%d" % i, first, n, tr, pr, ctx.prop, ctx.work)
        return n, res

    total = run.Result()
    done = 0
    with ThreadPoolExecutor(run.PROCS) as ex:
        for n, r in ex.map(one, range(len(ims))):
            done += n
            total.add(r)
    ctx.extra["mutants_run_without_trace_unless_crashing"] = done
    return total


def c02(ctx):
    inv = ["AcceptsExactly", "NamesAFault", "NeverTrivialSum", "Export"]
    jobs = [dict(module="MCHeader", consts="DataLen = %d\nPairs = %s\nJunk = %d" % (n, p, ctx.seed + j), invariants=inv, exports=True)
            for n, p, j in ctx.pick([(12296, "TRUE", 3), (4096, "FALSE", 4)],
                                    [(12296, "TRUE", 3), (4096, "TRUE", 4), (8200, "TRUE", 5), (69632, "TRUE", 6)])]
    for j, ex in zip(jobs, ctx.run_models(jobs)):
        scen.headers(ctx, ex, int(j["consts"].split()[2]))
    im = bases.mixed()
    fault_groups(ctx, im, cuts(im, 3), ["validate"])


def c03(ctx):
    scen.cells(ctx, ctx.run_models([dict(module="MCCell", consts="Word = 64\nMaxLen = %d" % ctx.pick(24, 56),
                                         invariants=["FollowedIffSound", "Inside", "NamesFault", "Export"], exports=True)])[0], 64, ctx.pick(4000, 60000))
    ops = ["walk 400"]
    ks = ["off", "cell", "sig", "len16", "count16", "count32", "dsize"]
    for im in (bases.mixed(), bases.values(zoo=True)):
        fault_groups(ctx, im, patches(im, kinds=ks, deep=ctx.deep) + cuts(im), ops)
    big = bases.big(zoo=True)
    fault_groups(ctx, big, sample(ctx, patches(big, kinds=["off", "cell", "count16", "dsize"]), ctx.pick(120, 10000)) + cuts(big), ops)
    random_hives(ctx, ctx.pick(20, 300), ops)


def c04(ctx):
    ops = ["walk 400"]
    scen.enumerations(ctx, list_shapes(ctx, ctx.pick((6, 3, 2, 3, 3), (9, 4, 3, 4, 4))))
    for im in (bases.mixed(),):
        fault_groups(ctx, im, patches(im, kinds=["off", "sig", "count16", "cell", "junk"], deep=ctx.deep), ops)
    for i, kind in enumerate(["lf", "lh", "li", "ri", "ri"]):
        im, _ = bases.long_list(ctx.seed + i, ctx.pick(60, 600), kind)
        image_group(ctx, im, [["root 1", "subkeys 1 2"] + ["next 2 %d" % (10 + j) for j in range(ctx.pick(62, 602))]])
    random_hives(ctx, ctx.pick(40, 600), ops, kinds=KINDS)


def queries(g, ns):
    q = list(ns)
    for n in ns:
        q += [n.upper(), n.lower(), n + "~", n[:-1]]
    q += [bases.rname(g, 4) for _ in range(10)]
    q += ["", "\\", "a\\b", "\U0010FFFF"]
    return q


LOOKUP = ["FoundIsListed", "FindsAll", "ErrorNeedsFault", "Export"]


def list_shapes(ctx, sizes, live=None):
    """Lists from the lookup model (which is checked on the way)."""
    c = lambda z: "Sorted = %d\nLoose = %d\nLooseNames = %d\nItems = %d\nLeaves = %d" % z
    jobs = [dict(module="MCLookup", consts=c(sizes), invariants=LOOKUP, exports=True)]
    if live:
        jobs.append(dict(module="MCLookup", consts=c(live), properties=["Terminates"]))
    return ctx.run_models(jobs)[0]


def c05(ctx):
    ctx.prove("SearchProof")
    shapes = list_shapes(ctx, ctx.pick((8, 4, 3, 3, 3), (11, 5, 3, 4, 4)), ctx.pick((5, 3, 2, 2, 2), (7, 4, 3, 3, 3)))
    scen.lookups(ctx, shapes)
    scen.long_leaf(ctx, ctx.pick(["li"], ["li", "lf", "lh", "ri"]))
    g = random.Random(ctx.seed)
    for i in range(ctx.pick(60, 900)):
        n = g.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 40])
        im, ns = bases.long_list(ctx.seed * 1009 + i, n, g.choice(["lf", "lh", "li", "ri", "ri", "ri"]),
                                 g.choice(["sorted"] * 6 + ["raw", "swap", "dup", "shuffled"]))
        qs = queries(g, ns)
        if n > 9:
            qs = g.sample(qs, min(len(qs), 90))
        image_group(ctx, im, [["root 1"] + ["subkey 1 %s 2" % hive.query_hex(q) for q in qs]])
    im = bases.mixed()
    fault_groups(ctx, im, patches(im, kinds=["off", "sig", "count16", "cell", "junk", "len16", "kflags", "text"], deep=ctx.deep),
                 ["walk 400"])
    twin_hives(ctx, ctx.pick(10, 200), ["walk 60", "rand $ 250"])


def c06(ctx):
    jobs = [dict(module="MCPath", consts="MaxLen = %d\nLetters = 2\nDepth = 3" % ctx.pick(6, 8), invariants=["Chained", "NoEmptyQuestions", "Export"],
                 exports=True),
            dict(module="MCPath", consts="MaxLen = 4\nLetters = 2\nDepth = 3", properties=["Terminates"])]
    scen.paths(ctx, ctx.run_models(jobs)[0], ctx.pick(8, 60))
    random_hives(ctx, ctx.pick(60, 800), ["walk 300", "rand $ 200"], sessions=2)
    im = bases.mixed()
    fault_groups(ctx, im, patches(im, kinds=["off", "sig", "count16", "len16"], deep=ctx.deep), ["walk 300", "rand $ 80"])
    twin_hives(ctx, ctx.pick(10, 200), ["walk 60", "rand $ 250"])


def c07(ctx):
    jobs = [dict(module="MCValues", consts="MaxLen = %d\nNameCount = 3" % ctx.pick(4, 5), invariants=["Exact", "NeverOther", "Export"], exports=True),
            dict(module="MCValues", consts="MaxLen = 3\nNameCount = 2", properties=["Terminates"])]
    scen.value_lists(ctx, ctx.run_models(jobs)[0])
    for im in (bases.mixed(), bases.values()):
        fault_groups(ctx, im, patches(im, names=lambda n: ".v" in n or ".nval" in n, deep=ctx.deep), ["walk 500"])
    random_hives(ctx, ctx.pick(50, 600), ["walk 500", "rand $ 150"])
    twin_hives(ctx, ctx.pick(10, 200), ["walk 60", "rand $ 250"])


def data_shapes(ctx, step, top, surplus):
    c = "Step = %d\nMaxSize = %d\nSurplus = %d" % (step, top, surplus)
    return ctx.run_models([dict(module="MCData", consts=c, invariants=["AllOrError", "NeverMore", "Export"], exports=True),
                           dict(module="MCData", consts="Step = 2\nMaxSize = 5\nSurplus = 1", properties=["Terminates"])])[0]


def c08(ctx):
    step = 3
    scen.value_data(ctx, data_shapes(ctx, step, ctx.pick(10, 13), ctx.pick(1, 2)), step,
                    ["vsize 3", "vdata 3 4", "next 4 5", "next 4 5", "next 4 5", "vdata 3 4", "nth 4 1 5", "next 4 5", "next 4 5", "next 4 5",
                     "vvec 3"], vec=ctx.pick(0.1, 0.5))
    ks = ["off", "cell", "dsize", "count16", "sig", "junk"]
    for im in (bases.values(zoo=True), bases.values(minor=3)):
        fault_groups(ctx, im, patches(im, names=lambda n: ".v" in n, kinds=ks, deep=ctx.deep), ["walk 600"])
    for im in (bases.big(zoo=True), bases.old(), bases.bigdistinct(ctx.seed), bases.bigdistinct(ctx.seed, minor=3),
               bases.old(minor=4), bases.old(minor=5)):
        fs = patches(im, kinds=ks, names=lambda n: "root.v" in n)
        fault_groups(ctx, im, [[]] + sample(ctx, fs, ctx.pick(70, 10000)), ["walk 300"], chunk=12)


def c09(ctx):
    scen.integers(ctx, ctx.run_models([dict(module="MCInt", consts="MaxType = 13\nMaxSize = %d" % ctx.pick(9, 17), invariants=["ExactlyWhen", "Export"],
                                            exports=True)])[0])
    for im in (bases.values(), bases.values(minor=3)):
        fault_groups(ctx, im, patches(im, kinds=["type", "dsize", "off", "cell", "junk", "vflags"], names=lambda n: ".v" in n,
                                      deep=ctx.deep), ["walk 500"])
    random_hives(ctx, ctx.pick(40, 500), ["walk 500"])


def c10(ctx):
    jobs = [dict(module="MCText", consts="MaxUnits = %d\nMaxSlices = 3" % ctx.pick(4, 5), invariants=["Exact", "Export"], exports=True),
            dict(module="MCText", consts="MaxUnits = 3\nMaxSlices = 2", properties=["Terminates"])]
    scen.texts(ctx, ctx.run_models(jobs)[0], ctx.pick(300, 6000))
    im = bases.values()
    fault_groups(ctx, im, patches(im, kinds=["type", "dsize", "off", "cell"], names=lambda n: ".v" in n, deep=ctx.deep), ["walk 500"])
    random_hives(ctx, ctx.pick(40, 500), ["walk 400", "rand $ 150"])


def c11(ctx):
    ctx.prove("OrderProof")
    jobs = [dict(module="MCOrder", consts="MaxLen = %d\nRanks = %d\nThird = %d" % ctx.pick((2, 3, 3), (3, 2, 3)),
                 invariants=["Lexicographic", "EqualIsSameFold", "Antisymmetric", "Transitive", "Export"], exports=True),
            dict(module="MCOrder", consts="MaxLen = 2\nRanks = 2\nThird = 2", properties=["Terminates"])]
    scen.comparisons(ctx, ctx.run_models(jobs)[0], ctx.pick(3, 2), ctx.pick(24, 400))
    scen.boundaries(ctx)
    scen.long_names(ctx)
    im = bases.mixed()
    ops = ["casesort"]
    image_group(ctx, im, [ops])
    for ea, eb in (("U", "U"), ("S", "U"), ("U", "S"), ("L", "U"), ("U", "L"), ("L", "S"), ("S", "L"), ("L", "L")):
        image_group(ctx, im, [["cmpu %s %s %d 65536 %s" % (ea, eb, ctx.seed, m)] for m in ("near", "next", "rand")])
        # every unit next to a letter, where it may not be skipped or absorbed
        image_group(ctx, im, [["cmpu %s %s %d %d %s" % (ea, eb, ctx.seed, 512 if "L" in (ea, eb) else 65536, m)]
                              for m in ("tail", "more", "lead", "start", "mid", "lack", "swap")])


def c12(ctx):
    jobs = [dict(module="MCNames", consts="MaxUnits = %d" % ctx.pick(4, 6), invariants=["Decides", "Converts", "Strict", "Export"], exports=True),
            dict(module="MCNames", consts="MaxUnits = 3", properties=["Terminates"])]
    scen.stored_names(ctx, ctx.run_models(jobs)[0])
    im = bases.names(ctx.seed)
    fault_groups(ctx, im, patches(im, kinds=["len16", "kflags", "vflags", "text", "cell", "junk", "off"], deep=ctx.deep), ["walk 300"])
    random_hives(ctx, ctx.pick(30, 400), ["walk 300"])
    twin_hives(ctx, ctx.pick(10, 200), ["walk 60", "rand $ 250"])


ITER = ["Delivers", "StaysLost", "HintSound", "CountAgrees", "LastAgrees", "Export"]


def c13(ctx):
    ctx.prove("IterProof")
    c = lambda *a: "Depth = %d\nTop = 63\nMaxItems = %d\nMaxLeaves = %d\nMaxLeaf = %d\nMaxText = %d\nStep = 5" % a
    scen.iterators(ctx, ctx.run_models([dict(module="MCIter", consts=c(*ctx.pick((3, 4, 2, 2, 4), (4, 5, 3, 3, 5))), invariants=ITER,
                                             exports=True)])[0], 63, 5, ctx.pick((0.2, 6), (0.5, 40)))
    for i, im in enumerate([bases.mixed(), bases.values(), bases.big(), bases.names()]):
        for s in range(ctx.pick(12, 200)):
            image_group(ctx, im, [(["rand %d %d" % (ctx.seed * 1000 + i * 100 + s, ctx.pick(400, 1500))], KINDS[s % 4])])
    random_hives(ctx, ctx.pick(60, 800), ["rand $ 400"], sessions=2)
    im = bases.mixed()
    fault_groups(ctx, im, patches(im, kinds=["off", "sig", "count16", "count32"]), ["walk 60", "rand $ 150"])


def c14(ctx):
    jobs = [dict(module="MCTree", consts="MaxNodes = %d\nMaxBad = 2" % ctx.pick(4, 5), invariants=["OnlyReachable", "AllOrError", "Parenthood", "Export"],
                 properties=["SecondChangesNothing"], exports=True),
            dict(module="MCTree", consts="MaxNodes = 3\nMaxBad = 2", properties=["Terminates"])]
    scen.trees(ctx, ctx.run_models(jobs)[0], ctx.pick(1, 4))
    registry_sessions(ctx, (True,), ctx.pick(60, 2000))
    ops = ["walk 300", "clear", "walk 300", "clear", "walk 60"]
    im = bases.mixed()
    fault_groups(ctx, im, [[]] + patches(im, deep=ctx.deep) + cuts(im, 2), ops, kinds=("m", "g"))
    random_hives(ctx, ctx.pick(60, 800), ops, kinds=("m", "g"), depth=4)


def c15(ctx):
    for im in (bases.mixed(), bases.values(zoo=True), bases.names()):
        scen.combined(ctx, im, patches(im, deep=True), ["validate", "walk 400"], ctx.pick(150, 6000))
    for im in (bases.mixed(), bases.values(zoo=True), bases.names()):
        fault_groups(ctx, im, patches(im, deep=ctx.deep) + cuts(im), ["walk 400"])
    for im in (bases.big(zoo=True), bases.old()):
        fault_groups(ctx, im, sample(ctx, patches(im), ctx.pick(80, 5000)), ["walk 300"])
    behaviours(ctx, ctx.pick(250000, 4000000))


# C16: the same explicit history under every configuration
CLONES = ("clone", "kclone", "vclone", "root2")
ALLOC = ("vvec", "vstr", "vmulti")


def transcribe(ctx, text, drop, name):
    """Replaces walks and random histories by the calls they made, without those in drop."""
    tr = ctx.work.path(name + ".nd")
    run.drive(ctx.binary, text, tr)
    sess, ops = {}, None
    for line in open(tr):
        e = json.loads(line)
        if e["e"] == "sess":
            ops = sess[e["id"]] = []
        elif e["e"] == "op" and "a" in e and e["o"] not in drop:
            a = e["a"]
            if e["o"] in ("subkey", "subpath", "value"):
                a = [a[0], hive.query_hex(a[1]), a[2]]
            if e["o"] == "nth" and a[1] == 2147483647:
                a = [a[0], "max", a[2]]
            ops.append(" ".join([e["o"]] + [str(x) for x in a]))
    os.unlink(tr)
    out = []
    for line in text.split("\n"):
        if line[:2] in ("I ", "P "):
            out.append(line)
        elif line[:2] == "S ":
            out.append(line)
            out += sess.get(line.split(" ")[1], [])
    return "\n".join(out) + "\n"


def placed(text, kinds, aligns, places):
    """The same sessions on other kinds of slices, at other addresses."""
    n, out = 0, []
    for line in text.split("\n"):
        if line[:2] == "S ":
            t = line.split(" ")
            line = "S %s %s %d %s" % (t[1], kinds[n % len(kinds)], aligns[n % len(aligns)], places[n % len(places)])
            n += 1
        out.append(line)
    return "\n".join(out)


AGREE_CFG = "SPECIFICATION Spec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def agree(ctx, text, variant, name, refs, what):
    """Runs the scenario under one configuration and compares with the reference trace."""
    tr = ctx.work.path(name + ".nd")
    variant(text, tr)
    r = run.validate(tr, "C16", ctx.work, scenario=text, module="HiveAgree", cfg=AGREE_CFG, env={"REF": refs})
    for v in r.violations:
        v["what"] = "%s differs from the reference" % what
        v["scenario"] = "# %s\n%s" % (what, v["scenario"] or text)
    os.unlink(tr)
    return r


def native(binary, extra=()):
    return lambda text, tr: run.drive(binary, text, tr, extra=extra)


MIRI = {"32-bit little-endian (Miri)": "i686-unknown-linux-gnu", "64-bit big-endian (Miri)": "s390x-unknown-linux-gnu",
        "32-bit big-endian (Miri)": "powerpc-unknown-linux-gnu"}


def miri(target):
    def go(text, tr):
        run.drive(None, text, tr, limit=60, command=run.miri_command(target), env=run.miri_env(target))
    return go


def c16_scenarios(ctx):
    ims = [bases.mixed(), bases.values(zoo=True), bases.names()]
    n = ctx.pick(45, 400)
    big = []
    for i, im in enumerate(ims):
        fs = [[]] + sample(ctx, patches(im) + cuts(im), n)
        for c in range(0, len(fs), 31):
            o = hive.Out()
            o.image(im)
            for j, f in enumerate(fs[c:c + 31]):
                o.patch(total=4096 + f[1]) if f and f[0] == "len" else o.patch(f)
                o.session(["validate", "walk 200", "rand %d 60" % (ctx.seed * 1000 + j)])
            big.append(o.text())
    for i in range(ctx.pick(6, 60)):
        o = hive.Out()
        o.image(bases.rnd(ctx.seed * 31 + i))
        o.session(["walk 250", "rand %d 200" % (ctx.seed + i)])
        big.append(o.text())
    o = hive.Out()
    o.image(bases.big(sizes=(16345, 32689)))
    o.session(["walk 60", "rand %d 100" % ctx.seed])
    o.image(bases.old())
    o.session(["walk 60"])
    big.append(o.text())
    return big


def c16_small(ctx):
    """Short histories for the interpreters: every decoder and every kind of error once."""
    out = []
    per = ctx.pick(14, 400)
    for i, im in enumerate([bases.mixed(zoo=False), bases.values(), bases.names()]):
        o = hive.Out()
        o.image(im)
        o.session(["validate", "walk 170"], "s", 3)
        out.append(o.text())
        fs = patches(im, kinds=["off", "cell", "count32", "dsize", "type", "count16", "len16"])
        o = hive.Out()
        o.image(im)
        for j, f in enumerate(sample(ctx, fs, per)):
            o.patch(f)
            # the part of the walk that reaches the fault is transcribed
            o.session(["walk %d" % ctx.pick(20, 60)], "s", 1 + j % 7)
        out.append(o.text())
    # enormous distances and counts
    im = bases.mixed(zoo=False)
    o = hive.Out()
    o.image(im)
    for k in (536870911, 536870912, 536870913, 1073741823, 1073741824, 1073741825, 2147483647):
        o.session(["root 1", "subkeys 1 2", "nth 2 %d 3" % k, "next 2 3", "subkeys 1 2", "next 2 4", "nth 2 %d 3" % k, "hint 2", "next 2 3",
                   "subpath 1 %s 5" % hive.query_hex("bb"), "subkeys 5 6", "nth 6 %d 7" % k, "hint 6", "next 6 7",
                   "subpath 1 %s 5" % hive.query_hex("cc"), "values 5 6", "nth 6 %d 7" % k, "hint 6", "next 6 7"])
    out.append(o.text())
    o = hive.Out()
    o.image(bases.big(sizes=(32689,), fill=bytes(hive.SEG)))
    for k in (262144, 262145, 262808, 131072, 2147483647):
        o.session(["root 1", "values 1 2", "next 2 3", "vdata 3 4", "hint 4", "nth 4 %d 5" % k, "hint 4", "next 4 5"])
    out.append(o.text())
    # sizes that need about 65536 or 131072 segments
    im = bases.big(sizes=(32689,), fill=bytes(hive.SEG))
    field = next(f for f in im.fields if f[3] == "dsize")
    o = hive.Out()
    o.image(im)
    for k in (65536, 65537, 131072):
        for more in (0, 1):
            o.patch([(field[1], (k * hive.SEG + more).to_bytes(4, "little"))])
            o.session(["root 1", "values 1 2", "next 2 3", "vsize 3", "vdata 3 4", "hint 4", "next 4 5", "vvec 3"])
    out.append(o.text())
    # offsets, counts and sizes whose sums and products pass 2^31 or 2^32
    u = bases.u16
    im = hive.build(dict(n="r", cls=u("C", False), sub=dict(t="ri", leaves=[dict(t="lf", items=[dict(n="a")])]),
                         vals=[dict(n="v", d=b"12345678", ty=11), dict(n="w", d=b"12", ty=1, form="inline")]), seed=ctx.seed)
    ops = ["root 1", "kclass 1", "kname 1", "subkeys 1 1", "next 1 2", "next 1 3", "subkey 1 61 3", "values 1 2", "hint 2", "next 2 1", "vname 1",
           "vtype 1", "vdata 1 3", "vqword 1", "value 1 77 2", "vdata 2 4", "value 1 76 3", "vstr 2"]
    o = hive.Out()
    o.image(im)
    for name, pos, size, kind in im.fields:
        cur = int.from_bytes(im.d[pos:pos + size], "little")
        far = {"off": [cur + hive.NIL + 1 - 4096, cur - 4, hive.NIL - 3, hive.NIL - 7, hive.NIL - 4095, 0x80000000 + cur, 0x7FFFFFFC, 0x40000000 + cur],
               "count32": [0x3FFFFFFF, 0x40000000, 0x40000001, 0x40000002, 0x80000001, 0xC0000001, 0x7FFFFFFF, hive.NIL, 0x20000001, 0x10000001],
               "dsize": [0x7FFFFFFF, 0x7FFFFFF8, 0x40000008, 0x80000004, 0x80000005, hive.NIL, 0x3FD80000, 0x3FD7FFFF],
               "cell": [0x80000000, 0x80000001, 0x80000008, 0x80000004, 0x7FFFFFF8, 0x7FFFFFFF, hive.NIL - 4094],
               "count16": [0xFFFF, 0x8000, 0x8001], "len16": [0xFFFF, 0x8000]}.get(kind, [])
        for v in far:
            o.patch([(pos, (v & (1 << 8 * size) - 1).to_bytes(size, "little"))])
            o.session(ops, "s", 0)
    out.append(o.text())
    # headers
    o = hive.Out()
    im = bases.values()
    for h in (dict(), dict(root=hive.NIL), dict(root=hive.NIL - 4091), dict(root=0x80000000), dict(sumx=1), dict(p=2), dict(min=2), dict(maj=2), dict(type=1), dict(fmt=0), dict(size=4095), dict(size=0xFFFFF000),
              dict(clus=2), dict(sig=b"regg"), dict(p=0x01000000), dict(min=0x03000000), dict(size=4096), dict(size=0x80000000)):
        o.image(im, hdr=im.header(**h))
        o.session(["validate", "ver", "root 1"])
    out.append(o.text())
    return out


def c16_generated(ctx):
    """Behaviours of the design models as a few texts: those that only read, and those that clear."""
    mine, ctx.groups = ctx.groups, []
    behaviours(ctx, ctx.pick(30000, 600000))
    gs, ctx.groups = ctx.groups, mine
    pack = lambda xs, n: ["".join(xs[i::n]) for i in range(min(n, len(xs)))]
    clears = lambda x: "\nclear" in x
    n = ctx.pick(4, 24)
    return pack([x for x in gs if not clears(x)], n), pack([x for x in gs if clears(x)], 2)


def few(texts, count, limit):
    """That many sessions over images of at most limit bytes, spread over the texts."""
    out = []
    for t in texts:
        found = [c for c in chunks(t, 1) if max(len(x.split(" ")[4]) // 2 for x in c.split("\n") if x.startswith("I ")) <= limit]
        random.Random(len(found)).shuffle(found)
        out.append("".join(found[:max(1, count // len(texts))]))
    return out


def c16(ctx):
    ctx.late = [lambda: c16_run(ctx)]


def c16_run(ctx):
    total = run.Result()
    jobs = []
    native_builds = {
        "no std (alloc only)": dict(features="alloc", target_dir=ctx.work.path("b1")),
        "no alloc": dict(features="", target_dir=ctx.work.path("b2")),
        "release (no overflow checks)": dict(profile="release", target_dir=ctx.work.path("b3")),
    }
    pool = ThreadPoolExecutor(run.PROCS)
    targets = dict(list(MIRI.items())[:ctx.pick(2, 3)])
    prep = {k: pool.submit(run.miri_prepare, t) for k, t in targets.items()}
    built = {k: pool.submit(run.build, **a) for k, a in native_builds.items()}

    def family(texts, drop, name):
        """The explicit scenarios with their reference traces."""
        def one(i, t):
            t = transcribe(ctx, t, drop, "%s%d" % (name, i))
            ref = ctx.work.path("%s%d.ref" % (name, i))
            run.drive(ctx.binary, t, ref)
            return t, ref
        return list(pool.map(lambda a: one(*a), enumerate(texts)))

    gen, clearing = c16_generated(ctx)
    small = [t for x in c16_small(ctx) for t in chunks(x, ctx.pick(18, 40))]
    small += [t for x in few(gen, ctx.pick(48, 900), 1200) + few(clearing, ctx.pick(12, 90), 1200) for t in chunks(x, ctx.pick(18, 40))]
    fam_small = family(small, CLONES, "s")
    big = c16_scenarios(ctx) + gen
    fam_full = family(big + clearing, (), "f")
    fam_kinds = family(big, CLONES, "k")
    fam_noalloc = family(big + clearing, ALLOC, "n")
    fam_clear = family(clearing, (), "c")
    futs = []
    for i, (t, ref) in enumerate(fam_small):
        for k, target in targets.items():
            def go(i=i, t=t, ref=ref, k=k, target=target):
                prep[k].result()
                return agree(ctx, t, miri(target), "m%d%s" % (i, target), ref, k)
            futs.append((k, pool.submit(go)))
    for k in native_builds:
        for i, (t, ref) in enumerate(fam_noalloc if k == "no alloc" else fam_full):
            def go(i=i, t=t, ref=ref, k=k):
                return agree(ctx, t, native(built[k].result()), "b%d%s" % (i, k[:4].strip()), ref, k)
            futs.append((k, pool.submit(go)))
    for kind, what in (("s", "shared slice"), ("m", "exclusive slice"), ("r", "Ref"), ("g", "RefMut")):
        for i, (t, ref) in enumerate(fam_kinds):
            name = "%s, unaligned and moved" % what
            t2 = placed(t, [kind], [1, 2, 3, 4, 5, 6, 7], ["k", "t", "h", "k"])
            futs.append((name, pool.submit(agree, ctx, t2, native(ctx.binary), "p%d%s" % (i, kind), ref, name)))
    for i, (t, ref) in enumerate(fam_clear):
        for kind in "mg":
            futs.append(("clearing, moved", pool.submit(agree, ctx, placed(t, [kind], [1, 2, 3, 4, 5, 6, 7], ["k", "t", "h", "k"]), native(ctx.binary),
                                                        "q%d%s" % (i, kind), ref, "clearing, moved")))
    per = {}
    for k, f in futs:
        r = f.result()
        per[k] = per.get(k, 0) + r.events
        total.add(r)
    ctx.extra["events_compared_per_configuration"] = per
    pool.shutdown()
    return total


def chunks(text, n):
    """Cuts a scenario into pieces of n sessions, each with the image it needs."""
    out, cur, count, base, last = [], [], 0, None, None
    for line in text.split("\n"):
        if line.startswith("I "):
            base, last = line, None
        elif line.startswith("P "):
            last = line
        if line.startswith("S "):
            if count == n:
                out.append("\n".join(cur) + "\n")
                cur, count = [base] + ([last] if last else []), 0
            elif not cur and base:
                cur = [base] + ([last] if last else [])
            count += 1
        if line and not (count == n and line[:2] in ("I ", "P ")):
            cur.append(line)
        elif line and count == n:
            pass
    if count:
        out.append("\n".join(cur) + "\n")
    return out


def c16_replay(ctx, text):
    what, text = text.split("\n", 1)
    what = what[2:]
    ref = ctx.work.path("r.ref")
    run.drive(ctx.binary, placed(text, ["s"], [0], ["h"]), ref)
    if what in MIRI:
        run.miri_prepare(MIRI[what])
        v = miri(MIRI[what])
    elif what.startswith("no std"):
        v = native(run.build(features="alloc", target_dir=ctx.work.path("b1")))
    elif what == "no alloc":
        v = native(run.build(features="", target_dir=ctx.work.path("b1")))
    elif what.startswith("release"):
        v = native(run.build(profile="release", target_dir=ctx.work.path("b1")))
    else:
        v = native(ctx.binary)
    return agree(ctx, text, v, "r", ref, what)


SESSION = ["Handles", "Answers", "Identity", "Remaining", "Unchanged", "Export"]


def registry_sessions(ctx, clearing, count, which=None):
    """All sessions with a few handles over small hives, compared with the registry laid out in them; then on the real crate."""
    jobs, ims = [], []
    for name, ((im, wd), cfgs) in scen.worlds(ctx.seed).items():
        if which and name not in which:
            continue
        f = ctx.work.path(name + ".json")
        json.dump(wd, open(f, "w"))
        for k, v, i in cfgs:
            for cl in clearing:
                c = "KSlots = %d\nVSlots = %d\nISlots = %d\nClearing = %s\nDepth = 99\nImage <- FileImage" % (k, v, i, str(cl).upper())
                jobs.append(dict(module="MCSession", consts=c, invariants=SESSION, exports=True, view="View", env={"WORLD": f}, workers=2))
                ims.append((im, cl))
    for (im, cl), ex in zip(ims, ctx.run_models(jobs)):
        scen.sessions(ctx, im, ex, cl, count)


def c17(ctx):
    registry_sessions(ctx, (False, True), ctx.pick(150, 4000))
    for i, im in enumerate([bases.mixed(), bases.values(), bases.names()]):
        for s in range(ctx.pick(10, 200)):
            image_group(ctx, im, [(["walk 60", "rand %d %d" % (ctx.seed * 1000 + i * 100 + s, ctx.pick(400, 1500))], KINDS[s % 4])])
    random_hives(ctx, ctx.pick(60, 800), ["walk 100", "rand $ 400"], sessions=2)
    twin_hives(ctx, ctx.pick(30, 500), ["walk 40", "rand $ 400", "walk 60", "rand $ 200"])
    behaviours(ctx, ctx.pick(150000, 3000000), headers=False)


SUITES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
SUITES = {k.upper(): v for k, v in SUITES.items()}
