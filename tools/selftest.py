#!/usr/bin/env python3
"""selftest.py [seed]: is the judge itself sensitive?  (Not a registered check; see DESIGN.md.)

1. FastLookup: the remembered lookup admits the same results as the specified one.
2. Recorded traces with one falsified result each: HiveTrace (all properties) has to reject exactly that event."""
import copy, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import bases, faults, hive, run, suites

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
g = random.Random(seed)
work = run.Work("self")
binary = run.build()


def fast_lookup():
    o = hive.Out()
    n = 0
    for i in range(40):
        im, ns = bases.long_list(seed * 31 + i, g.choice([1, 2, 3, 5, 8, 17, 40]), g.choice(["lf", "lh", "li", "ri"]),
                                 g.choice(["sorted", "raw", "swap", "dup", "shuffled"]))
        o.image(im)
        qs = suites.queries(g, ns)[:25]
        o.session(["root 1"] + ["subkey 1 %s 2" % hive.query_hex(q) for q in qs])
        fs = suites.patches(im, kinds=["off", "sig", "count16", "len16", "kflags", "text"])
        for f in g.sample(fs, min(6, len(fs))):
            o.patch(f)
            o.session(["root 1"] + ["subkey 1 %s 2" % hive.query_hex(q) for q in qs[:8]])
    tr = work.path("fl.nd")
    run.drive(binary, o.text(), tr)
    cfg = run.TRACE_CFG.replace("  LookupIn <- FastLookupIn\n", "") + "INVARIANT SameLookup\n"
    rc, out = run.tlc("FastLookup", cfg % "C05", env={"TRACE": tr}, metadir=work.dir)
    print("FastLookup: exit %d, %s" % (rc, run.counts(out)))
    if rc:
        print(out[-1500:])
    return rc


def mutants(r, o):
    """Falsified results."""
    def put(path, v):
        x = copy.deepcopy(r)
        y = x
        for p in path[:-1]:
            y = y[p]
        y[path[-1]] = v
        return x
    def walk(v, path):
        if isinstance(v, dict):
            for k, w in v.items():
                yield from walk(w, path + [k])
        elif isinstance(v, list):
            if v and not isinstance(v[0], (list, dict)):
                yield path, v[:-1]
                yield path, v + [v[-1]]
            for i, w in enumerate(v):
                if i < 3 or i == len(v) - 1:
                    yield from walk(w, path + [i])
        elif isinstance(v, bool):
            yield path, not v
        elif isinstance(v, int):
            yield path, v + 1
        elif isinstance(v, str):
            yield path, {"ok": "none", "err": "none", "none": "err"}.get(v, v + "x") if path[-1] == "t" else v + "x"
    for p, v in walk(r, []):
        yield p, put(p, v)


def judge(job):
    i, lines, at, new, path = job
    tr = work.path("m%d.nd" % i)
    ls = list(lines)
    ls[at] = json.dumps(new, separators=(",", ":"), ensure_ascii=False)
    with open(tr, "w") as f:
        f.write("\n".join(ls) + "\n")
    r = run.validate(tr, "ALL", work)
    os.unlink(tr)
    e = json.loads(lines[at])
    hit = [v for v in r.violations]
    return e["o"], e["r"].get("t"), ".".join(map(str, path)), bool(hit)


def falsified(count):
    jobs = []
    traces = []
    for im in (bases.mixed(), bases.values(), bases.names(), bases.big(sizes=(16345,))):
        for ops, kind in ((["validate", "ver", "walk 70", "rand %d 40" % seed], "s"), (["clear", "walk 20"], "m")):
            o = hive.Out()
            o.image(im)
            fs = suites.patches(im, kinds=["off", "sig", "count16", "len16"])
            o.session(ops, kind)
            for f in g.sample(fs, min(3, len(fs))):
                o.patch(f)
                o.session(ops, kind)
            tr = work.path("x.nd")
            run.drive(binary, o.text(), tr)
            traces.append(open(tr).read().rstrip("\n").split("\n"))
    per = {}
    for t in traces:
        for at, line in enumerate(t):
            e = json.loads(line)
            if e["e"] == "op":
                for path, r in mutants(e["r"], e["o"]):
                    key = (e["o"], e["r"].get("t"), e["r"].get("k"), tuple(x if isinstance(x, str) else "#" for x in path))
                    per.setdefault(key, []).append((t, at, dict(e, r=r), path))
    for key, xs in sorted(per.items(), key=str):
        t, at, new, path = g.choice(xs)
        jobs.append((len(jobs), t, at, new, path))
    if len(jobs) > count:
        jobs = g.sample(jobs, count)
    missed = {}
    with ThreadPoolExecutor(run.PROCS) as ex:
        for o, t, path, hit in ex.map(judge, jobs):
            if not hit:
                missed.setdefault((o, t), []).append(path)
    print("falsified results: %d, not rejected: %d" % (len(jobs), sum(map(len, missed.values()))))
    for k, v in sorted(missed.items(), key=str):
        print("  ", k, v)


rc = fast_lookup()
falsified(int(sys.argv[2]) if len(sys.argv) > 2 else 400)
work.close()
sys.exit(rc)
