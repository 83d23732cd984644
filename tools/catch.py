#!/usr/bin/env python3
"""catch.py [--prop Cxx] [-j N] [ids...]: runs the check of each planted bug's property on a copy of /repo with the bug.

Copies of /verif and /repo in /tmp are used (and removed), so that /repo itself stays as it is."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop_over, jobs = None, 1
ids = []
while args:
    a = args.pop(0)
    if a == "--prop":
        prop_over = args.pop(0)
    elif a == "-j":
        jobs = int(args.pop(0))
    else:
        ids.append(a)
ids = ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    if not os.path.exists(d):
        d = os.path.join(ROOT, "tools/regressions", i)
    prop = prop_over or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = "/tmp/catch-%d-%s" % (os.getpid(), i)
    os.makedirs(tmp)
    try:
        for x in ("check.py", "lib", "spec", "harness", "known_findings.txt"):
            subprocess.check_call(["cp", "-a", os.path.join(ROOT, x), tmp])
        subprocess.check_call(["cp", "-a", "/repo", tmp + "/repo"])
        subprocess.check_call(["git", "-C", tmp + "/repo", "checkout", "-q", "--", "."])
        subprocess.check_call(["git", "-C", tmp + "/repo", "apply", os.path.join(d, "patch.diff")])
        t = tmp + "/harness/Cargo.toml"
        s = open(t).read().replace('"/repo"', '"%s/repo"' % tmp)
        open(t, "w").write(s)
        t0 = time.time()
        p = subprocess.run([sys.executable, tmp + "/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
        print("%-28s %s exit %d %s %.0f s" % (i, prop, p.returncode, "caught" if p.returncode == 1 and v else "MISSED", time.time() - t0), flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-800:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
