#!/usr/bin/env python3
"""plant.py SPEC.py: builds /verif/seeded/<id>/ from a description and confirms it in a scratch copy.

SPEC defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=rust source, miri=target or None)."""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
MIRI = """
d=$(mktemp -d)
export XDG_CACHE_HOME="$tmp/cache" MIRIFLAGS="-Zmiri-disable-isolation"
CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo +nightly miri run --offline --quiet --target %s
"""
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
for bid, b in bugs.items():
    if only and bid not in only:
        continue
    d = os.path.join(OUT, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        r = os.path.join(t, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, (bid, f, n, old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
        shutil.copy(os.path.join(HERE, "hb.rs"), d)
        s = open(os.path.join(HERE, "demo.sh")).read()
        if b.get("miri"):
            s = s[:s.index('CARGO_TARGET_DIR="$tmp/target" timeout')] + MIRI.strip().split("\n", 1)[1] % b["miri"] + "\n"
        else:
            s = s.replace(" @ARGS@", b.get("args", ""))
        open(os.path.join(d, "demo.sh"), "w").write(s)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        x = sh(["cargo", "test", "--offline", "--quiet"], r, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(t, "tt")))
        tests = "ok" if x.returncode == 0 else "TESTS FAIL\n" + x.stdout[-1500:]
        good = sh([os.path.join(d, "demo.sh")], "/repo")
        bad = sh([os.path.join(d, "demo.sh")], r)
        ok = tests == "ok" and good.returncode == 0 and bad.returncode not in (0,) and "error: could not compile" not in bad.stdout + good.stdout
        print("%-28s tests %s, demo %d/%d %s" % (bid, tests, good.returncode, bad.returncode, "" if ok else "*** REJECTED"))
        if not ok:
            print(good.stdout[-300:]); print(bad.stdout[-300:])
        else:
            print("      ", bad.stdout.strip().split("\n")[-1][:160])
    finally:
        shutil.rmtree(t, ignore_errors=True)
