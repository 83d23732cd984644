#!/usr/bin/env python3
"""mutants.py gen DIR | filter DIR [-j N] | judge DIR [-j N] [--only REGEX]: small changes made everywhere in /repo/src.

gen writes DIR/list.json; filter keeps those that compile and pass the repository's tests (DIR/alive.json); judge runs the
checks, the likeliest first, until one raises an alarm (DIR/judged.log).  Works on copies in DIR; not a registered check."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OPS = [
    (r"(?<![<>=\-])<(?![<=a-zA-Z'\[&(])", ["<="]), (r" <= ", [" < "]), (r"(?<![=\-]) > (?!=)", [" >= "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \^= ", [" |= "]), (r" & ", [" | "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"(?<![\w.])\d[\d_]*(?![\w.x])", ["+1", "-1"]), (r"0x[0-9a-fA-F_]+", ["+1"]),
    (r"(?<=[ (])!(?=[a-z])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.start\b", [".end"]), (r"\.end\b", [".start"]), (r"\bas usize\b", ["as u16 as usize", "as i32 as usize"]),
    (r"\bas u32\b", ["as u16 as u32"]), (r"Ordering::Less\b", ["Ordering::Greater", "Ordering::Equal"]),
    (r"Ordering::Greater\b", ["Ordering::Less", "Ordering::Equal"]), (r"Ordering::Equal\b", ["Ordering::Less"]),
    (r"\.checked_(add|sub|mul)\(", [".wrapping_\\1W("]), (r"\.saturating_(add|sub|mul)\(", [".wrapping_\\1("]),
    (r"chunks_exact\(", ["chunks("]), (r"from_le_bytes", ["from_be_bytes", "from_ne_bytes"]), (r"LittleEndian", ["BigEndian"]),
    (r"u32::MAX", ["u16::MAX as u32", "0"]), (r"Latin1\(", ["Utf16LE("]), (r"Utf16LE\(", ["Latin1("]),
    (r"\bis_none\(\)", ["is_some()"]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_empty\(\)", ["is_empty() == false"]),
    (r"\.contains\(", [".intersects("]), (r"\bhead\b", ["tail"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"= None;", ["= self.NONE;"]), (r"\bu16::", ["u8::"]), (r"\bskip\b", ["take"]), (r"\.take\(\)", [".clone()"]),
    (r"b\"(..)\"", ['b"xx"']), (r"split\('\\\\'\)", ["split('/')"]),
]
OPS2 = [
    (r"\bif (?!let)(.+) \{$", ["if false && (\\g<1>) {", "if true || (\\g<1>) {"]), (r"\bwhile (?!let)(.+) \{$", ["while false && (\\g<1>) {"]),
    (r"iter_try!\((.+)\);$", ["\\g<1>.ok()?;"]), (r"iter_try!\((.+)\?\);$", ["\\g<1>?.ok()?;"]),
    (r"cmp::min\(", ["cmp::max("]), (r"\bbreak 'outer_loop;", ["continue 'outer_loop;"]), (r"\bcontinue 'outer_loop;", ["break 'outer_loop;"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]), (r"return None;", ["{}"]), (r"^(\s*)None$", ["\\1unreachable!()"]),
    (r"\.saturating_sub\(", [".wrapping_sub("]), (r"div_ceil\(", ["div_euclid("]), (r"unsigned_abs\(\)", ["wrapping_neg()"]),
    (r"from_bits_truncate\(([^()]+(\(\))?)\)", ["from_bits(\\g<1>).unwrap_or(KeyNodeFlags::empty())", "from_bits(\\g<1>).unwrap_or(KeyValueFlags::empty())"]),
    (r"size_of::<(\w+)>\(\)", ["size_of::<u16>()", "size_of::<u64>()"]), (r"\bmid\b", ["left", "right"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"\bthis_(\w+)\b", ["other_\\1"]), (r"\bother_(\w+)\b", ["this_\\1"]), (r"\blhs\b", ["rhs"]), (r"\bcell_range\b", ["remaining_range"]),
    (r"from_utf16_lossy\((.*)\)", ["from_utf16(\\1).unwrap_or_default()"]), (r"unwrap_or\(char::REPLACEMENT_CHARACTER\)", ["unwrap_or('?')"]),
    (r"x\.ok\(\)", ["Some(x.unwrap_or('?'))"]), (r"\(size, Some\(size\)\)", ["(0, Some(size))", "(size, None)", "(0, None)", "(size + 1, Some(size + 1))"]),
    (r"ptr::eq\(self\.hive, other\.hive\)", ["true"]), (r"self\.item_range == other\.item_range", ["true"]),
]
FIELDS = re.compile(r"header\.(\w+)\.get\(\)")


def code_lines(path):
    out, skip = [], False
    for n, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("(0x") or not s:
            continue
        out.append((n, l))
    return out


def gen(d):
    ms = []
    for f in sorted(os.listdir(REPO + "/src")):
        if not f.endswith(".rs") or f in ("lib.rs", "error.rs"):
            continue
        p = "src/" + f
        for n, l in code_lines(os.path.join(REPO, p)):
            code = l.split(" //")[0]
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        if r in ("+1", "-1"):
                            t = m.group(0).replace("_", "")
                            v = int(t, 0)
                            if r == "-1" and v == 0:
                                continue
                            r = str(v + (1 if r == "+1" else -1))
                        elif "\\1" in r:
                            r = m.expand(r).replace("W(", "(")
                        new = code[:m.start()] + r + code[m.end():]
                        ms.append(dict(f=p, n=n, old=l, new=new))
            for m in FIELDS.finditer(code):
                for o in ("subkey_count", "key_values_count", "name_length", "class_name_length", "data_size", "flags", "count"):
                    if o != m.group(1):
                        ms.append(dict(f=p, n=n, old=l, new=code[:m.start(1)] + o + code[m.end(1):]))
            s = code.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "const", "type", "pub ", "}", ")", "struct", "impl", "fn ")) \
                    and ":" not in s.split("(")[0]:
                ms.append(dict(f=p, n=n, old=l, new=code[:len(code) - len(code.lstrip())] + "// gone"))
    for i, m in enumerate(ms):
        m["i"] = i
    json.dump(ms, open(d + "/list.json", "w"))
    print(len(ms), "mutants")


def gen2(d):
    ms = []
    for f in sorted(os.listdir(REPO + "/src")):
        if not f.endswith(".rs") or f in ("lib.rs", "error.rs"):
            continue
        p = "src/" + f
        lines = code_lines(os.path.join(REPO, p))
        for n, l in lines:
            code = l.split(" //")[0]
            for rx, reps in OPS2:
                for m in re.finditer(rx, code):
                    for r in reps:
                        ms.append(dict(f=p, n=n, old=l, new=code[:m.start()] + m.expand(r) + code[m.end():]))
        for (n1, a), (n2, b) in zip(lines, lines[1:]):
            fa, fb = re.match(r"    (\w+): (\[?\w.*),$", a), re.match(r"    (\w+): (\[?\w.*),$", b)
            if fa and fb and n2 == n1 + 1:          # two fields change places (one line swallows the other)
                ms.append(dict(f=p, n=n1, old=a, new=b + "\n" + a, n2=n2))
            ma, mb = re.match(r"\s*(validate|self\.\w+)\b.*\?;$", a), re.match(r"\s*self\.\w+.*\?;$", b)
            if ma and mb:
                ms.append(dict(f=p, n=n1, old=a, new=b + "\n" + a, n2=n2))
    for i, m in enumerate(ms):
        m["i"] = 10000 + i
    json.dump(ms, open(d + "/list.json", "w"))
    print(len(ms), "mutants")


def apply(m, repo):
    p = os.path.join(repo, m["f"])
    ls = open(os.path.join(REPO, m["f"])).read().split("\n")
    assert ls[m["n"]] == m["old"]
    ls[m["n"]] = m["new"]
    if "n2" in m:
        ls[m["n2"]] = ""
    open(p, "w").write("\n".join(ls))


def workers(jobs, fn, ms, mk):
    lock, q, out = threading.Lock(), list(ms), []

    def work(w):
        st = mk(w)
        while True:
            with lock:
                if not q:
                    return
                m = q.pop(0)
            r = fn(st, m)
            with lock:
                out.append(r)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def copy(d, w):
    r = "%s/repo%d" % (d, w)
    shutil.rmtree(r, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, r])
    return r


def sh(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def filt(d, jobs):
    ms = json.load(open(d + "/list.json"))
    env = dict(os.environ, CARGO_NET_OFFLINE="true")

    def one(r, m):
        apply(m, r)
        cargo = ["cargo", "--offline"]
        rc, o = sh(["cargo", "test", "--manifest-path", r + "/Cargo.toml", "--all-features", "--offline", "--lib", "--", "--test-threads", "4"], 120, env)
        ok = rc == 0
        if ok:
            ok = sh(["cargo", "build", "--manifest-path", r + "/Cargo.toml", "--no-default-features", "--offline"], 120, env)[0] == 0
        subprocess.check_call(["cp", os.path.join(REPO, m["f"]), r + "/" + m["f"]])
        return m if ok else None
    res = [m for m in workers(jobs, one, ms, lambda w: copy(d, w)) if m]
    res.sort(key=lambda m: m["i"])
    json.dump(res, open(d + "/alive.json", "w"))
    print(len(res), "alive")


ORDER = {"hive.rs": "C02 C03 C15 C08 C14", "big_data.rs": "C08 C13 C15 C10 C03", "helpers.rs": "C03 C15", "index_root.rs": "C04 C05 C13 C15 C14 C03",
         "key_node.rs": "C05 C07 C12 C06 C15 C14 C03 C17", "key_value.rs": "C10 C08 C09 C15 C12 C17 C03", "key_values_list.rs": "C07 C13 C15 C03",
         "leaf.rs": "C13 C04 C05 C15 C14 C03", "string.rs": "C11 C12", "subkeys_list.rs": "C04 C13 C15 C14 C03"}
ALL = ["C%02d" % i for i in range(1, 18)]


def judge(d, jobs, only):
    ms = json.load(open(d + "/alive.json"))
    done = set()
    log = d + "/judged.log"
    if os.path.exists(log):
        done = {int(l.split()[0]) for l in open(log) if l[:1].isdigit()}
    ms = [m for m in ms if m["i"] not in done and (not only or re.search(only, m["f"] + ":" + m["old"]))]
    f = open(log, "a")

    def mk(w):
        t = "%s/v%d" % (d, w)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        for x in ("check.py", "lib", "spec", "harness", "known_findings.txt"):
            subprocess.check_call(["cp", "-a", os.path.join(ROOT, x), t])
        subprocess.check_call(["cp", "-a", REPO, t + "/repo"])
        c = t + "/harness/Cargo.toml"
        s = open(c).read().replace('"/repo"', '"%s/repo"' % t)
        open(c, "w").write(s)
        return t

    def one(t, m):
        apply(m, t + "/repo")
        order = ORDER[os.path.basename(m["f"])].split()
        order = os.environ.get("ORDER", " ".join(order + [c for c in ALL if c not in order])).split()
        res = "MISSED"
        t0 = time.time()
        for c in order:
            rc, o = sh([sys.executable, t + "/check.py", c], 1500)
            if rc == 1 and "VIOLATION property=" + c in o:
                res = c
                break
            if rc != 0:
                res = "%s?%d" % (c, rc)
                open(d + "/odd-%d.txt" % m["i"], "w").write(o[-5000:])
                break
        subprocess.check_call(["cp", os.path.join(REPO, m["f"]), t + "/repo/" + m["f"]])
        f.write("%d %s %s:%d %.0fs | %s | %s\n" % (m["i"], res, m["f"], m["n"] + 1, time.time() - t0, m["old"].strip(), m["new"].strip()))
        f.flush()
    workers(jobs, one, ms, mk)


def diff(d, jobs, scn, which):
    """Which mutants answer none of the recorded scenarios (files in SCN, written by a patched run.drive) differently?"""
    ms = json.load(open(d + "/" + which))
    files = []
    for n in sorted(os.listdir(scn)):
        if n.endswith(".json"):
            j = json.load(open(scn + "/" + n))
            if not j["command"] and "debug" in j["binary"]:
                files.append((os.path.getsize(scn + "/" + n[:-5]), n[:-5], j))
    files.sort()

    def execute(binary, n, j):
        with open(scn + "/" + n) as f:
            p = subprocess.Popen([binary, "--limit", "5"] + j["extra"], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            h = hashlib.sha256()
            while True:
                b = p.stdout.read(1 << 20)
                if not b:
                    break
                h.update(b)
            return "%d %s" % (p.wait(), h.hexdigest())

    def make(w, repo=None):
        t = "%s/d%d" % (d, w)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        subprocess.check_call(["cp", "-a", os.path.join(ROOT, "harness"), t])
        subprocess.check_call(["cp", "-a", REPO, t + "/repo"])
        c = t + "/harness/Cargo.toml"
        s = open(c).read().replace('"/repo"', '"%s/repo"' % t)
        open(c, "w").write(s)
        return t

    def build(t):
        return sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", t + "/harness/Cargo.toml"], 300,
                  dict(os.environ, CARGO_TARGET_DIR=t + "/target", RUSTFLAGS="-Awarnings"))
    base = make(99)
    print(build(base))
    with ThreadPoolExecutor(8) as ex:
        want = dict(zip([n for _, n, _ in files], ex.map(lambda f: execute(base + "/target/debug/hvdrive", f[1], f[2]), files)))
    log = open(d + "/diff.log", "a")

    def one(t, m):
        apply(m, t + "/repo")
        rc, o = build(t)
        hits = []
        if rc == 0:
            for _, n, j in files:
                if execute(t + "/target/debug/hvdrive", n, j) != want[n]:
                    hits.append(j["prop"])
                    if len(set(hits)) > 3 or len(hits) > 40:
                        break
        subprocess.check_call(["cp", os.path.join(REPO, m["f"]), t + "/repo/" + m["f"]])
        log.write("%d %s %s:%d | %s | %s\n" % (m["i"], ("BUILD" if rc else ",".join(sorted(set(hits))) or "SAME") + " %d" % len(hits),
                                             m["f"], m["n"] + 1, m["old"].strip(), m["new"].strip()))
        log.flush()
    workers(jobs, one, ms, make)


def fine(d, jobs, scn, which, most=8):
    """Does the specification reject the traces in which a mutant differs?  Only the differing files are judged."""
    sys.path.insert(0, ROOT + "/lib")
    import run
    ms = json.load(open(d + "/" + which))
    skip = set()
    for l in open(d + "/diff.log"):
        w = l.split()
        if w[1] in ("SAME", "BUILD"):
            skip.add(int(w[0]))
    files = []
    for n in sorted(os.listdir(scn)):
        if n.endswith(".json"):
            j = json.load(open(scn + "/" + n))
            if not j["command"] and "debug" in j["binary"] and not j["extra"]:
                files.append((os.path.getsize(scn + "/" + n[:-5]), n[:-5], j))
    files.sort()

    def out(binary, n):
        with open(scn + "/" + n) as f:
            return subprocess.run([binary, "--limit", "5"], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    base = d + "/d99/target/debug/hvdrive"
    log = open(d + "/fine.log", "a")
    lock = threading.Lock()
    want = {}

    def one(t, m):
        if m["i"] in skip:
            return
        apply(m, t + "/repo")
        sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", t + "/harness/Cargo.toml"], 300,
           dict(os.environ, CARGO_TARGET_DIR=t + "/target", RUSTFLAGS="-Awarnings"))
        subprocess.check_call(["cp", os.path.join(REPO, m["f"]), t + "/repo/" + m["f"]])
        binary, tried, res = t + "/target/debug/hvdrive", [], "MISSED"
        for _, n, j in files:
            if j["prop"] in ("C16", "C17") or tried.count(j["prop"]) > 1 or len(tried) >= most:
                continue
            if n not in want:
                want[n] = hashlib.sha256(out(base, n)).digest()
            if hashlib.sha256(out(binary, n)).digest() == want[n]:
                continue
            tried.append(j["prop"])
            work = run.Work("fine%d" % m["i"])
            try:
                tr = work.path("t.nd")
                run.drive(binary, open(scn + "/" + n).read(), tr, limit=5)
                r = run.validate(tr, j["prop"], work)
                if r.violations:
                    res = j["prop"]
                    break
            except Exception as e:
                res = "ERROR %s" % str(e)[:200].replace("\n", " ")
            finally:
                work.close()
        with lock:
            log.write("%d %s after %s %s:%d | %s | %s\n" % (m["i"], res, ",".join(tried), m["f"], m["n"] + 1, m["old"].strip(), m["new"].strip()))
            log.flush()

    def make(w):
        t = "%s/d%d" % (d, w)
        assert os.path.exists(t + "/target")
        return t
    workers(jobs, one, ms, make)


def bugs(d, jobs, scn, ids):
    """The same for planted bugs: is one of the recorded scenario files of the bug's own property rejected?"""
    ms = []
    for i in ids or sorted(os.listdir(ROOT + "/seeded")):
        b = ROOT + "/seeded/" + i
        b = b if os.path.exists(b) else ROOT + "/tools/regressions/" + i
        ms.append(dict(id=i, b=b, prop=json.load(open(b + "/meta.json"))["property"]))
    sys.path.insert(0, ROOT + "/lib")
    import run
    files = []
    for n in sorted(os.listdir(scn)):
        if n.endswith(".json"):
            j = json.load(open(scn + "/" + n))
            if not j["command"] and "debug" in j["binary"] and not j["extra"]:
                files.append((os.path.getsize(scn + "/" + n[:-5]), n[:-5], j))
    files.sort()

    def out(binary, n):
        with open(scn + "/" + n) as f:
            return hashlib.sha256(subprocess.run([binary, "--limit", "5"], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout).digest()
    base = "/tmp/mut/d99/target/debug/hvdrive"
    want = {}

    def one(t, m):
        subprocess.check_call("rm -rf %s/repo/src && cp -a /repo/src %s/repo/src && cd %s/repo && git apply %s/patch.diff" % (t, t, t, m["b"]), shell=True)
        rc, o = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", t + "/harness/Cargo.toml"], 300,
                   dict(os.environ, CARGO_TARGET_DIR=t + "/target", RUSTFLAGS="-Awarnings"))
        binary, tried, differ, res = t + "/target/debug/hvdrive", 0, 0, "MISSED"
        for _, n, j in files:
            if j["prop"] != m["prop"]:
                continue
            if n not in want:
                want[n] = out(base, n)
            if out(binary, n) == want[n]:
                continue
            differ += 1
            if res == "caught" or tried > 5:
                continue
            tried += 1
            work = run.Work("bugs" + m["id"])
            try:
                tr = work.path("t.nd")
                run.drive(binary, open(scn + "/" + n).read(), tr, limit=5)
                if run.validate(tr, j["prop"], work).violations:
                    res = "caught"
            finally:
                work.close()
        print("%-28s %s exit 1 %s by %d files that differ %d" % (m["id"], m["prop"], res, tried, differ), flush=True)

    def make(w):
        t = "%s/d%d" % (d, w)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        subprocess.check_call(["cp", "-a", os.path.join(ROOT, "harness"), t])
        subprocess.check_call(["cp", "-a", REPO, t + "/repo"])
        c = t + "/harness/Cargo.toml"
        s = open(c).read().replace('"/repo"', '"%s/repo"' % t)
        open(c, "w").write(s)
        return t
    workers(jobs, one, ms, make)


if __name__ == "__main__":
    mode, d = sys.argv[1:3]
    rest = sys.argv[3:]
    jobs = int(rest[rest.index("-j") + 1]) if "-j" in rest else 1
    only = rest[rest.index("--only") + 1] if "--only" in rest else None
    os.makedirs(d, exist_ok=True)
    if mode == "bugs":
        rest = [r for k, r in enumerate(rest) if r != "-j" and rest[k - 1] != "-j"]
    {"bugs": lambda: bugs(d, jobs, rest[0], rest[1:]), "gen": lambda: gen(d), "gen2": lambda: gen2(d), "filter": lambda: filt(d, jobs), "judge": lambda: judge(d, jobs, only),
     "fine": lambda: fine(d, jobs, rest[0], rest[1]),
     "diff": lambda: diff(d, jobs, rest[0], rest[1])}[mode]()
