"""Runs scenarios on the real crate and lets TLC decide whether the recorded traces are behaviours of the spec."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("HV_TARGET", os.path.join(HARNESS, "target"))
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROCS = int(os.environ.get("HV_PROCS", "8"))


class Broken(Exception):
    """The machinery itself failed: no verdict."""


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def build(profile="dev", features="default", toolchain=None, target_dir=None, extra=()):
    td = target_dir or TARGET
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--quiet"]
    if profile == "release":
        cmd.append("--release")
    if features != "default":
        cmd.append("--no-default-features")
        if features:
            cmd += ["--features", features]
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true")
    env["RUSTFLAGS"] = "-Awarnings"
    p = subprocess.run(cmd + list(extra), cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(td, "debug" if profile == "dev" else "release", "hvdrive")


# ------------------------------------------------------------------ other machines (interpreted by Miri)
def miri_dir(target):
    return os.path.join(ROOT, "work", "miri", target)


def miri_env(target):
    d = miri_dir(target)
    return dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), XDG_CACHE_HOME=os.path.join(d, "cache"),
                CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
                MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")


def miri_command(target):
    return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target", target, "--"]


def miri_prepare(target):
    """Builds the interpreter's standard library and the harness for the target."""
    os.makedirs(miri_dir(target), exist_ok=True)
    p = subprocess.run(miri_command(target), input="", env=miri_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("miri for %s: %s" % (target, p.stdout[-3000:]))


# ------------------------------------------------------------------ proofs
def prove(module, work, limit=600):
    """Has tlapm check a proof of the specification; the number of obligations proved."""
    d = work.path("proof-" + module)
    os.makedirs(d)
    shutil.copy(os.path.join(SPEC, "proofs", module + ".tla"), d)
    p = subprocess.run(["timeout", str(limit), "tlapm", "--stretch", "8", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"All (\d+) obligations proved", p.stdout)
    if not m:
        raise Broken("tlapm %s: %s" % (module, p.stdout[-2000:]))
    return int(m.group(1))


# ------------------------------------------------------------------ scratch
class Work:
    def __init__(self, tag):
        base = os.path.join(ROOT, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + "-", dir=base)
        self.keep = os.path.join(base, "replay")
        os.makedirs(self.keep, exist_ok=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ harness
def drive(binary, scenario, trace, limit=20, extra=(), env=None, command=None):
    """Executes the scenario file; the trace gets one event per call.

    A call that never returns (abort, endless loop) is recorded as the result "abort" / "timeout" and the rest of
    its session is dropped; execution continues with the next session.  Returns the number of such calls."""
    crashes = 0
    text = scenario
    first = True
    with open(trace, "w") as out:
        while True:
            args = (command or [binary]) + ["--limit", str(limit)] + ([] if first else ["--sync"])
            args += list(extra)
            tmp = trace + ".part"
            with open(tmp, "w") as f:
                p = subprocess.run(args, input=text, stdout=f, stderr=subprocess.PIPE, text=True, env=env)
            if p.returncode == 0:
                with open(tmp) as f:
                    for line in f:
                        if not line.startswith("#"):
                            out.write(line)
                os.unlink(tmp)
                return crashes
            if p.returncode == 98:
                raise Broken("scenario: " + p.stderr[-500:])
            if first:
                first = False
                continue          # once more, announcing every call
            # the last announced call did not return
            kind = "timeout" if p.returncode == 99 else "abort"
            lines = open(tmp).read().split("\n")
            os.unlink(tmp)
            last, sess, done = None, None, 0
            for line in lines:
                if line.startswith("#"):
                    last = line[1:]
                elif line:
                    last = None if line.startswith('{"e":"op"') else last
                    if line.startswith('{"e":"sess"'):
                        sess = json.loads(line)["id"]
                    if line.endswith("}"):
                        out.write(line + "\n")
            if last is None or sess is None:
                raise Broken("harness failed (%d) in session %s: %s" % (p.returncode, sess, p.stderr[-500:]))
            ev = json.loads(last)
            ev["r"] = {"t": kind}
            out.write(json.dumps(ev, separators=(",", ":")) + "\n")
            crashes += 1
            rest = after_session(text, sess)
            if crashes >= 4 or rest is None:
                return crashes
            text = rest


def fuzz(binary, image, fid, first, n, trace, progress, prop, work):
    """n mutants of the image; an iteration that never returns is run again on its own."""
    text = "%sF %s %d %d\n" % (image, fid, first, n)
    with open(trace, "w") as f:
        p = subprocess.run([binary, "--limit", "10", "--progress", progress], input=text, stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        at = int(open(progress).read().split()[1])
        text = "%sF %s %d 1\n" % (image, fid, at)
        drive(binary, text, trace, limit=10)
    res = validate(trace, prop, work, scenario=text)
    for v in res.violations:
        if v["session"] and "." in v["session"]:
            v["scenario"] = "%sF %s 1\n" % (image, v["session"].replace(".", " "))
    os.unlink(trace)
    return res


def after_session(text, sess):
    """The scenario after the given session, preceded by the image lines it still needs."""
    lines = text.split("\n")
    base = patch = None
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("I "):
            base, patch = l, None
        elif l.startswith("P "):
            patch = l
        elif l.startswith("S ") and l.split(" ")[1] == sess:
            i += 1
            while i < n and lines[i][:2] not in ("I ", "P ", "S ", "F "):
                i += 1
            rest = lines[i:]
            if not any(x.startswith("S ") for x in rest):
                return None
            return "\n".join([x for x in (base, patch) if x] + rest)
        i += 1
    return None


def session_text(text, sess):
    """The image and operations of one session, as a scenario of its own."""
    base = patch = None
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if l.startswith("I "):
            base, patch = l, None
        elif l.startswith("P "):
            patch = l
        elif l.startswith("S ") and l.split(" ")[1] == sess:
            j = i + 1
            while j < len(lines) and lines[j][:2] not in ("I ", "P ", "S ", "F "):
                j += 1
            return "\n".join([x for x in (base, patch) if x] + lines[i:j]) + "\n"
    return None


# ------------------------------------------------------------------ TLC
EVAL_ERRORS = ("The error occurred when TLC was evaluating", "Error: Evaluating", "TLC threw an unexpected exception",
               "Attempted to", "The exception was", "In evaluation")


def tlc(module, cfg_text, env=None, workers=1, heap="3g", timeout=3000, extra=(), metadir=None, stack="64m"):
    d = tempfile.mkdtemp(prefix="tlc-", dir=metadir)
    try:
        cfg = os.path.join(d, "c.cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss" + stack, "-XX:+PerfDisableSharedMem", "-cp", JAVA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model(module, work, consts="", invariants=(), properties=(), spec="Spec", constraints=(), workers=PROCS, exports=False,
          deadlock=False, heap="8g", env=None, post=None, view=None, timeout=3000):
    """Checks a design model completely; returns its statistics and the scenarios it exported."""
    cfg = "SPECIFICATION %s\n" % spec
    cfg += ("CONSTANTS\n" + consts + "\n") if consts else ""
    cfg += "".join("INVARIANT %s\n" % i for i in invariants)
    cfg += "".join("PROPERTY %s\n" % i for i in properties)
    cfg += "".join("CONSTRAINT %s\n" % i for i in constraints)
    cfg += "POSTCONDITION %s\n" % post if post else ""
    cfg += "VIEW %s\n" % view if view else ""
    cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    rc, out = tlc(module, cfg, env=env, workers=workers, heap=heap, metadir=work.dir, timeout=timeout)
    gen, dis = counts(out)
    if rc != 0:
        raise Broken("model %s: TLC exit %d\n%s" % (module, rc, out[-3500:]))
    exp = []
    for line in out.split("\n"):
        if line.startswith('"{') and line.endswith('}"'):
            exp.append(json.loads(json.loads(line)))
    return {"module": module, "generated": gen, "distinct": dis, "exports": exp}


# ------------------------------------------------------------------ traces
TRACE_CFG = """SPECIFICATION Spec
CONSTANTS
  Prop = "%s"
  Image <- ImageRec
  LookupIn <- FastLookupIn
  DataUnits <- FastDataUnits
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


class Result:
    def __init__(self):
        self.events = self.judged = self.unknown = self.memo = self.sessions = self.images = 0
        self.generated = self.distinct = 0
        self.shards = 0
        self.violations = []      # dicts
        self.samples = []
        self.kinds = {}

    def add(self, o):
        for k in ("events", "judged", "unknown", "memo", "sessions", "images", "generated", "distinct", "shards"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.violations += o.violations
        self.samples += o.samples
        for k, v in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v


def scan_trace(trace, res, sample_every=997):
    """Counts what happened in the trace (coverage only, no judgement)."""
    n = 0
    with open(trace) as f:
        for line in f:
            n += 1
            if line.startswith('{"e":"op"'):
                i = line.find('"o":"') + 5
                o = line[i:line.find('"', i)]
                j = line.find('"r":{"t":"')
                t = line[j + 10:line.find('"', j + 10)]
                if t == "err":
                    k = line.find('"k":"', j)
                    t = "err " + line[k + 5:line.find('"', k + 5)]
                key = o + " " + t
                res.kinds[key] = res.kinds.get(key, 0) + 1
                if n % sample_every == 0 and len(res.samples) < 3:
                    res.samples.append(line[:400].strip())
            elif line.startswith('{"e":"sess"'):
                res.sessions += 1
            elif line.startswith('{"e":"img'):
                res.images += 1
    return n


def validate(trace, prop, work, scenario=None, module="HiveTrace", cfg=None, env=None):
    """One TLC run over one recorded trace."""
    res = Result()
    res.shards = 1
    n = scan_trace(trace, res)
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(module, cfg or TRACE_CFG % prop, env=e, metadir=work.dir)
    flat = re.sub(r"\s+", " ", out)
    m = re.search(r'"STATS", \[ ?(.*?) ?\] >>', flat)
    stats = dict((k, int(v)) for k, v in re.findall(r"(\w+) \|-> (\d+)", m.group(1))) if m else {}
    res.generated, res.distinct = counts(out)
    res.events, res.judged = stats.get("steps", 0), stats.get("judged", 0)
    res.unknown, res.memo = stats.get("unknown", 0), stats.get("memo", 0)
    bad = [(int(a), b, c) for a, b, c in re.findall(r'<< ?"MISMATCH", (\d+), "([a-z-]+)", (.*?) >>(?= <<|[A-Z ]|$)', flat)]
    if not bad:
        bad = [(int(a), b, "") for a, b in re.findall(r'<< ?"MISMATCH", (\d+), "([a-z-]+)"', flat)]
    if rc == 0 and not bad and stats.get("steps") == n == stats.get("events"):
        return res
    if not bad:
        # TLC could not even evaluate the observation against the specification
        if any(x in out for x in EVAL_ERRORS):
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            bad = [(int(ls[-1]) if ls else 1, "no-behaviour", flat[-600:])]
        else:
            raise Broken("TLC on %s: exit %d\n%s" % (trace, rc, out[-3000:]))
    lines = open(trace).read().split("\n")
    for at, what, exp in bad[:20]:
        sess = None
        for i in range(min(at, len(lines)) - 1, -1, -1):
            if lines[i].startswith('{"e":"sess"'):
                sess = json.loads(lines[i])["id"]
                break
        res.violations.append({"what": what, "event": lines[at - 1][:1500], "expected": exp[:1500], "session": sess,
                               "scenario": session_text(scenario, sess) if scenario and sess else None})
    return res


def split_groups(groups, shards):
    """Distributes scenario groups (each self-contained text) evenly."""
    bins = [[0, []] for _ in range(shards)]
    for g in sorted(groups, key=lambda x: -weight(x)):
        b = min(bins, key=lambda x: x[0])
        b[0] += weight(g)
        b[1].append(g)
    return ["".join(b[1]) for b in bins if b[1]]


def weight(g):
    if isinstance(g, Group):
        return g.weight
    return len(g)


class Group(str):
    weight = 0

    def __new__(cls, text, weight):
        s = super().__new__(cls, text)
        s.weight = weight
        return s


def check_groups(binary, groups, prop, work, shards=None, limit=20, module="HiveTrace", deadline=None):
    """Replays all scenario groups into the real crate and validates the recorded traces in parallel."""
    total = Result()
    texts = split_groups(groups, shards or PROCS)
    lock = threading.Lock()

    def one(i, text):
        if deadline and time.time() > deadline:
            return None
        tr = work.path("t%d.nd" % i)
        drive(binary, text, tr, limit=limit)
        r = validate(tr, prop, work, scenario=text, module=module)
        if not os.environ.get("HV_KEEP"):
            os.unlink(tr)
        return r

    with ThreadPoolExecutor(PROCS) as ex:
        for r in ex.map(lambda a: one(*a), enumerate(texts)):
            if r is not None:
                with lock:
                    total.add(r)
    return total
