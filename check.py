#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decides one property (see DESIGN.md)."""
import hashlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run
import suites


def evidence(prop, ctx, res, t0):
    kinds = dict(sorted(res.kinds.items(), key=lambda x: -x[1])[:120])
    cov = {
        "states": sum(m["distinct"] for m in ctx.models) + res.distinct,
        "transitions": sum(m["generated"] for m in ctx.models) + res.generated,
        "traces_validated_against_impl": res.sessions,
        "samples": (res.samples or ["no call was made"])[:6],
        "models": [{k: m[k] for k in ("module", "distinct", "generated", "scenarios")} for m in ctx.models],
        "implementation_events": res.events,
        "events_judged_for_this_property": res.judged,
        "events_on_handles_unknown_to_the_model": res.unknown,
        "answers_compared_with_an_earlier_answer": res.memo,
        "hive_images": res.images,
        "calls_by_result": kinds,
    }
    cov.update(ctx.extra)
    ev = {"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(res.violations)}
    d = os.path.join(run.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def report(prop, work, violations):
    for v in violations[:5]:
        text = v.get("scenario") or ""
        name = "%s-%s.scn" % (prop, hashlib.sha1((text + v["what"] + v["event"]).encode()).hexdigest()[:12])
        path = os.path.join(work.keep, name)
        with open(path, "w") as f:
            f.write(text)
        with open(path + ".txt", "w") as f:
            f.write("property %s: %s\nevent   : %s\nadmitted: %s\nsession : %s\n" %
                    (prop, v["what"], v["event"], v["expected"], v["session"]))
        run.say("  %s: event %s" % (v["what"], v["event"][:300]))
        run.say("  admitted by the specification: %s" % v["expected"][:300])
        run.say("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    sys.setrecursionlimit(20000)  # images with deep trees of keys
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            raise SystemExit("unknown argument " + a)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = run.Work(prop)
    try:
        ctx = suites.Context(prop, tier, seed, work)
        if replay:
            res = suites.replay(ctx, open(replay).read())
        else:
            res = suites.decide(ctx)
            evidence(prop, ctx, res, t0)
        run.say("%s %s: %d model states, %d sessions, %d events, %d judged, %d mismatches, %.1f s" % (
            prop, tier, sum(m["distinct"] for m in ctx.models), res.sessions, res.events, res.judged,
            len(res.violations), time.time() - t0))
        if res.violations:
            report(prop, work, res.violations)
            return 1
        return 0
    except run.Broken as e:
        run.say("BROKEN: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main())
