"""Entry point: main.py <PROPERTY> [--replay FILE].  Verdicts: exit 0, or exit 1 with a
VIOLATION line; exit 2 only when the machinery itself failed."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))

import core  # noqa: E402


def known_findings(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    try:
        with open(path) as fh:
            data = json.load(fh)
    except OSError:
        return []
    return [f for f in data["findings"] if f["property"] == prop]


def matches(f, v):
    return f["clause"] == v["clause"] and f.get("key", "") == v.get("key", "")


def write_evidence(prop, doc):
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main():
    prop = sys.argv[1]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP"))
    code = 2
    try:
        code = check(prop, scratch, t0)
    except core.MachineryError as e:
        print("ERROR (machinery) property=%s: %s" % (prop, e))
    except BaseException:
        print("ERROR (machinery) property=%s" % prop)
        traceback.print_exc(file=sys.stdout)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(prop, scratch, t0):
    ctx = core.Ctx(prop, scratch)
    mod = importlib.import_module(prop.lower())
    os.chdir(scratch)
    if hasattr(mod, "before_import"):
        mod.before_import(ctx)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        core.load_radvel(scratch)
    if hasattr(mod, "after_import"):
        mod.after_import(ctx)
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as fh:
            cases = [json.load(fh)["case"]]
        ctx.replaying = True
    else:
        cases = list(mod.generate(ctx))
        if not cases:
            raise core.MachineryError("no cases generated")
    done, viol = core.run_cases(ctx, mod, cases)
    known = known_findings(prop)
    new, old = [], {}
    for case, v in viol:
        for f in known:
            if matches(f, v):
                old.setdefault(f["id"], [f, 0])[1] += 1
                break
        else:
            new.append((case, v))
    if hasattr(mod, "coverage_check") and not viol and "--replay" not in sys.argv:
        mod.coverage_check(ctx)          # vacuity guard: raises MachineryError
    for fid, (f, n) in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, f["what"], fid))
    states = sum(r["states"] for r in ctx.tlc_runs)
    trans = sum(r["generated"] for r in ctx.tlc_runs)
    cov = {
        "states": states, "transitions": trans,
        "traces_validated_against_impl": done,
        "comparisons": ctx.comparisons,
        "samples": [json.loads(json.dumps(c, default=str)[:20000]) if len(
            json.dumps(c, default=str)) < 4000 else {"truncated": json.dumps(c, default=str)[:3000]}
            for c in cases[:: max(1, len(cases) // 4)][:5]],
        "tlc_runs": ctx.tlc_runs,
        "counts": ctx.counts,
        "explanation": (mod.__doc__ or "").strip(),
    }
    doc = {"property": prop, "tier": ctx.tier, "seed": ctx.seed,
           "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
           "assumptions": getattr(mod, "ASSUMPTIONS", []),
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    write_evidence(prop, doc)
    if new:
        rdir = os.path.join(core.VERIF, "out")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for case, v in new:
            shown.setdefault((v["clause"], v.get("key", "")), (case, v))
        first = None
        for n, (case, v) in enumerate(list(shown.values())[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as fh:
                json.dump({"property": prop, "violation": v, "case": case}, fh, indent=1,
                          default=str)
            first = first or path
            print("  [%s] %s%s" % (v["clause"], v["detail"],
                                   " key=" + v["key"] if v.get("key") else ""))
        print("%d of %d cases violate %s" % (len(new), len(cases), prop))
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    print("OK property=%s tier=%s cases=%d comparisons=%d states=%d wall=%.1fs" % (
        prop, ctx.tier, done, ctx.comparisons, states, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
