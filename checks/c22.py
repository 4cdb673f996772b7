"""C22: dates, phases, working directory.  TLC computes Julian day numbers from calendar arithmetic
over leap and common years, month ends and times of day, phases on an exact lattice, the event every
parameter set is folded on, and every history of entering, leaving and failing inside nested
directory contexts; all are replayed on the real functions."""
import os
from datetime import datetime, timedelta

import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["a Julian date as a float resolves about 40 microseconds",
               "t_to_phase folds on conjunction where the basis has it, else on periastron; "
               "t_to_phase_vector folds on periastron"]


def generate(ctx):
    years = ("1, 4, 1600, 1858, 1900, 1999, 2000, 2001, 2004, 2024, 2100, 9998" if not ctx.thorough
             else "1, 4, 100, 400, 1582, 1583, 1600, 1700, 1858, 1899, 1900, 1968, 1970, 1999, "
             "2000, 2001, 2003, 2004, 2023, 2024, 2038, 2099, 2100, 2400, 5000, 9998")
    res = core.run_tlc(ctx, "CheckC22", """
CONSTANTS Thorough = %s Years = {%s}
INIT Init
NEXT Next
INVARIANTS DateFact Epoch PhaseFact Emit
CHECK_DEADLOCK FALSE
""" % (core.tla(ctx.thorough), years))
    by = {}
    for r in res.lines:
        by.setdefault(r["cfg"]["kind"], []).append(r)
    nid = 0
    for kind, size in (("date", 400), ("phase", 120), ("fold", 6)):
        rs = by[kind]
        for j in range(0, len(rs), size):
            yield {"id": nid, "kind": kind, "rows": rs[j:j + size]}
            nid += 1
    res = core.run_tlc(ctx, "WorkDir", """
CONSTANTS Dirs = {"a", "b", "home"} Depth = %d
INIT Init
NEXT Next
VIEW View
INVARIANTS Balanced Home
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % ctx.pick(3, 5))
    g = core.Graph(res.lines, {"cwd": "home", "stack": []})
    ctx.count("directory transitions", g.nedges)
    walks = g.tour(60, ctx.rng("c22")) + g.random_walks(ctx.pick(40, 400), 50, ctx.rng("c22r"))
    for j in range(0, len(walks), 20):
        yield {"id": nid, "kind": "dirs", "rows": walks[j:j + 20]}
        nid += 1


def run(ctx, case):
    rng = ctx.nprng("c22", case["id"])
    for r in case["rows"]:
        {"date": date, "phase": phase, "fold": fold, "dirs": dirs}[case["kind"]](ctx, r, rng)


def date(ctx, r, rng):
    from radvel import utils
    c = r["cfg"]
    d = datetime(c["y"], c["m"], c["d"]) + timedelta(seconds=c["s"], microseconds=c["us"])
    us = c["s"] * 1000000 + c["us"]
    want = (r["jdn"] - 1) + 0.5 + us / 86400e6
    got = utils.date2jd(d)
    ctx.true("Julian date", abs(got - want) < 1e-9, "%s got %r, specification says %r" % (
        d, got, want))
    back = utils.jd2date(got)
    ctx.true("round trip of a date", abs(back - d) < timedelta(microseconds=90),
             "%s came back as %s" % (d, back))
    ctx.true("round trip of a Julian date", abs(utils.date2jd(back) - got) < 1e-9, "%s" % d)
    # Julian dates that are exact in binary
    for k in (0, 1, 3, 4, 7):
        jd = r["jdn"] - 1 + 0.5 + k / 8.0
        want = datetime(c["y"], c["m"], c["d"]) + timedelta(hours=3 * k)
        ctx.eq("calendar date", utils.jd2date(jd), want, "jd %r" % jd)


def params(d):
    import radvel
    n = max(int(k[-1]) for k in d)
    out = radvel.Parameters(n, basis="per tc e w k") if False else {}
    for k, v in d.items():
        out[k] = radvel.Parameter(value=v)
    return out


def phase(ctx, r, rng):
    from radvel import utils
    c = r["cfg"]
    s = 2.0 ** int(rng.integers(-4, 8))
    off = float(rng.choice([0.0, 2450000.0, -64.0]))
    t0, p = off + s * c["t0"], s * c["p"]
    want = r["num"] / c["p"]
    t = t0 + s * np.array([c["d"], c["d"] + c["p"], c["d"] - 3 * c["p"]], dtype=float)
    for ref in ("tc", "tp"):
        pr = params({"per1": 3.3, ref + "1": 0.123, "per2": p, ref + "2": t0})
        keep = t.copy()
        got = utils.t_to_phase(pr, t, 2)
        what = "per %r %s %r t %s" % (p, ref, t0, t)
        ctx.close("phase", got, [want] * 3, 1e-14, 1e-15, what)
        ctx.true("times left unchanged", np.array_equal(t, keep), what)
        both = utils.t_to_phase(pr, t, 2, cat=True)
        ctx.true("doubled range", np.array_equal(both, np.concatenate([got, got + 1])), what)
        ctx.close("phase", float(utils.t_to_phase(pr, float(t[0]), 2)), want, 1e-14, 1e-15,
                  "one time " + what)


def fold(ctx, r, rng):
    import radvel
    from radvel import utils
    c = r["cfg"]
    basis, n = c["set"]
    t0 = 2455200.0 if c["times"] == "jd" else 0.0
    for rep in range(4):
        env = {}
        for i in range(1, n + 1):
            env.update(fx.planet_env(basis, i, fx.orbit_values(
                rng, ["small", "mid", "zero", "high"][(rep + i) % 4], t0=t0)))
        keys = r["keys"]
        real = basis if basis != "per tc tp e w k" else "per tc e w k"
        pars = radvel.Parameters(n, basis=real)
        for k in keys:
            pars[k] = radvel.Parameter(value=env[k])
        for i in range(1, n + 1):
            el = r["planets"][i - 1]
            per = float(terms.ev(el["per"], env))
            ref = float(terms.ev(el["ref"], env))
            tp = float(terms.ev(el["tp"], env))
            ulp = 2e-16 * (abs(ref) + 200) / per * 4
            t = np.concatenate([t0 + rng.uniform(-200, 200, 12), [ref, ref + 1e-300],
                                ref + np.array([-1, 1]) * np.spacing(ref), [ref - 1e-17]])
            cases = [("params", lambda tt, **k: utils.t_to_phase(pars, tt, i, **k), ref)]
            if basis != "per tc tp e w k":
                vec = radvel.Vector(pars)
                cases.append(("vector",
                              lambda tt, **k: utils.t_to_phase_vector(vec, tt, i, **k), tp))
            for nm, f, r0 in cases:
                tol = ulp + (1e-9 if nm == "vector" and real != "per tp e w k" else 1e-13)
                what = "%s %s planet %d" % (nm, basis, i)
                got = f(t)
                ctx.true("phase in [0, 1)", np.all((got >= 0) & (got < 1)), "%s %s" % (what, got))
                d = got - (t - r0) / per
                ctx.true("phase", np.all(np.abs(d - np.round(d)) < tol), "%s %s" % (what, d))
                z = f(np.array([r0, r0 + per, r0 - 5 * per]))
                ctx.true("zero at the event", np.all(np.minimum(z, 1 - z) < tol * 6 + 1e-9),
                         "%s %s" % (what, z))
                both = f(t, cat=True)
                ctx.true("doubled range", np.array_equal(both, np.concatenate([got, got + 1])),
                         what)
        ctx.count("folded parameter sets")


class Boom(Exception):
    pass


def dirs(ctx, walk, rng):
    from radvel import utils
    home = os.path.join(ctx.workdir, "home")
    path = {"home": home}
    for d in ("a", "b"):
        path[d] = os.path.join(ctx.workdir, "dir_" + d)
    for p in path.values():
        os.makedirs(p, exist_ok=True)
    open(os.path.join(ctx.workdir, "plainfile"), "w").close()
    path = {k: os.path.realpath(p) for k, p in path.items()}
    os.chdir(home)
    ERR = {"error": Boom, "exit": SystemExit, "interrupt": KeyboardInterrupt}
    stack = []

    def leave(how):
        cm = stack.pop()
        if how == "normal":
            ctx.true("leaving", not cm.__exit__(None, None, None), "normal exit")
            return
        exc = GeneratorExit if how == "return" else ERR[how]
        e = exc()
        try:
            swallowed = cm.__exit__(exc, e, None)
        except BaseException as x:
            ctx.true("error passes through", x is e, "%r became %r" % (e, x))
            swallowed = False
        ctx.true("error passes through", not swallowed, "%r was swallowed" % e)
    for n, (a, t) in enumerate(walk):
        what = "after %s" % [x[0] for x in walk[:n + 1]][-6:]
        if a["op"] == "enter":
            # absolute, or relative to where we are
            d = path[a["d"]]
            cm = utils.working_directory(d if rng.integers(2) else os.path.relpath(d))
            cm.__enter__()
            stack.append(cm)
        elif a["op"] == "refused":
            bad = [os.path.join(ctx.workdir, "missing"),
                   os.path.join(ctx.workdir, "plainfile")][int(rng.integers(2))]
            entered = False
            try:
                with utils.working_directory(bad):
                    entered = True
            except OSError:
                pass
            ctx.true("a missing directory is refused", not entered, what)
        elif a["op"] == "cd":
            os.chdir(path[a["d"]])
        elif a["op"] == "leave":
            leave(a["how"])
        else:
            while stack:
                leave(a["how"])
        ctx.eq("working directory", os.path.realpath(os.getcwd()), path[t["cwd"]], what)
    while stack:
        leave("normal")
    os.chdir(ctx.workdir)
