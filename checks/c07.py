"""C07: priors.  TLC enumerates every prior kind over bases, keys, planets and an exact lattice of
values including the bounds (deciding the support in rational arithmetic) and emits the density
term; the real priors are compared on the lattice, at seeded values, with the vector ahead of the
dictionary, and bounded densities are integrated."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["at the bounds themselves: HardBounds excludes them, Jeffreys-type, eccentricity and "
               "amplitude priors include them"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC07", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS Interval Named LogAmp Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough))
    for i, r in enumerate(res.lines):
        r["id"] = i
        r["reps"] = ctx.pick(6, 60)
        yield r


def base_env(case, rng):
    env = {}
    for i in range(1, case["np"] + 1):
        el = {"per": float(rng.uniform(1, 40)), "tp": float(rng.uniform(-20, 20)), "e": 0.0,
              "w": 0.3, "k": 3.0}
        env.update(fx.planet_env(case["b"], i, el))
    for k in ("gamma_j", "jit_j", "dvdt", "curv", "gp_amp", "gamma"):
        env[k] = float(rng.uniform(0.3, 3))
    return env


def random_env(case, rng):
    env = base_env(case, rng)
    for i in range(1, case["np"] + 1):
        el = fx.orbit_values(rng, ["zero", "small", "mid", "high"][rng.integers(4)])
        el["k"] *= 0.2
        env.update(fx.planet_env(case["b"], i, el))
        for k in ("e", "se", "ecosw", "secosw", "sesinw", "esinw"):
            if "%s%d" % (k, i) in env and case["p"]["kind"] == "ecc" and rng.integers(3) == 0:
                env["%s%d" % (k, i)] = float(rng.uniform(-1.1, 1.1))
        if "k%d" % i in env and rng.integers(3) == 0:
            env["k%d" % i] *= -1
    p = case["p"]
    if "key" in p and p["kind"] != "base":
        if "lo" in p:
            lo, hi = fx.rat(p["lo"]), fx.rat(p["hi"])
            env[p["key"]] = float(rng.uniform(lo - 0.3 * (hi - lo), hi + 0.3 * (hi - lo)))
        else:
            env[p["key"]] = float(rng.normal(fx.rat(p["mu"]), 2 * fx.rat(p["sig"])))
    if p["kind"] == "ecc":      # zero eccentricities in every planet not drawn above
        for i in range(1, case["np"] + 1):
            if rng.integers(2) and "e%d" % i in env:
                env["e%d" % i] = 0.0
    return env


def vector_for(case, env):
    import radvel
    params = radvel.Parameters(case["np"], basis=case["b"])
    for k in env:
        if not k.startswith(("D", "ts", "c")) or k.startswith("curv"):
            params[k] = radvel.Parameter(value=env[k])
    return params, radvel.Vector(params)


def make(case, env, rng):
    import radvel
    p = case["p"]
    if p["kind"] == "sec":
        return radvel.prior.SecondaryEclipsePrior(p["planet"], env["ts"], fx.rat(p["err"]))
    if p["kind"] == "num":
        D = case["_D"]
        return radvel.prior.NumericalPrior(list(p["keys"]), D if len(p["keys"]) > 1 or rng.integers(2)
                                           else D[0])
    if p["kind"] == "ecc" and p["form"] == "scalar" and rng.integers(2):
        pass
    return fx.make_prior(p)


def prob(v):
    return float(np.asarray(v, dtype=float).reshape(-1)[0])


def run(ctx, case):
    p, b = case["p"], case["b"]
    rng = ctx.nprng("c07", case["id"])
    if p["kind"] == "num":
        n = 60
        d = len(p["keys"])
        D = rng.normal(0.3, 0.5, (d, n))
        if d == 2:
            D[1] += 0.6 * D[0]
        case["_D"] = D
        cov = np.atleast_2d(np.cov(D)) * n ** (-2.0 / (d + 4))
        num_env = {"D1": D[0], "caa": cov[0, 0]}
        if d == 2:
            num_env.update({"D2": D[1], "cab": cov[0, 1], "cbb": cov[1, 1]})
    else:
        num_env = {}
    # ---- exact lattice
    for pt in case["pts"]:
        env = base_env(case, rng)
        for k, v in pt["set"]:
            env[k] = fx.rat(v)
        params, vec = vector_for(case, env)
        pr = make(case, env, rng)
        got = prob(pr(params, vec))
        want = prob(terms.ev(case["dens"], env)) if pt["ok"] else -np.inf
        lab = "%s basis %r at %s" % (p, b, pt["set"])
        ctx.true("support", np.isneginf(got) == (not pt["ok"]), lab + " gives %r" % got)
        ctx.close("density", got, want, 1e-9, 1e-9, lab)
        if p["kind"] in ("ecc", "posk", "sec"):
            fin = prob(pr(params, vec, finite=True))
            ctx.true("finite form", fin <= -1e99 if not pt["ok"] else abs(fin - want) < 1e-9,
                     lab + " gives %r" % fin)
        # the vector, not the dictionary, holds the current value
        for k in env:
            if k in params:
                params[k].value = 0.77
        ctx.close("current value", prob(pr(params, vec)), want, 1e-9, 1e-9, lab)
    # ---- generic values
    for rep in range(case["reps"]):
        env = dict(random_env(case, rng), **num_env)
        if p["kind"] == "sec":
            per = env.get("per%d" % p["planet"], np.exp(env.get("logper%d" % p["planet"], 0)))
            env["ts"] = float(rng.uniform(-3, 3) * per)
            ts0 = prob(terms.ev(case["dens"], env))
            if rep % 2:         # a measurement near the prediction, possibly epochs away
                env["ts"] = eclipse(case, env) + float(rng.normal(0, fx.rat(p["err"]))) + \
                    int(rng.integers(-3, 4)) * per
            # exactly half a period off the two epochs tie
            d = (eclipse(case, env) - env["ts"]) / per + 0.5
            if abs(d - round(d)) < 1e-6:
                continue
        params, vec = vector_for(case, env)
        pr = make(case, env, rng)
        vec0 = vec.vector.copy()
        got = prob(pr(params, vec))
        want = prob(terms.ev(case["term"], env))
        tol = 1e-7 if p["kind"] == "sec" else 1e-9
        ctx.close("density", got, want, tol, tol, "%s basis %r %s" % (p, b, {
            k: v for k, v in env.items() if np.ndim(v) == 0}))
        ctx.true("parameters untouched", np.array_equal(vec.vector, vec0))
        ctx.close("repeatable", prob(pr(params, vec)), want, tol, tol)
        str(pr), repr(pr)
    # ---- normalisation
    if p["kind"] in ("gauss", "bounds", "jeff", "modjeff"):
        from scipy.integrate import quad
        params, vec = vector_for(case, base_env(case, rng))
        pr = make(case, {}, rng)
        row = vec.indices[p["key"]]

        def f(x):
            vec.vector[row][0] = x
            return float(np.exp(pr(params, vec)))
        if p["kind"] == "gauss":
            lo, hi = fx.rat(p["mu"]) - 12 * fx.rat(p["sig"]), fx.rat(p["mu"]) + 12 * fx.rat(p["sig"])
        else:
            lo, hi = fx.rat(p["lo"]), fx.rat(p["hi"])
        total, outside = quad(f, lo, hi, limit=200)[0], f(lo - 1) + f(hi + 1)
        ctx.true("normalised", abs(total - 1) < 1e-6 and (outside == 0 or p["kind"] == "gauss"),
                 "%s integrates to %r" % (p, total))


def eclipse(case, env):
    p, b = case["p"], case["b"]
    i = p["planet"]
    t = [x for x in find(case["dens"], "ts")][0]
    return prob(terms.ev(t, env))


def find(t, name):
    """The term the measured time is subtracted from."""
    if t["op"] == "-" and t["a"][1].get("op") == "var" and t["a"][1]["v"] == name:
        yield t["a"][0]
        return
    for a in t.get("a", []):
        for x in find(a, name):
            yield x
