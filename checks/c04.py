"""C04: model velocities.  TLC enumerates bases, planets, trends, eccentricity regimes, reference
times and time layouts and emits the velocity terms; the real model is compared with them through
every calling form, with both Kepler solvers, and under whole-period shifts."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["tolerance accounts for the conditioning of the orbit at large times"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC04", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS Separate Uses Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    for i, c in enumerate(res.lines):
        c["id"] = i
        yield c


def times(cfg, env, rng, els):
    t0 = env["t0"]
    kind = cfg["times"]
    el = els[0]
    if kind == "grid":
        return t0 + np.linspace(-40, 100, 57)
    if kind == "special":       # periastron, apastron, conjunctions, exact multiples of the period
        b = [el["tp"] + m * el["per"] for m in (-2, -1, 0, 1, 3)]
        b += [el["tp"] + (m + 0.5) * el["per"] for m in (-1, 0, 2)]
        b += [el["tp"] + fx.conj_minus_peri(el) + m * el["per"] for m in (0, 1)]
        return np.array(b)
    if kind == "single":
        return np.array([t0 + float(rng.uniform(-50, 50))])
    if kind == "random":        # unordered, with repetitions
        x = t0 + rng.uniform(-200, 200, 41)
        x[7] = x[3]
        return x
    return t0 + np.array([-5000., 12345.6, 0., 8000.25, 1.0])


def tol(el, t, t0=0.0):
    amp = np.sqrt((1 + el["e"])) / (1 - el["e"]) ** 1.5
    scale = np.max(np.abs(t)) + abs(el["tp"]) + 1
    return el["k"] * (2e-9 + 12 * 2.3e-16 * amp * 2 * np.pi * scale / el["per"])


def run(ctx, case):
    import radvel
    from radvel import kepler, orbit
    cfg = case["cfg"]
    rng = ctx.nprng("c04", case["id"])
    env = fx.data_env(cfg, rng)
    els = []
    for i in range(1, cfg["np"] + 1):
        el = fx.orbit_values(rng, cfg["ecc"][(i - 1) % len(cfg["ecc"])], env["t0"])
        els.append(el)
        env.update(fx.planet_env(cfg["basis"], i, el))
    env["dvdt"] = float(rng.uniform(-0.4, 0.4)) if "dvdt" in cfg["trend"] else 0.0
    env["curv"] = float(rng.uniform(-0.01, 0.01)) if "curv" in cfg["trend"] else 0.0
    params = fx.make_params(cfg, env)
    mod = radvel.RVModel(params, time_base=env["tb"])
    t = times(cfg, env, rng, els)
    env["t"] = t
    keep = t.copy()
    want = [np.broadcast_to(terms.ev(p, env), t.shape) for p in case["planets"]]
    trend = np.broadcast_to(terms.ev(case["trend"], env), t.shape)
    total = sum(want) + trend
    tols = [tol(el, t) for el in els]
    tr_tol = 1e-9 * (1 + np.max(np.abs(trend)))
    ctx.close("model velocity", mod(t), total, 1e-10, sum(tols) + tr_tol)
    ctx.true("input times untouched", np.array_equal(t, keep))
    for i in range(1, cfg["np"] + 1):
        ctx.close("single planet", mod(t, planet_num=i), want[i - 1] + trend, 1e-10,
                  tols[i - 1] + tr_tol, "planet %d" % i)
    ctx.close("model velocity after single-planet calls", mod(t), total, 1e-10, sum(tols) + tr_tol)
    # any order of the times gives the same velocities
    perm = rng.permutation(len(t))
    ctx.close("order of times", mod(t[perm]), np.asarray(total)[perm], 1e-10, sum(tols) + tr_tol)
    ctx.close("one time at a time", [float(mod(t[j:j + 1])[0]) for j in range(min(5, len(t)))],
              total[:5], 1e-10, sum(tols) + tr_tol)
    strided = np.empty(2 * len(t))
    strided[::2] = t
    ctx.close("strided times", mod(strided[::2]), total, 1e-10, sum(tols) + tr_tol)
    # new values reach the model through the vector
    vec = mod.vector
    for k in range(cfg["np"]):
        el = els[k]
        orb = np.array([el["per"], el["tp"], el["e"], el["w"], el["k"]])
        keep2 = orb.copy()
        for flag in (True, False):
            got = kepler.rv_drive(t, orb, use_c_kepler_solver=flag)
            ctx.close("solver %s" % ("C" if flag else "Python"), got, want[k], 1e-10, tols[k])
        ctx.true("elements untouched", np.array_equal(orb, keep2))
        for n in (1, -3):
            ctx.close("period shift", kepler.rv_drive(t + n * el["per"], orb), want[k], 1e-10,
                      3 * tols[k])
        M = 2 * np.pi * np.array([0.0, 0.1, 0.25, 0.49, 0.5, 0.75, 0.93, 0.999999])
        E = kepler.kepler(M.copy(), np.zeros(M.size) + el["e"])
        ctx.close("Kepler's equation", E - el["e"] * np.sin(E), M, 0, 1e-10)
        E1 = kepler.kepler(np.array([1.0]), np.array([el["e"]]))
        ctx.close("Kepler's equation, one element", E1 - el["e"] * np.sin(E1), 1.0, 0, 1e-10)
        import radvel._kepler as ck
        Ec = ck.kepler_array(M, el["e"])
        ctx.close("Kepler's equation, C", Ec - el["e"] * np.sin(Ec), M, 0, 1e-10)
        nu = orbit.true_anomaly(t, el["tp"], el["per"], el["e"])
        m = 2 * np.pi * (t - el["tp"]) / el["per"]
        Es = terms.kep_E(m, el["e"])
        den = 1 - el["e"] * np.cos(Es)
        ctx.close("true anomaly", np.cos(nu), (np.cos(Es) - el["e"]) / den, 0,
                  1e-9 + tols[k] / el["k"] * 2)
        ctx.close("true anomaly", np.sin(nu), np.sqrt(1 - el["e"] ** 2) * np.sin(Es) / den, 0,
                  1e-9 + tols[k] / el["k"] * 2)
    # a new parameter vector moves the model to the new orbit
    env2 = dict(env)
    for i in range(1, cfg["np"] + 1):
        el = fx.orbit_values(rng, cfg["ecc"][(i - 1) % len(cfg["ecc"])], env["t0"])
        els[i - 1] = el
        env2.update(fx.planet_env(cfg["basis"], i, el))
    for key in fx.planet_keys(cfg):
        params[key].value = env2[key]
    vec.dict_to_vector()
    total = sum(np.broadcast_to(terms.ev(p, env2), t.shape) for p in case["planets"]) + trend
    ctx.close("model velocity after update", mod(t), total, 1e-10,
              sum(tol(el, t) for el in els) + tr_tol)
    own_model(ctx, case, cfg, params, env2, t, trend, rng, tr_tol)


def own_model(ctx, case, cfg, params, env, t, trend, rng, tr_tol):
    """A forward model of the user's: called with the times, the parameters, the vector and whatever
    else the caller gives; the trend is added to what it returns, which stays as it was."""
    import radvel
    kept = {"float": rng.normal(0, 5, t.size), "int": rng.integers(-9, 9, t.size), "zero": 0.0}
    for kind, out in kept.items():
        keep = np.array(out, copy=True)
        calls = []

        def forward(*args, **kw):
            calls.append((args, kw))
            return out
        mod = radvel.GeneralRVModel(params, forward, time_base=env["tb"])
        for rep in range(2):
            ctx.close("custom model and trend", mod(t, "a", key=3), keep + trend, 1e-12, tr_tol, kind)
            args, kw = calls[-1]
            ctx.true("custom model's arguments", len(args) == 4 and np.array_equal(args[0], t) and args[1] is params
                     and args[2] is mod.vector and args[3] == "a" and kw == {"key": 3}, kind)
            ctx.true("what a custom model returned is left alone", np.array_equal(out, keep), kind)
        ctx.count("custom model")
