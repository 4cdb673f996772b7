"""Build real radvel objects from a specification configuration, and the environment
(name -> number/array) in which the specification's terms are evaluated."""
import numpy as np

TCKEYS = {}


def orbit_values(rng, regime="mid", t0=0.0, span=60.0):
    """Physical elements of one planet: per, tp, e, w, k."""
    per = float(rng.uniform(2.0, 0.8 * span))
    e = {"zero": 0.0, "tiny": float(rng.uniform(1e-6, 1e-3)), "small": float(rng.uniform(0.01, 0.2)),
         "mid": float(rng.uniform(0.2, 0.6)), "high": float(rng.uniform(0.6, 0.95)),
         "extreme": float(rng.uniform(0.95, 0.989))}[regime]
    w = float(rng.uniform(-np.pi, np.pi))
    tp = float(t0 + rng.uniform(-1.0, 1.0) * span)
    k = float(np.exp(rng.uniform(np.log(0.3), np.log(60.0))))
    return {"per": per, "tp": tp, "e": e, "w": w, "k": k}


def conj_minus_peri(el, which="transit"):
    f = np.pi / 2 - el["w"] if which == "transit" else 3 * np.pi / 2 - el["w"]
    E = np.arctan2(np.sqrt(1 - el["e"] ** 2) * np.sin(f), el["e"] + np.cos(f))
    return el["per"] / (2 * np.pi) * (E - el["e"] * np.sin(E))


def key_value(key, el):
    """Value of basis key `key` (without planet number) for the elements `el`."""
    e, w = el["e"], el["w"]
    return {"per": lambda: el["per"], "logper": lambda: np.log(el["per"]),
            "tp": lambda: el["tp"], "tc": lambda: el["tp"] + conj_minus_peri(el),
            "e": lambda: e, "se": lambda: np.sqrt(e), "w": lambda: w,
            "secosw": lambda: np.sqrt(e) * np.cos(w), "sesinw": lambda: np.sqrt(e) * np.sin(w),
            "ecosw": lambda: e * np.cos(w), "esinw": lambda: e * np.sin(w),
            "k": lambda: el["k"], "logk": lambda: np.log(el["k"])}[key]()


def planet_env(basis, i, el):
    return {"%s%d" % (k, i): float(key_value(k, el)) for k in basis.split()}


HYP = {
    "QuasiPer": ["gp_per", "gp_perlength", "gp_explength", "gp_amp"],
    "Per": ["gp_per", "gp_length", "gp_amp"],
    "SqExp": ["gp_length", "gp_amp"],
    "Celerite": ["gp_B", "gp_C", "gp_L", "gp_Prot"],
}


def hyp_value(rng, h):
    lo, hi = {"gp_per": (5, 30), "gp_perlength": (0.3, 2.0), "gp_explength": (8, 60),
              "gp_amp": (1, 12), "gp_length": (0.5, 8.0), "gp_B": (2, 40), "gp_C": (0.1, 2.0),
              "gp_L": (5, 50), "gp_Prot": (5, 30)}[h]
    return float(rng.uniform(lo, hi))


def data_env(cfg, rng):
    """Data vectors, offsets and error bars for every instrument of the configuration."""
    env = {"tb": float(cfg.get("tbval", {"zero": 0.0, "mid": 25.0, "jd": 2455200.0}.get(
        cfg.get("tb", "zero"), 0.0)))}
    t0 = 2455200.0 if cfg.get("tb") == "jd" else 0.0
    env["t0"] = t0
    for inst in cfg["insts"]:
        s = inst["suf"]
        n = int(inst.get("n", 7))
        x = t0 + rng.uniform(0, 60, n)
        if inst.get("order", "sorted") == "sorted":
            x = np.sort(x)
        if inst.get("dup") and n > 2:
            x[1] = x[0]
            x[-1] = x[-2]
        env["x:" + s] = x
        env["y:" + s] = rng.normal(rng.uniform(-20, 20), 15, n)
        env["s:" + s] = rng.uniform(0.3, 4.0, n)
        for d in inst.get("decorr", []):
            env["v:%s:%s" % (d, s)] = rng.uniform(-3, 5, n)
            if d in inst.get("miss", []):
                env["v:%s:%s" % (d, s)][rng.integers(n)] = (np.nan, np.inf)[rng.integers(2)]
    return env


def value_env(cfg, rng, env=None):
    """Parameter values for every key of the configuration."""
    env = {} if env is None else dict(env)
    t0 = env.get("t0", 0.0)
    regimes = cfg.get("ecc", ["mid"])
    for i in range(1, cfg["np"] + 1):
        el = orbit_values(rng, regimes[(i - 1) % len(regimes)], t0=t0)
        env.update(planet_env(cfg["basis"], i, el))
    env["dvdt"] = float(rng.uniform(-0.4, 0.4))
    env["curv"] = float(rng.uniform(-0.01, 0.01))
    if cfg.get("custom"):
        env["amp_c"] = float(rng.uniform(1, 20))
        env["tau_c"] = float(rng.uniform(2, 9))
    for inst in cfg["insts"]:
        s = inst["suf"]
        env["gamma" + s] = float(rng.uniform(-15, 15))
        env["jit" + s] = 0.0 if inst.get("jit") == "zero" else float(rng.uniform(0.2, 4.0))
        if inst.get("jit") == "neg":
            env["jit" + s] = -env["jit" + s]
        for d in inst.get("decorr", []):
            env["c1_%s%s" % (d, s)] = float(rng.uniform(-2, 2))
        if inst.get("kind", "rv") != "rv":
            for h in HYP[inst["kind"]]:
                key = h + inst.get("hn", "")
                env[key] = hyp_value(rng, h)
    return env


def like_keys(cfg):
    out = []
    for inst in cfg["insts"]:
        ks = ["gamma" + inst["suf"], "jit" + inst["suf"]]
        ks += ["c1_%s%s" % (d, inst["suf"]) for d in inst.get("decorr", [])]
        if inst.get("kind", "rv") != "rv":
            ks += [h + inst.get("hn", "") for h in HYP[inst["kind"]]]
        out += [k for k in ks if k not in out]
    return out


def planet_keys(cfg):
    return ["%s%d" % (k, i) for i in range(1, cfg["np"] + 1) for k in cfg["basis"].split()]


def max_ecc(cfg, env):
    """Largest eccentricity among the planets of the configuration."""
    b = cfg["basis"].split()
    out = [0.0]
    for i in range(1, cfg["np"] + 1):
        g = lambda k: env["%s%d" % (k, i)]
        out.append(abs(g("e")) if "e" in b else g("se") ** 2 if "se" in b else
                   g("secosw") ** 2 + g("sesinw") ** 2 if "secosw" in b else
                   np.hypot(g("ecosw"), g("esinw")))
    return max(out)


def make_params(cfg, env, keys=None):
    import radvel
    params = radvel.Parameters(cfg["np"], basis=cfg["basis"],
                               planet_letters=cfg.get("letters"))
    free = set(cfg.get("free", []))
    for k in (keys if keys is not None else planet_keys(cfg) + list(cfg.get("trend", []))):
        params[k] = make_param(cfg, env, k, free)
    return params


def make_param(cfg, env, k, free):
    import radvel
    lin = k in cfg.get("linflag", ()) or any(
        k == "gamma" + i["suf"] and i.get("linear") for i in cfg["insts"])
    scale = cfg.get("scales", {}).get(k)
    return radvel.Parameter(value=env[k], vary=k in free, linear=lin, mcmcscale=scale)


def custom_rv(t, params, vector):
    """The specification's CustomRV, as a user would write it."""
    v = lambda k: vector.vector[vector.indices[k]][0]
    out = v("amp_c") * np.sin(t / v("tau_c"))
    for i in range(1, params.num_planets + 1):
        out = out + v("k%d" % i) * np.cos(2 * np.pi * (t - v("tc%d" % i)) / v("per%d" % i))
    return out


def make_like(cfg, env, as_list=False):
    """The likelihood (composite when there is more than one instrument)."""
    import radvel
    free = set(cfg.get("free", []))
    keys = planet_keys(cfg) + list(cfg.get("trend", []))
    lk = like_keys(cfg)
    first = cfg.get("decl", "first") == "first"
    hyp = [k for k in lk if k.startswith("gp_")]
    if cfg.get("custom"):
        keys = keys + ["amp_c", "tau_c"]
    params = make_params(cfg, env, keys + (lk if first else hyp))
    if cfg.get("custom"):
        mod = radvel.GeneralRVModel(params, custom_rv, time_base=env["tb"])
    else:
        mod = radvel.RVModel(params, time_base=env["tb"])
    likes = []
    for inst in cfg["insts"]:
        s = inst["suf"]
        x, y, e = env["x:" + s], env["y:" + s], env["s:" + s]
        if cfg.get("container") == "pandas":
            import pandas as pd
            x, y, e = pd.Series(x), pd.Series(y), pd.Series(e)
        elif cfg.get("container") == "list":
            x, y, e = list(x), list(y), list(e)
        kind = inst.get("kind", "rv")
        if kind == "rv":
            dec = inst.get("decorr", [])
            likes.append(radvel.likelihood.RVLikelihood(
                mod, x, y, e, suffix=s, decorr_vars=list(dec),
                decorr_vectors={d: np.array(env["v:%s:%s" % (d, s)]) for d in dec}))
        elif kind == "Celerite":
            likes.append(radvel.likelihood.CeleriteLikelihood(
                mod, x, y, e, [h + inst.get("hn", "") for h in HYP[kind]], suffix=s))
        else:
            likes.append(radvel.likelihood.GPLikelihood(
                mod, x, y, e, [h + inst.get("hn", "") for h in HYP[kind]], suffix=s,
                kernel_name=kind))
    if not first:
        for k in lk:
            if not k.startswith("gp_"):
                params[k] = make_param(cfg, env, k, free)
        mod.vector.dict_to_vector()
    if as_list:
        return likes
    if len(likes) == 1 and not cfg.get("wrap"):
        return likes[0]
    return radvel.likelihood.CompositeLikelihood(likes)


def make_post(cfg, env):
    import radvel
    post = radvel.posterior.Posterior(make_like(cfg, env))
    post.priors = [make_prior(p) for p in cfg.get("priors", [])]
    return post


def rat(q):
    return q[0] / q[1] if isinstance(q, (list, tuple)) else float(q)


def make_prior(p):
    import radvel
    pr = radvel.prior
    kind = p["kind"]
    if kind == "gauss":
        return pr.Gaussian(p["key"], rat(p["mu"]), rat(p["sig"]))
    if kind == "bounds":
        return pr.HardBounds(p["key"], rat(p["lo"]), rat(p["hi"]))
    if kind == "jeff":
        return pr.Jeffreys(p["key"], rat(p["lo"]), rat(p["hi"]))
    if kind == "modjeff":
        return pr.ModifiedJeffreys(p["key"], rat(p["lo"]), rat(p["hi"]), rat(p["knee"]))
    if kind == "base":
        return pr.InformativeBaselinePrior(p["key"], rat(p["b"]), duration=rat(p["dur"]))
    if kind == "posk":
        return pr.PositiveKPrior(p["n"])
    if kind == "ecc":
        if p["form"] == "scalar":
            return pr.EccentricityPrior(p["n"], rat(p["lims"][0]))
        if p["form"] == "default":
            return pr.EccentricityPrior(p["n"])
        return pr.EccentricityPrior(list(p["planets"]), [rat(x) for x in p["lims"]])
    if kind == "sec":
        return pr.SecondaryEclipsePrior(p["planet"], rat(p["ts"]), rat(p["err"]))
    if kind == "ubox":
        lo, hi = rat(p["lo"]), rat(p["hi"])

        def box(x, lo=lo, hi=hi):
            return -np.log(hi - lo) if lo <= x[0] <= hi else -np.inf
        return pr.UserDefinedPrior(list(p["keys"]), box, "box",
                                   transform_func=lambda u, lo=lo, hi=hi: lo + u * (hi - lo))
    if kind == "num":
        return pr.NumericalPrior(list(p["keys"]), np.array(p["samples"], dtype=float))
    if kind == "xg":
        class Constraint(pr.Gaussian):
            extra_constraint = True

            def __call__(self, params, vector, finite=False):
                return super().__call__(params, vector)
        return Constraint(p["key"], rat(p["mu"]), rat(p["sig"]))
    if kind == "user":
        a = [rat(x) for x in p["coef"]]

        def func(x, a=a):
            return sum(c * v for c, v in zip(a, x))
        return pr.UserDefinedPrior(list(p["keys"]), func, "user")
    raise KeyError(kind)
