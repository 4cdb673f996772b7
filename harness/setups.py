"""Write radvel setup files (a python module plus a data table) from a configuration."""
import os

import numpy as np

import fixtures as fx


def _num(v):
    return repr(float(v))


def prior_text(p):
    k = p["kind"]
    r = lambda q: _num(fx.rat(q))
    if k == "gauss":
        return "radvel.prior.Gaussian(%r, %s, %s)" % (p["key"], r(p["mu"]), r(p["sig"]))
    if k == "bounds":
        return "radvel.prior.HardBounds(%r, %s, %s)" % (p["key"], r(p["lo"]), r(p["hi"]))
    if k == "jeff":
        return "radvel.prior.Jeffreys(%r, %s, %s)" % (p["key"], r(p["lo"]), r(p["hi"]))
    if k == "ecc":
        return "radvel.prior.EccentricityPrior(%d)" % p["n"]
    if k == "posk":
        return "radvel.prior.PositiveKPrior(%d)" % p["n"]
    raise KeyError(k)


def write_setup(path, s):
    """s: name -> value; keys: np, basis, params (list of (key, value, vary, linear, scale)),
    instnames, data (columns, rows order kept) or data_text, tb, priors, and optionally stellar,
    planet, hnames, kernel_name, decorr_vars, bjd0, letters, extra (text)."""
    lines = ["import numpy as np", "import pandas as pd", "import radvel",
             "starname = %r" % s.get("star", "star"), "nplanets = %d" % s["np"],
             "instnames = %r" % (list(s["instnames"]),), "ntels = len(instnames)",
             "fitting_basis = %r" % s.get("fitting_basis", s["basis"]),
             "bjd0 = %s" % _num(s.get("bjd0", 0)),
             "planet_letters = %r" % (s.get("letters") or {i: "bcdefgh"[i - 1]
                                                            for i in range(1, s["np"] + 1)}),
             "params = radvel.Parameters(nplanets, basis=%r, planet_letters=planet_letters)" %
             s["basis"]]
    for k, v, vary, lin, scale in s["params"]:
        lines.append("params[%r] = radvel.Parameter(value=%s, vary=%r, linear=%r%s)" % (
            k, _num(v), bool(vary), bool(lin),
            "" if scale is None else ", mcmcscale=%s" % _num(scale)))
    lines.append("time_base = %s" % _num(s["tb"]))
    if "data_text" in s:
        lines.append(s["data_text"])
    else:
        cols = ", ".join("%r: %s" % (c, "[" + ", ".join(
            repr(v) if isinstance(v, str) else _num(v) for v in vals) + "]")
            for c, vals in s["data"].items())
        lines.append("data = pd.DataFrame({%s}%s)" % (
            cols, "" if s.get("index") is None else ", index=%r" % (list(s["index"]),)))
    lines.append("priors = [%s]" % ", ".join(prior_text(p) for p in s.get("priors", [])))
    for name in ("stellar", "planet", "hnames", "kernel_name", "decorr_vars"):
        if s.get(name) is not None:
            lines.append("%s = %r" % (name, s[name]))
    lines.append(s.get("extra", ""))
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return path


def simple(rng, basis, np_, free=None, tb=25.0, insts=("k", "j"), n=6, regime="mid", gammas=True):
    """A plain setup: planets, gamma and jit of every instrument."""
    env = {}
    for i in range(1, np_ + 1):
        env.update(fx.planet_env(basis, i, fx.orbit_values(rng, regime)))
    keys = list(env)
    env.update(dvdt=0.01, curv=0.0)
    keys += ["dvdt", "curv"]
    data = {"time": [], "mnvel": [], "errvel": [], "tel": []}
    for t in insts:
        env["gamma_" + t] = float(rng.uniform(-5, 5))
        env["jit_" + t] = float(rng.uniform(0.5, 2))
        keys += ["gamma_" + t, "jit_" + t]
        data["time"] += list(np.sort(rng.uniform(0, 60, n)))
        data["mnvel"] += list(rng.normal(0, 10, n))
        data["errvel"] += list(10 ** rng.uniform(-0.7, 0.5, n))
        data["tel"] += [t] * n
    free = set(keys) - {"dvdt", "curv"} if free is None else set(free)
    return {"np": np_, "basis": basis, "instnames": list(insts), "tb": tb, "data": data,
            "params": [(k, env[k], k in free, False, None) for k in keys]}, env
