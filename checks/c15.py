"""C15: comparing models.  TLC enumerates models (planets, bases, offsets, Gaussian processes, which
parameters are free) and requests, checks that the alternatives of a request are each there once
and hold exactly what is switched off, and emits the free parameters, null values and reported
features of each.  The real comparison runs with a scripted optimiser; the set of fits it makes,
the functions it hands over and the entries it reports are compared with the specification's, and
the input posterior is checked unchanged.  The command-line step is run on setup files."""
import os
import types

import numpy as np

import core
import fixtures as fx
import setups
import terms
import optim

ASSUMPTIONS = ["the optimiser is scripted: it starts where it is told and answers a point of the "
               "specification's choosing", "reported numbers are rounded to two decimals",
               "trend terms are switched off quadratic first"]
WORKERS = 8


def before_import(ctx):
    import matplotlib
    matplotlib.use("Agg")
    optim.install()


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC15", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=6000, workers=6)
    tabs = {r["table"]: r for r in res.lines if "table" in r}
    cases = [r for r in res.lines if "req" in r]
    cases.sort(key=lambda c: repr((c["i"], sorted(c["pat"].items()), sorted(c["req"]))))
    rng = ctx.rng("c15")
    rng.shuffle(cases)
    fits = ctx.pick(7000, 60000)
    n = 0
    seen = set()
    rest = []
    # every model with every pattern and every number of features comes up first
    for c in sorted(cases, key=lambda c: (len(c["alts"]) > 40, len(c["req"]) not in (1, 5))):
        key = (c["i"], repr(sorted(c["pat"].items())), len(c["req"]))
        if key in seen:
            rest.append(c)
        else:
            seen.add(key)
            n += len(c["alts"])
            yield {"id": n, "case": c, "tab": tabs[c["i"]]}
    for c in rest:
        if n > fits:
            break
        n += len(c["alts"])
        yield {"id": n, "case": c, "tab": tabs[c["i"]]}
    plain = [c for c in cases if all(i["kind"] == "rv" and not i["linear"] and i["suf"] for i in c["cfg"]["insts"])
             and len(c["alts"]) < 20]
    for j, c in enumerate(plain[:ctx.pick(40, 300)]):
        yield {"id": "d%d" % j, "case": c, "tab": tabs[c["i"]], "driver": ["mixed", "unmixed", "simple", "fixed"][j % 4]}


class Alts:
    """The specification's alternatives, evaluated."""

    def __init__(self, case, env, fit):
        self.tab = case["tab"]
        self.env = env
        self.fit = fit              # values the optimiser answers
        self.done = {}

    def at(self, alt, which):
        e = dict(self.env)
        if which == "fit":
            e.update({k: self.fit[k] for k in alt["free"]})
        for k, v in alt["nulls"]:
            e[k] = float(v)
        return e

    def stats(self, alt):
        key = repr((alt["free"], sorted(alt["nulls"])))
        if key not in self.done:
            e = self.at(alt, "fit")
            ll = float(np.asarray(terms.ev(self.tab["ll"], e)).reshape(-1)[0])
            r = np.concatenate([np.atleast_1d(terms.ev(t, e)) for t in self.tab["resid"]])
            n, k = r.size, len(alt["free"])
            aic = -2 * ll + 2 * k + 2 * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else np.inf
            self.done[key] = {"ll": ll, "rms": float(np.std(r)), "n": n, "k": k,
                              "bic": np.log(n) * k - 2 * ll, "aic": aic}
        return self.done[key]

    def post0(self, alt, x0):
        e = self.at(alt, "start")
        e.update(x0)
        f = lambda t: float(np.asarray(terms.ev(t, e)).reshape(-1)[0])
        return f(self.tab["ll"]) + f(self.tab["lp"])


def label(f, letters):
    what, i = f
    return {"K": lambda: "$K_{%s}$" % letters[i], "e": lambda: "$e_{%s}$" % letters[i],
            "dvdt": lambda: r"$\dot{\gamma}$", "curv": lambda: r"$\ddot{\gamma}$",
            "jit": lambda: r"{$\sigma$}"}.get(
                what, lambda: r"GP$_{\rm %s}$" % what[6:].replace("_", ""))()


def names_of(x0, alts, env, clause, ctx, what):
    """Which free parameter each entry is, from its starting value (trend terms may start at 0)."""
    byval = {}
    for k, v in env.items():
        if np.ndim(v) == 0 and k not in ("tb", "t0") and v != 0:
            byval.setdefault(float(v), k)
    names = [byval.get(float(v)) for v in x0]
    for alt in alts:
        miss = [k for k in alt["free"] if k not in names]
        if len(alt["free"]) == len(x0) and set(alt["free"]) == set(n for n in names if n) | set(miss) and \
                set(miss) <= {"dvdt", "curv"} and len(miss) == names.count(None) <= 1:
            return [n or miss[0] for n in names]
    core_msg = "%s: a fit with %s matches no alternative left (%s)" % (
        what, names, [a["free"] for a in alts][:4])
    ctx.true(clause, False, core_msg)


def scripted(ctx, alts, A, what):
    """An optimiser that answers the specified point and keeps book of the fits."""
    left = list(alts)
    calls = []

    def solve(fun, x0):
        names = names_of(x0, left, A.env, "each alternative once", ctx, what)
        start = dict(zip(names, x0))
        f0 = fun(np.array(x0))
        ok = [a for a in left if set(a["free"]) == set(names)]
        good = [a for a in ok if abs(-f0 - A.post0(a, start)) <= 1e-7 * max(1, abs(f0)) + 1e-6]
        ctx.true("switched off at the null values, the rest as given", len(good) > 0,
                 "%s: log-posterior %.9g of a fit of %s, specified %s" % (
                     what, -f0, names, [A.post0(a, start) for a in ok]))
        left.remove(good[0])
        calls.append(good[0])
        best = np.array([A.fit[k] for k in names])
        return best, [x0, best, best + 0.01]

    return solve, calls, left


def report(ctx, entries, alts, A, letters, what):
    """Entries against alternatives, as multisets."""
    ctx.eq("one entry per alternative", len(entries), len(alts), what)
    left = list(alts)
    for ent in entries:
        lab = sorted(ent["Free Params"][0])
        vals = [float(ent[k][0]) for k in (r"$N_{\rm free}$", r"$N_{\rm data}$", "RMS",
                                           r"$\ln{\mathcal{L}}$", "BIC", "AICc")]
        near = []
        for a in left:
            if sorted(label(f, letters) for f in a["feats"]) != lab:
                continue
            s = A.stats(a)
            want = [s["k"], s["n"], s["rms"], s["ll"], s["bic"], s["aic"]]
            near.append(want)
            tol = 0.005 + 1e-7 + 1e-7 * np.abs(np.array(want[2:]))
            with np.errstate(invalid="ignore"):
                d = np.abs(np.array(vals[2:]) - np.array(want[2:]))
            d[np.array(vals[2:]) == np.array(want[2:])] = 0
            if vals[:2] == want[:2] and np.all(d <= tol):
                left.remove(a)
                break
        else:
            ctx.true("each entry describes its own fit", False, "%s: entry %s %s, specified %s" % (
                what, lab, vals, near))
    ctx.count("entries", len(entries))


def snapshot(post):
    return {"values": {k: (p.value, p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()},
            "vector": post.vector.vector.copy(), "names": list(post.name_vary_params()),
            "array": np.array(post.get_vary_params())}


def same(a, b):
    return (a["values"] == b["values"] and np.array_equal(a["vector"], b["vector"], equal_nan=True)
            and a["names"] == b["names"] and np.array_equal(a["array"], b["array"]))


def run(ctx, case):
    import radvel
    c = case["case"]
    cfg = dict(c["cfg"])
    rng = ctx.nprng("c15", case["id"])
    env = fx.value_env(cfg, rng, fx.data_env(cfg, rng))
    fit = fx.value_env(cfg, rng, {"t0": env["t0"]})
    letters = "abcdefgh"
    if rng.uniform() < 0.3:
        cfg["letters"] = {i: "bcdxyz"[-i] for i in range(1, cfg["np"] + 1)}
        letters = cfg["letters"]
    A = Alts(case, env, fit)
    what = "model %d %s req %s" % (c["i"], "/".join(c["pat"].values()), "+".join(sorted(c["req"])))
    if "driver" in case:
        return driver(ctx, case, cfg, env, A, rng, letters, what)
    post = radvel.posterior.Posterior(fx.make_like(cfg, env))
    post.priors = [fx.make_prior(case["tab"]["prior"])]
    before = snapshot(post)
    req = list(c["req"])
    rng.shuffle(req)
    how = int(rng.integers(3))
    solve, calls, left = scripted(ctx, c["alts"], A, what)
    optim.script(solve)
    try:
        if how == 0:
            out = radvel.fitting.model_comp(post, params=req)
        elif how == 1:
            out = radvel.fitting.model_comp(post, params=req, mc_list=[])
        else:
            earlier = {"Free Params": (["earlier"], "")}
            mine = [earlier]
            out = radvel.fitting.model_comp(post, params=req, mc_list=mine)
            ctx.true("earlier entries kept", len(out) and out[0] is earlier, what)
            out = out[1:]
    finally:
        optim.script(None)
    ctx.eq("each alternative once", [a["off"] for a in left], [], what)
    report(ctx, out, c["alts"], A, letters, what)
    if req:
        ctx.true("input posterior unchanged", same(snapshot(post), before), what)
    for f in req:
        ctx.count("compare " + f)
    ctx.count("fits", len(calls))
    # a second comparison starts afresh
    if how == 0 and len(c["alts"]) < 10:
        solve, calls, left = scripted(ctx, c["alts"], A, what)
        if req:
            optim.script(solve)
            try:
                out = radvel.fitting.model_comp(post, params=req)
            finally:
                optim.script(None)
            report(ctx, out, c["alts"], A, letters, what + ", again")


def driver(ctx, case, cfg, env, A, rng, letters, what):
    import radvel
    import radvel.driver
    import radvel.posterior
    c = case["case"]
    mode = case["driver"]
    alts = c["alts"]
    types_ = list(c["req"])
    rng.shuffle(types_)
    if mode == "unmixed":
        alts = c["single"]
        if not types_:
            return
    if mode == "simple":
        alts = [a for a in c["alts"] if not a["off"]]
    if not types_ and mode != "simple":
        return
    fixed = set()
    if mode == "fixed":
        fixed = {i["suf"] and "jit" + i["suf"] for i in cfg["insts"]}
        alts = []
        for a in c["alts"]:
            if not any(x["what"] == "jit" for x in a["off"]):
                alts.append(dict(a, free=[k for k in a["free"] if k not in fixed],
                                 feats=[f for f in a["feats"] if f[0] != "jit"]))
    d = os.path.join(ctx.workdir, "ic%s" % case["id"])
    os.makedirs(d, exist_ok=True)
    params = []
    for k in fx.planet_keys(cfg) + ["dvdt", "curv"] + fx.like_keys(cfg):
        if k in ("dvdt", "curv") and k not in cfg["trend"]:
            env[k] = 0.0
        params.append((k, env[k], k in cfg["free"], False, None))
    data = {"time": [], "mnvel": [], "errvel": [], "tel": []}
    for i in cfg["insts"]:
        s = i["suf"]
        data["time"] += list(env["x:" + s])
        data["mnvel"] += list(env["y:" + s])
        data["errvel"] += list(env["s:" + s])
        data["tel"] += [s[1:]] * len(env["x:" + s])
    path = setups.write_setup(os.path.join(d, "star.py"), {
        "np": cfg["np"], "basis": cfg["basis"], "instnames": [i["suf"][1:] for i in cfg["insts"]],
        "tb": env["tb"], "data": data, "params": params, "priors": [case["tab"]["prior"]],
        "letters": cfg.get("letters") or {i: "abcdefg"[i] for i in range(1, cfg["np"] + 1)}})
    args = types.SimpleNamespace(setupfn=path, outputdir=d, decorr=False, type=types_, verbose=False,
                                 simple=mode == "simple", mixed=mode != "unmixed",
                                 fixjitter=mode == "fixed")
    P, post = radvel.utils.initialize_posterior(path)
    post.writeto(os.path.join(d, "p.pkl"))
    stat = os.path.join(d, "star_radvel.stat")
    radvel.driver.save_status(stat, "fit", {"run": True, "postfile": os.path.join(d, "p.pkl")})
    book = list(alts)
    if mode == "unmixed":       # the full model is fitted once per feature
        full = [a for a in alts if not a["off"]]
        solve, calls, left = scripted(ctx, list(alts) + full * (len(types_) - 1) , A, what + " " + mode)
    else:
        solve, calls, left = scripted(ctx, book, A, what + " " + mode)
    optim.script(solve)
    try:
        radvel.driver.ic_compare(args)
    finally:
        optim.script(None)
    st = radvel.driver.load_status(stat)
    from collections import OrderedDict
    out = eval(st.get("ic_compare", "ic"), {"OrderedDict": OrderedDict, "np": np, "inf": np.inf,
                                            "nan": np.nan})
    report(ctx, out, alts, A, letters, what + " " + mode)
    ctx.count("driver " + mode)
    after = radvel.posterior.load(os.path.join(d, "p.pkl"))
    ctx.true("saved posterior unchanged", same(snapshot(after), snapshot(post)), what)


def coverage_check(ctx):
    for k in ["compare " + f for f in ("nplanets", "e", "trend", "jit", "gp")] + ["fits", "entries"] + [
            "driver " + m for m in ("mixed", "unmixed", "simple", "fixed")]:
        if not ctx.counts.get(k):
            raise core.MachineryError("C15 never reached %r" % k)
