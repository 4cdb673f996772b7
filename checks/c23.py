"""C23: maximum a posteriori fits.  TLC explores every history of an optimiser that evaluates points
and finally answers one (the point last evaluated may be another); each is replayed on the real fit
with a scripted optimiser over the catalogue of models, and the free parameters, named values,
flags, priors, data and log-posterior afterwards are compared with the specification's values at
the answered point.  Fits with the real optimiser are checked to end where it ended and nowhere
less probable than they started."""
import contextlib
import io

import numpy as np

import core
import fixtures as fx
import optim
import terms

ASSUMPTIONS = ["the optimiser is scripted except in the 'real' cases"]


def before_import(ctx):
    optim.install()


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC23", """
CONSTANTS
 Depth = %d
 Points = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS EndsAtAnswer Emit
PROPERTY HistoryFree
CHECK_DEADLOCK FALSE
""" % ctx.pick(3, 4))
    hist = [r for r in res.lines if "seen" in r]
    confs = [r for r in res.lines if "cfg" in r]
    n = 0
    for i, h in enumerate(hist):
        for c in (confs if ctx.thorough else [confs[(i + j * 11 + ctx.seed) % len(confs)] for j in range(4)]):
            yield {"id": n, "hist": h, "conf": c}
            n += 1
    for c in confs:
        for r in range(ctx.pick(1, 6)):
            if c["mode"] in ("one", "tail", "alternate"):
                yield {"id": "r%d-%d" % (n, r), "conf": c, "real": True}
        n += 1


def build(ctx, case):
    import radvel
    conf = case["conf"]
    cfg = dict(conf["cfg"])
    rng = ctx.nprng("c23", case["id"])
    if case.get("real"):        # without priors an orbit or a process may leave its domain
        cfg["free"] = [k for k in cfg["free"] if not k.startswith(("gp_", "e", "se", "w", "per", "logper"))]
    data = fx.data_env(cfg, rng)
    env = fx.value_env(cfg, rng, data)
    post = radvel.posterior.Posterior(fx.make_like(cfg, env))
    post.priors = [fx.make_prior(conf["prior"])]
    post.list_vary_params()
    post.likelihood.list_vary_params()
    return conf, cfg, rng, env, post


def fit(ctx, post, rng, **kw):
    import radvel
    out = io.StringIO()
    verbose = bool(rng.integers(2))
    with contextlib.redirect_stdout(out):
        got = radvel.fitting.maxlike_fitting(post, verbose=verbose, **kw)
    ctx.true("the fit returns the posterior it was given", got is post)
    ctx.true("quiet unless asked", verbose or out.getvalue() == "", out.getvalue()[:80])


def run(ctx, case):
    conf, cfg, rng, env, post = build(ctx, case)
    what = "%s free %s %s" % (cfg["basis"], conf["mode"], case.get("hist", ""))
    names = list(post.name_vary_params())
    ctx.eq("free parameters", sorted(names), sorted(cfg["free"]), what)
    flags = {k: (p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()}
    rows = post.vector.vector[:, 1:].copy()
    priors = list(post.priors)
    datas = [np.array(v) for v in (post.likelihood.x, post.likelihood.y, post.likelihood.yerr)]
    if case.get("real"):
        n0 = len(optim.results())
        start = post.logprob()
        fit(ctx, post, rng)
        x0, res = optim.results()[n0]
        end = post.logprob()
        if np.isfinite(start):
            ctx.true("never ends less probable than it started", end >= start - 1e-6 * max(1, abs(start)),
                     "%s: %r -> %r" % (what, start, end))
        ctx.true("ends at the optimiser's result", np.array_equal(np.array(post.get_vary_params()), res.x), what)
        final = dict(zip(names, res.x))
        best(ctx, conf, cfg, env, names, final, what)
        ctx.count("real fits")
    else:
        points = [dict(env)] + [fx.value_env(cfg, rng, {"t0": env["t0"]}) for _ in range(2)]
        arr = lambda p: np.array([points[p][k] for k in names])
        methods = []

        def solve(fun, x0):
            ctx.true("the fit starts at the current values", np.array_equal(x0, arr(0)), what)
            def at(x):
                v = fun(x)
                e = dict(env)
                e.update(zip(names, x))
                ev = lambda t: float(np.asarray(terms.ev(t, e)).reshape(-1)[0])
                w = ev(conf["ll"]) + ev(conf["lp"])
                if not np.isfinite(w) or fx.max_ecc(cfg, e) > 0.9:  # an orbit mixed from two points
                    ctx.count("points out of the domain")
                    return
                ctx.close("the function minimised is the negative log-posterior", v, -w, 1e-8,
                          1e-5 * max(1, abs(w)) * 1e-3 + 1e-6, what)
            for p in case["hist"]["seen"]:
                at(arr(p))
            ctx.count("evaluations", len(case["hist"]["seen"]))
            return arr(case["hist"]["answer"]), []

        optim.script(solve)
        try:
            fit(ctx, post, rng)
        finally:
            optim.script(None)
        final = {k: points[case["hist"]["answer"]][k] for k in names}
        ctx.count("scripted fits")
    ctx.eq("names after the fit", list(post.name_vary_params()), names, what)
    ctx.close("ends at the answer", post.get_vary_params(), [final[k] for k in names], 0, 0, what)
    lin = {"gamma" + i["suf"] for i in cfg["insts"] if i["linear"]}
    for k, p in post.params.items():
        if k in lin and k not in final:
            continue
        ctx.close("named values after the fit", p.value, final.get(k, env[k]), 0, 0, "%s %s" % (what, k))
    ctx.eq("flags untouched", {k: (p.vary, p.mcmcscale, p.linear) for k, p in post.params.items()}, flags, what)
    ctx.true("flags untouched", np.array_equal(post.vector.vector[:, 1:], rows), what)
    ctx.true("priors untouched", len(post.priors) == len(priors) and all(
        a is b for a, b in zip(post.priors, priors)), what)
    ctx.true("data untouched", all(np.array_equal(a, b) for a, b in zip(
        datas, (post.likelihood.x, post.likelihood.y, post.likelihood.yerr))), what)
    e = dict(env)
    e.update(final)
    ev = lambda t: float(np.asarray(terms.ev(t, e)).reshape(-1)[0])
    w = ev(conf["ll"]) + ev(conf["lp"])
    if np.isfinite(w) and fx.max_ecc(cfg, e) <= 0.9:
        ctx.close("log-posterior after the fit", post.logprob(), w, 1e-7, 1e-5, what)
    ctx.true("printable", "parameter" in repr(post), what)


def best(ctx, conf, cfg, env, names, final, what):
    """No parameter alone, moved by a tenth of its width, makes the specification's posterior more probable."""
    def lp(**kw):
        e = dict(env)
        e.update(final)
        e.update(kw)
        return sum(float(np.asarray(terms.ev(conf[t], e)).reshape(-1)[0]) for t in ("ll", "lp"))
    top = lp()
    for k in names:
        h = 1e-4 * max(1.0, abs(final[k]))
        c = (lp(**{k: final[k] + h}) + lp(**{k: final[k] - h}) - 2 * top) / h ** 2
        if not np.isfinite(top) or not c < 0:
            ctx.count("parameters without a maximum")
            continue
        s = (-c) ** -0.5
        gain = max(lp(**{k: final[k] + d * s}) for d in (-0.1, 0.1)) - top
        ctx.true("ends at a maximum", gain < 0.05 + 5e-4 * abs(top), "%s: %s at %r improves by %r within %r" % (
            what, k, final[k], gain, 0.1 * s))
        ctx.count("parameters at their maximum")


def coverage_check(ctx):
    for k in ("scripted fits", "real fits", "evaluations"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C23 never reached %r" % k)
