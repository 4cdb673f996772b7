"""C17: Gaussian-process noise.  TLC enumerates kernels, composites with shared/separate/mixed
hyperparameters, data orders, degenerate hyperparameters, and emits the multivariate-normal density,
covariance, conditional mean and variance as terms; real likelihoods are compared, in several
orders of calls, after updates through the vector, and at sorted, unsorted, single and repeated
prediction times."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["prediction variances are compared on the scale of the kernel amplitude (conditioning)",
               "Celerite without members of positive variance is outside its solver's domain"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC17", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS OwnOnly Uses Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    for i, r in enumerate(res.lines):
        r["id"] = i
        r["reps"] = ctx.pick(2, 6)
        yield r


def kernel_case(ctx, case):
    import radvel
    rng = ctx.nprng("c17k", case["id"])
    kind = case["kernel"]
    if kind == "Celerite":
        return
    for rep in range(6):
        env = {k: fx.hyp_value(rng, h) for k, h in zip(case["keys"], case["names"])}
        env["x1"], env["x2"] = rng.uniform(0, 60, 5), rng.uniform(0, 60, 4 if rep % 2 else 5)
        hp = {k: radvel.Parameter(value=env[k]) for k in case["keys"]}
        kern = getattr(radvel.gp, kind + "Kernel")(hp)
        kern.compute_distances(env["x1"], env["x2"])
        want = terms.ev(case["term"], env)
        ctx.close("kernel", kern.compute_covmatrix(0.), want, 1e-10, 1e-12, str(case["kernel"]))
        kern.compute_distances(env["x1"], env["x1"])
        e = rng.uniform(0.1, 3, 5)
        env["x2"] = env["x1"]
        want = terms.ev(case["term"], env) + np.diag(e ** 2)
        ctx.close("covariance of data", kern.compute_covmatrix(e), want, 1e-10, 1e-12, kind)
        ctx.close("covariance kept", kern.covmatrix, want, 1e-10, 1e-12, kind)
        ctx.close("covariance again", kern.compute_covmatrix(e), want, 1e-10, 1e-12, kind)


def ev(t, env):
    return terms.ev(t, env)


def run(ctx, case):
    if "kernel" in case:
        return kernel_case(ctx, case)
    import radvel
    cfg = case["cfg"]
    rng = ctx.nprng("c17", case["id"])
    what = "%s zero=%s basis %r" % ([(i["kind"], i["suf"], i["hn"], i["n"], i["order"], i["jit"])
                                     for i in cfg["insts"]], cfg["zero"], cfg["basis"])
    base = fx.data_env(cfg, rng)
    if cfg["zero"] == "singular":
        return singular(ctx, case, cfg, base, rng, what)
    env = degenerate(cfg, fx.value_env(cfg, rng, base))
    like = fx.make_like(cfg, env)
    likes = getattr(like, "like_list", [like])
    for rep in range(case["reps"]):
        if rep:
            env = degenerate(cfg, fx.value_env(cfg, rng, base))
            if rep % 2:
                for k, p in like.params.items():
                    p.value = env[k]
                like.vector.dict_to_vector()
            else:
                for k, i in like.vector.indices.items():
                    if k in like.params:
                        like.vector.vector[i][0] = env[k]
        compare(ctx, case, cfg, env, like, likes, rng, what + " rep %d" % rep)
        separate(ctx, case, cfg, env, like, likes, rng, what)


def singular(ctx, case, cfg, base, rng, what):
    """The likelihood without a density is minus infinity; with one again, it is back."""
    import radvel
    gp = [i for i in cfg["insts"] if i["kind"] != "rv"][0]
    s = gp["suf"]
    base["x:" + s][:] = base["x:" + s][0]
    base["s:" + s][:] = 0.0
    env = fx.value_env(cfg, rng, base)
    post = radvel.posterior.Posterior(fx.make_like(cfg, env))
    like = post.likelihood
    for rep in range(4):
        env = fx.value_env(cfg, rng, base)
        env["gp_amp" + gp["hn"]] = float(2 ** rng.integers(0, 4))
        env["jit" + s] = 0.0 if rep % 2 == 0 else float(rng.uniform(0.5, 3))
        for k, i in like.vector.indices.items():
            if k in like.params:
                like.vector.vector[i][0] = env[k]
        want = sum(float(ev(t, env)) for t in case["ll"])
        for o in (like, post):
            ctx.eq("a density is defined", bool(np.isfinite(o.logprob())), bool(np.isfinite(want)),
                   "%s rep %d" % (what, rep))
            ctx.close("log-density", o.logprob(), want, 1e-8, 1e-6 + 1e-9 * abs(want) if
                      np.isfinite(want) else 0, "%s rep %d" % (what, rep))
        ctx.count("singular")


def degenerate(cfg, env):
    env = dict(env)
    for k in list(env):
        if k.startswith("gp_"):
            if cfg["zero"] == "all0" or (cfg["zero"] == "amp0" and k.startswith("gp_amp")) or (
                    cfg["zero"] == "explength0" and k.startswith("gp_explength")):
                env[k] = 0.0
    return env


def compare(ctx, case, cfg, env, like, likes, rng, what):
    order = list(rng.permutation(4))
    total = sum(float(ev(t, env)) for t in case["ll"])
    scale = 1e-6 + 1e-9 * abs(total)
    for step in order + [0]:
        if step == 0:
            ctx.close("log-density", like.logprob(), total, 1e-8, scale, what)
            for i, l in enumerate(likes):
                ctx.close("log-density of one instrument", l.logprob(), ev(case["ll"][i], env),
                          1e-8, scale, what)
        elif step == 1:
            for i, (l, inst) in enumerate(zip(likes, cfg["insts"])):
                if inst["kind"] == "rv":
                    continue
                predict(ctx, case, i, l, inst, env, rng, what)
        elif step == 2:
            want = []
            for i, inst in enumerate(cfg["insts"]):
                r = np.atleast_1d(ev(case["resid"][i], env))
                if inst["kind"] == "Celerite":       # kept in time order, like its x and y
                    r = r[kept(likes[i], inst, env)]
                want.append(r)
            ctx.close("residuals", like.residuals(), np.concatenate(want), 1e-7, 1e-6, what)
        elif step == 3:
            for i, (l, inst) in enumerate(zip(likes, cfg["insts"])):
                s = inst["suf"]
                o = np.arange(inst["n"])
                if inst["kind"] == "Celerite":
                    o = kept(l, inst, env)
                    ctx.true("time order", sorted(o) == list(range(inst["n"])) and
                             np.all(np.diff(l.x) >= 0), what)
                ctx.close("times", l.x, env["x:" + s][o], 0, 0, what)
                ctx.close("velocities", l.y, env["y:" + s][o], 0, 0, what)
                ctx.close("uncertainties", l.yerr, env["s:" + s][o], 0, 0, what)
                ctx.close("error bars", l.errorbars(), np.atleast_1d(ev(case["err"][i], env))[o],
                          1e-10, 1e-12, what)
                if inst["kind"] not in ("rv", "Celerite"):
                    l.update_kernel_params()
                    ctx.close("covariance", l.kernel.compute_covmatrix(l.errorbars()),
                              ev(case["cov"][i], env), 1e-9, 1e-9, what)


def kept(l, inst, env):
    """Which measurement each row of the likelihood is (velocities are distinct)."""
    y = env["y:" + inst["suf"]]
    return [int(np.argmin(np.abs(y - v))) for v in l.y]


def predict(ctx, case, i, l, inst, env, rng, what):
    x = env["x:" + inst["suf"]]
    lo = env["t0"] - 20
    for name, xp in (("unsorted", rng.uniform(lo, lo + 100, 7)), ("data times", l.x.copy()),
                     ("one", rng.uniform(lo, lo + 100, 1)), ("same number", rng.uniform(lo, lo + 100, x.size)),
                     ("like data", np.concatenate((np.sort(x)[:1], np.sort(x)[1:-1] + 0.37, np.sort(x)[-1:]))),
                     ("reversed", x[::-1].copy()), ("repeated", np.array([lo + 30, lo + 5, lo + 30.0])),
                     ("sorted", np.sort(rng.uniform(lo, lo + 100, 9)))):
        e2 = dict(env)
        e2["xp"] = xp
        keep = xp.copy()
        mu, sd = l.predict(xp)
        ctx.count("predictions")
        lab = "%s %s at %s times" % (what, inst["suf"], name)
        ctx.true("requested times untouched", np.array_equal(xp, keep), lab)
        ctx.close("conditional mean", mu, np.atleast_1d(ev(case["mean"][i], e2)), 1e-7, 1e-6, lab)
        wv = np.atleast_1d(ev(case["var"][i], e2))
        ctx.true("real standard deviation", np.all(np.isfinite(sd) | (np.abs(wv) < 1e-9)), lab)
        ctx.close("conditional variance", np.nan_to_num(np.asarray(sd, dtype=float)) ** 2,
                  np.maximum(wv, 0), 1e-6, 1e-6, lab)


def separate(ctx, case, cfg, env, like, likes, rng, what):
    """Changing hyperparameters an instrument does not own leaves its values alone."""
    if len(likes) < 2:
        return
    for i, l in enumerate(likes):
        others = sorted({k for j, o in enumerate(case["own"]) if j != i for k in o} -
                        set(case["own"][i]))
        if not others:
            continue
        before = l.logprob()
        r0 = l.residuals()
        for k in others:
            like.vector.vector[like.vector.indices[k]][0] += 1.7
        ctx.close("unaffected by another instrument", l.logprob(), before, 1e-12, 0, what)
        ctx.close("unaffected by another instrument", l.residuals(), r0, 1e-12, 1e-12, what)
        for k in others:
            like.vector.vector[like.vector.indices[k]][0] = env[k]
        ctx.count("separate")


def coverage_check(ctx):
    for k in ("predictions", "separate", "singular"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C17 never reached %r" % k)
