"""C03: Gaussian likelihood per instrument and composite.  TLC enumerates the configurations
of spec/CheckC03.tla and emits the terms defining residuals, error bars and log-likelihoods;
the harness builds the real objects and compares every observable at several parameter
vectors reached through the array interface."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["terms are evaluated in IEEE double precision by harness/terms.py",
               "comparison tolerance 1e-7 relative"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC03", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS RowsDistinct TermsClosed Isolation LinearIgnoresGamma Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    for i, c in enumerate(res.lines):
        c["id"] = i
        yield c


def expected(case, env):
    n = len(case["cfg"]["insts"])
    r = [np.atleast_1d(terms.ev(t, env)) for t in case["resid"]]
    e = [np.atleast_1d(terms.ev(t, env)) for t in case["err"]]
    ll = [float(terms.ev(t, env)) for t in case["ll"]]
    return r, e, ll, n


def observe(ctx, case, env, like, parts, post, nfree, tag):
    r, e, ll, n = expected(case, env)
    total = sum(ll)
    ndata = sum(len(x) for x in r)
    ctx.close("log-likelihood", like.logprob(), total, 1e-7, 1e-6, tag)
    ctx.close("residuals", like.residuals(), np.concatenate(r), 1e-7, 1e-6, tag)
    ctx.close("errorbars", like.errorbars(), np.concatenate(e), 1e-9, 1e-9, tag)
    ctx.close("neglogprob", like.neglogprob(), -total, 1e-7, 1e-6, tag)
    for i, p in enumerate(parts):
        ctx.close("instrument log-likelihood", p.logprob(), ll[i], 1e-7, 1e-6,
                  "%s inst %d" % (tag, i))
        ctx.close("instrument residuals", p.residuals(), r[i], 1e-7, 1e-6, "%s inst %d" % (tag, i))
    # flat priors: the posterior is the likelihood
    ctx.close("posterior without priors", post.logprob(), total, 1e-7, 1e-6, tag)
    ctx.close("posterior residuals", post.residuals(), np.concatenate(r), 1e-7, 1e-6, tag)
    ctx.close("posterior errorbars", post.likelihood.errorbars(), np.concatenate(e), 1e-9, 1e-9, tag)
    bic = np.log(ndata) * nfree - 2 * total
    ctx.close("bic", like.bic(), bic, 1e-7, 1e-6, tag)
    ctx.close("posterior bic", post.bic(), bic, 1e-7, 1e-6, tag)
    den = ndata - nfree - 1
    aic = -2 * total + 2 * nfree + 2 * nfree * (nfree + 1) / den if den > 0 else np.inf
    ctx.close("aic", like.aic(), aic, 1e-7, 1e-6, tag)
    ctx.close("posterior aic", post.aic(), aic, 1e-7, 1e-6, tag)


def run(ctx, case):
    import radvel
    cfg = case["cfg"]
    rng = ctx.nprng("c03", case["id"])
    data = fx.data_env(cfg, rng)
    # only an offset that is flagged as linear and is not free is marginalised over
    cfg["linflag"] = [k for k in case["keys"] if rng.uniform() < 0.4 and
                      (k in case["free"] or not k.startswith("gamma"))]
    ctx.count("free and linear", len(set(cfg["linflag"]) & set(case["free"])))
    env = fx.value_env(cfg, rng, data)
    like = fx.make_like(cfg, env)
    parts = like.like_list if hasattr(like, "like_list") else [like]
    post = radvel.posterior.Posterior(like)
    free = [k for k in case["free"] if k in case["keys"]]
    sufs = [i["suf"] for i in cfg["insts"]]
    ctx.close("data order x", like.x, np.concatenate([env["x:" + s] for s in sufs]), 0, 0)
    ctx.close("data order y", like.y, np.concatenate([env["y:" + s] for s in sufs]), 0, 0)
    ctx.close("data order yerr", like.yerr, np.concatenate([env["s:" + s] for s in sufs]), 0, 0)
    want = sum([[i["suf"][1:] if i["suf"].startswith("_") else i["suf"]] * i["n"]
                for i in cfg["insts"]], [])
    ctx.eq("instrument labels", [str(t) for t in like.telvec], want)
    observe(ctx, case, env, like, parts, post, len(free), "initial")
    keep = {k: np.array(v) for k, v in env.items() if k[1:2] == ":"}
    for j in range(2):
        new = fx.value_env(cfg, rng, data)
        arr = np.array([new[k] for k in free])
        for k in free:
            env[k] = new[k]
        r, e, ll, n = expected(case, env)
        got = post.logprob_array(arr) if j == 0 else like.logprob_array(arr)
        ctx.close("logprob_array", got, sum(ll), 1e-7, 1e-6, "step %d" % j)
        got = like.neglogprob_array(arr)
        ctx.close("neglogprob_array", got, -sum(ll), 1e-7, 1e-6, "step %d" % j)
        observe(ctx, case, env, like, parts, post, len(free), "step %d" % j)
    for k, v in keep.items():
        ctx.true("inputs untouched", np.array_equal(v, env[k], equal_nan=True), k)
    ctx.count("instruments", len(parts))
