"""C08: prior transforms and the nested-sampling split.  TLC enumerates configurations, free sets
and prior lists (missing, doubled, on fixed parameters, several at once, extra constraints, every
order), decides which may run, which prior owns each entry of the array, and emits quantiles and
densities; real posteriors are compared, including transform density x likelihood = posterior."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["NumericalPrior's transform is a histogram of its samples: compared with the samples' "
               "distribution to within the bin mass, elsewhere quantiles are exact"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC08", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS OrderFree ExtraFree OnePer Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    i = 0
    for r in res.lines:
        r["id"] = i
        r["reps"] = ctx.pick(4, 12)
        i += 1
        yield r


def single(ctx, case):
    rng = ctx.nprng("c08s", case["id"])
    p = case["single"]
    pr = fx.make_prior(p)
    key = p.get("key") or p["keys"][0]
    u = np.concatenate([np.sort(rng.uniform(0, 1, 200)), [1e-9, 1 - 1e-9]])
    want = terms.ev(case["quant"], {"u": u})
    got = np.array([float(pr.transform(x)) for x in u])
    ctx.close("quantile", got, want, 1e-9, 1e-9, str(p))
    ctx.close("quantile of an array", pr.transform(u), want, 1e-9, 1e-9, str(p))
    ctx.close("cumulative probability", terms.ev(case["cdf"], {key: got}), u, 0, 1e-8, str(p))
    ctx.true("monotone", np.all(np.diff(got[:200]) > 0), str(p))
    if p["kind"] != "gauss":
        lo, hi = fx.rat(p["lo"]), fx.rat(p["hi"])
        ctx.close("bounds", [float(pr.transform(0.0)), float(pr.transform(1.0))], [lo, hi], 1e-12,
                  1e-12, str(p))
        ctx.true("inside the support", np.all((got >= lo) & (got <= hi)), str(p))


def run(ctx, case):
    import radvel
    if "single" in case:
        return single(ctx, case)
    cfg = case["cfg"]
    rng = ctx.nprng("c08", case["id"])
    env = fx.value_env(cfg, rng, fx.data_env(cfg, rng))
    env["ts"] = float(rng.uniform(0, 30))
    post = radvel.posterior.Posterior(fx.make_like(cfg, env))
    samples = {}
    for j, p in enumerate(case["priors"]):
        if p["kind"] == "num":
            p["samples"] = [list(np.exp(rng.normal(0, 0.3, 400))) for _ in p["keys"]]
            samples[j] = np.array(p["samples"][0])
        if p["kind"] == "sec":
            p["ts"] = env["ts"]
        post.priors.append(fx.make_prior(p))
    what = "%s free %s priors %s" % (case["what"], case["free"], [
        (p["kind"], p.get("key", p.get("keys"))) for p in case["priors"]])
    ctx.eq("names of the array", post.name_vary_params(), case["free"], what)
    try:
        post.check_proper_priors()
        ok = True
    except ValueError:
        ok = False
    ctx.eq("proper priors", ok, case["ok"], what)
    if not ok:
        ctx.count("refused")
        return
    ctx.count("proper")
    n = len(case["free"])
    for rep in range(case["reps"]):
        u = rng.uniform(0, 1, n)
        keep = u.copy()
        x = post.prior_transform(u)
        ctx.true("probabilities untouched", np.array_equal(u, keep), what)
        for j, k in enumerate(case["free"]):
            p = case["priors"][case["owner"][j] - 1]
            lab = "%s entry %d (%s)" % (what, j, k)
            if p["kind"] == "num":
                s = np.sort(samples[case["owner"][j] - 1])
                ctx.true("inside the samples", s[0] <= x[j] <= s[-1], lab)
                cdf = np.searchsorted(s, x[j]) / s.size
                ctx.true("numerical quantile", abs(cdf - u[j]) < 0.2, lab + " %g vs %g" % (cdf, u[j]))
            else:
                ctx.close("own transform", x[j], terms.ev(case["quant"][j], {"u": u[j]}), 1e-9,
                          1e-9, lab)
        y = u.copy()
        z = post.prior_transform(y, inplace=True)
        ctx.close("in place", y, x, 1e-12, 0, what)
        ctx.close("in place", z, x, 1e-12, 0, what)
        # the split
        env2 = dict(env)
        env2.update(zip(case["free"], [float(v) for v in x]))
        lps = []
        for j, p in enumerate(case["priors"]):
            if p["kind"] == "num":
                s = samples[j]
                c = np.var(s, ddof=1) * s.size ** -0.4
                env2.update({"D1": s, "caa": c})
            lps.append(float(np.asarray(terms.ev(case["lp"][j], env2)).reshape(-1)[0]))
        extra = sum(l for l, e in zip(lps, case["extra"]) if e)
        trans = sum(l for l, e in zip(lps, case["extra"]) if not e)
        # within rounding of a wrap-around tie or a bound nothing is claimed
        # (each is a function of the array alone, wherever the posterior was before)
        away = post.prior_transform(rng.uniform(0.02, 0.98, len(u)))
        got = {}
        for how in rng.permutation(["logprob_array", "likelihood_ns_array", "extra_likelihood_array"]):
            post.likelihood.set_vary_params(away)
            got[how] = float(getattr(post, str(how))(x))
        full, ns, ex = (got[h] for h in ("logprob_array", "likelihood_ns_array",
                                         "extra_likelihood_array"))
        if np.isfinite(extra):
            ctx.close("extra constraints", ex, extra, 1e-7, 1e-7, what)
            ctx.close("transform density x likelihood = posterior", trans + ns, full, 1e-8, 1e-6,
                      what)
            ll = float(np.asarray(terms.ev(case["ll"], env2)).reshape(-1)[0])
            if np.isfinite(ll):
                ctx.close("sampled likelihood", ns, extra + ll, 1e-7, 1e-5, what)
            ctx.count("inside")
        else:
            ctx.true("excluded point", ex <= -1e99 and np.isfinite(ex), what + " %r" % ex)
            ctx.true("excluded point", ns <= -1e99 and np.isfinite(ns), what + " %r" % ns)
            ctx.true("excluded point", np.isneginf(full), what + " %r" % full)
            ctx.count("outside")
    if n > 1:
        U = rng.uniform(0, 1, (n, 5))
        X = post.prior_transform(U)
        for j in range(5):
            ctx.close("many at once", X[:, j], post.prior_transform(U[:, j]), 1e-12, 1e-12, what)


def coverage_check(ctx):
    for k in ("refused", "proper", "inside", "outside"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C08 never reached %r" % k)
