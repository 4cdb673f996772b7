"""C09: the posterior is likelihood times priors.  TLC explores every list of attached priors (any
order, repetitions) and point reachable by adding, inserting, removing, swapping, replacing priors
and moving through the array and named interfaces; every transition is replayed on real posteriors
of every catalogue configuration and all interfaces are compared with the specified sum."""
import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["where no attached prior excludes a point whose likelihood is undefined, nothing is claimed"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC09", """
CONSTANT MaxLen = %d
SPECIFICATION Spec
VIEW View
PROPERTIES StepBag Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % ctx.pick(2, 3), timeout=3000)
    tables = [r for r in res.lines if "table" in r]
    g = core.Graph([r for r in res.lines if "f" in r])
    walks = g.tour(maxlen=60, rng=ctx.rng("c09tour"))
    n = 0
    for w, walk in enumerate(walks):
        # every walk on one configuration in rotation (thorough: on three)
        for r in range(ctx.pick(1, 3)):
            yield {"id": n, "tab": tables[(w + 5 * r + ctx.seed) % len(tables)],
                   "walk": [[a, t] for a, t in walk]}
            n += 1


def envs(tab, rng):
    cfg = tab["cfg"]
    base = fx.data_env(cfg, rng)
    base["ts"] = float(rng.uniform(0, 30))
    out = []
    first = None
    for p in tab["points"]:
        c = dict(cfg)
        c["ecc"] = ["high" if p["e"] == "high" else "mid"] * cfg["np"]
        env = fx.value_env(c, rng, base)
        if p["e"] == "high":       # certainly above the limit
            for i in range(1, cfg["np"] + 1):
                el = fx.orbit_values(rng, "high")
                el["e"] = float(rng.uniform(0.8, 0.95))
                env.update(fx.planet_env(cfg["basis"], i, el))
        if p["k"] == "neg" and "k" in cfg["basis"].split():
            env["k%d" % cfg["np"]] *= -1
        env["jit" + cfg["insts"][0]["suf"]] = fx.rat(p["jit"])
        if first is None:
            first = env
        for k in first:          # parameters that are not free stay where they are
            if k not in cfg["free"]:
                env[k] = first[k]
        out.append(env)
    return out


def run(ctx, case):
    import radvel
    tab = case["tab"]
    cfg = tab["cfg"]
    rng = ctx.nprng("c09", case["id"])
    E = envs(tab, rng)
    free = tab["free"]
    npool = len(tab["pool"])
    lp = np.zeros((len(E), npool))
    ll = np.zeros(len(E))
    for q, env in enumerate(E):
        for p in range(npool):
            lp[q, p] = float(np.asarray(terms.ev(tab["lp"][p], env)).reshape(-1)[0])
            if tab["mode"] == "all" and bool(np.isneginf(lp[q, p])) != tab["excl"][q][p]:
                raise core.MachineryError("specification: exclusion and density disagree %s %d"
                                          % (tab["pool"][p], q))
        ll[q] = float(np.asarray(terms.ev(tab["ll"], env)).reshape(-1)[0])
        if fx.max_ecc(cfg, env) > 0.97:     # orbits: C04; here only composition is at stake
            ll[q] = np.nan
    X = [np.array([env[k] for k in free]) for env in E]
    pool = []
    for p in tab["pool"]:
        p = dict(p)
        if p["kind"] == "sec":
            p["ts"] = E[0]["ts"]
        pool.append(fx.make_prior(p))
    post = radvel.posterior.Posterior(fx.make_like(cfg, E[0]))
    cur, q = [], 0
    trail = []
    for a, t in case["walk"]:
        name = a["name"]
        trail.append("%s%s" % (name, {k: v for k, v in a.items() if k != "name"}))
        what = "basis %r %s after %s" % (cfg["basis"], free[-3:], trail[-4:])
        if name == "append":
            post.priors.append(pool[a["i"] - 1])
        elif name == "insert":
            post.priors.insert(0, pool[a["i"] - 1])
        elif name == "remove":
            del post.priors[a["j"] - 1]
        elif name == "swap":
            j = a["j"] - 1
            post.priors[j], post.priors[j + 1] = post.priors[j + 1], post.priors[j]
        elif name == "assign":
            post.priors = [pool[a["i"] - 1]]
        q = t["pt"] - 1
        cur = [i - 1 for i in t["list"]]
        excluded = any(np.isneginf(lp[q, p]) for p in cur)
        want = -np.inf if excluded else float(sum(lp[q, p] for p in cur) + ll[q])
        known = excluded or np.isfinite(want)
        tol = 1e-7 + 1e-9 * (abs(ll[q]) if np.isfinite(ll[q]) else 0)
        got = None
        if name == "move":
            x = X[q].copy()
            how = a["how"]
            if how == "array":
                got = post.logprob_array(x)
            elif how == "negarray":
                got = -post.neglogprob_array(x)
            elif how == "set":
                post.set_vary_params(x)
            elif how == "likeset":
                post.likelihood.set_vary_params(x)
            elif how == "named":
                for k in free:
                    post.params[k].value = E[q][k]
                post.vector.dict_to_vector()
            elif how == "extra":
                post.extra_likelihood_array(x)
            elif how == "ns":
                post.likelihood_ns_array(x)
            ctx.true("the array is not modified", np.array_equal(x, X[q]), what)
        x = X[q].copy()
        if known:
            ctx.count("excluded" if excluded else "inside")
            if got is not None:
                ctx.close("array value", got, want, 1e-8, tol, what)
            ctx.close("log-posterior", post.logprob(), want, 1e-8, tol, what)
            ctx.close("negative", post.neglogprob(), -want, 1e-8, tol, what)
            ctx.close("array value", post.logprob_array(x), want, 1e-8, tol, what)
            ctx.close("negative array value", post.neglogprob_array(x), -want, 1e-8, tol, what)
            ctx.close("again", post.logprob(), want, 1e-8, tol, what)
        if np.isfinite(ll[q]):
            ctx.close("likelihood part", post.likelihood.logprob(), ll[q], 1e-8, tol, what)
            ctx.close("likelihood part by array", post.likelihood.logprob_array(x), ll[q], 1e-8,
                      tol, what)
        for p in set(cur):
            if tab["pool"][p]["kind"] != "sec" or np.isfinite(lp[q, p]):
                ctx.close("prior part", float(pool[p](post.params, post.vector)), lp[q, p], 1e-8,
                          1e-7, what + " " + str(tab["pool"][p]))
        ctx.eq("order of the priors", [pool.index(p) for p in post.priors], cur, what)
    s = repr(post)
    ctx.true("printed", all(repr(p) in s for p in post.priors), case["id"])


def coverage_check(ctx):
    for k in ("excluded", "inside"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C09 never reached %r" % k)
