"""C13: convergence statistics and verdicts.  TLC checks, exactly, properties of the Gelman-Rubin
statistic and the number of independent draws on every set of ensembles of small integer samples and
emits them; the real convergence_calculate() must give the same numbers.  Patterns of thresholds met
by all, some or none of the parameters are enumerated with the verdict each must have, and realised
with ensembles that are independent, offset, drifting, equal or stuck.  The statistics a real run
reports at its last check are compared with the specification's terms on the recorded samples."""
import contextlib
import fractions
import importlib
import io

import numpy as np

import c11
import chains
import core
import terms

ASSUMPTIONS = ["the autocorrelation time itself is emcee's (scripted where chains are too short for it)"]


def before_import(ctx):
    chains.install()


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC13", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS Relabelled Bound Draws Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), workers=6)
    tm = [r for r in res.lines if "terms" in r][0]
    lat = sorted((r for r in res.lines if "c" in r), key=lambda r: repr(r["c"]))
    pats = sorted((r for r in res.lines if "p" in r), key=repr)
    rng = ctx.rng("c13")
    for n in (1, 2, 3):
        mine = [r for r in lat if len(r["c"]) == n]
        for L in sorted({len(r["c"][0]) for r in mine}):
            group = [r for r in mine if len(r["c"][0]) == L]
            rng.shuffle(group)
            for i in range(0, len(group), 12):
                yield {"id": "l%d-%d-%d" % (n, L, i), "lat": group[i:i + 12]}
    for i, r in enumerate(pats):
        for k in range(ctx.pick(1, 4)):
            yield {"id": "p%d-%d" % (i, k), "pat": r, "terms": tm}
    for i in range(ctx.pick(24, 300)):
        yield {"id": "r%d" % i, "real": True, "terms": tm}


def calc(ch, **kw):
    return importlib.import_module("radvel.mcmc").convergence_calculate(ch, **kw)


def lattice(ctx, case):
    """Several one-parameter sets side by side as parameters of one set of ensembles."""
    group = case["lat"]
    n, L = len(group[0]["c"]), len(group[0]["c"][0])
    ch = []
    for e in range(n):
        a = np.array([r["c"][e] for r in group], dtype=float)        # parameters x samples
        ch.append(a.reshape(len(group), L, 1) if case["id"][-1] in "02468" or L % 2 else
                  a.reshape(len(group), 2, L // 2))
    before = [c.copy() for c in ch]
    tau = np.linspace(1.0, 2.0, len(group))
    chains.begin(tau=lambda x: tau)
    try:
        with np.errstate(all="ignore"):
            mixed, fac, change, ac, gr, tz = calc(ch, oldautocorrelation=tau * 0.9, minAfactor=0.0,
                                                  maxArchange=1e9, minTz=-10, maxGR=1e9)
    finally:
        chains.end()
    ctx.true("the chains are left as they were", all(np.array_equal(a, b) for a, b in zip(ch, before)))
    bad = False
    for j, r in enumerate(group):
        what = "ensembles %s" % r["c"]
        f = lambda q: np.nan if q["is"] == "undefined" else np.inf if q["is"] == "infinite" else \
            float(fractions.Fraction(q["num"], q["den"]))
        ctx.close("Gelman-Rubin statistic", np.asarray(gr)[j] ** 2, f(r["gr2"]), 1e-9, 1e-12, what)
        if n > 1:
            ctx.close("independent draws", np.asarray(tz)[j], n * L * f(r["tz"]), 1e-9, 1e-9, what)
        bad = bad or r["gr2"]["is"] != "finite" or (n > 1 and r["tz"]["is"] != "finite")
    ctx.eq("mixed only if every parameter is", bool(mixed), not bad, "%s" % [r["c"] for r in group])
    ctx.close("autocorrelation factor", fac, (n * ch[0].shape[2]) / tau, 1e-12, 0)
    ctx.close("change of the autocorrelation time", change, np.full(len(group), 0.1 / 0.9), 1e-9, 0)
    ctx.count("lattice sets", len(group))


def pattern(ctx, case):
    r = case["pat"]
    p = r["p"]
    n, nd = p["n"], p["nd"]
    rng = ctx.nprng("c13", case["id"])
    walkers, steps = int(rng.integers(2, 6)), int(rng.integers(6, 30))
    scale = 10.0 ** rng.uniform(-3, 3, nd)
    loc = rng.uniform(-5, 5, nd) * scale
    ch = []
    for e in range(n):
        c = rng.normal(0, 1, (nd, walkers, steps))
        if p["how"] == "drift":
            c += np.linspace(-1, 1, steps) * np.linspace(1, 6, nd)[:, None, None]
            c += np.linspace(0.2, 1.5, nd)[:, None, None] * e
        if p["how"] == "offset":
            c += (e * np.linspace(1, 4, nd))[:, None, None]
        if p["how"] == "equal" and e:
            c = (ch[0] - loc[:, None, None]) / scale[:, None, None]
        c = c * scale[:, None, None] + loc[:, None, None]
        if p["how"] == "stuck":
            c[int(p["nd"]) - 1 if case["id"][-1] in "02468" else 0] = 3.25
        ch.append(c)
    if p["how"] == "equal":
        ch = [ch[0].copy() for _ in range(n)]
    N = n * steps
    tau = np.sort(rng.uniform(0.5, 4.0, nd)) * (1 + 0.3 * np.arange(nd))
    rng.shuffle(tau)
    old = tau / rng.uniform(0.6, 1.6, nd)
    which = int(rng.integers(nd))
    if p["st"]["factor"] == "undefined":
        tau[which] = np.nan
    if p["st"]["change"] == "undefined":
        old[which] = np.nan
    t = case["terms"]["terms"][n - 1]
    envs = [dict({"c%d" % (e + 1): ch[e][j].reshape(-1) for e in range(n)},
                 n=float(N), tau=tau[j], old=old[j]) for j in range(nd)]
    gr = np.array([terms.ev(t["gr"], v) for v in envs], dtype=float)
    tz = np.array([terms.ev(t["tz"], v) for v in envs], dtype=float) if n > 1 else np.array([-1.0])
    fac = np.array([terms.ev(case["terms"]["factor"], v) for v in envs])
    chg = np.array([terms.ev(case["terms"]["change"], v) for v in envs])
    limit = {}
    for name, vals, lower in (("gr", gr, False), ("tz", tz, True), ("factor", fac, True),
                              ("change", chg, False)):
        v = vals[np.isfinite(vals)]
        if not len(v):
            v = np.array([1.0])
        st = p["st"][name]
        if st == "some":
            u = np.sort(v)
            cut = 0.5 * (u[0] + u[1]) if lower else 0.5 * (u[-1] + u[-2])
            if u[-1] - u[0] < 1e-6 * abs(u[-1]):
                ctx.count("patterns that cannot be realised")
                return
        else:
            big = (st in ("all", "undefined")) != lower
            cut = np.max(v) + 0.1 * abs(np.max(v)) if big else np.min(v) - 0.1 * abs(np.min(v))
        limit[name] = float(cut)
    for v in envs:
        v.update(maxGR=limit["gr"], minTz=limit["tz"], minAfactor=limit["factor"],
                 maxArchange=limit["change"])
    byterm = all(bool(terms.ev(t["good"], v)) for v in envs)
    if byterm != r["verdict"]:
        raise core.MachineryError("pattern not realised: %r" % (p,))
    what = "%s" % p
    chains.begin(tau=lambda x: tau.copy())
    try:
        with np.errstate(all="ignore"):
            got = calc([c.copy() for c in ch], oldautocorrelation=old.copy(), minAfactor=limit["factor"],
                       maxArchange=limit["change"], minTz=limit["tz"], maxGR=limit["gr"])
    finally:
        chains.end()
    ctx.eq("mixed only if every parameter satisfies every threshold", bool(got[0]), r["verdict"],
           "%s limits %s gr %s tz %s factor %s change %s" % (what, limit, gr, tz, fac, chg))
    ctx.close("autocorrelation factor", got[1], fac, 1e-10, 0, what)
    ctx.close("change of the autocorrelation time", got[2], chg, 1e-10, 0, what)
    ctx.close("autocorrelation time", got[3], tau, 0, 0, what)
    ctx.close("Gelman-Rubin statistic", got[4], gr, 1e-7, 0, what)
    if n > 1:
        ctx.close("independent draws", got[5], tz, 1e-7, 0, what)
    ctx.count("verdict %s" % r["verdict"])
    # the first check of a run has no earlier autocorrelation time: never mixed
    chains.begin(tau=lambda x: tau.copy())
    try:
        first = calc([c.copy() for c in ch], oldautocorrelation=0, minAfactor=-1.0, maxArchange=1e30,
                     minTz=-10, maxGR=1e30)
    finally:
        chains.end()
    ctx.eq("a first check is never mixed", bool(first[0]), False, what)


def real(ctx, case):
    """What a real run reports at its last check, against the terms on the recorded samples."""
    import emcee
    import radvel
    import sys
    rng = ctx.nprng("c13", case["id"])
    post, _ = c11.build(ctx, case, rng)
    names = post.name_vary_params()
    nd, ens = len(names), int(rng.integers(1, 5))
    nw = 2 * nd + 2
    np.random.seed(int(rng.integers(2 ** 31)))
    kw = dict(nwalkers=nw, ensembles=ens, nrun=12, checkinterval=6, minsteps=0, minpercent=0,
              serial=True, headless=True, minAfactor=1e9)
    burn = rng.integers(2)
    kw.update(burnGR=1e9 if burn else 0.0, burnAfactor=1e9)
    chains.begin()
    with contextlib.redirect_stdout(io.StringIO()):
        radvel.mcmc(post, **kw)
    chains.end()
    sv = sys.modules["radvel.mcmc"].statevars
    cut = 6 if burn else 0
    parts = [chains.steps(e)[0][cut:12] for e in range(ens)]
    t = case["terms"]["terms"][ens - 1]
    envs = [{"c%d" % (e + 1): parts[e][:, :, j].reshape(-1) for e in range(ens)} for j in range(nd)]
    what = "%d ensembles of %d over %s" % (ens, nw, names)
    ctx.close("largest Gelman-Rubin statistic reported", sv.maxgr,
              max(float(terms.ev(t["gr"], v)) for v in envs), 1e-8, 0, what)
    ctx.close("fewest independent draws reported", sv.mintz,
              min(float(terms.ev(t["tz"], v)) for v in envs) if ens > 1 else -1, 1e-8, 0, what)
    tau = emcee.autocorr.integrated_time(np.concatenate(parts, axis=0), tol=0)
    ctx.close("smallest autocorrelation factor reported", sv.minafactor,
              np.min(6 * (1 if burn else 2) * ens / tau), 1e-8, 0, what)
    old = [chains.steps(e)[0][:6] for e in range(ens)]
    tau0 = emcee.autocorr.integrated_time(np.concatenate(old, axis=0), tol=0)
    ctx.close("largest change of the autocorrelation time reported", sv.maxarchange,
              np.max(np.abs(tau - tau0) / tau0), 1e-8, 1e-12, what)
    ctx.count("real runs")


def run(ctx, case):
    if "lat" in case:
        return lattice(ctx, case)
    if "pat" in case:
        return pattern(ctx, case)
    return real(ctx, case)


def coverage_check(ctx):
    for k in ("lattice sets", "verdict True", "verdict False", "real runs"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C13 never reached %r" % k)
    if ctx.counts.get("patterns that cannot be realised", 0) > 20:
        raise core.MachineryError("too many patterns not realised")
