"""C20: derived planet properties.  TLC enumerates argument shapes, mass-ratio regimes, units and
exact solutions of Kepler's third law, and runs of the derive step (basis, planets, sampler, fixed
parameters, known radii, scatter of the stellar mass); the functions and the real derive step are
checked against the specification's formulas, the exact masses by putting them back into the
two-body amplitude."""
import argparse
import os

import numpy as np

import core
import setups
import terms

ASSUMPTIONS = ["the light-planet formula is used while it gives at most a tenth of the stellar "
               "mass for every sample (documented approximation); near that boundary either is "
               "accepted", "unequal array lengths are outside the domain"]
CASE_TIMEOUT = 120


def before_import(ctx):
    import matplotlib
    matplotlib.use("Agg")


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC20", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS OwnKeys Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough))
    t = next(r["terms"] for r in res.lines if "terms" in r)
    by = {}
    for r in res.lines:
        if "cfg" in r:
            by.setdefault(r["cfg"]["kind"], []).append(r)
    nid = 0
    for kind, size in (("kep3", 40), ("rho", 120), ("amp", 30), ("derive", 8)):
        rows = by[kind]
        ctx.rng("c20", kind).shuffle(rows)
        for j in range(0, len(rows), size):
            yield {"id": nid, "kind": kind, "rows": rows[j:j + size], "terms": t}
            nid += 1


def consts():
    from astropy import constants as c
    return {"G": c.G.value, "Msun": c.M_sun.value, "Mjup": c.M_jup.value, "au": c.au.value,
            "Mearth": c.M_earth.value, "Rjup": c.R_jup.value, "Rearth": c.R_earth.value}


def run(ctx, case):
    rng = ctx.nprng("c20", case["id"])
    for r in case["rows"]:
        {"kep3": kep3, "rho": rho, "amp": amp, "derive": derive}[case["kind"]](
            ctx, r, case["terms"], rng)


def contain(cont, a, rng):
    import pandas as pd
    if cont == "list":
        return [float(x) for x in a]
    if cont == "series":
        return pd.Series(a, index=rng.permutation(len(a)))
    if cont == "scalars":
        return float(a[0])
    if cont == "numpy0":
        return np.float64(a[0])
    return np.array(a)


def kep3(ctx, r, tm, rng):
    from radvel import utils
    c = r["cfg"]
    p, m = c["p"] * 365.25, float(c["m"])
    got = utils.semi_major_axis(p, m)
    ctx.close("third law (exact)", got, c["a"], 2e-5, 0, "%s" % c)
    got = utils.semi_major_axis(np.array([p, 2 * p, p]), np.array([m, m, 3 * m]))
    for g, pp, mm in zip(got, (p, 2 * p, p), (m, m, 3 * m)):
        want = terms.ev(tm["semi"], dict(consts(), p=pp, ms=mm))
        ctx.close("third law", g, want, 1e-10, 0, "%s" % c)
    import pandas as pd
    got = utils.semi_major_axis(pd.Series([p, 3 * p], index=[4, 2]), m)
    ctx.close("third law", np.asarray(got), [terms.ev(tm["semi"], dict(consts(), p=x, ms=m))
                                             for x in (p, 3 * p)], 1e-10, 0, "series %s" % c)


def rho(ctx, r, tm, rng):
    from radvel import utils
    c, K = r["cfg"], consts()
    um, ur = (K["Mearth"], K["Rearth"]) if c["unit"].lower() == "earth" else (K["Mjup"], K["Rjup"])
    n = 4
    m = np.concatenate([[float(c["m"])], rng.uniform(0.1, 30, n - 1)])
    ra = np.concatenate([[float(c["r"])], rng.uniform(0.2, 5, n - 1)])
    got = utils.density(contain(c["cont"], m, rng), contain(c["cont"], ra, rng), c["unit"])
    size = 1 if c["cont"] in ("scalars", "numpy0") else n
    ctx.eq("samples kept", np.size(got), size, "density %s" % c)
    want = [terms.ev(tm["rho"], {"m": a * um, "r": b * ur}) for a, b in zip(m, ra)][:size]
    ctx.close("density", np.asarray(got, float).reshape(-1), want, 1e-10, 0, "%s" % c)
    ctx.close("density (exact)", np.asarray(got, float).reshape(-1)[0],
              c["m"] / c["r"] ** 3 * (5.4951 if um == K["Mearth"] else 1.2415), 4e-2, 0,
              "relative to the reference planet %s" % c)
    if c["unit"] == "earth":
        ctx.eq("default unit", bool(np.all(utils.density(m, ra) == utils.density(m, ra, "earth"))),
               True)


RATIO = {"tiny": (1e-7, 1e-4), "small": (1e-4, 0.05), "near": (0.085, 0.115), "over": (0.13, 0.6),
         "equal": (0.7, 1.5), "large": (2, 10), "extreme": (10, 1e4)}


def draw(rng, regime, ecc, n, tm):
    """k, p, ms, e of n samples whose two-body mass ratio lies in the regime."""
    K = consts()
    ms = np.exp(rng.uniform(np.log(0.08), np.log(12), n))
    p = np.exp(rng.uniform(np.log(0.3), np.log(2e4), n))
    e = {"zero": np.zeros(n), "mid": rng.uniform(0, 0.6, n),
         "high": rng.uniform(0.6, 0.97, n)}[ecc]
    regs = [regime] * n
    if regime == "mixed":
        regs = ["small"] * n
        regs[int(rng.integers(n))] = "over"
    q = np.array([np.exp(rng.uniform(*np.log(RATIO[g]))) for g in regs])
    k = terms.ev(tm["si"], dict(K, m=q * ms * K["Msun"], ms=ms * K["Msun"], p=p, e=e))
    return {"k": k, "p": p, "m": ms, "e": e}


def amp(ctx, r, tm, rng):
    from radvel import utils
    c, K = r["cfg"], consts()
    n = 1 if c["cont"] in ("scalars", "numpy0") else 5
    v = draw(rng, c["regime"], c["ecc"], n, tm)
    if c["scalar"]:
        # the scalar arguments are those of the first sample; redraw k for its regime
        for a in c["scalar"]:
            v[a] = np.full(n, v[a][0])
        if "k" not in c["scalar"] and c["regime"] != "mixed":
            lo, hi = RATIO[c["regime"]]
            q = np.exp(rng.uniform(np.log(lo), np.log(hi), n))
            v["k"] = terms.ev(tm["si"], dict(K, m=q * v["m"] * K["Msun"], ms=v["m"] * K["Msun"],
                                             p=v["p"], e=v["e"]))
    args = {a: (float(v[a][0]) if a in c["scalar"] else contain(c["cont"], v[a], rng)) for a in v}
    size = 1 if len(c["scalar"]) == 4 or n == 1 else n
    what = "%s %s" % (c, {a: np.asarray(x).tolist() for a, x in args.items()})
    unit = K["Mearth"] if c["unit"].lower() == "earth" else K["Mjup"]
    got = utils.Msini(args["k"], args["p"], args["m"], args["e"], Msini_units=c["unit"])
    ctx.eq("samples kept", np.size(got), size, "Msini " + what)
    got = np.asarray(got, float).reshape(-1)
    light = terms.ev(tm["light"], {"k": v["k"], "p": v["p"], "ms": v["m"], "e": v["e"]})[:size]
    ratio = light * K["Mjup"] / (v["m"][:size] * K["Msun"])
    back = np.asarray(terms.ev(tm["si"], dict(K, m=got * unit, ms=v["m"][:size] * K["Msun"],
                                              p=v["p"][:size], e=v["e"][:size])))
    exact = np.abs(back / v["k"][:size] - 1) < 1e-6
    approx = np.abs(got * unit / K["Mjup"] / light - 1) < 1e-9
    if np.all(ratio < 0.0999):
        ok = approx
    elif np.any(ratio > 0.1001):
        # samples below a tenth may use either; with one above, it is inverted exactly
        ok = np.where(ratio > 0.1001, exact, exact | approx)
    else:
        ok = exact | approx
    ctx.true("mass inverts the amplitude", np.all(ok),
             "%s got %s light %s amplitude of it %s wanted %s" % (what, got, light, back, v["k"]))
    if c["unit"] == "earth":
        d = utils.Msini(args["k"], args["p"], args["m"], args["e"])
        ctx.true("default unit", np.array_equal(np.asarray(d).reshape(-1), got), what)
    # the amplitude formula, forwards
    mt = {a: v[a] for a in v}
    mass = rng.uniform(0.01, 20, n)
    fwd = utils.semi_amplitude(contain(c["cont"], mass, rng), args["p"], args["m"], args["e"],
                               Msini_units=c["unit"])
    want = terms.ev(tm["amp"], {"m": mass * unit / K["Mjup"], "p": mt["p"], "ms": mt["m"],
                                "e": mt["e"]})[:size if size > 1 else n]
    ctx.close("amplitude", np.asarray(fwd, float).reshape(-1), want[:np.size(fwd)], 1e-9, 0, what)
    ctx.eq("samples kept", np.size(fwd), n, "semi_amplitude " + what)
    ctx.count("ratio regime " + c["regime"])


def derive(ctx, r, tm, rng):
    import pandas as pd
    import radvel
    from radvel import driver
    c, K = r["cfg"], consts()
    d = os.path.join(ctx.workdir, "d%d" % ctx.comparisons)
    os.makedirs(d)
    ns = 60 if c["scatter"] == "exact" else 400
    b = c["basis"].split()
    keys = ["%s%d" % (k, i) for i in range(1, c["np"] + 1) for k in b]
    fixed = {"none": [], "planet1": [k + "1" for k in b],
             "shape": ["%s%d" % (k, i) for i in range(1, c["np"] + 1) for k in b[2:4]],
             "period": ["%s%d" % (b[0], i) for i in range(1, c["np"] + 1)]}[c["fixed"]]
    s, env = setups.simple(rng, c["basis"], c["np"],
                           free=[k for k in keys if k not in fixed] + ["gamma_k", "jit_k"])
    heavy = c["regime"] == "heavy"
    mstar, err = (0.3, 0.02) if heavy else (float(rng.uniform(0.5, 2)), 0.03)
    err = 0.0 if c["scatter"] == "exact" else 0.6 * mstar if c["scatter"] == "poor" else err
    s["stellar"] = {"mstar": mstar, "mstar_err": err}
    rocky = {"none": [], "one": [1], "all": [1, 2]}[c["planet"]]
    rp = {i: float(rng.uniform(1, 12)) for i in rocky}
    rperr = {i: 0.0 if err == 0 else 0.05 * rp[i] for i in rocky}
    if rocky:
        s["planet"] = {}
        for i in rocky:
            s["planet"]["rp%d" % i] = rp[i]
            s["planet"]["rp_err%d" % i] = rperr[i]
    setup = setups.write_setup(os.path.join(d, "sys.py"), s)
    _, post = radvel.utils.initialize_posterior(setup)
    pf = os.path.join(d, "sys_post_obj.pkl")
    cols = {}
    for k in keys:
        if k in fixed:
            continue
        base = env[k]
        sc = {"k": 0.2 * base, "logk": 0.2, "per": 0.02 * base, "logper": 0.02}.get(k[:-1], 0.05)
        cols[k] = base + sc * rng.uniform(-1, 1, ns)
        if k[:-1] in ("e", "se"):
            cols[k] = np.clip(np.abs(cols[k]), 0, 0.97)
        if heavy and k[:-1] == "k":
            cols[k] = cols[k] * 1000
        if heavy and k[:-1] == "logk":
            cols[k] = cols[k] + np.log(1000)
    cols["gamma_k"] = rng.normal(0, 1, ns)
    cols["jit_k"] = rng.uniform(0.5, 2, ns)
    order = [k for k in post.name_vary_params() if k in cols]
    chains = pd.DataFrame({k: cols[k] for k in order})
    chains["lnprobability"] = rng.normal(-50, 3, ns)
    cf = os.path.join(d, "sys_chains.csv.bz2")
    chains.to_csv(cf, compression="bz2")
    post.writeto(pf)
    stat = os.path.join(d, "sys_radvel.stat")
    cwd = os.getcwd()
    driver.save_status(stat, "fit", {"run": True, "postfile": os.path.relpath(pf)})
    decoy = None
    if c["both"]:
        other = "ns" if c["sampler"] == "mcmc" else "mcmc"
        decoy = os.path.join(d, "decoy.csv.bz2")
        (chains * 1.7).iloc[:10].to_csv(decoy, compression="bz2")
        dp = os.path.join(d, "decoy.pkl")
        post.writeto(dp)
        driver.save_status(stat, other, {"run": True, "postfile": os.path.relpath(dp),
                                         "chainfile": os.path.relpath(decoy)})
    driver.save_status(stat, c["sampler"], {"run": True, "postfile": os.path.relpath(pf),
                                            "chainfile": os.path.relpath(cf)})
    before = driver.load_status(stat)
    np.random.seed(int(rng.integers(2 ** 31)))
    args = argparse.Namespace(setupfn=setup, outputdir=d, decorr=False,
                              sampler=c["sampler"] if c["ask"] == "named" else "auto")
    driver.derive(args)
    after = driver.load_status(stat)
    what = "%s" % c
    for sec in before.sections():
        ctx.eq("other steps' records", dict(after.items(sec)), dict(before.items(sec)), what)
    ctx.eq("recorded", after.getboolean("derive", "run"), True, what)
    out = pd.read_csv(after.get("derive", "chainfile"), index_col=0)
    ctx.eq("derived columns", sorted(out.columns), sorted(r["cols"]), what)
    ctx.eq("samples kept", list(out.index), list(range(ns)), what)
    tenv = {k: (cols[k] if k in cols else env[k]) for k in keys}
    masses = {}
    for i, el in enumerate(r["elems"], 1):
        P, k, e = [np.broadcast_to(np.asarray(terms.ev(el[x], tenv), float), (ns,))
                   for x in ("per", "k", "e")]
        mp = out["mpsini%d" % i].values
        ms = mp * K["Mearth"] / out["musini%d" % i].values / K["Msun"]
        masses[i] = ms
        back = np.asarray(terms.ev(tm["si"], dict(K, m=mp * K["Mearth"], ms=ms * K["Msun"], p=P,
                                                  e=e)))
        light = terms.ev(tm["light"], {"k": k, "p": P, "ms": ms, "e": e})
        ratio = light * K["Mjup"] / (ms * K["Msun"])
        exact = np.abs(back / k - 1) < 1e-6
        approx = np.abs(mp * K["Mearth"] / K["Mjup"] / light - 1) < 1e-6
        big = bool(np.any(ratio > 0.1))
        ctx.count("derive with corrected masses" if big else "derive with light masses")
        ok = np.where(ratio > 0.1, exact, exact | approx) if big else approx
        ctx.true("mass of every sample", np.all(ok), "planet %d %s worst %r" % (
            i, what, float(np.max(np.abs(back / k - 1)))))
        mt = ms + mp * K["Mearth"] / K["Msun"]
        ctx.close("semi-major axis of every sample", out["a%d" % i].values,
                  terms.ev(tm["semi"], dict(K, p=P, ms=mt)), 1e-6, 0, what)
        if err == 0:
            ctx.close("stellar mass", ms, np.full(ns, mstar), 1e-9, 0, what)
        elif c["scatter"] == "poor":
            # a mass known so badly that some of its distribution is negative: no sample is lost to it
            ctx.true("stellar mass of every sample", np.all(np.isfinite(ms)) and np.all(ms > 0), "%s %s" % (what, np.sort(ms)[:5]))
            ctx.true("stellar mass scatter", abs(ms.mean() - 1.0238 * mstar) < 6 * err / np.sqrt(ns) and
                     0.5 * err < ms.std() < 1.5 * err, "%s mean %r std %r" % (what, ms.mean(), ms.std()))
        else:
            ctx.true("stellar mass scatter", abs(ms.mean() - mstar) < 6 * err / np.sqrt(ns) and
                     0.6 * err < ms.std() < 1.5 * err, "%s mean %r std %r" % (
                         what, ms.mean(), ms.std()))
        if i in rocky:
            rad = (mp * K["Mearth"] / 1000 / out["rhop%d" % i].values / (4 / 3 * np.pi)) ** (1 / 3)
            rad = rad / K["Rearth"]
            if err == 0:
                ctx.close("density of every sample", out["rhop%d" % i].values,
                          terms.ev(tm["rho"], {"m": mp * K["Mearth"], "r": rp[i] * K["Rearth"]}),
                          1e-6, 0, what)
            else:
                ctx.true("radius scatter", abs(rad.mean() - rp[i]) < 6 * rperr[i] / np.sqrt(ns)
                         and 0.6 * rperr[i] < rad.std() < 1.5 * rperr[i],
                         "%s mean %r std %r" % (what, rad.mean(), rad.std()))
    if len(masses) == 2:
        ctx.close("one star for all planets", masses[1], masses[2], 1e-6, 0, what)
    q = pd.read_csv(after.get("derive", "quantfile"), index_col=0)
    ctx.close("quantiles", q[list(out.columns)].values,
              np.quantile(out.values, [0.159, 0.5, 0.841], axis=0), 1e-9, 0, what)
    saved = radvel.posterior.load(pf)
    ctx.close("quantiles saved with the posterior", saved.derived[list(out.columns)].values,
              q[list(out.columns)].values, 1e-9, 0, what)
    again = pd.read_csv(cf, index_col=0)
    ctx.true("chain left unchanged", list(again.columns) == list(chains.columns) and
             np.allclose(again.values, chains.values, rtol=1e-12, atol=0), what)
    ctx.eq("directory", os.getcwd(), cwd, what)
