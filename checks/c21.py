"""C21: summaries.  TLC computes roundings, values with uncertainties, percentile positions and the
unwrapping of angles in exact integer arithmetic over lattices of mantissas, exponents, signs, sizes
and cluster centres; the real functions are compared with every one of them, and the summary of a
sampling run and the rows of the LaTeX tables are checked against the samples they summarise."""
import os
import re

import numpy as np

import core
import fixtures as fx
import setups
import terms

ASSUMPTIONS = ["decimal ties may round either way (the binary value decides)",
               "angles are clusters around one mode, within a turn",
               "a percentile is the order statistic of the specification or the interpolated one"]
CASE_TIMEOUT = 120


def before_import(ctx):
    import matplotlib
    matplotlib.use("Agg")


def after_import(ctx):
    import radvel.plot.mcmc_plots  # noqa: F401 (which the command line imports)


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC21", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS SigFact FigFact PerFact AngFact CmpFact Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    rows = next(r["rows"] for r in res.lines if "rows" in r)
    by = {}
    for r in res.lines:
        if "cfg" in r:
            by.setdefault(r["cfg"]["kind"], []).append(r)
    nid = 0
    for kind, size in (("sig", 400), ("fig", 1500), ("per", 4), ("ang", 30), ("cmp", 200), ("der", 40)):
        rs = by[kind]
        ctx.rng("c21", kind).shuffle(rs)
        for j in range(0, len(rs), size):
            yield {"id": nid, "kind": kind, "rows": rs[j:j + size]}
            nid += 1
    for b in sorted(rows):
        for np_ in (1, 2):
            for rep in range(ctx.pick(5, 60)):
                yield {"id": nid, "kind": "table", "basis": b, "np": np_, "terms": rows[b],
                       "rep": rep}
                nid += 1
    for rep in range(ctx.pick(6, 60)):
        b = sorted(rows)[rep % len(rows)]
        yield {"id": nid, "kind": "summary", "basis": b, "terms": rows[b], "np": 1}
        nid += 1


def run(ctx, case):
    rng = ctx.nprng("c21", case["id"])
    if case["kind"] in ("table", "summary"):
        return {"table": table, "summary": summary}[case["kind"]](ctx, case, rng)
    for r in case["rows"]:
        {"sig": sig, "fig": fig, "per": per, "ang": ang, "cmp": cmp, "der": der}[case["kind"]](ctx, r, rng)


def dec(m, x):
    return float("%de%d" % (m, x))


def among(v, cands):
    return any(float(v) == w or abs(float(v) - w) <= 4e-15 * abs(w) for w in cands)


def sig(ctx, r, rng):
    from radvel import utils
    c = r["cfg"]
    s = -1.0 if c["neg"] else 1.0
    x = s * dec(c["m"], c["x"])
    want = [s * dec(v, c["x"]) for v in r["out"]]
    forms = [x, np.float64(x)]
    if c["x"] >= 0:
        forms.append(int(x))
    for f in forms:
        got = utils.round_sig(f, c["s"])
        ctx.true("significant figures", among(got, want), "round_sig(%r, %d) = %r, specification "
                 "says %s" % (f, c["s"], got, want))
        if c["s"] == 2:
            ctx.eq("default figures", float(utils.round_sig(f)), float(got), "%r" % f)
    ctx.eq("zero", utils.round_sig(0.0, c["s"]), 0.0)


def fig(ctx, r, rng):
    from radvel import utils
    c = r["cfg"]
    s = -1.0 if c["neg"] else 1.0
    med = s * dec(c["m"], -7)
    lo, hi = dec(c["dl"], c["xl"]), dec(c["dh"], c["xl"] + c["dx"])
    want = [s * dec(v, -7) for v in r["out"]]
    for cv in (float, np.float64):
        a, b, d = utils.sigfig(cv(med), cv(lo), cv(hi))
        what = "sigfig(%r, %r, %r) = %r" % (med, lo, hi, (a, b, d))
        ctx.true("value rounded with its uncertainty", among(a, want),
                 "%s, specification says %s" % (what, want))
        ctx.true("uncertainties keep their value", among(b, [lo]) and among(d, [hi]), what)
        digits = [len(str(v).partition(".")[2]) for v in (a, b, d)] if r["nd"] in (0, 1) else None
        if r["nd"] == 0:
            ctx.eq("whole numbers", digits, [0, 0, 0], what)
        if lo == hi:
            ctx.eq("one uncertainty", utils.sigfig(cv(med), cv(lo)), (a, b, d), what)


def per(ctx, r, rng):
    from radvel import utils
    import pandas as pd
    n = r["cfg"]["n"]
    for kind in range(4):
        v = [rng.normal(0, 3, n), np.round(rng.normal(0, 2, n)), 1e6 + rng.exponential(1, n),
             np.sort(rng.uniform(-1, 1, n))[::-1].copy()][kind]
        s = sorted(float(x) for x in v)
        med = (s[(n - 1) // 2] + s[n // 2]) / 2
        lo = [med - s[r["lo"] - 1], med - float(np.percentile(v, 15.9))]
        hi = [s[r["hi"] - 1] - med, float(np.percentile(v, 84.1)) - med]
        for form in ("array", "list", "series"):
            arg = {"array": v.copy(), "list": [float(x) for x in v],
                   "series": pd.Series(v.copy(), index=rng.permutation(n))}[form]
            m, a, b = utils.geterr(arg)
            what = "%s of %d samples" % (form, n)
            ctx.close("median", m, med, 1e-12, 1e-12, what)
            ctx.true("percentiles", min(abs(a - x) for x in lo) < 1e-9 and
                     min(abs(b - x) for x in hi) < 1e-9, "%s got %r %r specification says %s %s" % (
                         what, a, b, lo, hi))
            ctx.true("samples left unchanged", np.array_equal(np.asarray(arg), v), what)


def ang(ctx, r, rng):
    from radvel import utils
    import pandas as pd
    c = r["cfg"]
    n, mid = c["n"], c["centre"]
    off = np.concatenate([rng.uniform(-0.5, 0.5, n - n // 3),
                          rng.uniform(-c["spread"], c["spread"], n // 3)])
    rng.shuffle(off)
    v = np.radians((mid + off + 180) % 360 - 180)
    s = np.sort(np.radians(mid + off))
    med = np.median(s)
    lo = [med - s[int(0.159 * n)], med - np.percentile(s, 15.9)]
    hi = [s[int(0.841 * n)] - med, np.percentile(s, 84.1) - med]
    what = "centre %d spread %d n %d" % (mid, c["spread"], n)
    for form in ("array", "series", "frozen"):
        arg = v.copy()
        if form == "series":
            arg = pd.DataFrame({"w1": v})["w1"]
        if form == "frozen":
            arg.flags.writeable = False
        keep = np.array(arg)
        m, a, b = utils.geterr(arg, angular=True)
        d = (m - med) / (2 * np.pi)
        ctx.true("angles unwrapped about their mode", abs(d - round(d)) < 1e-9,
                 "%s median %r, specification says %r" % (what, m, med))
        ctx.true("percentiles of angles", min(abs(a - x) for x in lo) < 1e-9 and
                 min(abs(b - x) for x in hi) < 1e-9, "%s got %r %r specification says %s %s" % (
                     what, a, b, lo, hi))
        ctx.true("samples left unchanged", np.array_equal(np.asarray(arg), keep), what)
    if abs(mid) + c["spread"] < 90:
        ctx.close("plain angles", utils.geterr(v), utils.geterr(v, angular=True), 1e-12, 1e-12,
                  what)


class Dummy(object):
    """What TexTable needs to know of a report for one table."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def bare(**kw):
    """A table of a report of which only some parts exist."""
    from radvel import report
    kw.setdefault("post", Dummy(params=Dummy(basis=Dummy(name="per tc e w k")), maxparams={}))
    for k in ("quantiles", "minafactor", "maxarchange", "maxgr", "mintz", "chains", "compstats"):
        kw.setdefault(k, None)
    return report.TexTable(Dummy(starname="s", **kw))


VERDICTS = ["AICc Favored Model", "Nearly Indistinguishable", "Somewhat Disfavored", "Strongly Disfavored", "Ruled Out"]


def cmp(ctx, r, rng):
    """The table of compared models: order, differences, and the verdict each model stands under."""
    d = r["cfg"]["d"]
    big = int(rng.integers(0, 30)) == 0          # more models than the table lists: the best are listed
    base = float(rng.integers(-4000, 4000)) / 4
    stats = []
    for i, q in enumerate(d):
        stats.append({"Free Params": (["gamma", "m%d" % i], "free"), "Nfree": (3 + i, "n"), "Ndata": (np.int64(40), "n"),
                      "RMS": (float(rng.uniform(1, 3)), "rms"), "BIC": (float(rng.uniform(0, 900)), "b"),
                      "AICc": (base + q / 4.0, "a")})
    if big:
        for i in range(len(d), len(d) + 55):
            stats.append(dict(stats[0], **{"Free Params": (["gamma", "m%d" % i], "free"), "AICc": (base + 1000.0 + i, "a")}))
    keep = [dict(s) for s in stats]
    if rng.integers(2):
        stats = [{k: [v[0]] for k, v in s.items()} for s in stats]
    tex = bare(compstats=stats).tab_comparison()
    what = "AICc %s" % [q / 4.0 for q in d]
    ctx.eq("statistics left unchanged", [{k: v[0] for k, v in s.items()} for s in stats],
           [{k: v[0] for k, v in s.items()} for s in keep], what)
    head = re.findall(r"\\colhead\{((?:[^{}]|\{[^{}]*\})*)\}", tex)
    body = tex.split("\\startdata")[1].split("\\enddata")[0]
    lines = [re.sub(r"\\hline", "", x).strip() for x in body.split("\\\\")]
    lines = [x for x in lines if "&" in x]
    ctx.eq("models listed", len(lines), min(len(stats), 50), what)
    verdict = None
    for x, w in zip(lines, r["rows"]):
        cells = [y.strip() for y in x.split("&")]
        ctx.eq("columns", len(cells), len(head), "%s: %s" % (what, x))
        if cells[0]:
            verdict = cells[0]
        row = dict(zip(head, cells))
        i = w["model"] - 1
        at = "%s: row %s" % (what, x)
        ctx.true("models in order of AICc", "m%d," % i in row["Free Parameters"], "%s: model %d expected" % (at, i))
        ctx.eq("difference from the favoured model", row["$\\Delta$AICc"], "%.2f" % (w["delta"] / 4.0), at)
        ctx.eq("verdict", verdict, w["verdict"], at)
        ctx.eq("statistics", [row[k] for k in ("Nfree", "Ndata", "RMS", "BIC", "AICc")],
               ["%d" % (3 + i), "40", "%.2f" % keep[i]["RMS"][0], "%.2f" % keep[i]["BIC"][0], "%.2f" % keep[i]["AICc"][0]], at)
    ctx.count("comparison tables")


def der(ctx, r, rng):
    """The table of derived quantities: samples in the unit of the row."""
    import pandas as pd
    from astropy import constants as ac
    c = r["cfg"]
    ns = 157
    cols, tex = {}, {}
    for i in range(1, c["np"] + 1):
        # (planet 2 does not change the unit of planet 1)
        med = c["med"] / 10.0 if i == 1 else float(rng.choice([3.0, 700.0]))
        off = np.append(rng.uniform(0.2, 1, ns // 2), -rng.uniform(0.2, 1, ns // 2))
        cols["mpsini%d" % i] = med * (1 + 10 ** rng.uniform(-3.5, -1.2) * rng.permutation(np.append(off, 0)))
        cols["a%d" % i] = 10 ** rng.uniform(-2, 1) * (1 + 0.01 * rng.normal(0, 1, ns))
        cols["rhop%d" % i] = rng.uniform(1, 9) * (1 + 0.05 * rng.normal(0, 1, ns))
        cols["per%d" % i] = np.full(ns, 10.0)
    if c["gap"] == "missing":
        del cols["rhop1"]
    elif c["gap"] == "nan":
        cols["rhop1"][5] = np.nan
    df = pd.DataFrame(cols, index=rng.permutation(ns) if rng.integers(2) else None)
    lnp = rng.normal(-100, 2, ns) + (103 if c["pos"] else 0)
    df["lnprobability"] = lnp
    best = int(np.argmax(lnp))
    keep = df.copy()
    letters = {1: "b", 2: "c"} if rng.integers(2) else {1: "x", 2: "y"}
    post = Dummy(params=Dummy(basis=Dummy(name="per tc e w k")), maxparams={}, likelihood=Dummy(suffixes=["k", "j"]))
    tab = bare(chains=df, derived=True, latex_dict={}, post=post,
               planet=Dummy(nplanets=c["np"], planet_letters=letters)).tab_derived()
    what = "%s" % c
    ctx.true("samples left unchanged", keep.equals(df), what)
    rows = re.findall(r"^\s*(\S.*?) & \$(.*?)\$ & \$(.*?)\$ & (.*?) \\\\", tab, re.M)
    n = 0
    for i in range(1, c["np"] + 1):
        lab = {"mpsini": "$M_%s\\sin i$", "a": "$a_%s$", "rhop": "$\\rho_%s$"}
        for k in r["rows"][i - 1]:
            jup = (r["unit"] == "jup") if i == 1 else np.median(cols["mpsini2"]) > 100
            f = float(ac.M_earth / ac.M_jup) if k == "mpsini" and jup else 1.0
            unit = {"mpsini": "M$_{\\rm Jup}$" if jup else "M$_{\\oplus}$", "a": "AU", "rhop": "g cm$^{-3}$"}[k]
            got = [x for x in rows if re.sub(r"[{}\s]", "", x[0]) == re.sub(r"[{}\s]", "", lab[k] % letters[i])]
            at = "%s: %s of planet %d" % (what, k, i)
            ctx.eq("a row for every derived quantity", len(got), 1, "%s in %s" % (at, rows))
            ctx.eq("unit", got[0][3].strip(), unit, at)
            v = f * np.asarray(keep["%s%d" % (k, i)])
            med, lo, hi = interval(ctx, got[0][1], v, at)
            ctx.true("printed maximum likelihood", abs(float(got[0][2]) - v[best]) <= 0.5000001 * 10.0 ** -max(
                decimals(lo), decimals(hi)) + 1e-9 * abs(v[best]), "%s printed %r true %r" % (at, got[0][2], v[best]))
            n += 1
    ctx.eq("a row for every derived quantity", len(rows), n, what)
    ctx.count("derived tables")


def interval(ctx, val, v, at):
    """A printed credible interval against the samples; returns its texts."""
    m = re.match(r"^(%s)(?:\\pm (%s)|\^\{\+(%s)\}_\{-(%s)\})$" % (NUM, NUM, NUM, NUM), val)
    ctx.true("row format", m is not None, "%s row %r" % (at, val))
    pm, eh, el = m.group(1), m.group(3) or m.group(2), m.group(4) or m.group(2)
    lo, med, hi = np.quantile(v, [0.159, 0.5, 0.841])
    ctx.true("printed median", abs(float(pm) - med) <= 0.5000001 * 10.0 ** -max(decimals(eh), decimals(el)) +
             1e-9 * abs(med), "%s printed %r true %r" % (at, val, med))
    ctx.true("printed uncertainties", abs(float(eh) - (hi - med)) <= 0.0501 * (hi - med) and
             abs(float(el) - (med - lo)) <= 0.0501 * (med - lo), "%s printed %r true +%r -%r" % (
                 at, val, hi - med, med - lo))
    return pm, el, eh


NUM = r"[-+]?\d[\d.]*(?:e[-+]?\d+)?"


def decimals(text):
    t = text.lstrip("+-")
    mant, _, ex = t.partition("e")
    return max(0, len(mant.partition(".")[2]) - int(ex or 0))


def problem(rng, basis, np_, tb=20.0, noise=1.0, n=14):
    """A setup whose data follow its own orbits."""
    s, env = setups.simple(rng, basis, np_, tb=tb, n=n, regime="small")
    return s, env


def table(ctx, case, rng):
    import pandas as pd
    import radvel
    from radvel import report
    b, np_ = case["basis"], case["np"]
    ns = int(rng.integers(80, 400))
    insts = [("k", "j"), ("k", "k1"), ("apf2", "har_ps"), ("j",)][int(rng.integers(4))]
    s, env = setups.simple(rng, b, np_, tb=float(rng.choice([0.0, 25.0])), regime="mid", n=60, insts=insts)
    env["dvdt"] = 0.02
    spread = {"dvdt": 0.003}
    free = [k for k, _, _, _, _ in s["params"] if k not in ("dvdt", "curv")]
    if rng.integers(2):
        free.append("dvdt")
    fixed_pl = []
    if np_ == 2 and rng.integers(2):
        fixed_pl = ["%s2" % b.split()[0]]
        free = [k for k in free if k not in fixed_pl]
    s["params"] = [(k, env[k], k in free, l, sc) for k, v, _, l, sc in s["params"]]
    hyp = []
    if rng.integers(2):
        # a Gaussian process: some hyperparameters of an instrument's own
        hn = {}
        for t in insts:
            hn[t] = ["gp_amp_" + t, "gp_explength", "gp_per", "gp_perlength"]
        hyp = sorted(set(h for v in hn.values() for h in v))
        for h in hyp:
            env[h] = float(rng.uniform(2, 9))
            s["params"].append((h, env[h], bool(rng.integers(2)), False, None))
        s["hnames"] = hn
    s["priors"] = [{"kind": "gauss", "key": "gamma_" + insts[0], "mu": [1, 4], "sig": [7, 2]},
                   {"kind": "ecc", "n": np_}, {"kind": "bounds", "key": "jit_" + insts[-1], "lo": [-3, 8], "hi": [21, 2]},
                   {"kind": "posk", "n": np_}][:int(rng.integers(5))]
    path = setups.write_setup(os.path.join(ctx.workdir, "sys.py"), s)
    P, post = radvel.utils.initialize_posterior(path)
    cols = {}
    for k in post.name_vary_params():
        width = spread.get(k, 10 ** rng.uniform(-3, -1.3))
        cols[k] = env[k] + width * rng.normal(0, 1, ns)
        if k[:-1] in ("e", "se"):
            cols[k] = np.clip(np.abs(cols[k]), 1e-6, 0.98)
        cols[k][20:30] = cols[k][10:20]           # rejected steps repeat a sample
    chains = pd.DataFrame(cols)
    chains["lnprobability"] = np.round(rng.normal(-100, 2, ns))
    chains.loc[20:29, "lnprobability"] = chains.loc[10:19, "lnprobability"].values
    tenv = dict(env)
    tenv.update(cols)
    truth = {}
    for i in range(1, np_ + 1):
        for k, t in case["terms"][i - 1].items():
            truth["%s%d" % (k, i)] = np.broadcast_to(np.asarray(terms.ev(t, tenv), float), (ns,))
    for k in ["dvdt"] + ["gamma_" + t for t in insts] + ["jit_" + t for t in insts] + hyp:
        truth[k] = np.broadcast_to(np.asarray(tenv[k], float), (ns,))
    maxp = {}
    for k, v in truth.items():
        maxp[k] = float(v[3])
    post.maxparams = maxp
    keep = chains.copy()
    rep = report.RadvelReport(P, post, chains, 40.0, 0.03, 1.01, 1000.0)
    tex = report.TexTable(rep)
    what = "basis %s" % b
    ctx.true("samples left unchanged", np.array_equal(chains[keep.columns].values, keep.values),
             what)
    labels = rep.latex_dict
    params = tex.tab_params()
    ctx.true("number of samples", " %d links saved" % ns in params, "%s: %s" % (what, params[-300:]))
    ctx.true("reference epoch", any(abs(float(x) - s["tb"]) < 1e-9 for x in re.findall(
        r"Reference epoch[^:]*: (%s)" % NUM, params)), "%s: %s" % (what, params[-300:]))
    rows = re.findall(r"^\s*(\S.*?) & \$(.*?)\$ & \$(.*?)\$ & (.*?) \\\\", params, re.M)
    byl = {}
    for lab, val, ml, unit in rows:
        byl.setdefault(lab, []).append((val, ml, unit))
    for k, v in truth.items():
        lab = labels[k]
        ctx.true("a row for every parameter", lab in byl, "%s %s (%s) in %s" % (
            what, k, lab, sorted(byl)))
        for val, ml, unit in byl[lab]:
            if k[:-1] == "w":
                # unwrapped about the circular mean, as angles are
                c0 = np.arctan2(np.mean(np.sin(v)), np.mean(np.cos(v)))
                u = c0 + (v - c0 + np.pi) % (2 * np.pi) - np.pi
                if np.ptp(u) > 2.0 or abs(abs(c0) - np.pi / 2) < 0.3:
                    continue
                q = np.sort(u)
                med = np.median(u)
                lo, hi = med - q[int(.159 * ns)], q[int(.841 * ns)] - med
            else:
                lo, med, hi = np.quantile(v, [0.159, 0.5, 0.841])
                lo, hi = med - lo, hi - med
            m = re.match(r"^(%s)(?:\\pm (%s)|\^\{\+(%s)\}_\{-(%s)\})$" % (NUM, NUM, NUM, NUM), val)
            if min(lo, hi) <= 1e-12:
                ctx.true("fixed parameters", val.startswith(r"\equiv") and abs(float(
                    val[len(r"\equiv"):]) - med) <= 0.5001e-4, "%s %s row %r true %r" % (
                        what, k, val, med))
                continue
            ctx.true("row format", m is not None, "%s %s row %r" % (what, k, val))
            pm = m.group(1)
            eh, el = (m.group(2), m.group(2)) if m.group(2) else (m.group(3), m.group(4))
            d = (float(pm) - med)
            if k[:-1] == "w":
                d -= 2 * np.pi * round(d / (2 * np.pi))
            nd = max(decimals(eh), decimals(el))
            tol = 0.5000001 * 10.0 ** -nd + 1e-9 * abs(med)
            ctx.true("printed median", abs(d) <= tol, "%s %s printed %r true %r" % (
                what, k, val, med))
            ctx.true("printed uncertainties", abs(float(eh) - hi) <= 0.0501 * hi and
                     abs(float(el) - lo) <= 0.0501 * lo, "%s %s printed %r true +%r -%r" % (
                         what, k, val, hi, lo))
            ctx.true("consistent digits", decimals(pm) <= nd, "%s %s printed %r" % (what, k, val))
            ctx.true("printed maximum likelihood", abs(float(ml) - maxp[k]) <= tol,
                     "%s %s printed %r true %r" % (what, k, ml, maxp[k]))
            ctx.count("rows of the parameter table")
    # the priors: every one with its own numbers (a limit per planet for eccentricities)
    body = tex.tab_prior_summary().split("\\startdata")[1].split("\\enddata")[0]
    lines = [x.strip() for x in body.split("\\\\") if x.strip()]
    want = sum({"ecc": np_}.get(p["kind"], 1) for p in s["priors"])
    ctx.eq("a line per prior", len(lines), want, "%s: %s" % (what, lines))
    for p in s["priors"]:
        if p["kind"] in ("gauss", "bounds"):
            v = [fx.rat(p[k]) for k in (("mu", "sig") if p["kind"] == "gauss" else ("lo", "hi"))]
            ctx.true("values of a prior", any(all(any(float(q) == x for q in re.findall(NUM, y)) for x in v) and
                                              p["key"].split("_", 1)[1].replace("_", "") in y.replace("_", "")
                                              for y in lines), "%s: %s in %s" % (what, p, lines))
    # the velocity table: every measurement with its own values
    rv = re.findall(r"^\s*(%s) & (%s) & (%s) & (\S.*?) \\\\" % (NUM, NUM, NUM),
                    tex.tab_rv(max_lines=None), re.M)
    want = sorted(zip(s["data"]["tel"], s["data"]["time"], s["data"]["mnvel"], s["data"]["errvel"]))
    got = sorted((t.replace(r"$_{\rm ", "_").replace("}$", ""), float(a), float(v), float(e)) for a, v, e, t in rv)
    ctx.eq("one line per measurement", len(got), len(want), what)
    for g, w in zip(got, want):
        ctx.true("velocity table", g[0] == w[0] and abs(g[1] - w[1]) < 5.1e-6 and
                 abs(g[2] - w[2]) < 5.1e-3 and abs(g[3] - w[3]) < 5.1e-3, "%s %s %s" % (what, g, w))
    n = len(re.findall(r"^\s*(%s) & (%s) & (%s) & (\S.*?) \\\\" % (NUM, NUM, NUM),
                       tex.tab_rv(max_lines=7), re.M))
    ctx.eq("requested number of lines", n, 7, what)
    crit = dict(re.findall(r"(min\w+|max\w+) & \$\s*(%s)\$" % NUM, tex.tab_crit()))
    ctx.eq("criteria", {k: float(v) for k, v in crit.items()},
           {"minAfactor": 40.0, "maxArchange": 0.03, "maxGR": 1.01, "minTz": 1000.0}, what)


def summary(ctx, case, rng):
    """driver.sampling_postprocessing: medians, uncertainties and best fit after sampling."""
    import pandas as pd
    import radvel
    import radvel.driver
    b = case["basis"]
    s, env = setups.simple(rng, b, 1, tb=25.0, regime="small", n=20)
    for k in ("jit_k", "jit_j"):
        env[k] = 1.0
    t = np.array(s["data"]["time"])
    el = {k: terms.ev(v, env) for k, v in case["terms"][0].items()}
    E = terms.kep_E(2 * np.pi * (t - el["tp"]) / el["per"], el["e"])
    nu = 2 * np.arctan2(np.sqrt(1 + el["e"]) * np.sin(E / 2), np.sqrt(1 - el["e"]) * np.cos(E / 2))
    rv = el["k"] * (np.cos(nu + el["w"]) + el["e"] * np.cos(el["w"])) + env["dvdt"] * (t - 25.0)
    off = np.array([env["gamma_" + i] for i in s["data"]["tel"]])
    s["data"]["mnvel"] = list(rv + off + rng.normal(0, 1, t.size))
    free = [k + "1" for k in b.split()] + ["gamma_k", "gamma_j"]
    if case["id"] % 2:
        free.remove(b.split()[2] + "1")
    s["params"] = [(k, env[k], k in free, l, sc) for k, v, _, l, sc in s["params"]]
    s["priors"] = [{"kind": "ecc", "n": 1}, {"kind": "posk", "n": 1}]
    path = setups.write_setup(os.path.join(ctx.workdir, "sys.py"), s)
    P, post = radvel.utils.initialize_posterior(path)
    ns = 200
    cols = {k: env[k] + 10 ** rng.uniform(-5, -3) * rng.normal(0, 1, ns)
            for k in post.name_vary_params()}
    for k in cols:
        if k[:-1] in ("e", "se"):
            cols[k] = np.abs(cols[k])
    chains = pd.DataFrame(cols)
    chains["lnprobability"] = rng.normal(-100, 2, ns)
    keep = chains.copy()
    before = {k: p.value for k, p in post.params.items()}
    lp0 = post.logprob()
    out, summ, ch = radvel.driver.sampling_postprocessing(post, chains)
    what = "basis %s" % b
    ctx.true("samples left unchanged", keep.equals(chains) and list(ch.columns) ==
             list(keep.columns) and np.array_equal(ch.values, keep.values), what)
    ctx.close("posterior summary", summ[list(keep.columns)].values,
              np.quantile(keep.values, [.159, .5, .841], axis=0), 1e-10, 1e-12, what)
    tenv = dict(env)
    tenv.update(cols)
    true = {k + "1": np.broadcast_to(np.asarray(terms.ev(v, tenv), float), (ns,))
            for k, v in case["terms"][0].items() if k != "tc"}
    true.update({k: np.broadcast_to(np.asarray(tenv[k], float), (ns,)) for k in before})
    for k, v in true.items():
        ctx.true("summarised", k in out.medparams and k in out.uparams, "%s %s" % (what, k))
        lo, med, hi = np.quantile(v, [.159, .5, .841])
        err = (hi - lo) / 2
        got = out.uparams[k]
        if err < 1e-13 * max(1, abs(med)):
            ctx.true("uncertainty of a fixed value", abs(got) < 1e-9, "%s %s %r" % (what, k, got))
            continue
        # (two significant figures, to within rounding of the conversion)
        half = 0.5 * 10.0 ** (np.floor(np.log10(err)) - 1)
        ctx.true("uncertainty", abs(got - err) <= half * 1.0001 + 1e-11 * abs(med),
                 "%s %s got %r true %r" % (what, k, got, err))
        unit = 0.5001 * 10.0 ** -decimals(repr(float(got)))
        ctx.true("median to that precision", abs(out.medparams[k] - med) <= unit +
                 1e-10 * abs(med), "%s %s got %r true %r" % (what, k, out.medparams[k], med))
    # the refit only improves, moves only free parameters, and is reported
    for k, v in before.items():
        if k not in free:
            ctx.eq("fixed parameters", out.params[k].value, v, "%s %s" % (what, k))
    ctx.true("best fit", out.logprob() >= lp0 - 1e-6, "%s %r %r" % (what, out.logprob(), lp0))
    for k in free:
        err = out.uparams[k]
        if k in out.maxparams and err > 0:
            ctx.true("maximum to the precision of its uncertainty",
                     abs(out.maxparams[k] - out.params[k].value) <= 0.5001 * 10.0 ** -decimals(
                         repr(float(err))) + 1e-9 * abs(
                         out.params[k].value), "%s %s %r %r" % (
                             what, k, out.maxparams[k], out.params[k].value))
    ctx.count("summaries")
