"""C24: figures and drawn models.  TLC enumerates posteriors and figure options (two at a time),
sample figures and draws, and emits for every panel the terms of its points, error bars, curves and
bands; the harness draws the real figure off screen and reads the artists of every panel back."""
import copy
import re

import numpy as np

import core
import fixtures as fx
import terms

MJUP = 5.972167867791379e24 / 1.8981245973360505e27      # Earth masses in Jupiter masses (IAU 2015, CODATA 2018)
ASSUMPTIONS = ["figures are read through matplotlib's artists (off-screen backend), not pixels",
               "tick positions, fonts and sizes are not specified",
               "panels of single instruments are compared for that instrument's points"]
RECORD = {"corner": [], "pages": []}


def before_import(ctx):
    import matplotlib
    matplotlib.use("Agg")
    import corner
    from matplotlib import pyplot as pl
    from matplotlib.backends.backend_pdf import PdfPages

    def fake(data, *args, **kw):
        RECORD["corner"].append((data, args, kw))
        return pl.figure(figsize=(1, 1))
    corner.corner = fake

    def page(self, figure=None, **kw):
        f = figure if hasattr(figure, "axes") else pl.gcf()
        RECORD["pages"].append([(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float))
                                for a in f.axes for l in a.lines] and
                               {"lines": [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float))
                                          for a in f.axes for l in a.lines],
                                "label": f.axes[0].get_ylabel(), "xlim": f.axes[0].get_xlim()})
    PdfPages.savefig = page


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC24", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS ResidFree OnePlanet Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), timeout=3000)
    models = {(r["basis"], r["np"]): r["model"] for r in res.lines if r["kind"] == "term"}
    bt = [r for r in res.lines if r["kind"] == "binterms"][0]
    n = 0
    for r in res.lines:
        if r["kind"] in ("term", "binterms"):
            continue
        r["id"] = n
        n += 1
        if r["kind"] == "draw":
            r["model"] = models[r["cfg"]["basis"], r["cfg"]["np"]]
        if r["kind"] == "figure":
            r["bt"] = bt
        yield r


def run(ctx, case):
    from matplotlib import pyplot as pl
    try:
        {"figure": figure, "trend": trend, "corner": corner_fig, "derived": derived, "auto": auto,
         "draw": draw}[case["kind"]](ctx, case)
    finally:
        pl.close("all")
    ctx.count(case["kind"])


def ev(t, env):
    return np.atleast_1d(terms.ev(t, env))


# ---------------------------------------------------------------- figures of a posterior
def rows(*cols):
    """The points of a series, in a canonical order."""
    a = np.array([np.asarray(c, dtype=float) for c in cols])
    return a[:, np.lexsort(np.round(a[::-1], 7))]


def series(ax):
    """The error-bar series of a panel: label, x, y, half-length of the bars, colour, marker."""
    out = []
    for c in ax.containers:
        line, caps, bars = c.lines
        seg = bars[0].get_segments()
        half = np.array([(s[1][1] - s[0][1]) / 2 for s in seg])
        mid = np.array([(s[1][1] + s[0][1]) / 2 for s in seg])
        out.append({"label": c.get_label(), "x": np.array(line.get_xdata(), dtype=float),
                    "y": np.array(line.get_ydata(), dtype=float), "e": half, "mid": mid,
                    "color": line.get_color(), "marker": line.get_marker(), "line": line})
    return out


def curves(ax):
    """Drawn curves (not points): x, y."""
    taken = {id(c.lines[0]) for c in ax.containers}
    return [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float))
            for l in ax.lines if id(l) not in taken and l.get_linestyle() not in ("None", "", " ")
            and len(l.get_xdata()) > 20 and l.get_visible()]


def highlights(ax):
    taken = {id(c.lines[0]) for c in ax.containers}
    return [(float(np.ravel(l.get_xdata())[0]), float(np.ravel(l.get_ydata())[0])) for l in ax.lines
            if id(l) not in taken and np.size(l.get_xdata()) == 1 and l.get_marker() not in ("None", None)]


def texts(ax):
    """Anchored texts of a panel (drawn in the panel or in an axis sharing its place)."""
    from matplotlib.offsetbox import AnchoredText
    same = [b for b in ax.figure.axes if b.get_position().bounds == ax.get_position().bounds]
    return [a.txt.get_text() for b in same for a in b.artists if isinstance(a, AnchoredText)]


def cmp_series(ctx, name, got, x, y, e, tol, what):
    ctx.eq(name + ": number of points", len(got["x"]), len(x), what)
    if len(got["x"]) != len(x):
        return
    g, w = rows(got["x"], got["y"], got["e"]), rows(x, y, e)
    ctx.close(name + ": where", g[0], w[0], 1e-9, 1e-6, what)
    ctx.close(name + ": points", g[1], w[1], 1e-7, tol, what)
    ctx.close(name + ": error bars", g[2], w[2], 1e-7, 1e-6, what)
    ctx.close(name + ": bars centred", rows(got["x"], got["mid"])[1], rows(got["x"], got["y"])[1], 1e-9, 1e-7, what)


def sample(x, n=150):
    return np.unique(np.linspace(0, len(x) - 1, n).astype(int))


def make_fmts(f, case, rng):
    """The caller's formats, the labels, colours and markers they ask for."""
    names, labels = case["names"], dict(zip(case["names"], case["labels"]))
    fmts, color, marker = {}, {}, {}
    pick = [n for i, n in enumerate(names) if i % 2 == 0 or len(names) == 1]
    if f["fmts"] == "none":
        return {}, labels, color, marker
    for i, n in enumerate(pick):
        fmt = {"fmt": "sd^p"[i % 4], "label": "Tel %s!" % n, "color": ["teal", "navy", "crimson"][i % 3]}
        if f["fmts"] == "nocolor":
            del fmt["color"]
        if f["fmts"] == "nolabel":
            del fmt["label"]
        fmts[n] = fmt
        labels[n] = fmt.get("label", labels[n])
        marker[n] = fmt["fmt"]
        if "color" in fmt:
            color[n] = fmt["color"]
    return fmts, labels, color, marker


def figure(ctx, case):
    import os
    import pandas as pd
    import radvel
    from radvel.plot import orbit_plots
    cfg, f = case["cfg"], case["f"]
    rng = ctx.nprng("c24", case["id"])
    data = fx.data_env(cfg, rng)
    env = fx.value_env(cfg, rng, data)
    what = "%s of %r planets %d %s; %s" % (
        f["cls"], [(i["suf"], i["kind"], i["n"]) for i in cfg["insts"]], cfg["np"], cfg["basis"],
        {k: v for k, v in sorted(f.items()) if v not in (False, "none", "std") and k != "cls"})
    post = radvel.posterior.Posterior(fx.make_like(cfg, env))
    like = post.likelihood
    parts = getattr(like, "like_list", [like])
    fmts, labels, color, marker = make_fmts(f, case, rng)
    fmts0 = copy.deepcopy(fmts)
    if f["epoch"] == "zero" and cfg["tb"] != "jd":
        f["epoch"] = "std"
    epoch = {"std": 2450000, "half": 2455000.5, "zero": 0}[f["epoch"]]
    allx = np.concatenate([env["x:" + i["suf"]] for i in cfg["insts"]])
    ask, epoch = epoch, epoch or 2450000            # none: the usual one
    raw = bool(((allx - epoch) < -2.4e6).any())
    off = 0.0 if raw else epoch
    kw = dict(epoch=ask, telfmts=fmts, legend=f["legend"], nobin=f["nobin"], yscale_sigma=f["ysig"] / 10,
              yscale_auto=f["yauto"], phase_ncols=f["ncols"])
    win = None
    if f["xlim"]:
        lo, hi = allx.min() - off, allx.max() - off
        win = [lo + 0.2 * (hi - lo), lo + 0.7 * (hi - lo)]
        if raw:
            win = [w for w in win]
        kw["set_xlim"] = list(win)
    if f["plim"]:
        kw["phase_limits"] = [-0.3, 0.4]
    if f["save"]:
        kw["saveplot"] = os.path.join(ctx.workdir, "figure.png")
    unc(ctx, case, f, env, post, kw, rng)
    if f["cls"] == "gp":
        kw.update(subtract_gp_mean_model=f["sgp"], subtract_orbit_model=f["sorb"],
                  plot_likelihoods_separately=f["sep"], separate_orbit_gp=f["sepog"])
        cls, call = orbit_plots.GPMultipanelPlot, {"nophase": f["nophase"]}
    else:
        kw.update(highlight_last=f["hl"], show_rms=f["rms"])
        cls, call = orbit_plots.MultipanelPlot, {"nophase": f["nophase"], "letter_labels": f["letters"]}
    before = state(post)
    plot = cls(post, **kw)
    ret = plot.plot_multipanel(**call)
    ctx.eq("the posterior is left as it was", state(post), before, what)
    ctx.eq("the caller's formats are left as they were", fmts, fmts0, what)
    ctx.true("figure and panels returned", isinstance(ret, tuple) and len(ret) == 2, what)
    fig, axs = ret
    ctx.eq("number of panels", len(axs), case["panels"], what)
    ctx.true("panels belong to the figure", all(a in fig.axes for a in axs), what)
    if f["save"]:
        ctx.true("figure saved", os.path.exists(kw["saveplot"]) and os.path.getsize(kw["saveplot"]) > 1000, what)
    S = Shown(ctx, case, cfg, f, env, parts, off, raw, epoch, win, labels, color, marker, what)
    ndata = case["panels"] - 1 - (0 if f["nophase"] else cfg["np"])
    for i in range(ndata):
        S.data_panel(axs[i], i if (f["cls"] == "gp" and f["sep"]) else None, i == 0, fig)
    S.resid_panel(axs[ndata])
    if not f["nophase"]:
        for p in range(cfg["np"]):
            S.phase_panel(axs[ndata + 1 + p], p, post, kw)
    for i, a in enumerate(axs):
        want = [] if (i < ndata + 1 and f["cls"] == "orbit" and not f["letters"]) else None
        lets = [t for t in texts(a) if re.fullmatch(r".\)", t)]
        if want is None:
            ctx.eq("one letter per panel", len(lets), 1, what)
        else:
            ctx.eq("no letters", lets, want, what)
    if f["letters"]:
        ctx.eq("letters in order", [t for a in axs for t in texts(a) if re.fullmatch(r".\)", t)],
               ["%s)" % chr(ord("a") + i) for i in range(len(axs))], what)
    # drawing the same figure again shows the same
    if case["id"] % 3 == 0:
        ret2 = cls(post, **kw).plot_multipanel(**call)
        for a, b in zip(axs, ret2[1]):
            for s, t in zip(series(a), series(b)):
                ctx.close("the same figure again", t["y"], s["y"], 0, 1e-9, what)
    ctx.count("figures " + f["cls"])


def state(post):
    v = post.likelihood.vector.vector
    return repr([(k, p.value, p.vary, p.linear) for k, p in post.params.items()]) + repr(v.tolist()) + repr(
        sorted(k for k in post.__dict__ if k in ("medparams", "uparams", "derived", "maxparams")))


def unc(ctx, case, f, env, post, kw, rng):
    """Uncertainties for the captions."""
    import configparser
    import os
    import pandas as pd
    if f["unc"] == "none":
        return
    cfg = case["cfg"]
    up, med = {}, {}
    for p, ph in enumerate(case["phase"], 1):
        for k in ("per", "k", "e"):
            v = float(terms.ev(ph["caption"][k], env))
            up["%s%d" % (k, p)] = 1e-20 if f["unc"] == "fixed" and k != "k" else float(abs(v) * rng.uniform(0.001, 0.2) + 1e-4)
            med["%s%d" % (k, p)] = v * float(rng.uniform(0.8, 1.2))
    case["up"], case["med"], case["mass"] = up, None, {}
    kw["uparams"] = up
    if f["unc"] == "med":
        post.medparams = med
        case["med"] = med
    if f["unc"] == "mass" and cfg["np"]:
        cols, scale = {}, {}
        for p in range(1, cfg["np"] + 1):
            m = float(np.exp(rng.uniform(0, np.log(60)))) * (10 if p % 2 else 1)
            cols["mpsini%d" % p] = m * (1 + 0.1 * rng.normal(size=400))
        chains = pd.DataFrame(cols)
        post.derived = chains.quantile([0.159, 0.5, 0.841])
        status = case["id"] % 2 == 0
        if status:
            path = os.path.join(ctx.workdir, "derived.csv")
            chains.to_csv(path, index=False)
            st = configparser.ConfigParser()
            st["derive"] = {"chainfile": path, "run": "True"}
            kw["status"] = st
        else:
            for k in cols:
                q = post.derived[k]
                up[k] = float(np.mean([q[0.841] - q[0.5], q[0.5] - q[0.159]]))
        for p in range(1, cfg["np"] + 1):
            q = post.derived["mpsini%d" % p]
            jup = status and np.median(cols["mpsini%d" % p]) > 100
            s = MJUP if jup else 1.0
            case["mass"][p] = (q[0.5] * s, np.mean([q[0.841] - q[0.5], q[0.5] - q[0.159]]) * s,
                               "Jup" if jup else "oplus" if status else None)


class Shown:
    def __init__(self, ctx, case, cfg, f, env, parts, off, raw, epoch, win, labels, color, marker, what):
        self.__dict__.update(locals())
        self.n = len(cfg["insts"])
        self.x = [env["x:" + i["suf"]] for i in cfg["insts"]]
        self.data = [ev(t, env) for t in case["data"]]
        self.resid = [ev(t, env) for t in case["resid"]]
        self.err = [ev(t, env) for t in case["err"]]
        self.allx = np.concatenate(self.x)

    def by_name(self, ax, rms=None):
        """The series of a panel by instrument."""
        ss = series(ax)
        out, used = {}, set()
        for i, n in enumerate(self.case["names"]):
            lab = self.labels[n]
            cand = [j for j, s in enumerate(ss) if j not in used and str(s["label"]).split("\n")[0] == lab]
            self.ctx.true("a series for every instrument", len(cand) >= 1, "%s %s" % (self.what, lab))
            if cand:
                out[n] = ss[cand[0]]
                used.add(cand[0])
        self.ctx.eq("no two instruments share a label", len(set(self.labels[n] for n in self.case["names"])) == self.n,
                    True, self.what)
        return out, [s for j, s in enumerate(ss) if j not in used]

    def formats(self, got):
        from matplotlib.colors import to_rgba
        cols = {}
        for i, n in enumerate(self.case["names"]):
            if n not in got:
                continue
            s = got[n]
            if n in self.color:
                self.ctx.eq("the caller's colour", to_rgba(s["color"]), to_rgba(self.color[n]), self.what)
            elif not self.case["known"][i]:
                cols[n] = to_rgba(s["color"])
            if n in self.marker:
                self.ctx.eq("the caller's marker", s["marker"], self.marker[n], self.what)
        if len(cols) <= 9:
            self.ctx.eq("unknown instruments have their own colours", len(set(cols.values())), len(cols), self.what)

    def limits(self, ax, scale, name, exact=False):
        if self.f["yauto"]:
            ys = ax.dataLim
            return
        s = self.f["ysig"] / 10 * scale
        lo, hi = ax.get_ylim()
        tol = 1e-6 * s + 1e-9
        self.ctx.true(name + ": limits", lo <= -s + tol and hi >= s - tol and
                      (not exact or (abs(lo + s) <= tol and abs(hi - s) <= tol)) and
                      lo >= -3 * s - 1e-9 and hi <= 3 * s + 1e-9, "%s: %r, scatter %r" % (self.what, (lo, hi), s))

    def xlimits(self, ax, name):
        lo, hi = ax.get_xlim()
        a, b = self.allx.min() - self.off, self.allx.max() - self.off
        if self.win:
            self.ctx.close(name + ": requested limits", [lo, hi], self.win, 1e-12, 1e-9, self.what)
        else:
            self.ctx.true(name + ": shows all data", lo <= a and hi >= b and hi - lo <= 1.2 * (b - a) + 1e-9, self.what)

    def years(self, ax, fig):
        """The calendar year above the first panel."""
        tw = [b for b in fig.axes if b is not ax and b.get_position().bounds == ax.get_position().bounds]
        self.ctx.true("calendar axis", len(tw) >= 1, self.what)
        if tw and not self.raw or tw:
            got = tw[0].get_xlim()
            want = [2000 + (v + self.epoch - 2451545.0) / 365.25 for v in ax.get_xlim()]
            self.ctx.close("calendar years", got, want, 0, 0.012, self.what)
            self.ctx.true("nothing is plotted against the year",
                          all(np.size(l.get_xdata()) == 0 for l in tw[0].lines), self.what)

    def data_panel(self, ax, only, first, fig):
        ctx, f, case, what = self.ctx, self.f, self.case, self.what
        got, rest = self.by_name(ax)
        ctx.eq("data: nothing else", [s["label"] for s in rest], [], what)
        for i, n in enumerate(case["names"]):
            if n in got and only in (None, i):
                cmp_series(ctx, "data", got[n], self.x[i] - self.off, self.data[i], self.err[i], 1e-5, "%s %s" % (what, n))
            elif n in got:
                ctx.eq("data: number of points", len(got[n]["x"]), len(self.x[i]), what)
        self.formats(got)
        self.xlimits(ax, "data")
        if only is None:
            self.limits(ax, np.std(np.concatenate(self.data)), "data")
        if first:
            self.years(ax, fig)
        # curves
        cs = curves(ax)
        members = [only] if only is not None else range(self.n)
        span = (self.allx.min(), self.allx.max())
        if self.win:
            span = tuple(w + self.off for w in self.win)
        shown = set()
        for i in members:
            gp = case["band"][i]
            own = (self.x[i].min(), self.x[i].max()) if gp and not self.win else span
            for t in case["curves"][i]:
                ok = False
                for j, (cx, cy) in enumerate(cs):
                    ts = cx + self.off
                    k = sample(ts, 60 if gp else 150)
                    want = np.broadcast_to(ev(t, dict(self.env, t=ts[k])), k.shape)
                    if len(cx) == len(cy) and ts.min() <= own[0] + 1e-6 and ts.max() >= own[1] - 1e-6 and \
                            np.all(np.diff(cx) >= 0) and np.allclose(cy[k], want, rtol=1e-6, atol=1e-4):
                        ok = True
                        shown.add(j)
                ctx.true("data: curve", ok, "%s instrument %s, term %d of %d" % (
                    what, case["names"][i], case["curves"][i].index(t), len(case["curves"][i])))
        ctx.eq("data: only the specified curves", len(cs), len(shown), what)
        # bands
        bands = [c for c in ax.collections if hasattr(c, "get_paths") and len(c.get_paths()) == 1 and
                 len(c.get_paths()[0].vertices) > 200]
        ctx.eq("data: bands", len(bands), sum(bool(case["band"][i]) for i in members), what)
        for i in members:
            if not case["band"][i]:
                continue
            ok = False
            for b in bands:
                v = b.get_paths()[0].vertices
                k = sample(v, 120)
                ts = v[k, 0] + self.off
                mid = ev(case["curves"][i][0], dict(self.env, t=ts))
                var = np.maximum(ev(case["std"][i], dict(self.env, t=ts)), 0)
                dist = v[k, 1] - mid
                own = (self.x[i].min(), self.x[i].max()) if not self.win else span
                if np.allclose(dist ** 2, var, rtol=1e-5, atol=1e-4) and (v[:, 0] + self.off).min() <= own[0] + 1e-6 and (v[:, 0] + self.off).max() >= own[1] - 1e-6 \
                        and (dist > -1e-3).sum() >= 0.4 * len(k) and (dist < 1e-3).sum() >= 0.4 * len(k):
                    ok = True
            ctx.true("data: band of one standard deviation", ok, "%s %s" % (what, case["names"][i]))
            ctx.count("bands")
        self.legend(ax, first)
        self.last(ax, self.allx - self.off, np.concatenate(self.data), "data")

    def legend(self, ax, first):
        lg = ax.get_legend()
        if not self.f["legend"]:
            return self.ctx.true("no legend", lg is None, self.what)
        if not first:
            return
        self.ctx.true("legend", lg is not None, self.what)
        if lg is None:
            return
        got = [t.get_text() for t in lg.get_texts()]
        for i, n in enumerate(self.case["names"]):
            mine = [g for g in got if g.split("\n")[0] == self.labels[n]]
            self.ctx.eq("legend: one entry per instrument", len(mine), 1, "%s %s: %r" % (self.what, n, got))
            if mine and self.f["rms"]:
                m = re.search(r"RMS=([-\d.]+)", mine[0])
                self.ctx.true("legend: scatter of each instrument", m is not None and
                              abs(float(m.group(1)) - np.std(self.resid[i])) < 0.0051, "%s %s: %r, %r" % (
                                  self.what, n, mine, np.std(self.resid[i])))
                self.ctx.count("scatter shown")
            elif mine:
                self.ctx.eq("legend: no scatter unless asked", "RMS" in mine[0], False, self.what)

    def last(self, ax, x, y, name):
        h = highlights(ax)
        if not (self.f["hl"] and self.f["cls"] == "orbit"):
            return self.ctx.eq(name + ": nothing highlighted", len(h), 0, self.what)
        k = int(np.argmax(self.allx))
        self.ctx.eq(name + ": one point highlighted", len(h), 1, self.what)
        if h:
            self.ctx.close(name + ": the last measurement is highlighted", list(h[0]), [x[k], y[k]], 1e-9, 1e-5, self.what)
        self.ctx.count("highlighted")

    def resid_panel(self, ax):
        ctx, case, what = self.ctx, self.case, self.what
        got, rest = self.by_name(ax)
        ctx.eq("residuals: nothing else", [s["label"] for s in rest], [], what)
        for i, n in enumerate(case["names"]):
            if n in got:
                cmp_series(ctx, "residuals", got[n], self.x[i] - self.off, self.resid[i], self.err[i], 1e-5, "%s %s" % (what, n))
        self.formats(got)
        self.xlimits(ax, "residuals")
        self.limits(ax, np.std(np.concatenate(self.resid)), "residuals")
        for cx, cy in curves(ax):
            ctx.close("residuals: the curve is zero", cy, np.zeros(len(cy)), 0, 1e-9, what)
        ctx.eq("residuals: label of the times", ax.get_xlabel(), "JD - %d" % int(np.round(self.epoch)), what)
        self.last(ax, self.allx - self.off, np.concatenate(self.resid), "residuals")

    def phase_panel(self, ax, p, post, kw):
        ctx, case, env, f = self.ctx, self.case, self.env, self.f
        what = "%s planet %d" % (self.what, p + 1)
        ph = case["phase"][p]
        ys = [ev(t, env) for t in ph["points"]]
        phs = [ev(t, env) for t in ph["when_of"]]
        if min(np.min(np.minimum(v, 1 - v)) for v in phs) < 1e-7:
            return ctx.count("on the edge of a period")
        got, rest = self.by_name(ax)
        for i, n in enumerate(case["names"]):
            if n in got:
                two = np.concatenate((phs[i] - 1, phs[i]))
                cmp_series(ctx, "phase", got[n], two, np.tile(ys[i], 2), np.tile(self.err[i], 2), 1e-5, "%s %s" % (what, n))
        self.formats(got)
        ally = np.concatenate(ys)
        self.limits(ax, np.std(ally), "phase", exact=p + 1 == len(case["phase"]))
        ctx.close("phase: limits", ax.get_xlim(), [-0.3, 0.4] if f["plim"] else [-0.5, 0.5], 1e-12, 1e-12, what)
        # the curve of this planet alone
        cs = curves(ax)
        ctx.eq("phase: one curve", len(cs), 1, what)
        for cx, cy in cs[:1]:
            k = sample(cx, 300)
            want = ev(ph["curve"], dict(env, ph=cx[k]))
            ctx.close("phase: curve", cy[k], np.broadcast_to(want, k.shape), 1e-6, 1e-4, what)
            ctx.true("phase: the curve covers the panel", cx.min() <= -0.5 and cx.max() >= 0.5 and
                     np.all(np.diff(cx) >= 0) and len(cx) >= 500, what)
        # binned points
        allp = np.concatenate(phs)
        if case["binned"]:
            two = np.concatenate((allp, allp + 1))
            dy = np.tile(ally, 2)
            lo, hi = two.min(), two.max()
            edge = (two - lo) / (hi - lo) * 25
            inner = edge[(edge > 0.5) & (edge < 24.5)]
            if np.min(np.abs(inner - np.round(inner))) < 1e-6:
                return ctx.count("on the edge of a bin")
            b = ev(case["bin"], dict(env, ph=two, lo=lo, hi=hi))
            want = []
            for j in range(25):
                m = b == j
                if m.sum() >= 3:
                    e2 = {"y": dy[m]}
                    want.append((lo + (j + 0.5) * (hi - lo) / 25 - 1, float(terms.ev(case["bt"]["mean"], e2)),
                                 float(terms.ev(case["bt"]["err"], e2))))
            ctx.eq("phase: binned points", len(rest), 1, what)
            if rest:
                w = np.array(want).reshape(-1, 3).T
                cmp_series(ctx, "phase: bins", rest[0], w[0], w[1], w[2], 1e-5, what)
            ctx.count("binned")
        else:
            ctx.eq("phase: no binned points", len(rest), 0, what)
            ctx.count("not binned")
        h = ph["when_of"] and allp
        hp = np.where(allp > 0.5, allp - 1, allp)
        self.last(ax, hp, ally, "phase")
        self.caption(ax, p, what)

    def caption(self, ax, p, what):
        ctx, case, env = self.ctx, self.case, self.env
        t = [t for t in texts(ax) if not re.fullmatch(r".\)", t)]
        ctx.eq("phase: one caption", len(t), 1, what)
        if not t:
            return
        lines = t[0].split("\n")
        mass = case.get("mass", {}).get(p + 1)
        ctx.eq("caption: lines", len(lines), 4 if mass else 3, "%s: %r" % (what, lines))
        for k, line in zip(("per", "k", "e"), lines):
            best = float(terms.ev(case["phase"][p]["caption"][k], env))
            key = "%s%d" % (k, p + 1)
            up = case.get("up", {}).get(key)
            val = case["med"][key] if case.get("med") else best
            unit = {"per": "days", "k": "m s", "e": ""}[k]
            number(ctx, "caption: " + k, line, val, up if up and up > 1e-15 else None, unit, what)
        if mass:
            number(ctx, "caption: mass", lines[3], mass[0], mass[1], mass[2] or "", what)
            ctx.count("mass in the caption")


def number(ctx, name, line, val, err, unit, what):
    """A printed value (and its uncertainty) agrees with the value to the digits it shows."""
    right = line.split(" = ", 1)[1] if " = " in line else ""
    toks = right.split(" ")
    lab = "%s: %r for %r +/- %r" % (what, line, val, err)
    try:
        shown = float(toks[0])
    except (ValueError, IndexError):
        return ctx.true(name, False, lab)
    ctx.true(name, abs(shown - val) <= half_unit(toks[0], err) * 1.001 + 1e-9 * abs(val), lab)
    if err is None:
        ctx.true(name + " has no uncertainty", "pm" not in right, lab)
        ctx.true(name + " to two decimals", re.fullmatch(r"-?\d+\.\d\d", toks[0]) is not None, lab)
    else:
        pm = [i for i, t in enumerate(toks) if "pm" in t]
        ctx.true(name + " has an uncertainty", len(pm) == 1 and len(toks) > pm[0] + 1, lab)
        if pm and len(toks) > pm[0] + 1:
            e = float(toks[pm[0] + 1])
            ctx.true(name + " uncertainty", abs(e - err) <= max(half_unit(toks[pm[0] + 1], err), 0.0) * 1.001 + 1e-9, lab)
    ctx.true(name + " unit", unit in right, lab)


def half_unit(s, err):
    """Half a unit of the last digit shown; numbers written without decimals may be rounded further left."""
    s = s.lower()
    m, _, e = s.partition("e")
    dec = len(m.split(".")[1]) if "." in m else 0
    if "." in m and m.split(".")[1] == "0":
        dec = 0
    h = 0.5 * 10.0 ** (-dec + (int(e) if e else 0))
    if dec == 0 and err is not None:
        h = max(h, 0.5 * 10.0 ** (np.floor(np.log10(err)) - 1))
    return h


# ---------------------------------------------------------------- figures of samples
def sampled(ctx, cfg, rng, nrows):
    """A posterior and a table of samples of its free parameters."""
    import pandas as pd
    import radvel
    c = {"np": cfg["np"], "basis": cfg["basis"], "trend": ["dvdt", "curv"], "tb": "mid", "ecc": ["mid"],
         "decl": "first", "insts": [{"suf": "_j", "n": 8, "order": "random"}, {"suf": "_k", "n": 6, "order": "random"}]}
    keys = fx.planet_keys(c) + c["trend"] + fx.like_keys(c)
    free = [k for k in keys if cfg["free"] == "all" or rng.uniform() < 0.6] or keys[:1]
    c["free"] = free
    env = fx.value_env(c, rng, fx.data_env(c, rng))
    post = radvel.posterior.Posterior(fx.make_like(c, env))
    cols = {}
    for k in free:
        cols[k] = env[k] + abs(env[k]) * 1e-3 * rng.normal(size=nrows) if nrows else []
    names = list(cols)
    rng.shuffle(names)
    df = pd.DataFrame({k: cols[k] for k in names})
    df["lnprobability"] = rng.normal(size=nrows)
    return c, env, post, df, free


def trend(ctx, case):
    import os
    from radvel.plot import mcmc_plots
    cfg = case["cfg"]
    rng = ctx.nprng("c24t", case["id"])
    W, E, S = cfg["walkers"], cfg["ens"], cfg["steps"]
    c, env, post, df, free = sampled(ctx, cfg, rng, W * E * S)
    keep = df.copy()
    RECORD["pages"].clear()
    out = os.path.join(ctx.workdir, "trend.pdf")
    mcmc_plots.TrendPlot(post, df, W, E, out).plot()
    pages = list(RECORD["pages"])
    what = "trend of %r" % cfg
    ctx.eq("one page per free parameter", len(pages), len(free), what)
    tex = post.params.tex_labels()
    ctx.eq("pages are labelled", sorted(p["label"] for p in pages), sorted(tex.get(k, k) for k in free), what)
    for k in free:
        for p in [p for p in pages if p["label"] == tex.get(k, k)]:
            want = {tuple(df[k].values[(w * E + e) * S:(w * E + e + 1) * S]) for w in range(W) for e in range(E)}
            ctx.eq("every walker of every ensemble", {tuple(y) for x, y in p["lines"]} == want and len(p["lines"]) == W * E,
                   True, "%s %s" % (what, k))
            ctx.true("against its step", all(np.array_equal(x, np.arange(S)) for x, y in p["lines"]), what)
            ctx.true("all steps are shown", p["xlim"][0] <= 0 and p["xlim"][1] >= S - 1, what)
    ctx.true("the samples are left as they were", df.equals(keep), what)


def corner_fig(ctx, case):
    import os
    from radvel.plot import mcmc_plots
    cfg = case["cfg"]
    rng = ctx.nprng("c24c", case["id"])
    c, env, post, df, free = sampled(ctx, cfg, rng, 30)
    keep = df.copy()
    RECORD["corner"].clear()
    out = os.path.join(ctx.workdir, "corner.png") if cfg["save"] else None
    mcmc_plots.CornerPlot(post, df, saveplot=out).plot()
    what = "corner of %r" % cfg
    ctx.eq("one corner figure", len(RECORD["corner"]), 1, what)
    data, args, kw = RECORD["corner"][0]
    tex = post.params.tex_labels()
    match_columns(ctx, data, kw, {tex.get(k, k): df[k].values for k in free}, what)
    ctx.true("the samples are left as they were", df.equals(keep), what)
    if out:
        ctx.true("figure saved", os.path.exists(out), what)


def match_columns(ctx, data, kw, want, what):
    v = np.asarray(data, dtype=float)
    lab = list(kw.get("labels", []))
    ctx.eq("columns", sorted(lab), sorted(want), what)
    ctx.eq("a label for every column", len(lab), v.shape[1], what)
    for j, l in enumerate(lab):
        if l in want and j < v.shape[1]:
            ctx.close("samples under their label", v[:, j], want[l], 1e-12, 0, "%s %s" % (what, l))
    q = kw.get("quantiles")
    if q is not None:
        ctx.close("quantiles marked", sorted(q), [0.16, 0.5, 0.84], 0, 0.006, what)


def derived(ctx, case):
    import os
    import pandas as pd
    from radvel.plot import mcmc_plots
    cfg = case["cfg"]
    rng = ctx.nprng("c24d", case["id"])
    n = 60
    cols, want = {}, {}
    letters = {i: "xyz"[i - 1] for i in range(1, 4)} if cfg["letters"] else {i: "bcd"[i - 1] for i in range(1, 4)}
    for i in range(1, cfg["np"] + 1):
        m = (rng.uniform(130, 900) if i in cfg["big"] else rng.uniform(1, 80)) * (1 + 0.05 * rng.normal(size=n))
        cols["mpsini%d" % i] = m
        cols["a%d" % i] = rng.uniform(0.1, 3, n)
        L = letters[i]
        want["$M_%s\\sin i$ [%s]" % (L, "M$_{\\rm Jup}$" if np.median(m) > 100 else "M$_{\\oplus}$")] = \
            m * (MJUP if np.median(m) > 100 else 1)
        want["$a_%s$ [ AU]" % L] = cols["a%d" % i]
        if not (cfg["nodens"] and i == 1):
            cols["rhop%d" % i] = rng.uniform(0.5, 8, n)
            want["$\\rho_%s$ [ g cm$^{-3}$]" % L] = cols["rhop%d" % i]
            if rng.uniform() < 0.3:                          # not known for every sample: not shown
                cols["rhop%d" % i][3] = np.nan
                del want["$\\rho_%s$ [ g cm$^{-3}$]" % L]
    names = list(cols) + ["per1", "lnprobability"]
    cols["per1"], cols["lnprobability"] = rng.uniform(1, 2, n), rng.normal(size=n)
    rng.shuffle(names)
    df = pd.DataFrame({k: cols[k] for k in names})
    keep = df.copy()

    class P:
        nplanets = cfg["np"]
    if cfg["letters"]:
        P.planet_letters = letters
    what = "derived %r" % cfg
    out = os.path.join(ctx.workdir, "derived.png") if cfg["save"] else None
    for rep in range(2):
        RECORD["corner"].clear()
        mcmc_plots.DerivedPlot(df, P, saveplot=out).plot()
        ctx.eq("one corner figure", len(RECORD["corner"]), 1, what)
        data, args, kw = RECORD["corner"][0]
        match_columns(ctx, data, kw, want, what)
        ctx.true("the samples are left as they were", df.equals(keep), what)
    if out:
        ctx.true("figure saved", os.path.exists(out), what)


def auto(ctx, case):
    import os
    import pandas as pd
    from matplotlib import pyplot as pl
    from radvel.plot import mcmc_plots
    cfg = case["cfg"]
    rng = ctx.nprng("c24a", case["id"])
    n = cfg["n"]
    s = np.cumsum(rng.integers(50, 300, n)).astype(float)
    scale = 0.02 if cfg["low"] else 3.0
    mn = scale * s / cfg["factor"] * rng.uniform(0.5, 0.9, n)
    df = pd.DataFrame({"autosamples": s, "automin": mn, "automean": mn * 1.2, "automax": mn * 1.7,
                       "factor": [float(cfg["factor"])] * n})
    keep = df.copy()
    out = os.path.join(ctx.workdir, "auto.png")
    closed = []
    mcmc_plots.AutoPlot(df, saveplot=out).plot()
    ax = pl.gcf().axes[0]
    what = "autocorrelation %r" % cfg
    pts = {str(c.get_label()): np.asarray(c.get_offsets(), dtype=float) for c in ax.collections}
    for word, col in (("Minimum", "automin"), ("Mean", "automean"), ("Maximum", "automax")):
        mine = [v for k, v in pts.items() if k.startswith(word)]
        ctx.eq("one series each", len(mine), 1, what)
        if mine:
            ctx.close("series", mine[0], np.array([s, df[col].values]).T, 1e-12, 1e-12, "%s %s" % (what, word))
    lines = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), l.get_label()) for l in ax.lines]
    ctx.eq("one criterion", len(lines), 1, what)
    if lines:
        ctx.close("criterion", lines[0][1], lines[0][0] / cfg["factor"], 1e-12, 1e-12, what)
        ctx.true("criterion over all steps", lines[0][0].min() == s.min() and lines[0][0].max() == s.max(), what)
    lo, hi = ax.get_ylim()
    ctx.true("everything is in view", lo <= mn.min() + 1e-9 and hi >= (mn * 1.7).max() - 1e-9, what)
    if n > 1:
        ctx.close("steps in view", ax.get_xlim(), [s.min(), s.max()], 1e-9, 1e-9, what)
    ctx.true("the table is left as it was", df.equals(keep), what)
    ctx.true("figure saved", os.path.exists(out), what)


# ---------------------------------------------------------------- models drawn from samples
def draw(ctx, case):
    import radvel
    cfg = case["cfg"]
    rng = ctx.nprng("c24m", case["id"])
    c, env, post, df, free = sampled(ctx, cfg, rng, cfg["rows"] * (3 if cfg["index"] == "thinned" else 1))
    if cfg["index"] == "thinned":
        df = df.iloc[::3]
    elif cfg["index"] == "shifted":
        df.index = df.index + 1000
    elif cfg["index"] == "named":
        df.index = ["s%d" % i for i in range(len(df))]
    keep = df.copy()
    mod = post.likelihood.model
    t = np.sort(rng.uniform(0, 60, 17))
    what = "models of %r" % cfg
    before = (state(post), mod.vector.vector.copy(), post.logprob())
    got = radvel.utils.draw_models_from_chain(mod, df, t, nsamples=cfg["n"])
    ctx.eq("one row per draw", np.shape(got), (cfg["n"], t.size), what)
    want = []
    for _, r in df.iterrows():
        e = dict(env, t=t)
        e.update({k: r[k] for k in free})
        want.append(ev(case["model"], e))
    want = np.array(want)
    seen = set()
    for row in got:
        d = np.max(np.abs(want - row[None, :]), axis=1)
        j = int(np.argmin(d))
        ctx.true("each row is the model at one of the samples", d[j] < 1e-5, "%s: off by %g" % (what, d[j]))
        seen.add(j)
    if cfg["rows"] > 1 and cfg["n"] > 1:
        ctx.true("different samples are drawn", len(seen) > cfg["rows"] // 3, what)
    ctx.eq("the model is left as it was", (state(post), mod.vector.vector.tolist()), (before[0], before[1].tolist()), what)
    ctx.close("its probability too", post.logprob(), before[2], 0, 0, what)
    ctx.true("the samples are left as they were", df.equals(keep), what)


def coverage_check(ctx):
    for k in ("figure", "trend", "corner", "derived", "auto", "draw", "figures gp", "figures orbit", "bands", "binned",
              "not binned", "highlighted", "scatter shown", "mass in the caption"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C24 never reached %r" % k)
