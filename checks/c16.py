"""C16: the command-line pipeline.  TLC explores every step (fit, mcmc, ns, derive, ic, plot, table,
report with their samplers, modes and combinations) from every state of a star's status and files,
checking that gates hold, that a step touches only its own records and that nothing is made from
derived parameters that are out of date or another sampler's.  Every transition is replayed through
radvel.cli.main with real fits and samplers on setup files, two stars interleaved in one directory:
outcomes, the status file, every file a step may not touch, and the contents of every file it
makes, recomputed from the files it is to read.  Every choice of options is compared with the
keywords the sampler receives; a few histories run each step in a process of its own."""
import collections
import configparser
import contextlib
import copy
import hashlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import core
import setups

ASSUMPTIONS = ["plots are drawn by stand-ins that record what they are given, LaTeX is a stand-in that copies its input",
               "steps of one star run one at a time, all from the same working directory",
               "the values reported by mcmc and by nested sampling themselves are C11-C14, the numbers in tables C21"]
CASE_TIMEOUT = 300

CFG = """
CONSTANTS
 Part = "%s"
 HasStar = %s
 Wide = %s
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Current
PROPERTIES Gates Parts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
BASES = ["per tc secosw sesinw k", "per tc secosw sesinw logk", "per tc e w k", "per tp e w k", "logper tc secosw sesinw k",
         "per tc ecosw esinw k"]


class Failed(Exception):
    pass


def before_import(ctx):
    import matplotlib
    matplotlib.use("Agg")


def generate(ctx):
    rng = ctx.rng("c16")
    walks = []
    for star in ("TRUE", "FALSE"):
        res = core.run_tlc(ctx, "CheckC16", CFG % ("steps", star, "TRUE" if ctx.thorough else "FALSE"))
        g = core.Graph([l for l in res.lines if "f" in l])
        ctx.count("transitions of the specification", g.nedges)
        ws = g.tour(maxlen=60, rng=rng)
        rng.shuffle(ws)
        if star == "TRUE":
            ws = ws[:ctx.pick(110, 10 ** 6)] + g.random_walks(ctx.pick(40, 400), 40, rng)
        else:
            ws = ws[:ctx.pick(8, 100)]
        walks += [(star == "TRUE", [a for a, _ in w]) for w in ws]
    rng.shuffle(walks)
    for i in range(0, len(walks), 2):
        yield {"id": "w%d" % i, "walks": walks[i:i + 2]}
    for i in range(ctx.pick(6, 60)):
        w = g_lively(walks, rng)
        yield {"id": "p%d" % i, "walks": [w], "fresh": True}
    opts = core.run_tlc(ctx, "CheckC16", CFG % ("options", "TRUE", "FALSE")).lines
    opts.sort(key=repr)
    for i in range(0, len(opts), 40):
        yield {"id": "o%d" % i, "options": opts[i:i + 40]}


def g_lively(walks, rng):
    """A short stretch of steps most of which do something."""
    out, star = [], True
    for star, w in rng.sample(walks, len(walks)):
        if not star:
            continue
        out = []
        for a in w:
            if a["out"] == "done" or rng.random() < 0.15:
                if a["do"].get("mode") != "fails":
                    out.append(a)
            if len(out) >= 12:
                break
        # only prefixes that are themselves histories
        if out == w[:len(out)] and len(out) >= 6:
            return (star, out)
        k = next((i for i, a in enumerate(w) if a["do"].get("mode") == "fails"), len(w))
        if k >= 8:
            return (star, w[:min(k, 12)])
    return (star, out[:0])


# ---- observation -----------------------------------------------------------

seen = {}


def after_import(ctx):
    import inspect
    import radvel
    import radvel.cli
    from radvel.plot import mcmc_plots, orbit_plots
    sv = sys.modules["radvel.mcmc"].statevars
    real_mcmc, real_ns = radvel.mcmc, radvel.nested_sampling.run

    def mcmc(*a, **kw):
        b = inspect.signature(real_mcmc).bind(*a, **kw)
        b.apply_defaults()
        seen["mcmc"] = {"kw": dict(b.arguments), "start": dict(values(b.arguments["post"]))}
        if seen.get("stop"):
            raise Failed("the sampler")
        got = real_mcmc(*a, **kw)
        seen["mcmc"].update(chains=got.copy(), stats={k: copy.copy(v) for k, v in vars(sv).items()})
        return got

    def run(*a, **kw):
        b = inspect.signature(real_ns).bind(*a, **kw)
        b.apply_defaults()
        seen["ns"] = {"kw": {k: copy.copy(v) for k, v in b.arguments.items()},
                      "start": dict(values(b.arguments["post"]))}
        if seen.get("stop"):
            raise Failed("the sampler")
        got = real_ns(*a, **kw)
        seen["ns"].update(chains=got["samples"].copy())
        return got
    radvel.mcmc = mcmc
    radvel.nested_sampling.run = run
    real_comp = radvel.fitting.model_comp

    def model_comp(*a, **kw):
        b = inspect.signature(real_comp).bind(*a, **kw)
        b.apply_defaults()
        post = b.arguments["post"]
        call = {"post": values(post), "flags": flags(post), "params": list(b.arguments["params"])}
        seen["depth"] = seen.get("depth", 0) + 1         # it calls itself
        try:
            got = real_comp(*a, **kw)
        finally:
            seen["depth"] -= 1
        if not seen["depth"]:
            seen.setdefault("ic", []).append(dict(call, got=copy.deepcopy(got)))
        return got
    radvel.fitting.model_comp = model_comp

    def stub(cls, kind, draw):
        real = cls.__init__
        sig = inspect.signature(real)

        def init(self, *a, **kw):
            b = sig.bind(self, *a, **kw)
            d = {k: v for k, v in b.arguments.items() if k != "self"}
            d.update(d.pop("kwargs", {}))
            if not hasattr(self, "seen_args"):       # (a figure which is built on another one)
                self.seen_args = dict(d)
                for k in ("post", "chains", "auto"):
                    if k in d:
                        self.seen_args[k] = copy.deepcopy(d[k])
            real(self, *a, **kw)

        def drawn(self, *a, **kw):
            to = self.seen_args.get("saveplot", self.seen_args.get("outfile"))
            with open(to, "w") as fh:
                fh.write("%s %d" % (kind, len(seen.setdefault("plots", []))))
            seen["plots"].append((kind, self.seen_args))
        cls.__init__ = init
        setattr(cls, draw, drawn)
    stub(orbit_plots.MultipanelPlot, "rv", "plot_multipanel")
    stub(orbit_plots.GPMultipanelPlot, "rv-gp", "plot_multipanel")
    stub(mcmc_plots.CornerPlot, "corner", "plot")
    stub(mcmc_plots.AutoPlot, "auto", "plot")
    stub(mcmc_plots.TrendPlot, "trend", "plot")
    stub(mcmc_plots.DerivedPlot, "derived", "plot")


def values(post):
    """Values and flags of a posterior, in its vector."""
    v, ix = post.vector.vector, post.vector.indices
    return {k: (float(v[ix[k]][0]), bool(v[ix[k]][1])) for k in post.params}


def flags(post):
    return {k: bool(p.vary) for k, p in post.params.items()}


def files(d):
    """Contents of every file below d."""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = hashlib.md5(fh.read()).hexdigest()
    return out


def status_of(path):
    c = configparser.RawConfigParser()
    c.read(path)
    return {s: dict(c.items(s)) for s in c.sections()}


# ---- one star --------------------------------------------------------------

class Star(object):
    def __init__(self, ctx, name, has_star, outdir, seed):
        self.ctx, self.name, self.rng = ctx, name, ctx.nprng("c16", seed, name)
        r = self.rng
        basis = BASES[int(r.integers(len(BASES)))]
        k = "logk1" if basis.endswith("logk") else "k1"
        s, env = setups.simple(r, basis, 1, free=[k, "gamma_j", "jit_j"], insts=("j",), n=int(r.choice([8, 8, 4])))     # (AICc is infinite for so few)
        s["extra"] = ("priors=[radvel.prior.HardBounds(%r,%s),radvel.prior.HardBounds('gamma_j',-30,30),"
                      "radvel.prior.HardBounds('jit_j',0.01,20)]" % (k, "-3,4" if k == "logk1" else "0,50"))
        if has_star:
            s["stellar"] = dict(mstar=float(r.uniform(0.3, 2)), mstar_err=0.0)
            if r.integers(2):
                s["planet"] = dict(rp1=2.0, rp_err1=0.0)
        self.decorr = bool(r.integers(3) == 0)
        if self.decorr:
            s["data"]["fwhm"] = [float(v) for v in r.normal(0, 1, len(s["data"]["time"]))]
            s["decorr_vars"] = ["fwhm"]
            s["extra"] = s["extra"].replace("priors=[", "priors=[radvel.prior.HardBounds('c1_fwhm_j',-20,20),")
        self.gp = bool(r.integers(3) == 0) and not self.decorr
        if self.gp:
            hyp = {"gp_length": 9.0, "gp_amp": 3.0}
            s["hnames"], s["kernel_name"] = {"j": sorted(hyp)[::-1]}, {"j": "SqExp"}
            s["params"] = s["params"] + [(h, v, False, False, None) for h, v in hyp.items()]
        s["bjd0"] = float(r.choice([0, 2450000]))
        self.setup = s
        self.cfg = name + ".py"
        setups.write_setup(self.cfg, s)
        self.out = outdir or name
        self.given = ["-d", outdir] if outdir else []
        self.stat = os.path.join(self.out, name + "_radvel.stat")
        self.nens = int(r.integers(1, 4))
        self.walk = int(r.choice([10, 4]))      # (too few walkers are made enough)

    # -- running a step
    def argv(self, do):
        """Command line of a step, and what it says about things the specification leaves open."""
        r, k, note = self.rng, do["step"], {}
        a = [k, "-s", self.cfg] + self.given
        if self.decorr and k in ("fit", "mcmc", "ns", "ic", "plot"):
            a.append("--decorr")
        if k == "mcmc":
            note = {"nsteps": int(r.integers(100, 110) if r.integers(4) == 0 else r.integers(12, 20)), "thin": int(r.integers(1, 3))}
            a += ["--nsteps", str(note["nsteps"]), "--nwalkers", str(self.walk), "--nensembles", str(self.nens), "--serial", "1",
                  "--headless", "--minsteps", "5", "--minpercent", "1", "--thin", str(note["thin"])]
            # the first part is discarded, or everything is kept
            a += ["--burnGR", "1e9", "--burnAfactor", "1e9"] if r.integers(2) else ["--burnGR", "0", "--burnAfactor", "1e9"]
            a += {"save": ["--save"], "proceed": ["--proceed"], "both": ["--save", "--proceed"]}.get(do["mode"], [])
        elif k == "ns":
            note = {"nlive": int(r.integers(15, 25)), "maxiter": int(r.integers(40, 60))}
            a += ["--sampler", "dynesty-static", "--sampler-kwargs", "nlive=%d" % note["nlive"], "--run-kwargs",
                  "maxiter=%d print_progress=False" % note["maxiter"]]
            a += {"overwrite": ["--overwrite"], "proceed": ["--proceed"]}.get(do["mode"], [])
        elif k == "ic":
            note = {"types": [["trend"], ["e"], ["trend", "e"], ["e", "jit"]][int(r.integers(4))],
                    "mixed": bool(r.integers(2)), "fixjitter": bool(r.integers(2)), "simple": bool(r.integers(4) == 0)}
            if note["types"] != ["trend"] or r.integers(2):
                a += ["-t"] + note["types"]
            a += [] if note["mixed"] else ["-u"]
            a += ["-f"] if note["fixjitter"] else []
            a += ["--simple"] if note["simple"] else []
        elif k in ("plot", "table"):
            a += ["-t"] + do["types"]
            if k == "plot" and "rv" in do["types"]:
                note["plotkw"] = {}
                if r.integers(2):
                    note["plotkw"] = {"yscale_sigma": float(r.integers(2, 6)), "nobin": bool(r.integers(2))}
                    a += ["--plotkw", repr(note["plotkw"])]
                note["gp"] = self.gp and bool(r.integers(2))
                a += ["--gp"] if note["gp"] else []
            if k == "table" and r.integers(3) == 0:
                note["name_in_title"] = True
                a.append("--name_in_title")
        elif k == "report":
            a += ["--latex-compiler", os.path.abspath("latex.sh")]
        if do.get("asked", "auto") != "auto" or ("asked" in do and r.integers(2)):
            a += ["--sampler", do["asked"]]
        return a, note

    def step(self, act, fresh=False):
        ctx, do = self.ctx, act["do"]
        a, note = self.argv(do)
        before, st0 = (files(self.out), status_of(self.stat)) if os.path.isdir(self.out) else ({}, {})
        what = "%s after %s: radvel %s" % (self.name, sorted(st0), " ".join(a))
        keep = tempfile.mkdtemp(dir=self.ctx.workdir)
        if os.path.isdir(self.out):
            shutil.copytree(self.out, os.path.join(keep, "out"))
        try:
            self._step(act, a, note, what, before, st0, os.path.join(keep, "out"), fresh)
        finally:
            shutil.rmtree(keep, ignore_errors=True)

    def _step(self, act, a, note, what, before, st0, old, fresh):
        ctx, do = self.ctx, act["do"]
        seen.clear()
        seen["stop"] = do.get("mode") == "fails"
        np.random.seed(int(self.rng.integers(2 ** 31)))
        error = None
        if fresh:
            env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg")
            p = subprocess.run([sys.executable, "-c", "import sys; sys.path[:0] = %r; import radvel.cli, c16; "
                                "c16.after_import(None); radvel.cli.main()" % ([x for x in sys.path if x],)] + a, env=env, capture_output=True, text=True, timeout=200)
            error = p.stderr[-300:] if p.returncode else None
        else:
            argv, sys.argv = sys.argv, ["radvel"] + a
            cwd = os.getcwd()
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    import radvel.cli
                    radvel.cli.main()
            except (Exception, SystemExit) as e:
                error = "%s: %s" % (type(e).__name__, str(e)[:200])
            finally:
                sys.argv = argv
            ctx.eq("working directory", os.getcwd(), cwd, what)
        ctx.count("%s %s" % (do["step"], act["out"]))
        ctx.eq("outcome of the step", "done" if error is None else "refused",
               "refused" if act["out"] == "refused" else "done", "%s (%s)" % (what, error))
        now, st = files(self.out), status_of(self.stat)
        made = [p["type"] for p in act["parts"] if p["type"] != "report"]
        sect = {"ic": "ic_compare"}.get(do["step"], do["step"])
        if act["out"] != "done" and not made:
            ctx.eq("a refused step changes no file", {k: v for k, v in now.items() if before.get(k) != v}, {}, what)
            ctx.eq("a refused step removes no file", sorted(set(before) - set(now)), [], what)
            return
        # the records of other steps
        for s in st0:
            if s == sect:
                continue
            ctx.true("records of other steps", s in st, "%s: section %s is gone" % (what, s))
            want = dict(st0[s])
            if s == "derive" and sect in ("mcmc", "ns") and want.get("sampler") == sect:
                want["run"] = "False"
            ctx.eq("records of other steps", st[s], want, "%s: section %s" % (what, s))
        ctx.eq("sections of the status", sorted(st), sorted(set(st0) | ({sect} if do["step"] != "report" else set())), what)
        for s, d in st0.items():
            for k, f in d.items():
                if not k.endswith(("file", "_plot", "_tex")):
                    continue
                f = os.path.relpath(f, self.out)
                mine = s == sect and (do["step"] not in ("plot", "table") or k.rsplit("_", 1)[0] in made)
                shared = f.endswith("_post_obj.pkl") and sect in ("fit", "mcmc")
                shared |= sect == "derive" and f == os.path.relpath(st0[act["sampler"]]["postfile"], self.out)
                if not mine and not shared and do["step"] != "report":
                    ctx.eq("files of other steps", now.get(f), before.get(f), "%s: %s" % (what, f))
        for s, d in st.items():
            for k, f in d.items():
                if k.endswith(("file", "_plot", "_tex")):
                    ctx.true("recorded files exist", os.path.isfile(f), "%s: %s of %s: %s" % (what, k, s, f))
        getattr(self, "check_" + do["step"])(act, note, what, st0, st, old, fresh)

    # -- reading what a step reads
    def fresh(self):
        import radvel
        with contextlib.redirect_stdout(io.StringIO()):
            return radvel.utils.initialize_posterior(self.cfg, decorr=self.decorr)

    def load(self, path, old=None):
        """The posterior in a file, as it is or as it was before the step."""
        import radvel
        if old is not None:
            path = os.path.join(old, os.path.relpath(path, self.out))
        with contextlib.redirect_stdout(io.StringIO()):
            return radvel.posterior.load(path)

    def table(self, path):
        import pandas as pd
        return pd.read_csv(path)

    def same(self, clause, post, want, what, rtol=1e-9):
        ctx = self.ctx
        a, b = values(post), values(want)
        ctx.eq(clause, sorted(a), sorted(b), what + " parameters")
        ctx.eq(clause, [a[k][1] for k in sorted(a)], [b[k][1] for k in sorted(a)], what + " flags")
        ctx.close(clause, [a[k][0] for k in sorted(a)], [b[k][0] for k in sorted(a)], rtol=rtol, detail=what + " values")
        ctx.close(clause, [post.params[k].value for k in sorted(a)], [a[k][0] for k in sorted(a)],
                  detail=what + " values of the parameters")
        ctx.close(clause, post.logprob(), want.logprob(), rtol=1e-7, detail=what + " log-probability")

    def refit(self, post):
        import radvel
        with contextlib.redirect_stdout(io.StringIO()):
            return radvel.fitting.maxlike_fitting(post, verbose=False)

    # -- what each step must have made
    def check_fit(self, act, note, what, st0, st, old, fresh):
        ctx = self.ctx
        ctx.eq("record of the fit", st["fit"].get("run"), "True", what)
        self.same("result of the fit", self.load(st["fit"]["postfile"]), self.refit(self.fresh()[1]), what)

    def chain(self, which, what, st, got, old, start):
        """Chain, summary and posterior files of a sampling run."""
        ctx = self.ctx
        ctx.eq("record of the run", st[which].get("run"), "True", what)
        t = self.table(st[which]["chainfile"])
        if got is not None:
            for c in got.columns:
                ctx.true("chain file", c in t.columns, "%s: column %s" % (what, c))
                ctx.close("chain file", t[c].values, got[c].values, rtol=1e-12, detail="%s: column %s" % (what, c))
        names = [c for c in t.columns if not c.startswith("Unnamed")]
        q = self.table(st[which]["summaryfile"])
        for c in names:
            ctx.close("summary file", q[c].values, np.quantile(t[c].values, [0.159, 0.5, 0.841]), rtol=1e-10,
                      detail="%s: column %s" % (what, c))
        want = start
        for k in names:
            if k in want.params:
                want.vector.vector[want.vector.indices[k]][0] = np.quantile(t[k].values, 0.5)
        want.vector.vector_to_dict()
        post = self.load(st[which]["postfile"])
        self.same("posterior of the run", post, self.refit(want), what)
        synth = post.params.basis.to_synth(copy.deepcopy(post.params))
        for k in synth:
            ctx.true("posterior of the run", k in post.medparams and k in post.maxparams and k in post.uparams,
                     "%s: no estimate of %s" % (what, k))
            if k in names:
                lo, mid, hi = np.quantile(t[k].values, [0.159, 0.5, 0.841])
                if hi > lo:
                    ctx.close("estimates of the run", post.medparams[k], mid, rtol=0.02, atol=hi - lo,
                              detail="%s: median of %s" % (what, k))

    def check_mcmc(self, act, note, what, st0, st, old, fresh):
        ctx, m = self.ctx, seen.get("mcmc")
        start = self.load(st0["fit"]["postfile"], old)
        if m is not None and "chains" in m:
            want = values(start)
            ctx.eq("start of the run", sorted(m["start"]), sorted(want), what)
            for k, v in m["start"].items():
                ctx.close("start of the run", v[0], want[k][0], detail="%s: %s" % (what, k))
                ctx.eq("start of the run", v[1], want[k][1], "%s: whether %s is free" % (what, k))
            ctx.eq("save and proceed", (bool(m["kw"]["save"]), bool(m["kw"]["proceed"])),
                   (act["do"]["mode"] in ("save", "both"), act["do"]["mode"] in ("proceed", "both")), what)
            s = m["stats"]
            ctx.eq("walkers asked for", m["kw"]["nwalkers"], self.walk, what)
            for k, v in (("nwalkers", s["nwalkers"]), ("nensembles", self.nens), ("nsteps", s["ncomplete"]),
                         ("nburn", s["nburn"]), ("minafactor", s["minafactor"]), ("maxarchange", s["maxarchange"]),
                         ("mintz", s["mintz"]), ("maxgr", s["maxgr"])):
                ctx.close("statistics of the run", float(st["mcmc"][k]), float(v), detail="%s: %s" % (what, k))
            ctx.close("statistics of the run", float(st["mcmc"]["maxsteps"]),
                      note["nsteps"] * s["nwalkers"] * self.nens, detail=what + ": maxsteps")
            auto = self.table(st["mcmc"]["autocorrfile"])
            ctx.count("autocorrelation times recorded", len(auto))
            for c in ("autosamples", "automin", "automean", "automax", "factor"):
                ctx.close("autocorrelation file", auto[c].values, np.array(s[c], dtype=float), detail="%s: %s" % (what, c))
            ctx.eq("file of raw chains", m["kw"]["savename"] is not None, act["do"]["mode"] != "plain", what)
        self.chain("mcmc", what, st, m and m.get("chains"), old, start)

    def check_ns(self, act, note, what, st0, st, old, fresh):
        ctx, m = self.ctx, seen.get("ns")
        start = self.fresh()[1]
        if m is not None and "chains" in m:
            ctx.eq("start of the run", m["start"], values(start), what)
            for k, v in (("sampler", "dynesty-static"), ("overwrite", act["do"]["mode"] == "overwrite"),
                         ("proceed", act["do"]["mode"] == "proceed"), ("sampler_kwargs", {"nlive": note["nlive"]}),
                         ("run_kwargs", {"maxiter": note["maxiter"], "print_progress": False})):
                ctx.eq("options of the run", m["kw"][k], v, "%s: %s" % (what, k))
        for k, v in note.items():
            ctx.eq("record of the run", st["ns"].get(k), str(v), "%s: %s" % (what, k))
        self.chain("ns", what, st, m and m.get("chains"), old, start)

    def check_derive(self, act, note, what, st0, st, old, fresh):
        import radvel
        from astropy import constants as c
        ctx, w = self.ctx, act["sampler"]
        ctx.eq("record of the derived parameters", st["derive"].get("run"), "True", what)
        t = self.table(st[w]["chainfile"])
        P, _ = self.fresh()
        post = self.load(st0[w]["postfile"], old)
        syn = t.copy()
        for k, v in values(post).items():
            if not v[1]:
                syn[k] = v[0]
        syn = post.params.basis.to_synth(syn)
        d = self.table(st["derive"]["chainfile"])
        ctx.eq("derived samples", len(d), len(t), what)
        m = P.stellar["mstar"] * np.ones(len(t))
        mp = radvel.utils.Msini(syn["k1"], syn["per1"], m, syn["e1"], Msini_units="earth")
        mtot = m + mp * c.M_earth.value / c.M_sun.value
        want = {"mpsini1": mp, "a1": radvel.utils.semi_major_axis(syn["per1"], mtot), "musini1": mp * c.M_earth.value / (m * c.M_sun.value)}
        if self.setup.get("planet"):
            want["rhop1"] = radvel.utils.density(mp, np.full(len(t), 2.0))
        q = self.table(st["derive"]["quantfile"])
        new = self.load(st[w]["postfile"])
        self.same("the posterior derived from", new, post, what)
        for k, v in want.items():
            v = np.asarray(v, dtype=float)
            ctx.true("derived samples", k in d.columns, "%s: no column %s" % (what, k))
            ctx.close("derived samples", d[k].values, v, detail="%s: column %s" % (what, k))
            for x, clause in ((q[k].values, "quantiles of the derived"), (new.derived[k].values, "derived of the posterior")):
                ctx.close(clause, x, np.quantile(v, [0.159, 0.5, 0.841]), detail="%s: column %s" % (what, k))

    def check_ic(self, act, note, what, st0, st, old, fresh):
        ctx = self.ctx
        check_ic(ctx, comparisons(note), seen.get("ic"), st["ic_compare"]["ic"], values(self.load(st0["fit"]["postfile"], old)), what)

    def check_plot(self, act, note, what, st0, st, old, fresh):
        ctx, parts = self.ctx, act["parts"]
        for p in parts:
            ctx.true("record of the plot", p["type"] + "_plot" in st["plot"], "%s: %s" % (what, p["type"]))
        names = [st["plot"][t + "_plot"] for t in sorted({p["type"] for p in parts})]
        ctx.eq("each plot has a file of its own", len(set(names)), len(names), what)
        if fresh:
            return
        drawn = seen.get("plots", [])
        rv = "rv-gp" if note.get("gp") else "rv"
        ctx.eq("plots drawn", [k for k, _ in drawn], [rv if p["type"] == "rv" else p["type"] for p in parts], what)
        for p, (kind, arg) in zip(parts, drawn):
            w = "%s: %s plot" % (what, kind)
            to = arg.get("saveplot", arg.get("outfile"))
            ctx.eq("file of the plot", os.path.abspath(to), os.path.abspath(st["plot"][kind.split("-")[0] + "_plot"]), w)
            if kind == rv:
                for k, v in note["plotkw"].items():
                    ctx.eq("options of the plot", arg.get(k), v, "%s: %s" % (w, k))
                ctx.eq("epoch of the plot", float(arg.get("epoch", np.nan)), self.setup["bjd0"], w)
                ctx.eq("uncertainties of the plot", {k: float(v) for k, v in (arg.get("uparams") or {}).items()},
                       {k: float(v) for k, v in (self.load(st["fit"]["postfile"]).uparams or {}).items()}, w)
                ctx.count("plots of a Gaussian process" if note["gp"] else "plots of velocities")
            if "post" in arg:
                self.same("posterior of the plot", arg["post"], self.load(st["fit"]["postfile"]), w)
            if "chains" in arg:
                f = st["derive" if kind == "derived" else p["reads"]]["chainfile"]
                self.frames("samples of the plot", arg["chains"], self.table(f), w)
            if "auto" in arg:
                self.frames("table of the plot", arg["auto"], self.table(st["mcmc"]["autocorrfile"]), w)
            if kind == "trend":
                ctx.eq("shape of the plot", (int(arg["nwalkers"]), int(arg["nensembles"])),
                       (int(st["mcmc"]["nwalkers"]), int(st["mcmc"]["nensembles"])), w)

    def frames(self, clause, got, want, what):
        self.ctx.eq(clause, len(got), len(want), what)
        for c in want.columns:
            if not c.startswith("Unnamed"):
                self.ctx.true(clause, c in got.columns, "%s: column %s" % (what, c))
                self.ctx.close(clause, got[c].values, want[c].values, rtol=1e-12, detail="%s: column %s" % (what, c))

    def report(self, part, st, comp):
        """A report on the files the specification says are read."""
        import radvel
        w = part["reads"]
        P, _ = self.fresh()
        t = self.table(st[w]["chainfile"])
        if part["derived"]:
            t = t.join(self.table(st["derive"]["chainfile"]), rsuffix="_derived")
        crit = [st["mcmc"][k] for k in ("minafactor", "maxarchange", "maxgr", "mintz")] if w == "mcmc" else [None] * 4
        return radvel.report.RadvelReport(P, self.load(st[w]["postfile"]), t, *crit, derived=part["derived"],
                                          compstats=evaluate(st["ic_compare"]["ic"]) if comp else None)

    def check_table(self, act, note, what, st0, st, old, fresh):
        import radvel
        ctx = self.ctx
        title = note.get("name_in_title", False)
        for p in act["parts"]:
            ctx.true("record of the table", p["type"] + "_tex" in st["table"], "%s: %s" % (what, p["type"]))
            with open(st["table"][p["type"] + "_tex"]) as fh:
                got = fh.read()
            tab = radvel.report.TexTable(self.report(p, st, p["type"] == "ic_compare"))
            if p["type"] == "ic_compare":
                want = tab.tab_comparison()
            elif p["type"] == "rv":
                want = tab.tab_rv(name_in_title=title, max_lines=None)
            else:
                want = getattr(tab, {"priors": "tab_prior_summary"}.get(p["type"], "tab_" + p["type"]))(name_in_title=title)
            ctx.eq("contents of the table", sorted(got.split("\n")), sorted(want.split("\n")), "%s: %s" % (what, p["type"]))
            if p["type"] == "derived" or (p["type"] == "params"):
                ctx.true("contents of the table", got.count("&") > 2, "%s: %s is empty" % (what, p["type"]))

    def check_report(self, act, note, what, st0, st, old, fresh):
        ctx = self.ctx
        rep = self.report(act["parts"][0], st, "ic_compare" in st)
        rep.runname = self.name
        d = tempfile.mkdtemp(dir=ctx.workdir)
        for f in st["plot"].values():
            shutil.copy(f, d)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            want = rep.texdoc()
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        for ext in (".tex", ".pdf"):
            with open(os.path.join(self.out, self.name + "_results" + ext)) as fh:
                ctx.eq("contents of the report", sorted(fh.read().split("\n")), sorted(want.split("\n")), what + ": " + ext)


def evaluate(text):
    return eval(text, {"OrderedDict": collections.OrderedDict, "inf": np.inf, "nan": np.nan, "np": np, "array": np.array})


def comparisons(c):
    """Pipeline.tla: Comparisons, Merged, FixJitters (also enumerated by TLC, case "options")."""
    if c["simple"]:
        comp = [[]]
    elif c["mixed"]:
        comp = [list(c["types"])]
    else:
        comp = [[t] for t in c["types"]]
    return {"compare": comp, "merged": not c["simple"] and not c["mixed"], "fix": c["fixjitter"] and not c["simple"]}


def check_ic(ctx, spec, calls, text, post, what):
    if not calls:
        return
    ctx.eq("comparisons made", [c["params"] for c in calls], [list(c) for c in spec["compare"]], what)
    want = []
    for c in calls:
        for k, (v, vary) in post.items():
            free = vary and not (spec["fix"] and k.startswith("jit"))
            ctx.close("the posterior compared", c["post"][k][0], v, detail="%s: %s" % (what, k))
            ctx.eq("the posterior compared", (c["post"][k][1], c["flags"][k]), (free, free), "%s: whether %s is free" % (what, k))
        for s in c["got"]:
            if not (spec["merged"] and any(sorted(s["Free Params"][0]) == sorted(t["Free Params"][0]) for t in want)):
                want.append(s)
    got = evaluate(text)
    ctx.eq("models recorded", [sorted(s["Free Params"][0]) for s in got], [sorted(s["Free Params"][0]) for s in want], what)
    ctx.eq("statistics recorded", "".join(repr(got).split()), "".join(repr(evaluate(repr(want))).split()), what)


# ---- options ---------------------------------------------------------------

KIND = {"int": int, "float": float, "flag": bool, "yes": lambda t: True, "no": lambda t: False, "text": str}


class Stop(Exception):
    pass


def options(ctx, case):
    import radvel
    import radvel.cli
    star = Star(ctx, "star", True, "out", case["id"])
    star.step({"do": {"step": "fit"}, "out": "done", "parts": [], "sampler": "none"})
    best = values(star.load(status_of(star.stat)["fit"]["postfile"]))

    def cli(a):
        argv, sys.argv = sys.argv, ["radvel"] + a + ["-s", star.cfg, "-d", star.out] + (["--decorr"] if star.decorr else [])
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                radvel.cli.main()
        except Failed:
            pass
        finally:
            sys.argv = argv
    for o in case["options"]:
        seen.clear()
        if "mcmc" in o:
            seen["stop"] = True
            a = ["mcmc"]
            for g in o["mcmc"]:
                a += [g["opt"]] + ([g["text"]] if g["as"] != "flag" or g["opt"] == "--serial" else [])
            cli(a)
            kw = seen["mcmc"]["kw"]
            for m in o["means"]:
                want = bool(m["text"]) if m["as"] == "flag" else KIND[m["as"]](m["text"])
                ctx.eq("options of mcmc", bool(kw[m["key"]]) if m["as"] == "flag" else kw[m["key"]], want,
                       "%s: %s" % (" ".join(a), m["key"]))
            saves = any(g["opt"] in ("--save", "--proceed") for g in o["mcmc"])
            for k, use in (("savename", "--save"), ("proceedname", "--proceed")):
                if any(g["opt"] == use for g in o["mcmc"]):
                    ctx.true("file of raw chains", kw[k] is not None and os.path.dirname(os.path.abspath(kw[k])) ==
                             os.path.abspath(star.out), "%s: %s is %s" % (" ".join(a), k, kw[k]))
            if saves and kw["savename"] and kw["proceedname"]:
                ctx.eq("file of raw chains", kw["savename"], kw["proceedname"], " ".join(a))
        elif "ns" in o:
            seen["stop"] = True
            x, y = o["ns"]
            a = ["ns", "--sampler-kwargs", "first=%s second_one=%s" % (x["text"], y["text"]), "--run-kwargs", "third=" + y["text"]]
            cli(a)
            kw = seen["ns"]["kw"]
            want = {"first": KIND[x["as"]](x["text"]), "second_one": KIND[y["as"]](y["text"])}
            for got, w in ((kw["sampler_kwargs"], want), (kw["run_kwargs"], {"third": want["second_one"]})):
                ctx.eq("options of the sampler", got, w, " ".join(a))
                ctx.eq("types of the options", [type(got[k]) for k in sorted(w)], [type(w[k]) for k in sorted(w)], " ".join(a))
            ctx.eq("options of the sampler", (kw["sampler"], kw["proceed"], kw["overwrite"]), ("ultranest", False, False), " ".join(a))
        else:
            c = o["ic"]
            ctx.eq("comparisons", comparisons(c), {k: o[k] for k in ("compare", "merged", "fix")})
            a = ["ic", "-t"] + c["types"] + (["-m"] if c["mixed"] else ["-u"]) + (["-f"] if c["fixjitter"] else ["-n"]) + \
                (["--simple"] if c["simple"] else [])
            cli(a)
            check_ic(ctx, o, seen.get("ic"), status_of(star.stat)["ic_compare"]["ic"], best, " ".join(a))
        ctx.count("choices of options")


def run(ctx, case):
    for n in os.listdir(ctx.workdir):
        p = os.path.join(ctx.workdir, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    os.chdir(ctx.workdir)
    with open("latex.sh", "w") as fh:
        fh.write('#!/bin/sh\ncp "$1" "${1%.tex}.pdf"\n')
    os.chmod("latex.sh", 0o755)
    if "options" in case:
        return options(ctx, case)
    rng = ctx.rng("c16", case["id"])
    names = ["star", "HD-10_x"]
    shared = len(case["walks"]) == 2 and rng.random() < 0.7
    stars = [Star(ctx, names[i], s, "out" if shared or rng.random() < 0.5 else None, case["id"])
             for i, (s, _) in enumerate(case["walks"])]
    todo = [(i, a) for i, (_, w) in enumerate(case["walks"]) for a in w]
    queues = [[a for a in w] for _, w in case["walks"]]
    order = [i for i, _ in todo]
    rng.shuffle(order)
    for i in order:
        others = [(s, files(s.out), status_of(s.stat)) for s in stars if s is not stars[i] and os.path.isdir(s.out)]
        stars[i].step(queues[i].pop(0), case.get("fresh", False))
        for s, f, t in others:
            ctx.eq("records of another star", status_of(s.stat), t, "%s after a step of %s" % (s.name, stars[i].name))
            now = files(s.out)
            ctx.eq("files of another star", {k: v for k, v in now.items() if k.startswith(s.name + "_")},
                   {k: v for k, v in f.items() if k.startswith(s.name + "_")}, "%s after a step of %s" % (s.name, stars[i].name))


def coverage_check(ctx):
    if not ctx.counts:
        return
    for k in ("fit", "mcmc", "ns", "derive", "ic", "plot", "table", "report"):
        if not ctx.counts.get(k + " done"):
            raise core.MachineryError("no %s step was replayed" % k)
