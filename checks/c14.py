"""C14: nested-sampling runs.  TLC explores every history of runs over one output directory (all
samplers, overwrite and proceed, interrupted runs, reserved and plain options) and checks that
results are never replaced unless asked and that resuming continues the sampler's own checkpoint;
each history is replayed with stand-ins that take the calls of the real packages: what they are
given, what they are told besides, refusals, files, results, log-probabilities and loading are
compared.  A few histories are run with the real packages."""
import contextlib
import copy
import io
import os
import tempfile
import shutil

import numpy as np

import core
import nested

ASSUMPTIONS = ["pymultinest is not installed: its stand-in follows its documented interface",
               "a dynesty checkpoint is only resumed with the class that wrote it"]


def before_import(ctx):
    nested.install()


CFG = """
CONSTANTS
 Depth = %d
 Wide = %s
SPECIFICATION Spec
INVARIANTS Belong Emit
PROPERTIES Kept RefusedChangesNothing CrashKeeps Resuming OwnCheckpoint
CHECK_DEADLOCK FALSE
"""
REAL = {"dynesty-static": (dict(nlive=30), dict(maxiter=80, print_progress=False)),
        "dynesty-dynamic": (dict(nlive=30), dict(maxiter=80, nlive_init=30, print_progress=False)),
        "nautilus": (dict(n_live=60, n_networks=1), dict(n_eff=60, verbose=False, f_live=0.5)),
        "ultranest": ({}, dict(min_num_live_points=30, max_ncalls=1000, viz_callback=False, show_status=False))}
PLAIN = {"dynesty-static": (dict(nlive=37, bound="single"), dict(maxiter=81, print_progress=False, dlogz=0.3)),
         "dynesty-dynamic": (dict(nlive=37, sample="rwalk"), dict(nlive_init=31, print_progress=False, maxbatch=2)),
         "nautilus": (dict(n_live=61, seed=5), dict(n_eff=62, verbose=False)),
         "ultranest": (dict(num_bootstraps=20, ndraw_min=64), dict(min_num_live_points=33, dlogz=0.7)),
         "multinest": (None, dict(n_live_points=55, seed=4, verbose=True))}
VALUES = {"resume": True, "checkpoint_file": "other.save", "log_dir": "other", "filepath": "other.hdf5",
          "outputfiles_basename": "other/out", "seed": 3}


def generate(ctx):
    key = lambda h: repr([sorted(map(repr, s.items())) for s in h])
    wide = sorted(core.run_tlc(ctx, "CheckC14", CFG % (2, "TRUE"), workers=6).lines, key=key)
    deep = sorted(core.run_tlc(ctx, "CheckC14", CFG % (3, "FALSE"), workers=6).lines, key=key)
    rng = ctx.rng("c14")
    groups = {}
    for h in wide:
        r = h[-1].get("r")
        if r:
            k = (r["sampler"], r["name"], r["post"], repr(r["opts"]), len(h), bool(h[-1]["why"]))
            groups.setdefault(k, []).append(h)
    hists = [rng.choice(g) for _, g in sorted(groups.items())]
    if not ctx.thorough:
        hists = rng.sample(hists, min(len(hists), 420))
    runs = lambda h: sum(s["act"] == "run" and not s["why"] for s in h)
    good = [h for h in deep if runs(h) >= 2 and h[-1]["act"] == "run"]
    resumed = [h for h in good if any(s.get("resumes") for s in h)]
    hists += rng.sample(good, min(len(good), ctx.pick(260, 6000)))
    hists += rng.sample(resumed, min(len(resumed), ctx.pick(200, 6000)))
    hists += rng.sample(deep, min(len(deep), ctx.pick(120, 3000)))
    for i, h in enumerate(hists):
        yield {"id": i, "hist": h}
    real = [h for h in deep if h[-1]["act"] == "run" and all(s["act"] == "mkdir" or (
        s["r"]["sampler"] == h[-1]["r"]["sampler"] and s["r"]["sampler"] != "multinest" and not s["r"]["crash"] and
        s["r"]["opts"] == ["plain"] and s["r"]["out"]) for s in h) and runs(h) >= 2]
    by = {}
    for h in real:
        by.setdefault(h[-1]["r"]["sampler"], []).append(h)
    for s, g in sorted(by.items()):
        for i, h in enumerate(rng.sample(g, min(len(g), ctx.pick(4, 40)))):
            yield {"id": "real-%s-%d" % (s, i), "hist": h, "real": True}


def make(kind, seed):
    """A posterior with the free parameters of the specification, and what its functions are."""
    import radvel
    import scipy.stats as st
    rng = np.random.default_rng(seed)
    basis = "per tp e w k" if kind == "seven" else "per tc secosw sesinw logk"
    names = basis.split()
    values = dict(per=11.0, tc=3.0, tp=2.5, e=0.2, w=0.6, secosw=0.2, sesinw=0.1, logk=2.0, k=8.0)
    free = {"small": ["logk1"], "improper": ["logk1"], "extra": ["logk1"], "seven": ["tp1", "e1", "w1", "k1"],
            "eight": ["tc1", "secosw1", "sesinw1", "logk1", "dvdt"]}[kind]
    free += ["jit_j", "gamma_k"] + (["gamma_j"] if kind in ("seven", "eight") else [])
    params = radvel.Parameters(1, basis=basis)
    for n in names:
        params[n + "1"] = radvel.Parameter(value=values[n], vary=n + "1" in free)
    params["dvdt"] = radvel.Parameter(value=0.02, vary="dvdt" in free)
    params["curv"] = radvel.Parameter(value=0.0, vary=False)
    mod = radvel.RVModel(params, time_base=20.0)
    likes = []
    for s in ("_j", "_k"):
        t = np.sort(rng.uniform(0, 60, 6))
        like = radvel.likelihood.RVLikelihood(mod, t, rng.normal(0, 8, 6), rng.uniform(1, 2, 6), suffix=s)
        like.params["gamma" + s] = radvel.Parameter(value=1.0, vary="gamma" + s in free)
        like.params["jit" + s] = radvel.Parameter(value=2.0, vary="jit" + s in free)
        likes.append(like)
    post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes))
    dist = {}
    box = dict(jit_j=(0.1, 9.0), logk1=(0.0, 3.0), tc1=(0.0, 10.0), tp1=(0.0, 9.0), k1=(0.1, 20.0), e1=(0.0, 0.6),
               w1=(-3.0, 3.0), secosw1=(-0.5, 0.5), sesinw1=(-0.5, 0.5), dvdt=(-0.1, 0.1))
    for n in free:
        if n in box:
            lo, hi = box[n]
            dist[n] = (radvel.prior.HardBounds(n, lo, hi), st.uniform(lo, hi - lo))
        else:
            dist[n] = (radvel.prior.Gaussian(n, 0.5, 3.0), st.norm(0.5, 3.0))
    post.priors = [dist[n][0] for n in sorted(free) if not (kind == "improper" and n == "jit_j")]
    if kind in ("extra", "eight"):
        post.priors.append(radvel.prior.EccentricityPrior(1, upperlims=0.3))
        if kind == "extra":
            post.priors.append(radvel.prior.SecondaryEclipsePrior(1, 8.0, 0.7))
    return post, {n: d[1] for n, d in dist.items()}


def expected(post, dist, us, names):
    """Prior transform by the quantiles; likelihood and log-probability by named parameters."""
    xs = np.column_stack([dist[n].ppf(us[:, i]) for i, n in enumerate(names)])
    ls, lp = [], []
    for x in xs:
        post.likelihood.set_vary_params(x)
        post.vector.vector_to_dict()
        ll = float(post.likelihood.logprob())
        extra = sum(float(p(post.params, post.vector)) for p in post.priors if p.extra_constraint)
        other = sum(float(p(post.params, post.vector)) for p in post.priors if not p.extra_constraint)
        ls.append(ll + extra)
        lp.append(ll + extra + other)
    return xs, np.array(ls), np.array(lp)


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[os.path.relpath(d, root) + "/"] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                out[os.path.relpath(os.path.join(d, f), root)] = fh.read()
    return out


def settings(r, real):
    s = r["sampler"]
    table = REAL if real else PLAIN
    sk, rk = copy.deepcopy(table[s]) if r["opts"] == ["plain"] else (None, None)
    if r["opts"] == ["empty"]:
        sk, rk = {}, {}
    elif r["opts"] not in (["none"], ["plain"]):
        where, name = r["opts"]
        sk, rk = ({name: VALUES[name]}, None) if where == "sampler" else (None, {name: VALUES[name]})
    return sk, rk


def run(ctx, case):
    import radvel
    import radvel.nested_sampling as ns
    real = bool(case.get("real"))
    rng = ctx.nprng("c14", case["id"])
    top = tempfile.mkdtemp(dir=ctx.workdir)
    work, temp = os.path.join(top, "cwd"), os.path.join(top, "tmp")
    os.makedirs(os.path.join(work, "tmpdir"))
    os.mkdir(temp)
    with open(os.path.join(work, "tmpdir", "mine.txt"), "w") as fh:
        fh.write("mine")
    old = os.getcwd(), tempfile.tempdir
    os.chdir(work)
    tempfile.tempdir = temp
    nested.MODE[0] = "real" if real else "fake"
    try:
        replay(ctx, case, ns, radvel, rng, real, work, temp)
    finally:
        nested.MODE[0] = "fake"
        os.chdir(old[0])
        tempfile.tempdir = old[1]
        shutil.rmtree(top, ignore_errors=True)


def replay(ctx, case, ns, radvel, rng, real, work, temp):
    out = "out" if rng.integers(2) else os.path.join(work, "sub", "out")
    full = os.path.join(work, out)
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    dicts, posts = {}, {}
    reuse = bool(rng.integers(2))
    for n, s in enumerate(case["hist"], 1):
        what = "step %d of %s" % (n, [h["act"] if h["act"] == "mkdir" else (
            h["r"]["name"], h["r"]["post"], h["r"]["opts"],
            "".join(k for k in ("out ", "ow ", "pr ", "crash") if h["r"][k.strip()])) for h in case["hist"][:n]])
        if s["act"] == "mkdir":
            os.makedirs(full)
            with open(os.path.join(full, "note.txt"), "w") as fh:
                fh.write("a note")
            continue
        r = s["r"]
        k = (r["sampler"], repr(r["opts"]))
        if k not in dicts:
            dicts[k] = settings(r, real)
        sk, rk = dicts[k]
        given = copy.deepcopy((sk, rk))
        if not reuse or r["post"] not in posts:
            posts[r["post"]] = make(r["post"], seed)[0]
        post = posts[r["post"]]
        kw = dict(overwrite=r["ow"], proceed=r["pr"], sampler=r["name"], sampler_kwargs=sk, run_kwargs=rk)
        if r["name"] == "ultranest" and rng.integers(2):
            del kw["sampler"]                           # the default sampler
        if r["out"]:
            kw["output_dir"] = out
        before, temps = tree(work), os.listdir(temp)
        nested.CALLS.clear()
        nested.RUN.update(id=n, crash=r["crash"])
        res, err = None, None
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                res = ns.run(post, **kw)
        except nested.Stop:
            err = "interrupted"
        except (ValueError, TypeError, FileExistsError) as e:
            if not s["why"]:
                raise
            err = "%s: %s" % (type(e).__name__, e)
        after = tree(work)
        ctx.eq("the caller's options", (sk, rk), given, what)
        if s["why"]:
            ctx.true("a run that must not be is refused", err not in (None, "interrupted"), "%s: %s" % (what, s["why"]))
            ctx.eq("samplers started by a refused run", len(nested.CALLS), 0, what)
            ctx.eq("files changed by a refused run", sorted(f for f in set(before) | set(after)
                                                            if before.get(f) != after.get(f)), [], what)
            for w in s["why"]:
                ctx.count("refused: " + w)
            continue
        inside = os.path.relpath(full, work) + os.sep
        ctx.eq("files changed outside the output directory", sorted(
            f for f in set(before) | set(after) if not (f + "/").startswith(inside) and not inside.startswith(f) and
            (f not in before or f not in after or before[f] != after[f])), [], what)
        if not r["crash"]:
            ctx.eq("temporary files left", sorted(os.listdir(temp)) if not real else [], sorted(temps) if not real else [], what)
        if not r["out"]:
            ctx.eq("files made without an output directory", sorted(after), sorted(before), what)
        note = os.path.join(inside, "note.txt")
        if note in before:
            ctx.eq("other files in the output directory", after.get(note), before[note], what)
        rfile = os.path.join(full, "results.hdf5")
        if r["crash"]:
            ctx.eq("an interrupted run", err, "interrupted", what)
            rel = os.path.join(inside, "results.hdf5")
            ctx.eq("results after an interrupted run", after.get(rel), before.get(rel), what)
            ctx.count("interrupted")
        fresh, dist = make(r["post"], seed)
        names = list(fresh.name_vary_params())
        ctx.eq("free parameters", sorted(names), sorted(s["free"]), what)
        if not real:
            told(ctx, s, names, given, full if r["out"] else None, what)
        if r["crash"]:
            continue
        df = res["samples"]
        ctx.eq("columns", list(df.columns), names + ["lnprobability"], what)
        if not real:
            rec = nested.CALLS[0]
            us = nested.cube(s["lineage"], len(names))
            xs, ls, lp = expected(fresh, dist, us, names)
            ctx.close("prior transform given to the sampler", rec["xs"], xs, 1e-9, 1e-9, what)
            fin = np.isfinite(ls)
            ctx.close("likelihood given to the sampler", rec["ls"][fin], ls[fin], 1e-9, 1e-9, what)
            ctx.true("likelihood of excluded points", np.all(rec["ls"][~fin] <= -1e90), "%s: %s" % (what, rec["ls"]))
            if rec["class"] != "multinest":
                ctx.eq("points of the cube changed by the transform", any(rec["changed_u"]), False, what)
            ctx.close("samples", df[names].values, rec["xs"], 0, 0, what)
            z, e = nested.answers(s["lineage"])
            ctx.close("evidence", [res["lnZ"], res["lnZerr"]], [z, e], 1e-12, 0, what)
            ctx.count("excluded points", int(np.sum(~fin)))
        else:
            lp = []
            for x in df[names].values[:20]:
                lp.append(fresh.logprob_array(np.array(x)))
            lp = np.array(lp)
            ctx.true("evidence", np.isfinite([res["lnZ"], res["lnZerr"]]).all(), what)
            ctx.true("some samples", len(df) > 5, what)
            ctx.count("real " + r["sampler"])
        got = np.asarray(df["lnprobability"].values[:len(lp)], float)
        fin = np.isfinite(lp)
        ctx.close("log-probabilities", got[fin], lp[fin], 1e-9, 1e-8, what)
        ctx.eq("excluded samples", list(np.isfinite(got)), list(fin), what)
        ctx.eq("result", sorted(set(res) - {"sampler"}), ["lnZ", "lnZerr", "samples"], what)
        if r["sampler"] != "multinest":
            ctx.true("the sampler is in the result", "sampler" in res, what)
        if r["out"]:
            back = ns.load_results(rfile)
            ctx.eq("loaded", sorted(back), ["lnZ", "lnZerr", "samples"], what)
            ctx.close("evidence loaded", [back["lnZ"], back["lnZerr"]], [float(res["lnZ"]), float(res["lnZerr"])],
                      0, 0, what)
            ctx.eq("columns loaded", list(back["samples"].columns), names + ["lnprobability"], what)
            ctx.true("samples loaded", np.array_equal(back["samples"].values, df.values, equal_nan=True), what)
            ctx.count("loaded")
        if s["resumes"]:
            ctx.count("resumed")
        ctx.count("finished " + r["sampler"])
    # what is on the disk at the end is what the specification says
    d = case["hist"][-1]["dir"]
    ctx.eq("output directory exists", os.path.isdir(full), d["dir"], what)
    ctx.eq("results exist", os.path.exists(os.path.join(full, "results.hdf5")), bool(d["results"]), what)
    if not real and d["dir"]:
        for k, path in (("dynesty", "sampler.save"), ("ultranest", "chains/points.json"),
                        ("nautilus", "nautilus_output.hdf5"), ("multinest", "outresume.json")):
            p = os.path.join(full, path)
            ctx.eq("checkpoint", nested.load(p) if os.path.exists(p) else [], d["ckpt"][k], "%s: %s" % (what, k))


def told(ctx, s, names, given, full, what):
    """One run of the right sampler, with the caller's options, the reserved ones, and nothing else."""
    r, t = s["r"], s["told"]
    ctx.eq("runs of the sampler", len(nested.CALLS), 1, what)
    rec = nested.CALLS[0]
    sk, rk = (dict(x or {}) for x in given)
    kind = {"dynesty-static": "NestedSampler", "dynesty-dynamic": "DynamicNestedSampler"}.get(
        r["sampler"], r["sampler"])
    ctx.eq("sampler", rec["class"], kind, what)
    ctx.eq("lineage of the run", rec["lineage"], s["lineage"], what)
    yes = {"yes": True, "no": False}.get(t["resume"], t["resume"])
    path = lambda p: None if p is None else os.path.relpath(os.path.abspath(p), os.path.dirname(full) if full else ".")
    where = lambda f: None if full is None else os.path.join(os.path.basename(full), f).rstrip("/")
    if r["sampler"] == "multinest":
        run = dict(rec["run"])
        base = run.pop("outputfiles_basename")
        if full is not None:
            ctx.eq("output directory given to multinest", path(os.path.dirname(base)), where(""), what)
        want = nested.MULTINEST.bind(None, None, len(names), outputfiles_basename="", resume=yes, **rk)
        want.apply_defaults()
        want = dict(want.arguments)
        for k in ("LogLikelihood", "Prior"):
            run.pop(k), want.pop(k)
        want.pop("outputfiles_basename")
        n = run.pop("n_params")
        ctx.true("number of parameters", n in (None, len(names)), "%s: %s" % (what, n))
        want.pop("n_params")
        ctx.eq("options of the run", run, want, what)
        return
    import inspect
    real = nested.REAL[{"ultranest": "ReactiveNestedSampler", "nautilus": "Sampler"}.get(r["sampler"], kind)]
    method = real.run_nested if "dynesty" in r["sampler"] else real.run
    run = dict(rec["run"])
    if "dynesty" in r["sampler"]:
        rk["resume"] = yes
        f = path(run.pop("checkpoint_file"))
        if full is not None or f is not None:
            ctx.eq("checkpoint file", f, where("sampler.save"), what)
        ctx.eq("restored from", path(rec["restored"]), where("sampler.save") if s["resumes"] else None, what)
    if r["sampler"] == "nautilus":
        rk.setdefault("verbose", t["verbose"] == "yes")
    want = inspect.signature(method).bind(None, **rk)
    want.apply_defaults()
    want = {k: v for k, v in want.arguments.items() if k not in ("self", "checkpoint_file")}
    ctx.eq("options of the run", run, want, what)
    if rec["made"] is not None:
        made = dict(rec["made"])
        if r["sampler"] == "ultranest":
            args = (list(names), None, None)
            sk.update(resume=yes, wrapped_params=[n in s["wraps"] for n in names])
            ctx.eq("output directory", path(made.pop("log_dir")), where(""), what)
            made["param_names"] = list(made["param_names"])
            made["wrapped_params"] = [bool(x) for x in made["wrapped_params"]]
            st = rec["step"]
            ctx.eq("steps of the step sampler", 0 if st is None else st.nsteps, s["step"], what)
            ctx.count("step sampler", int(s["step"] > 0))
            if st is not None:
                import ultranest.stepsampler as us
                ctx.eq("step sampler", (type(st).__name__, st.generate_direction),
                       ("SliceSampler", us.generate_mixture_random_direction), what)
        elif r["sampler"] == "nautilus":
            args = (None, None, len(names))
            sk["resume"] = yes
            ctx.eq("checkpoint file", path(made.pop("filepath")), where("nautilus_output.hdf5"), what)
        else:
            args = (None, None, len(names))
        want = inspect.signature(real).bind(*args, **sk)
        want.apply_defaults()
        skip = ("loglike", "transform", "loglikelihood", "prior_transform", "prior", "likelihood", "log_dir", "filepath")
        ctx.eq("options of the sampler", {k: v for k, v in made.items() if k not in skip},
               {k: v for k, v in want.arguments.items() if k not in skip}, what)


def coverage_check(ctx):
    need = ["interrupted", "loaded", "resumed", "step sampler", "excluded points", "real dynesty-static",
            "real dynesty-dynamic", "real ultranest", "real nautilus"]
    need += ["finished " + s for s in PLAIN] + ["refused: " + w for w in (
        "priors", "sampler", "exists", "reserved", "directory")]
    for k in need:
        if not ctx.counts.get(k):
            raise core.MachineryError("C14 never reached %r" % k)
