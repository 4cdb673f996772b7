"""C19: loading a setup file.  TLC enumerates every setup (data tables, declared instruments, noise
models, columns to decorrelate against, logarithmic jitters, refused setups) with the likelihoods
it must yield, and checks that every row of a declared instrument is used exactly once; each is
written out with all kinds of row labels and loaded, and instruments, rows, noise models,
parameters, priors and the density compared with the same model built directly.  Every history of
loading, editing and rewriting two files of the same name is replayed."""
import os
import shutil
import tempfile

import numpy as np

import core
import fixtures as fx
import setups

CFG = """
CONSTANTS
 Part = "%s"
 MaxRows = %d
 Depth = %d
SPECIFICATION Spec
INVARIANTS Equal Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
"""
BASES = ["per tc secosw sesinw logk", "per tc secosw sesinw k", "per tc e w k", "per tp e w k",
         "logper tc secosw sesinw k", "logper tc secosw sesinw logk", "per tc ecosw esinw k", "logper tp e w logk"]


def generate(ctx):
    n = ctx.pick(4, 5)
    terms = core.run_tlc(ctx, "CheckC19", CFG % ("terms", n, 1), workers=6).lines
    key = lambda r: repr(sorted(map(repr, r["setup"].items())))
    terms.sort(key=key)
    rng = ctx.rng("c19")
    groups = {}
    for r in terms:
        c = r["setup"]
        groups.setdefault((repr(c["insts"]), c["noise"], c["second"], c["shared"], repr(c["decorr"]), c["asked"],
                           repr(sorted(c["logjit"])), c["match"], c["missing"], r["refused"]), []).append(r)
    out = []
    for _, g in sorted(groups.items()):
        out += rng.sample(g, min(len(g), ctx.pick(8, 60)))
    hists = core.run_tlc(ctx, "CheckC19", CFG % ("hist", 1, ctx.pick(4, 5)), workers=6).lines
    hists.sort(key=repr)
    hists = rng.sample(hists, min(len(hists), ctx.pick(250, 3000)))
    for i in range(0, len(out), 4):
        yield {"id": i, "terms": out[i:i + 4]}
    fine = [r for r in out if not r["refused"]]
    for i, h in enumerate(hists):
        yield {"id": "h%d" % i, "hist": h, "contents": [rng.choice(fine) for _ in range(3)]}


HYP = dict(gp_length=9.0, gp_amp=3.0, gp_per=12.0, gp_perlength=0.6, gp_explength=20.0,
           gp_B=4.0, gp_C=0.1, gp_L=8.0, gp_Prot=12.0)


def content(rec, rng):
    """Fill a setup with numbers: what is written, and the declared parameters."""
    c = rec["setup"]
    basis = BASES[int(rng.integers(len(BASES)))]
    npl = int(rng.integers(1, 3))
    decl = {}                               # key -> (value, vary, linear, scale)

    def declare(k, v, linear=False):
        scale = None if rng.integers(3) else float(rng.uniform(0.01, 2))
        decl[k] = (float(v), bool(rng.integers(2)), linear, scale)

    for i in range(1, npl + 1):
        for k, v in fx.planet_env(basis, i, fx.orbit_values(rng)).items():
            declare(k, v)
    declare("dvdt", rng.uniform(-0.1, 0.1))
    declare("curv", rng.uniform(-1e-3, 1e-3))
    used = list(c["insts"]) + [t for t in ("j", "k", "x") if t not in c["insts"] and rng.integers(2)]
    for t in used:
        if t != c["missing"]:
            lin = bool(c["noise"] == "white" and rng.integers(3) == 0)
            declare("gamma_" + t, rng.uniform(-5, 5), lin)
            if lin:
                decl["gamma_" + t] = decl["gamma_" + t][:1] + (False,) + decl["gamma_" + t][2:]
        jit = float(rng.uniform(0.5, 2))
        if t in c["logjit"]:
            decl["logjit_" + t] = (float(np.log(jit)), bool(rng.integers(2)), False, None)
        else:
            declare("jit_" + t, jit)
    hnames, kernels = {}, {}
    for l in rec["want"]["likes"]:
        if l["kernel"]:
            hnames[l["inst"]] = list(l["hnames"])
            kernels[l["inst"]] = l["kernel"]
            for h in l["hnames"]:
                if h not in decl:
                    declare(h, HYP["_".join(h.split("_")[:2])] * rng.uniform(0.7, 1.3))
    if c["noise"] != "white" and not hnames:       # a refused one
        for t in c["insts"]:
            hnames[t] = list(HYP)[:2]
        for h in list(HYP)[:2]:
            declare(h, 1.0)
    for l in rec["want"]["likes"]:
        for k in l["coefs"]:
            if rng.integers(3) == 0:
                declare(k, rng.uniform(-1, 1))
    n = len(c["rows"])
    data = {"time": [float(v) for v in np.round(rng.uniform(0, 60, n), 3)],
            "mnvel": [float(v) for v in rng.normal(0, 10, n)],
            "errvel": [float(v) for v in 10 ** rng.uniform(-1.3, 0.7, n)], "tel": list(c["rows"])}
    if n > 1 and rng.integers(4) == 0:
        data["time"][1] = data["time"][0]
    if rng.integers(2) or c["decorr"]:
        for col in ("bis", "sval"):
            data[col] = [float(v) for v in rng.normal(0, 1, n)]
    cols = list(data)
    rng.shuffle(cols)
    index = [None, [3] * n, list(range(n))[::-1], ["r%d" % (i % 2) for i in range(n)],
             [0.5 * i for i in range(n)], list(range(1, n)) + [0]][int(rng.integers(6))]
    keys = list(decl)
    order = [keys[i] for i in rng.permutation(len(keys))] if rng.integers(2) else keys
    other = [b for b in BASES if b != basis][int(rng.integers(len(BASES) - 1))]
    pri = []
    for k in sorted(decl):
        if decl[k][1] and not k.startswith("logjit") and rng.integers(2):
            pri.append(("Gaussian", k, float(rng.uniform(-1, 1)), float(rng.uniform(1, 3))))
    if rng.integers(2):
        pri.insert(int(rng.integers(len(pri) + 1)), ("EccentricityPrior", npl))
    s = {"np": npl, "basis": basis, "fitting_basis": basis if c["match"] else other, "instnames": list(c["insts"]),
         "tb": float(rng.uniform(0, 60)), "data": {k: data[k] for k in cols}, "index": index,
         "params": [(k,) + decl[k] for k in order], "decorr_vars": list(c["decorr"]) if c["decorr"] else None,
         "hnames": hnames or None, "kernel_name": kernels if c["noise"] not in ("white", "default") else None,
         "extra": "priors = [%s]" % ", ".join("radvel.prior.%s(%s)" % (p[0], ", ".join(map(repr, p[1:]))) for p in pri)}
    return {"rec": rec, "setup": s, "decl": decl, "data": data, "priors": pri}


TICK = [1_500_000_000]


def write(path, c):
    setups.write_setup(path, c["setup"])
    TICK[0] += 10
    os.utime(path, (TICK[0], TICK[0]))          # a file is never rewritten within a second


def expected_params(c):
    want = {}
    for k, (v, vary, lin, scale) in c["decl"].items():
        if k.startswith("logjit_"):
            want[k[3:]] = (float(np.exp(v)), vary, lin, scale)
        else:
            want[k] = (v, vary, lin, scale)
    for k in c["rec"]["want"]["extra"]:
        want.setdefault(k, (0.0, True, False, None))
    return want


def direct(c):
    """The declared model built without the loader."""
    import radvel
    params = radvel.Parameters(c["setup"]["np"], basis=c["setup"]["basis"])
    for k, (v, vary, lin, scale) in expected_params(c).items():
        params[k] = radvel.Parameter(value=v, vary=vary, linear=lin, mcmcscale=scale)
    mod = radvel.RVModel(params, time_base=c["setup"]["tb"])
    likes = []
    for l in c["rec"]["want"]["likes"]:
        rows = [r - 1 for r in l["rows"]]
        t, v, e = (np.array(c["data"][k])[rows] for k in ("time", "mnvel", "errvel"))
        if l["kernel"]:
            cls = getattr(radvel.likelihood, l["class"])
            likes.append(cls(mod, t, v, e, hnames=list(l["hnames"]), suffix="_" + l["inst"], kernel_name=l["kernel"]))
        else:
            cols = [k[3:-len(l["inst"]) - 1] for k in l["coefs"]]
            likes.append(radvel.likelihood.RVLikelihood(
                mod, t, v, e, suffix="_" + l["inst"], decorr_vars=cols,
                decorr_vectors={k: np.array(c["data"][k])[rows] for k in cols}))
    post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes))
    post.priors = [getattr(radvel.prior, p[0])(*p[1:]) for p in c["priors"]]
    return post


def compare(ctx, P, post, c, what):
    rec = c["rec"]
    want = rec["want"]
    likes = post.likelihood.like_list
    ctx.eq("instruments", [l.suffix.lstrip("_") for l in likes], [l["inst"] for l in want["likes"]], what)
    for l, w in zip(likes, want["likes"]):
        rows = [r - 1 for r in w["rows"]]
        at = "%s: %s" % (what, w["inst"])
        got = [tuple(map(float, v)) for v in zip(l.x, l.y, l.yerr)]
        rows3 = [tuple(c["data"][k][r] for k in ("time", "mnvel", "errvel")) for r in rows]
        if w["kernel"] == "Celerite":                 # which needs its data in order of time
            got, rows3 = sorted(got), sorted(rows3)
        ctx.eq("rows of an instrument", got, rows3, at)
        ctx.eq("labels of an instrument", list(l.telvec), [w["inst"]] * len(rows), at)
        ctx.eq("kind of likelihood", type(l).__name__, w["class"], at)
        if w["kernel"]:
            ctx.eq("kernel", type(l.kernel).__name__, w["kernel"] + "Kernel", at)
            ctx.eq("hyperparameters", list(l.hnames), list(w["hnames"]), at)
        else:
            ctx.eq("decorrelation", list(l.decorr_params), list(w["coefs"]), at)
            for k in w["coefs"]:
                col = k[3:-len(w["inst"]) - 1]
                ctx.eq("column to decorrelate against", [float(v) for v in l.decorr_vectors[col]],
                       [c["data"][col][r] for r in rows], at)
    ctx.eq("points", [float(v) for v in post.likelihood.x], [float(v) for l in likes for v in l.x], what)
    ctx.eq("labels", list(post.likelihood.telvec), [l["inst"] for l in want["likes"] for _ in l["rows"]], what)
    model = post.likelihood.model
    ctx.eq("basis", (str(post.params.basis.name), model.num_planets), (c["setup"]["basis"], c["setup"]["np"]), what)
    ctx.close("reference time", model.time_base, c["setup"]["tb"], 0, 0, what)
    wp = expected_params(c)
    ctx.true("every declared noise parameter", set(want["noise"]) <= set(wp), "%s: %s" % (what, sorted(want["noise"])))
    for params, at in ((post.params, "posterior"), (model.params, "model")):
        ctx.eq("parameters", sorted(params), sorted(wp), "%s: %s" % (what, at))
        for k, (v, vary, lin, scale) in wp.items():
            p = params[k]
            ctx.close("value", p.value, v, 1e-14, 0, "%s: %s of the %s" % (what, k, at))
            ctx.eq("flags", (bool(p.vary), bool(p.linear)), (vary, lin), "%s: %s of the %s" % (what, k, at))
            ctx.eq("step size", p.mcmcscale, scale, "%s: %s of the %s" % (what, k, at))
    ctx.eq("priors", [type(p).__name__ for p in post.priors], [p[0] for p in c["priors"]], what)
    d = direct(c)
    ctx.eq("free parameters", sorted(post.name_vary_params()), sorted(d.name_vary_params()), what)
    for clause, f in (("log-likelihood", lambda q: q.likelihood.logprob()), ("log-probability", lambda q: q.logprob())):
        a, b = f(post), f(d)
        if np.isfinite(b):
            ctx.close(clause, a, b, 1e-9, 1e-9, what)
        else:
            ctx.eq(clause, np.isfinite(a), False, what)
    ctx.close("residuals", post.likelihood.residuals(), d.likelihood.residuals(), 1e-8, 1e-8, what)
    if P is not None:
        ctx.eq("table", [list(P.data[k]) for k in ("time", "tel")], [c["data"]["time"], c["data"]["tel"]], what)
    ctx.count("compared")
    ctx.count("kind " + "+".join(sorted({l["class"] for l in want["likes"]})))


def load(ctx, path, c, rng):
    import warnings
    import radvel
    if rng.integers(2):
        path = os.path.relpath(path)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return radvel.utils.initialize_posterior(path, decorr=c["rec"]["setup"]["asked"])


def edit(P, post, rng):
    """Change everything that can be reached from one posterior."""
    for k in list(post.params):
        post.params[k].value = float(post.params[k].value) + 1.0
        post.params[k].vary = not post.params[k].vary
    post.vector.dict_to_vector()
    for l in post.likelihood.like_list:
        l.x += 3
        l.y *= 2
        l.yerr += 1
    post.priors.append("more")
    P.data.iloc[:, :] = P.data.iloc[::-1, :].values
    P.params.clear()
    P.instnames.append("z")


def run(ctx, case):
    rng = ctx.nprng("c19", case["id"])
    top = tempfile.mkdtemp(dir=ctx.workdir)
    old = os.getcwd()
    os.chdir(top)
    try:
        if "terms" in case:
            for i, rec in enumerate(case["terms"]):
                c = content(rec, rng)
                path = os.path.join(top, "set%d.py" % i)
                write(path, c)
                what = "%s, rows labelled %s" % (rec["setup"], c["setup"]["index"])
                if rec["refused"]:
                    try:
                        load(ctx, path, c, rng)
                    except Exception as e:
                        ctx.count("refused with " + type(e).__name__)
                        ctx.count("refused")
                        continue
                    ctx.true("a wrong setup is refused", False, what)
                    continue
                P, post = load(ctx, path, c, rng)
                compare(ctx, P, post, c, what)
        else:
            history(ctx, case, rng, top)
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


def history(ctx, case, rng, top):
    contents = [content(r, rng) for r in case["contents"]]
    path = {}
    for i, f in enumerate("AB"):
        os.mkdir(os.path.join(top, f))
        path[f] = os.path.join(top, f, "star.py")          # the same module name
        write(path[f], contents[i])
    now = {"A": 0, "B": 1}
    loaded = []
    for n, s in enumerate(case["hist"]):
        what = "%s, contents %s" % ([(h["act"], h["f"], h["i"]) for h in case["hist"][:n + 1]],
                                    [c["rec"]["setup"] for c in contents])
        if s["act"] == "write":
            now[s["f"]] = s["i"] - 1
            write(path[s["f"]], contents[s["i"] - 1])
        elif s["act"] == "load":
            ctx.eq("content loaded", now[s["f"]] + 1, s["posts"][-1]["of"], what)
            loaded.append(load(ctx, path[s["f"]], contents[now[s["f"]]], rng))
            ctx.count("loaded again", int(len(loaded) > 1))
        else:
            edit(*loaded[s["i"] - 1], rng)
        for (P, post), w in zip(loaded, s["posts"]):
            if not w["edited"]:
                compare(ctx, P, post, contents[w["of"] - 1], what)
    ctx.count("histories")


def coverage_check(ctx):
    for k in ("compared", "refused", "histories", "loaded again", "kind RVLikelihood", "kind GPLikelihood",
              "kind CeleriteLikelihood", "kind CeleriteLikelihood+GPLikelihood"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C19 never reached %r" % k)
