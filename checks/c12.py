"""C12: what a Markov-chain run returns, saves and continues.  TLC explores every session of runs over
two files (saving, continuing, interrupted, of other shapes) and checks that files hold whole runs
and are only replaced by the run that saves to them; each session is replayed with the real mcmc(),
every step of every walker recorded, and the rows returned, their log-probabilities under a freshly
built posterior, the columns, thinning, the contents of every file after every run, the starting
positions of continued runs, and refusals compared."""
import contextlib
import io
import os

import numpy as np

import c11
import chains
import core
import terms

ASSUMPTIONS = ["runs are serial (the recorded steps must be in this process); parallel runs are in C11"]
SHAPES = {"same": (2, 8, 0), "ens": (3, 8, 0), "walk": (2, 10, 0), "dim": (2, 8, 1)}


def before_import(ctx):
    chains.install()


CFG = """
CONSTANTS
 Depth = %d
 Wide = %s
SPECIFICATION Spec
INVARIANTS Whole Emit
PROPERTIES Continues OtherFilesStay
CHECK_DEADLOCK FALSE
"""


def generate(ctx):
    two = core.run_tlc(ctx, "CheckC12", CFG % (2, "TRUE"), workers=6).lines
    kills = sorted((r["kill"] for r in two if isinstance(r, dict) and "kill" in r), key=repr)
    tm, walkers = [(r["terms"], r["walkers"]) for r in two if isinstance(r, dict) and "terms" in r][0]
    two = [r for r in two if isinstance(r, list)]
    deep = [r for r in core.run_tlc(ctx, "CheckC12", CFG % (3, "FALSE"), workers=6).lines
            if isinstance(r, list)]
    rng = ctx.rng("c12")
    key = lambda h: repr([sorted(map(repr, s["do"].items())) for s in h])
    two.sort(key=key)
    deep.sort(key=key)
    hists = rng.sample(two, min(len(two), ctx.pick(250, 3000)))
    good = [h for h in deep if sum(s["out"] != "refused" and s["do"]["proceed"] != "" for s in h) >= 2]
    hists += rng.sample(good, min(len(good), ctx.pick(180, 3000)))
    hists += rng.sample(deep, min(len(deep), ctx.pick(60, 2000)))
    # a shorter run of fewer ensembles over a file of more, then continued
    over = [h for h in deep if h[0]["do"]["shape"] == "ens" and h[1]["do"]["shape"] == "same" and
            h[0]["do"]["save"] and h[0]["do"]["save"] == h[1]["do"]["save"] and
            h[1]["do"]["proceed"] == "" and h[2]["do"]["proceed"] == h[1]["do"]["save"]]
    hists += rng.sample(over, min(len(over), ctx.pick(30, 400)))
    for i, h in enumerate(hists):
        yield {"id": i, "hist": h, "terms": tm, "walkers": walkers}
    for i in range(ctx.pick(72, 1200)):
        yield {"id": "k%d" % i, "kill": kills[i % len(kills)], "n": i}


def make(seed, extra):
    """The posterior of the session, with one more free parameter in the other shape."""
    import radvel
    rng = np.random.default_rng(seed)
    params = radvel.Parameters(1, basis="per tc secosw sesinw logk")
    for k, v in dict(per1=10.0, tc1=3.0, secosw1=0.2, sesinw1=0.1, logk1=2.0).items():
        params[k] = radvel.Parameter(value=v, vary=k == "logk1")
    params["dvdt"] = radvel.Parameter(value=0.02, vary=bool(extra))
    params["curv"] = radvel.Parameter(value=0.0, vary=False)
    likes = []
    mod = radvel.RVModel(params, time_base=20.0)
    for s in ("_j", "_k"):
        t = np.sort(rng.uniform(0, 60, 5))
        like = radvel.likelihood.RVLikelihood(mod, t, rng.normal(0, 8, 5), rng.uniform(1, 2, 5), suffix=s)
        like.params["gamma" + s] = radvel.Parameter(value=1.0, vary=s == "_k")
        like.params["jit" + s] = radvel.Parameter(value=2.0, vary=s == "_j")
        likes.append(like)
    post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes))
    post.priors = [radvel.prior.HardBounds("jit_j", 0.0, 50.0), radvel.prior.Gaussian("gamma_k", 0, 3)]
    return post


def read(path):
    import h5py
    if not os.path.exists(path):
        return None
    with h5py.File(path, "r") as f:
        return {k: np.array(f[k]) for k in f.keys()}


def same(a, b):
    if a is None or b is None:
        return not a and not b
    return sorted(a) == sorted(b) and all(np.array_equal(a[k], b[k]) for k in a)


def killed(ctx, case):
    """A run whose process is killed at a random instant: the same run is first made whole, to know
    its samples (both start from the same random state), then in a child that is killed."""
    import radvel
    k = case["kill"]
    rng = ctx.nprng("c12k", case["id"])
    seed = int(rng.integers(2 ** 31))
    path = os.path.join(ctx.workdir, "K.h5")
    if os.path.exists(path):
        os.remove(path)
    kw = dict(nwalkers=8, ensembles=2, checkinterval=2, minsteps=0, minpercent=0, serial=True,
              minAfactor=c11.MIN_A, burnAfactor=c11.BURN_A, burnGR=0.0, maxGR=1e9, minTz=-1e9,
              maxArchange=1.0, headless=True, save=True)
    what = "first %s then %s" % (k["first"], k["plan"])

    def go(plan, nrun, save, proceed, kill_at=None):
        owns, own, burned = [], 0, False
        if proceed:
            f = read(proceed)
            own, burned = len(f["0_chain"]), bool(f["burned"][0])
        for v in plan:
            own += 2
            owns.append(own)
            if not burned and v != "low":
                own, burned = 0, True
        script = c11.Script(ctx, plan, owns, 2, 3, np.random.default_rng(seed))
        post = make(seed, 0)
        ctx.eq("free parameters of the killed run", len(post.name_vary_params()), 3)
        np.random.seed(seed % 1000)
        chains.begin(tau=script)
        chains.kill(kill_at)
        with contextlib.redirect_stdout(io.StringIO()):
            radvel.mcmc(post, nrun=nrun, savename=save, **dict(kw, **(dict(
                proceed=True, proceedname=proceed) if proceed else {})))
        chains.end()

    drawn = {}

    def take(n, rounds):
        for rd in range(1, rounds + 1):
            drawn[n, rd] = [chains.steps(e)[0][(rd - 1) * 2:rd * 2] for e in range(2)]

    first = None
    if k["first"]:
        go(k["first"], 4, path, None)
        take(1, 2)
        first = read(path)
    whole = os.path.join(ctx.workdir, "W.h5")
    if os.path.exists(whole):
        os.remove(whole)
    chains.watch(True)
    go(k["plan"], 6, whole, path if k["first"] else None)
    take(2, 3)
    marks = chains.watch(False)
    at = int(rng.integers(1, len(marks) + 1))
    done = 0               # rounds whose saving was over when the kill came
    steps = 0
    for m in marks[:at - 1]:
        if m == "step":
            steps += 1
    started = (steps + 3) // 4
    in_save = at - 1 > 0 and steps % 4 == 0 and marks[at - 1] == "save"
    lo = started - 1 if steps % 4 or in_save else started
    lo = max(lo, 0)
    hi = started if steps % 4 == 0 else lo
    pid = os.fork()
    if pid == 0:
        try:
            go(k["plan"], 6, path, path if k["first"] else None, kill_at=at)
        finally:
            os._exit(3)
    status = os.waitpid(pid, 0)[1]
    ctx.true("the run was killed", os.WIFSIGNALED(status), "%s at %d of %d" % (what, at, len(marks)))
    try:
        got = read(path)
    except OSError as e:
        ctx.true("the file can be read after a kill", False, "%s, killed at %d of %d events: %s" % (
            what, at, len(marks), e))
    ok = []
    for n in range(lo, hi + 1):
        if n == 0:
            if same(got, first):
                ok.append(n)
            continue
        st = k["states"][n - 1]
        if got and len(got) == 12 and all(np.array_equal(got["%d_chain" % e], np.concatenate(
                [drawn[tuple(i)][e] for i in st["kept"]])) for e in range(2)) and \
                int(got["burned"][0]) == (st["nburn"] * 16 if st["burned"] else 0):
            ok.append(n)
    ctx.true("a killed run leaves the last whole round", ok, "%s, killed at %d of %d events (%s): "
             "expected the state after %d to %d rounds, file holds %s" % (
                 what, at, len(marks), marks[at - 1], lo, hi,
                 None if not got else {n: v.shape for n, v in got.items()}))
    if got:
        go(["low"], 2, path, path)
        ctx.true("a killed run can be continued", np.array_equal(
            read(path)["1_chain"][:len(got["1_chain"])], got["1_chain"]), what)
        ctx.count("killed and continued")
    ctx.count("killed while " + ("saving" if marks[at - 1] == "save" else "sampling"))


def run(ctx, case):
    import radvel
    if "kill" in case:
        return killed(ctx, case)
    rng = ctx.nprng("c12", case["id"])
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    where = ctx.workdir
    path = lambda f: os.path.join(where, "%s.h5" % f)
    for f in "AB":
        if os.path.exists(path(f)):
            os.remove(path(f))
    drawn, moved = {}, {}            # (run, round) -> per-ensemble positions, log-probs; accepted
    taus = {}                        # (run, steps a walker had at the check) -> autocorrelation times
    few = bool(rng.integers(3) == 0)         # runs that ask for fewer walkers than they must have
    shared = make(seed, False) if rng.integers(2) else None     # one posterior for all the session
    for n, s in enumerate(case["hist"], 1):
        do = s["do"]
        ens, nw, extra = SHAPES[do["shape"]]
        what = "run %d of %s" % (n, [(h["do"]["save"], h["do"]["proceed"], h["do"]["shape"], h["do"]["plan"],
                                      h["out"]) for h in case["hist"][:n]])
        post = shared if shared is not None and not extra else make(seed, extra)
        names = list(post.name_vary_params())
        ask = int(rng.choice([2, 4, 5])) if few and nw == 8 else nw
        nw = case["walkers"][ask - 1][len(names) - 1]
        before = {f: read(path(f)) for f in "AB"}
        cut = ens * 2 + int(rng.integers(1, ens * 2 + 1)) if do["cut"] else None
        owns = []
        if s["out"] != "refused":
            base = files_own(case["hist"][n - 2]["files"] if n > 1 else None, do["proceed"])
            own, burned = base
            for v in do["plan"][:1 if do["cut"] else 2]:
                own += 2
                owns.append(own)
                if not burned and v != "low":
                    own, burned = 0, True
        script = c11.Script(ctx, do["plan"][:len(owns)], owns, ens, len(names), rng)
        thin = int(rng.integers(1, 4))
        kw = dict(nwalkers=ask, ensembles=ens, nrun=4, checkinterval=2, minsteps=0, minpercent=0,
                  minAfactor=c11.MIN_A, burnAfactor=c11.BURN_A, burnGR=0.0, maxGR=1e9, minTz=-1e9,
                  maxArchange=1.0, serial=True, headless=True, thin=thin)
        if do["save"]:
            kw.update(save=True, savename=path(do["save"]))
        if do["proceed"]:
            kw.update(proceed=True, proceedname=path(do["proceed"]))
        chains.begin(tau=script, stop=cut)
        df, err = None, None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                df = radvel.mcmc(post, **kw)
        except Exception as e:           # KeyboardInterrupt must not leave mcmc()
            err = type(e).__name__
            if s["out"] != "refused":
                raise
            del e
        finally:
            chains.end()
        after = {f: read(path(f)) for f in "AB"}
        if s["out"] == "refused":
            ctx.true("a file of another configuration is refused", err is not None, what)
            for f in "AB":
                ctx.true("a refused file is left as it was", same(before[f], after[f]), "%s: %s" % (what, f))
            ctx.eq("steps taken by a refused run", [len(chains.steps(e)[0]) for e in range(ens)], [0] * ens, what)
            ctx.count("refused")
            continue
        for rd in (1, 2):
            drawn[n, rd] = [[a[(rd - 1) * 2:rd * 2] for a in chains.steps(e)] for e in range(ens)]
            moved[n, rd] = accepted(ens, rd)
        for own, g in zip(owns, script.given):
            taus[n, own] = g
        ctx.count(s["out"])
        if do["proceed"]:
            ctx.count("continued")
            old = before[do["proceed"]]
            for e in range(ens):
                ctx.true("a continued run starts at the saved positions", np.array_equal(
                    chains.starts(e)[0][0], old["%d_chain" % e][-1]), what)
        if s["out"] == "interrupted":
            ctx.true("an interrupted run returns nothing", df is None, what)
        else:
            rows, ln = chains.table(*[[np.concatenate([drawn[tuple(k)][e][j] for k in s["kept"]])
                                       for e in range(ens)] for j in (0, 1)])
            ctx.eq("columns", list(df.columns), names + ["lnprobability"], what)
            ctx.close("rows", df[names].values, rows[::thin], 0, 0, what)
            ctx.close("log-probabilities", df["lnprobability"].values, ln[::thin], 0, 0, what)
            fresh = make(seed, extra)
            pick = rng.choice(len(df), min(len(df), 25), replace=False)
            ctx.close("log-probabilities of the rows", df["lnprobability"].values[pick],
                      [fresh.logprob_array(np.array(v)) for v in df[names].values[pick]], 1e-10, 1e-9, what)
        for f in "AB":
            if f != do["save"]:
                ctx.true("other files stay as they were", same(before[f], after[f]), "%s: %s" % (what, f))
                continue
            st = s["files"][f]["state"]
            got = after[f]
            ctx.eq("datasets saved", sorted(got), sorted(
                ["%d_%s" % (e, x) for e in range(ens) for x in ("chain", "log_prob", "accepted")] +
                ["crit", "autosample", "automin", "automean", "automax", "burned"]), what)
            for e in range(ens):
                c, l = (np.concatenate([drawn[tuple(k)][e][j] for k in st["kept"]]) for j in (0, 1))
                ctx.close("samples saved", got["%d_chain" % e], c, 0, 0, what)
                ctx.close("log-probabilities saved", got["%d_log_prob" % e], l, 0, 0, what)
                ctx.close("acceptances saved", got["%d_accepted" % e],
                          sum(moved[tuple(k)][e] for k in st["kept"]), 0, 0, what)
            ctx.close("burn-in saved", got["burned"], [st["nburn"] * ens * nw if st["burned"] else 0],
                      0, 0, what)
            ctx.eq("autocorrelation history saved", [int(v) for v in got["autosample"]],
                   [a["own"] * ens for a in st["auto"]], what)
            for k, f in (("automin", np.min), ("automean", np.mean), ("automax", np.max)):
                ctx.close("autocorrelation history saved", got[k],
                          [float(f(taus[a["run"], a["own"]])) for a in st["auto"]], 1e-12, 0, what)
            # the statistics are those of the last check, over all the samples it looked at
            tau = script.given[-1]
            old = script.given[-2] if len(script.given) > 1 else None
            sets = [np.concatenate([drawn[tuple(k)][e][0] for k in st["kept"]]) for e in range(ens)]
            envs = [{"c%d" % (e + 1): sets[e][:, :, j].reshape(-1) for e in range(ens)}
                    for j in range(len(names))]
            t = case["terms"][ens - 1]
            want = [np.min(owns[-1] * ens / tau), np.inf if old is None else np.max(np.abs(tau - old) / old),
                    min(float(terms.ev(t["tz"], v)) for v in envs),
                    max(float(terms.ev(t["gr"], v)) for v in envs)]
            ctx.close("statistics saved", got["crit"], want, 1e-8, 1e-12, what)
            ctx.count("files compared")


def files_own(files, f):
    if not f:
        return 0, False
    return files[f]["state"]["own"], files[f]["state"]["burned"]


def accepted(ens, rd):
    out = []
    for e in range(ens):
        c = chains.steps(e)[0]
        if len(c) < 2 * rd:
            out.append(None)
            continue
        st = [p for p, at in chains.starts(e) if at == 0][0]
        prev = np.concatenate([[st], c])[(rd - 1) * 2:rd * 2]
        out.append(np.any(prev != c[(rd - 1) * 2:rd * 2], axis=2).sum(axis=0).astype(float))
    return out


def coverage_check(ctx):
    for k in ("refused", "interrupted", "done", "continued", "files compared", "killed and continued",
              "killed while saving", "killed while sampling"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C12 never reached %r" % k)
