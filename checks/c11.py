"""C11: the protocol of a Markov-chain run.  TLC explores the run machine (rounds, checks, burn-in,
ending) for every sequence of check outcomes over a grid of settings and checks its invariants; each
behaviour is replayed in the real mcmc() with the outcome of every check forced through the
autocorrelation time its samples are given, every step of every walker recorded, and the rounds
made, where each starts, what is discarded, when the run ends, and the rows returned compared."""
import builtins
import contextlib
import curses
import io
import re

import numpy as np

import chains
import core
import setups

ASSUMPTIONS = ["check outcomes are forced through a scripted emcee.autocorr.integrated_time; "
               "the thresholds themselves are C13"]
BURN_A, MIN_A = 10.0, 40.0


def before_import(ctx):
    chains.install()


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC11", """
CONSTANT Thorough = %s
SPECIFICATION Spec
INVARIANTS TwoInARow LateEnough NeverTooLong Kept OncePurged PurgeNamed BurnNever Shown Progress Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough), workers=6)
    runs = sorted(res.lines, key=lambda r: repr((sorted(r["cfg"].items()),
                                                  [t["v"] for t in r["m"]["trail"]])))
    rng = ctx.rng("c11")
    if not ctx.thorough:
        some = [r for r in runs if interesting(r) and not forgetful(r["m"]["trail"])]
        rest = [r for r in runs if not interesting(r)]
        runs = [r for r in runs if forgetful(r["m"]["trail"])] + rng.sample(some, min(len(some), 420)) + rng.sample(rest, min(len(rest), 240))
    ctx.count("mixed, unassessed, mixed", sum(forgetful(r["m"]["trail"]) for r in runs))
    for i, r in enumerate(runs):
        yield {"id": i, "run": r, "pool": i % ctx.pick(60, 100) == 7, "show": ["none", "terminal", "notebook"][i % 3],
               "dies": i % 20 == 4}


def interesting(r):
    t = r["m"]["trail"]
    if forgetful(t):
        return True
    return r["m"]["end"] == "mixed" or any(a["mixed"] and not b["mixed"] for a, b in zip(t, t[1:]))


def forgetful(t):
    """Mixed, then not assessed, then mixed: the earlier verdict must not count."""
    return any(a["mixed"] and not b["as"] and any(c["mixed"] for c in t[i + 2:])
               for i, (a, b) in enumerate(zip(t, t[1:])))


def build(ctx, case, rng):
    import radvel
    basis = ["per tc secosw sesinw logk", "per tc e w k", "logper tc secosw sesinw k"][
        int(rng.integers(3))]
    free = [["k", "gamma_j"], ["logk", "tc"], ["jit_j"], ["dvdt", "gamma_j", "k"]][int(rng.integers(4))]
    params = radvel.Parameters(1, basis=basis)
    el = {"per": 10.0, "logper": np.log(10.0), "tc": 3.0, "tp": 2.0, "secosw": 0.2, "sesinw": 0.1,
          "e": 0.1, "w": 0.7, "k": 8.0, "logk": 2.1}
    is_free = lambda key: any(key == f or key == f + "1" for f in free)
    scales = {}

    def par(key, v):
        sc = float(10 ** rng.uniform(-5, -0.3)) if rng.integers(2) and is_free(key) else None
        if sc:
            scales[key] = sc
        return radvel.Parameter(value=v, vary=is_free(key), mcmcscale=sc)
    for k in basis.split():
        params[k + "1"] = par(k + "1", el[k])
    params["dvdt"] = par("dvdt", 0.02)
    params["curv"] = par("curv", 0.0)
    t = np.sort(rng.uniform(0, 60, 7))
    like = radvel.likelihood.RVLikelihood(radvel.RVModel(params, time_base=20.0), t,
                                          rng.normal(0, 8, 7), rng.uniform(1, 2, 7), suffix="_j")
    like.params["gamma_j"] = par("gamma_j", 1.5)
    like.params["jit_j"] = par("jit_j", 2.0)
    post = radvel.posterior.Posterior(like)
    post.priors = [radvel.prior.HardBounds("jit_j", 0.0, 50.0), radvel.prior.Gaussian("dvdt", 0, 1)]
    if not post.name_vary_params():
        post.params["jit_j"].vary = True
        post.vector.dict_to_vector()
        post.list_vary_params()
        post.likelihood.list_vary_params()
    return post, scales


def settings(cfg, ens, rng):
    kw = dict(checkinterval=cfg["ci"], nrun=cfg["nrun"], minsteps=cfg["minsteps"],
              minpercent=cfg["minpercent"], minAfactor=MIN_A, maxArchange=1.0, maxGR=1e9, minTz=-1e9,
              burnGR=0.0, burnAfactor=BURN_A)
    if cfg["burn"] == "never":
        kw["burnAfactor"] = 1e9
    if cfg["burn"] == "gr":
        kw.update(burnGR=1e9, burnAfactor=1e9)
    if cfg["block"] == "gr":
        kw["maxGR"] = 0.0
    if cfg["block"] == "tz":
        kw["minTz"] = 1e15
    return kw


class Script(object):
    """The autocorrelation time to give at each check so that it finds the wanted verdict."""

    def __init__(self, ctx, verdicts, owns, ens, ndim, rng):
        self.ctx, self.v, self.owns, self.ens, self.ndim, self.rng = ctx, verdicts, owns, ens, ndim, rng
        self.i, self.given = 0, []

    def __call__(self, x):
        self.ctx.true("checks are made only when due", self.i < len(self.v),
                      "check %d on %s" % (self.i + 1, x.shape))
        n = x.shape[0]
        self.ctx.eq("samples a check looks at", n, self.owns[self.i] * self.ens, "check %d" % (self.i + 1))
        v = self.v[self.i]
        self.i += 1
        tau = {"low": n / (0.5 * BURN_A), "burn": n / (2 * BURN_A), "mixed": n / (200 * MIN_A),
               "shaky": None}[v]
        if v == "burn" and n / (n / BURN_A) == BURN_A and self.rng.integers(2):
            tau = n / BURN_A            # a threshold is reached by equality
            self.ctx.count("thresholds just reached")
        if v == "shaky":
            tau = 2.5 * np.max(self.last)
        # only one parameter is at the wanted level; the others do better
        out = np.full(self.ndim, float(tau))
        if self.ndim > 1 and v in ("low", "burn"):
            out = np.full(self.ndim, tau * 0.9)
            out[int(self.rng.integers(self.ndim))] = tau
        if v == "shaky" and self.ndim > 1:
            keep = int(self.rng.integers(self.ndim))
            out = np.array([tau if j == keep else self.last[j] for j in range(self.ndim)])
        if v == "mixed" and self.i > 1:
            out = np.minimum(out, 1.2 * self.last)
        self.last = out
        self.given.append(out.copy())
        return out.copy()


class ZMQInteractiveShell(object):
    pass


@contextlib.contextmanager
def display(kind):
    """A terminal or a notebook that records what it is told: the pages of progress, and whether it was given back."""
    seen = {"pages": [], "open": False}

    class Screen(object):
        def clear(self):
            self.page = ""
        erase = clear

        def addstr(self, *a):
            self.page += [x for x in a if isinstance(x, str)][0]

        def refresh(self):
            seen["pages"].append(self.page)

    def initscr():
        seen["open"] = True
        s = Screen()
        s.clear()
        return s

    def endwin():
        if not seen["open"]:
            raise curses.error("endwin() returned ERR")
        seen["open"] = False
    keep = curses.initscr, curses.endwin
    curses.initscr, curses.endwin = initscr, endwin
    if kind == "notebook":
        builtins.get_ipython = ZMQInteractiveShell
    try:
        yield seen
    finally:
        curses.initscr, curses.endwin = keep
        if kind == "notebook":
            del builtins.get_ipython


PAGE = (r"(\d+)/(\d+) \(([\d.]+)%\) steps complete;\s+Running (\S+) steps/s;\s+Mean acceptance rate = ([\d.]+)%;\s+"
        r"Min Auto Factor =\s+(\S+);\s+Max Auto Relative-Change =\s+(\S+);\s+Min Tz = (\S+);\s+Max G-R =\s+(\S+)")


def check_pages(ctx, case, seen, text, trail, cfg, unit, given, what):
    """The progress shown at each check is that of the specification."""
    if case["show"] == "none":
        ctx.eq("headless runs show nothing", (seen["pages"], "steps complete" in text), ([], False), what)
        return
    pages = seen["pages"] if case["show"] == "terminal" else re.findall(r"[^\r]*?steps complete[^\r]*", text)
    ctx.eq("progress shown at every check", len(pages), len(trail), what)
    taus = iter(given)
    for t, page in zip(trail, pages):
        g = re.search(PAGE, page)
        ctx.true("progress shown", g is not None, "%s: %r" % (what, page))
        done, tot, pc, _, ar, af, arch, tz, gr = [float(x) for x in g.groups()]
        at = "%s: %r" % (what, page)
        ctx.eq("steps shown", (done, tot), (t["done"] * unit, cfg["nrun"] * unit), at)
        ctx.true("percentage shown", abs(pc - 100.0 * t["done"] / cfg["nrun"]) <= 0.0501, at)
        ctx.true("acceptance shown", 0 <= ar <= 100, at)
        if t["as"]:
            want = np.min(t["own"] * unit / next(taus) / (unit / case["ens"]))
            ctx.true("autocorrelation factor shown", abs(af - want) <= 0.501, "%s want %r" % (at, want))
        else:
            ctx.eq("nothing assessed, nothing shown", (af, arch, tz, gr), (-1.0, np.inf, -1.0, np.inf), at)
        if case["show"] == "terminal":
            bar = re.search(r"\[(=*)( *)\]", page)
            ctx.true("progress bar", bar is not None and abs(len(bar.group(1)) - 50.0 * t["done"] / cfg["nrun"]) <= 0.5 and
                     (t["done"] > cfg["nrun"] or len(bar.group(1)) + len(bar.group(2)) == 50), at)
    ctx.count("shown in a " + case["show"])


class Dies(Exception):
    pass


def dies(ctx, case, post, names, kw, rng):
    """A run that is stopped, by the user or an error, gives the terminal back; an error is not hidden."""
    import radvel
    real, n = post.logprob_array, [int(rng.integers(2, 300))]
    kind = [Dies, KeyboardInterrupt, SystemExit][int(rng.integers(3))]

    def logprob_array(x):
        n[0] -= 1
        if n[0] <= 0:
            raise kind("stopped")
        return real(x)
    post.logprob_array = logprob_array
    said = None
    with display("terminal") as seen, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            radvel.mcmc(post, nwalkers=8, ensembles=2, serial=True, headless=False, **kw)
        except BaseException as e:
            said = type(e)
    ctx.eq("terminal given back", seen["open"], False, "after %s, %d pages shown" % (kind.__name__, len(seen["pages"])))
    if n[0] <= 0 and kind is not KeyboardInterrupt:
        ctx.eq("errors are not hidden", said, kind)
    ctx.count("stopped by " + kind.__name__ if n[0] <= 0 else "not stopped")
    ctx.count("stopped with a page shown", 1 if seen["pages"] and n[0] <= 0 else 0)


def run(ctx, case):
    import radvel
    import sys
    r, cfg, m = case["run"], case["run"]["cfg"], case["run"]["m"]
    rng = ctx.nprng("c11", case["id"])
    ens = int(rng.integers(1, 4)) if cfg["block"] != "tz" else int(rng.integers(2, 4))
    post, scales = build(ctx, case, rng)
    names = post.name_vary_params()
    nd = len(names)
    ask = int(rng.integers(1, 9))
    nw = max(ask, 2 * nd)
    start = {k: post.params[k].value for k in names}
    trail = m["trail"]
    what = "%s, checks %s, %d ensembles of %d (asked %d) in %d dimensions" % (
        cfg, [(t["v"] if t["as"] else "-") for t in trail], ens, nw, ask, nd)
    case["ens"] = ens
    if case["dies"]:
        return dies(ctx, case, post, names, dict(settings(cfg, ens, rng), nrun=15), rng)
    script = Script(ctx, [t["v"] for t in trail if t["as"]], [t["own"] for t in trail if t["as"]],
                    ens, nd, rng)
    np.random.seed(int(rng.integers(2 ** 31)))
    thin = int(rng.integers(1, 4))
    chains.begin(tau=script)
    out = io.StringIO()
    try:
        with display(case["show"]) as seen, contextlib.redirect_stdout(out):
            df = radvel.mcmc(post, nwalkers=ask, ensembles=ens, thin=thin, serial=not case["pool"],
                             headless=case["show"] == "none", **settings(cfg, ens, rng))
    finally:
        chains.end()
    ctx.eq("checks made", script.i, len(script.v), what)
    done = len(trail)
    shown = m["shown"]
    if not case["pool"]:
        ctx.eq("ensembles and walkers", chains.made(), [(nw, nd)] * ens, what)
        parts, lnps = [], []
        for e in range(ens):
            c, l = chains.steps(e)
            ctx.eq("steps taken by an ensemble", len(c), done * cfg["ci"], what)
            first = True
            for p, at in chains.starts(e):
                if at == 0:
                    for j, k in enumerate(names):
                        off = p[:, j] - start[k]
                        ctx.true("walkers start at the current values", np.all(np.isfinite(off)) and (
                            k not in scales or (np.all(np.abs(off) <= scales[k]) and
                                                np.ptp(off) > 0)), "%s %s" % (what, k))
                elif p is not None:
                    ctx.true("every round goes on from where the last one ended",
                             np.array_equal(p, c[at - 1]), what)
                ctx.true("one start per round", at % cfg["ci"] == 0 or cfg["ci"] == 1, what)
            sel = [s for _, rd in shown for s in range((rd - 1) * cfg["ci"], rd * cfg["ci"])]
            parts.append(c[sel])
            lnps.append(l[sel])
        rows, ln = chains.table(parts, lnps)
        ctx.eq("columns", list(df.columns), list(names) + ["lnprobability"], what)
        ctx.close("the samples returned are those since the burn-in", df[list(names)].values,
                  rows[::thin], 0, 0, what)
        ctx.close("log-probabilities returned", df["lnprobability"].values, ln[::thin], 0, 0, what)
        ctx.true("ensembles differ", ens == 1 or not np.array_equal(parts[0], parts[1]), what)
        ctx.count("serial runs")
    else:
        total = len(shown) * cfg["ci"] * nw * ens
        ctx.eq("number of samples returned", len(df), -(-total // thin), what)
        ctx.count("pool runs")
    sv = sys.modules["radvel.mcmc"].statevars
    unit = nw * ens
    ctx.eq("burn-in samples recorded", int(sv.nburn), m["nburn"] * unit, what)
    last = trail[-1]
    before = 0 if last["purge"] or not m["burned"] else m["nburn"]
    ctx.eq("samples completed recorded", int(sv.ncomplete), (before + last["own"]) * unit, what)
    text = out.getvalue()
    ctx.eq("says the chains are well-mixed", "Chains are well-mixed" in text, m["end"] == "mixed", what)
    ctx.eq("says the burn-in is discarded", "iscarding burn-in" in text, m["burned"], what)
    ctx.eq("warns that the chains did not pass", "did not pass" in text, m["end"] != "mixed", what)
    ctx.eq("terminal given back", seen["open"], False, what)
    check_pages(ctx, case, seen, text, trail, cfg, unit, script.given, what)
    # the record of autocorrelation times covers the checks made after the burn-in
    given = iter(script.given)
    taus = [next(given) if t["as"] else None for t in trail]
    burned = [any(u["purge"] for u in trail[:i]) for i in range(len(trail))]
    want = [(t["own"] * ens, tau) for t, tau, b in zip(trail, taus, burned) if b and t["as"]]
    ctx.eq("history of checks recorded", [int(a) for a in sv.autosamples], [a for a, _ in want], what)
    for name, f in (("automin", np.min), ("automax", np.max), ("automean", np.mean)):
        ctx.close("history of autocorrelation times", list(getattr(sv, name)),
                  [float(f(t)) for _, t in want], 1e-12, 0, what + name)
    ctx.eq("history of thresholds", list(sv.factor), [MIN_A] * len(want), what)
    if last["as"]:
        tau = taus[-1]
        ctx.close("autocorrelation factor reported", sv.minafactor,
                  np.min(last["own"] * ens / tau), 1e-12, 0, what)
    ctx.count("ended " + m["end"])
    ctx.count("rounds", done)
    if m["burned"]:
        ctx.count("burn-ins")
    if any(t["v"] == "shaky" and t["as"] for t in trail):
        ctx.count("shaky checks")


def coverage_check(ctx):
    for k in ("thresholds just reached", "serial runs", "pool runs", "ended mixed", "ended steps", "burn-ins", "shaky checks",
              "mixed, unassessed, mixed", "shown in a terminal", "shown in a notebook", "stopped by Dies",
              "stopped by KeyboardInterrupt", "stopped with a page shown"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C11 never reached %r" % k)
