"""C02: evaluations are functions of the data and the current values.  TLC explores every session
state together with the last evaluation made (what an object may secretly remember), so every
ordered pair of evaluations, array writes, edits, vary changes, copies and saves occurs; every
evaluation along the replayed walks is compared with the specification's term for the current
values, and data, flags and values are checked unchanged after each."""
import core
import c01
import session  # noqa: F401

ASSUMPTIONS = c01.ASSUMPTIONS
EVALS = ["logprob", "residuals", "ic", "model", "predict", "predict data",
         "predict like data", "predict later", "predict reversed"]
HOWS = ["logprob_array", "likelihood_ns_array", "like.neglogprob_array"]
ACTS = ["set", "fast", "edit", "toggle", "sync", "deepcopy", "saveload", "print"]


def generate(ctx):
    hows = c01.ALL_HOWS if ctx.thorough else HOWS[:1]
    acts = ACTS
    tables, ws, g = c01.walks(ctx, acts, hows, EVALS, maxlen=150)
    n = 0
    extra = g.random_walks(ctx.pick(150, 1500), 60, ctx.rng("c02r"))
    for w, walk in enumerate(ws + extra):
        # configurations with Gaussian processes remember most: they come up more often
        tab = tables[(w + ctx.seed) % len(tables)]
        yield {"id": n, "tab": tab, "walk": walk}
        n += 1


def run(ctx, case):
    c01.run(ctx, case, evaluate=True)


def coverage_check(ctx):
    for k in ["eval " + e for e in EVALS] + ["predictions", "array values", "deepcopy", "saveload"]:
        if not ctx.counts.get(k):
            raise core.MachineryError("C02 never reached %r" % k)
