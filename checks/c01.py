"""C01: the array of free parameters, its names and the named values.  TLC explores every state of
a session (values and flags in the vector and in the named parameters, cached lists) reachable by
writing arrays through every interface, wrong lengths, edits, vary changes, synchronising eagerly
or lazily, pulling, printing, copying and saving; every transition is replayed on real posteriors
whose parameters are partitioned at random."""
import core
import session

ASSUMPTIONS = ["after changing vary flags the user re-lists the free parameters (as radvel's own code "
               "does) unless their number changed", "named values of free parameters are not specified "
               "between a fast array write and the next synchronisation"]

ALL_HOWS = ["logprob_array", "neglogprob_array", "likelihood_ns_array", "extra_likelihood_array",
            "like.logprob_array", "like.neglogprob_array", "like.fast", "post.fast"]
ALL_ACTS = ["set", "fast", "bad", "edit", "toggle", "sync", "synclazy", "pull", "print", "deepcopy",
            "saveload"]


def cfg_text(acts, hows, evals):
    return """
CONSTANTS
 Acts = %s
 Hows = %s
 Evals = %s
SPECIFICATION Spec
VIEW View
INVARIANT Readable
PROPERTY Steps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % (core.tla(set(acts)), core.tla(set(hows)), core.tla(set(evals)) if evals else "{}")


def walks(ctx, acts, hows, evals, maxlen=150):
    res = core.run_tlc(ctx, "CheckC01", cfg_text(acts, hows, evals), timeout=3000)
    tables = [r for r in res.lines if "table" in r]
    g = core.Graph([r for r in res.lines if "f" in r])
    return tables, g.tour(maxlen=maxlen, rng=ctx.rng("tour", ctx.prop)), g


def generate(ctx):
    hows = ALL_HOWS if ctx.thorough else ["logprob_array", "like.fast", "post.fast"]
    tables, ws, g = walks(ctx, ALL_ACTS, hows, [])
    start = None
    for w, walk in enumerate(ws):
        tab = tables[(w + ctx.seed) % len(tables)]
        yield {"id": w, "tab": tab, "walk": walk}


def initial():
    return {"vec": {"a": 1, "b": 1}, "dict": {"a": 1, "b": 1}, "vv": {"a": True, "b": False},
            "dv": {"a": True, "b": False}, "lst": {"post": ["a"], "like": ["a"]}, "last": "none"}


def run(ctx, case, evaluate=False):
    rng = ctx.nprng(ctx.prop, case["id"])
    what = "config %d" % case["tab"]["table"]
    ses = session.Session(ctx, case["tab"], rng, what)
    s = initial()
    if s["lst"]["post"]:
        ses.post.list_vary_params()
        ses.post.likelihood.list_vary_params()
    ses.observe(s, what + " initially")
    trail = []
    for a, t in case["walk"]:
        trail.append(" ".join(str(v) for v in a.values()))
        lab = "%s after %s" % (what, trail[-5:])
        ses.do(a, s, t, lab)
        s = t
        ses.observe(s, lab)
        ctx.count(a["name"])
        if evaluate and a["name"] in ("deepcopy", "saveload") and s["vec"]["a"] and s["vec"]["b"]:
            ses.evaluate("logprob", s, lab)
    ses.data_same("data unchanged", what)


def coverage_check(ctx):
    for k in ALL_ACTS + ["refused", "array values"]:
        if not ctx.counts.get(k):
            raise core.MachineryError("C01 never reached %r" % k)
