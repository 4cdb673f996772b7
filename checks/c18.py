"""C18: binning.  TLC enumerates every small table of (time, instrument) rows in every order and
walks each one into bins, checking on every step that bins partition the rows, never mix
instruments and fit the width; the finished walks (and larger random tables) are replayed on the
real functions with times placed exactly, and the reported values are the specification's terms over
the members TLC found."""
import numpy as np

import core
import terms

ASSUMPTIONS = ["a bin opens at its earliest member and is closed on the left, open on the right",
               "arrays of floats, widths greater than zero, as documented"]


def generate(ctx):
    cfg = """
CONSTANTS NObs = %d MaxT = %d Widths = {%s} Tels = {"j", "k", "hires_j"} NRandom = %d NBig = %d
INIT Init
NEXT Next
INVARIANTS Partition OneInstrument Width Ordered Emit
CHECK_DEADLOCK FALSE
"""
    runs = [(1, 1, "1", 0, 5), (2, 3, "1, 2, 3", 0, 5), (3, 2, "1, 2", 20, 25),
            (3, 5, "2, 3, 5", 0, 5)]
    if ctx.thorough:
        runs += [(4, 3, "1, 2, 3", 400, 60), (4, 4, "2, 4", 0, 5)]
    t, rows = None, []
    for r in runs:
        res = core.run_tlc(ctx, "CheckC18", cfg % r, workers=4, heap="6g", timeout=3000)
        t = t or next(l["terms"] for l in res.lines if "terms" in l)
        rows += [l for l in res.lines if "obs" in l]
    fr = []
    for nb, bw, n in [(5, 4, 30), (25, 8, 120), (10, 2, 60), (1, 6, 9), (30, 4, 200)]:
        res = core.run_tlc(ctx, "CheckC18F", """
CONSTANTS NBins = %d BinW = %d NObs = %d NRandom = %d
INIT Init
NEXT Next
INVARIANTS Partition Emit
CHECK_DEADLOCK FALSE
""" % (nb, bw, n, ctx.pick(6, 200)))
        fr += [l for l in res.lines if "nbins" in l]
    nid = 0
    for j in range(0, len(rows), 100):
        yield {"id": nid, "kind": "time", "rows": rows[j:j + 100], "terms": t}
        nid += 1
    for j in range(0, len(fr), 10):
        yield {"id": nid, "kind": "fast", "rows": fr[j:j + 10], "terms": t}
        nid += 1


def members(bins):
    return [sorted(int(i) - 1 for i in b) for b in bins]


def run(ctx, case):
    rng = ctx.nprng("c18", case["id"])
    for row in case["rows"]:
        (timed if case["kind"] == "time" else fast)(ctx, case["terms"], row, rng)


def values(ctx, rng, n):
    kind = int(rng.integers(4))
    y = rng.uniform(-50, 50, n)
    err = rng.uniform(0.5, 5, n)
    if kind == 1:
        err = np.full(n, float(rng.uniform(0.1, 3)))
    if kind == 2:
        err = 10 ** rng.uniform(-4, 4, n)
    if kind == 3:
        y = np.round(y)
        err = rng.integers(1, 4, n).astype(float)
    return y, err


def same(ctx, what, got, want):
    """got, want: lists of (label, t, y, err), compared as tables without order."""
    ctx.eq("number of bins", len(got), len(want), what)
    key = (lambda r: (r[0], r[1], r[2]))
    for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
        ctx.eq("instrument label", g[0], w[0], what)
        ctx.close("bin time", g[1], w[1], 1e-13, 1e-9, what)
        ctx.close("bin value", g[2], w[2], 1e-10, 1e-10, what)
        ctx.close("bin uncertainty", g[3], w[3], 1e-10, 0, what)


def timed(ctx, tm, row, rng):
    from radvel import utils
    obs = row["obs"]
    n = len(obs)
    # affine images that keep every boundary exact in binary
    t0 = float(rng.choice([0.0, 2455197.0, -3.0, 50000.5]))
    s = float(2.0 ** rng.integers(-6, 8))
    t = t0 + s * np.array([o["t"] for o in obs], dtype=float)
    w = s * row["width"]
    tel = np.array([o["tel"] for o in obs], dtype=rng.choice(["U", "O"]))
    y, err = values(ctx, rng, n)
    bins = members(row["bins"])
    what = "t=%s tel=%s width=%s" % (list(t), list(tel), w)

    def expect(b):
        env = {"t": t[b], "y": y[b], "err": err[b]}
        return tuple(float(terms.ev(tm[k], env)) for k in ("time", "value", "err"))
    want = [(str(tel[b[0]]),) + expect(b) for b in bins]
    keep = [a.copy() for a in (t, y, err, tel)]
    out = utils.bintels(t, y, err, tel, binsize=w)
    ctx.eq("outputs of one length", len({len(o) for o in out}), 1, what)
    same(ctx, "bintels " + what, [(str(l), float(a), float(b), float(c))
                                  for a, b, c, l in zip(*out)], want)
    ctx.true("input unchanged", all(np.array_equal(a, b) for a, b in
                                    zip(keep, (t, y, err, tel))), what)
    perm = rng.permutation(n)
    out = utils.bintels(t[perm], y[perm], err[perm], tel[perm], binsize=w)
    same(ctx, "bintels, reordered input " + what,
         [(str(l), float(a), float(b), float(c)) for a, b, c, l in zip(*out)], want)
    for name in sorted(set(tel)):
        pos = np.where(tel == name)[0]
        args = [t[pos], y[pos], err[pos]]
        keep = [a.copy() for a in args]
        a, b, c = utils.timebin(args[0], args[1], args[2], w)
        want1 = [r for r in want if r[0] == str(name)]
        same(ctx, "timebin " + what, [("", float(x), float(v), float(e))
                                      for x, v, e in zip(a, b, c)],
             [("",) + r[1:] for r in want1])
        ctx.true("bins in time order", np.all(np.diff(np.asarray(a, float)) >= 0), what)
        ctx.true("input unchanged", all(np.array_equal(p, q) for p, q in zip(keep, args)), what)
    ctx.count("binned tables")
    # one width for everything: nothing but the width decides, so a width beyond the span is one
    # bin per instrument and the default width is half a unit
    big = utils.bintels(t, y, err, tel, binsize=s * 1e4)
    ctx.eq("number of bins", len(big[0]), len(set(tel)), "wide " + what)
    if s == 1.0 and row["width"] == 1:
        d = utils.bintels(t, y, err, tel)
        e = utils.bintels(t, y, err, tel, binsize=0.5)
        ctx.true("default width", all(np.array_equal(p, q) for p, q in zip(d, e)), what)


def fast(ctx, tm, row, rng):
    from radvel import utils
    n = len(row["x"])
    s = 2.0 ** float(rng.integers(-6, 3))
    x0 = s * float(rng.choice([0, 1, 64]))
    x = x0 + s * np.array(row["x"], dtype=float)
    y, _ = values(ctx, rng, n)
    perm = rng.permutation(n)
    keep = x.copy(), y.copy()
    b, v, e = utils.fastbin(x[perm], y[perm], nbins=row["nbins"])
    what = "x=%s nbins=%d" % (list(x)[:20], row["nbins"])
    wx, wv, we = [], [], []
    for k, m in enumerate(members(row["bins"])):
        if m:
            wx.append(x0 + s * row["binw"] * (k + 0.5))
            env = {"y": y[m]}
            wv.append(float(terms.ev(tm["fmean"], env)))
            we.append(float(terms.ev(tm["ferr"], env)))
    ctx.close("equal bins: centres", b, wx, 1e-12, 1e-12, what)
    ctx.close("equal bins: values", v, wv, 1e-9, 1e-9, what)
    ctx.close("equal bins: uncertainties", e, we, 1e-6, 1e-5, what)
    ctx.true("input unchanged", np.array_equal(keep[0], x) and np.array_equal(keep[1], y), what)
    ctx.count("folded curves")
