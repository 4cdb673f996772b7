"""C06: conjunctions, periastron and anomalies.  TLC enumerates eccentricity and orientation
regimes, scalar and array shapes, and an exact lattice of circular orbits whose answers it computes
itself; the conversions of the real code are compared with the specification's geometry, with each
other (round trip) and with the anomalies at the instants they return."""
import numpy as np

import core
import terms

ASSUMPTIONS = ["instants are compared modulo whole periods except for the round trip, which is exact"]


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC06", """
CONSTANT Thorough = %s
INIT Init
NEXT Next
INVARIANTS HalfApart AtNinety AtTwoSeventy Emit
CHECK_DEADLOCK FALSE
""" % core.tla(ctx.thorough))
    t = next(r["terms"] for r in res.lines if "terms" in r)
    exact, general = [], []
    for r in res.lines:
        if "cfg" in r:
            (exact if r["cfg"]["kind"] == "exact" else general).append(r)
    nid = 0
    for j in range(0, len(exact), 40):
        yield {"id": nid, "kind": "exact", "points": exact[j:j + 40]}
        nid += 1
    for r in general:
        yield {"id": nid, "kind": "general", "cfg": r["cfg"], "terms": t,
               "reps": ctx.pick(2, 40)}
        nid += 1


def evalue(kind, rng):
    return {"zero": lambda: 0.0, "tiny": lambda: rng.uniform(1e-8, 1e-3),
            "small": lambda: rng.uniform(0.001, 0.2), "mid": lambda: rng.uniform(0.2, 0.7),
            "high": lambda: rng.uniform(0.7, 0.95), "extreme": lambda: rng.uniform(0.95, 0.99),
            "edge": lambda: rng.uniform(0.99, 0.9999)}[kind]()


def wvalue(kind, rng):
    pi = np.pi
    return {"mpi": lambda: -pi, "mhalf": lambda: -pi / 2, "zero": lambda: 0.0,
            "half": lambda: pi / 2, "pi": lambda: pi, "threehalf": lambda: 1.5 * pi,
            "twopi": lambda: 2 * pi, "generic": lambda: rng.uniform(0, 2 * pi),
            "negative": lambda: rng.uniform(-pi, 0), "big": lambda: rng.uniform(-12, 12)}[kind]()


def shaped(shape, cols, rng):
    """The arguments in the requested shape; also the rows as arrays."""
    import pandas as pd
    if shape == "float":
        return [float(c[0]) for c in cols], 1
    if shape == "float64":
        return [np.float64(c[0]) for c in cols], 1
    if shape == "one":
        return [np.array(c[:1]) for c in cols], 1
    if shape == "elements":          # only some of the arguments are arrays
        pick = [bool(rng.integers(2)) for _ in cols]
        pick[int(rng.integers(len(cols)))] = True
        return [np.array(c) if p else float(c[0]) for c, p in zip(cols, pick)], len(cols[0])
    if shape == "series":
        idx = list(rng.permutation(len(cols[0])))
        return [pd.Series(np.array(c), index=idx) for c in cols], len(cols[0])
    return [np.array(c) for c in cols], len(cols[0])


def cyc(a, b, per):
    d = (np.asarray(a, float) - np.asarray(b, float)) / np.asarray(per, float)
    return np.abs(d - np.round(d))


def run(ctx, case):
    from radvel import orbit
    if case["kind"] == "exact":
        for p in case["points"]:
            per, w = float(p["cfg"]["per"]), np.deg2rad(p["cfg"]["deg"])
            for t in (0.0, 37.0):
                d = "per %g w %d deg" % (per, p["cfg"]["deg"])
                want = t + per * p["transit"] / 360.0
                ctx.true("exact transit", cyc(orbit.timeperi_to_timetrans(t, per, 0.0, w), want,
                                              per) < 1e-12, d)
                ctx.true("exact periastron", cyc(orbit.timetrans_to_timeperi(want, per, 0.0, w), t,
                                                 per) < 1e-12, d)
                got = orbit.timeperi_to_timetrans(t, per, 0.0, w, secondary=True)
                frac = (got - t) / per
                exp = p["eclipse"] / 360.0
                ctx.true("exact eclipse", abs(frac - exp) < 1e-12 or
                         (p["eclipse"] == 0 and abs(frac - 1) < 1e-12),
                         d + " eclipse %r periods after periastron, specification says %r" % (
                             frac, exp))
        return
    for rep in range(case["reps"]):
        general(ctx, case, rep)


def general(ctx, case, rep):
    from radvel import kepler, orbit
    cfg, tm = case["cfg"], case["terms"]
    rng = ctx.nprng("c06", case["id"], rep)
    n = 6
    t0 = 2455200.0 if cfg["tb"] == "jd" else 0.0
    e = np.array([evalue(cfg["e"], rng) for _ in range(n)])
    w = np.array([wvalue(cfg["w"], rng) for _ in range(n)])
    per = np.exp(rng.uniform(np.log(0.3), np.log(4000), n))
    tt = t0 + rng.uniform(-100, 100, n)
    args, m = shaped(cfg["shape"], [tt, per, e, w], rng)
    keep = [np.array(a, dtype=float) for a in args]
    cols = [np.broadcast_to(np.asarray(a, dtype=float), (m,)) if m > 1 else
            np.atleast_1d(np.asarray(a, dtype=float)) for a in args]
    env = {"tp": cols[0], "tc": cols[0], "per": cols[1], "e": cols[2], "w": cols[3]}
    eps = 2e-16 * (abs(t0) + 200) / np.min(per) * 8 + 1e-12
    what = "%s %s" % (cfg, args)
    # eccentric anomalies next to +-pi are where the branch of the arctangent sits
    tc = orbit.timeperi_to_timetrans(*args)
    tp = orbit.timetrans_to_timeperi(*args)
    ts = orbit.timeperi_to_timetrans(*args, secondary=True)
    for nm, v in (("transit", tc), ("periastron", tp), ("eclipse", ts)):
        ctx.eq("shape", np.size(v), m, nm + " " + what)
        ctx.true("finite", np.all(np.isfinite(np.asarray(v, float))), nm + " " + what)
    ctx.true("arguments untouched", all(np.array_equal(np.asarray(a, float), k)
                                        for a, k in zip(args, keep)), what)
    ctx.true("transit", np.all(cyc(tc, terms.ev(tm["tc_of_tp"], env), cols[1]) < eps + 1e-9), what)
    ctx.true("periastron", np.all(cyc(tp, terms.ev(tm["tp_of_tc"], env), cols[1]) < eps + 1e-9),
             what)
    ctx.true("eclipse", np.all(cyc(ts, terms.ev(tm["sec_of_tp"], env), cols[1]) < eps + 1e-9),
             what)
    frac = (np.asarray(ts, float).reshape(-1) - cols[0]) / cols[1]
    ctx.true("eclipse within the period after periastron",
             np.all((frac > -eps - 1e-9) & (frac < 1 + eps + 1e-9)), what + " %s" % frac)
    back = orbit.timetrans_to_timeperi(tc, *args[1:])
    ctx.close("round trip", np.asarray(back, float).reshape(-1), cols[0], 0,
              float(np.max(cols[1])) * 1e-10 + 1e-13 * abs(t0) + 1e-9, what)
    back = orbit.timeperi_to_timetrans(tp, *args[1:])
    ctx.close("round trip", np.asarray(back, float).reshape(-1), cols[0], 0,
              float(np.max(cols[1])) * 1e-10 + 1e-13 * abs(t0) + 1e-9, what)
    # where the planet is at those instants
    for j in range(m):
        P, E, W = cols[1][j], cols[2][j], cols[3][j]
        tj = cols[0][j]
        amp = ((1 + E) / (1 - E)) ** 1.5
        tol = amp * (eps * 2 * np.pi + 1e-11) * 4 + 1e-9
        inst = np.array([np.asarray(tc, float).reshape(-1)[j],
                         np.asarray(ts, float).reshape(-1)[j]])
        nu = orbit.true_anomaly(inst, tj, P, E)
        s = np.sin(nu + W)
        c = np.cos(nu + W)
        if E <= 0.99:
            ctx.close("true anomaly at transit", [s[0], c[0]], [1, 0], 0, tol, what)
            ctx.close("true anomaly at eclipse", [s[1], c[1]], [-1, 0], 0, tol, what)
            times = tj + P * np.concatenate([rng.uniform(-3, 3, 9), [0.0, 0.5, 1.0, -0.25]])
            env1 = {"tp": tj, "per": P, "e": E, "w": W, "t": times}
            nu = orbit.true_anomaly(times, tj, P, E)
            ctx.close("true anomaly", np.cos(nu), terms.ev(tm["cosnu"], env1), 0, tol, what)
            ctx.close("true anomaly", np.sin(nu), terms.ev(tm["sinnu"], env1), 0, tol, what)
            M = np.mod(terms.ev(tm["mean"], env1), 2 * np.pi)
            Ea = kepler.kepler(M.copy(), np.zeros(M.size) + E)
            ctx.close("Kepler's equation", Ea - E * np.sin(Ea), M, 0, 1e-10, what)
            f = 2 * np.arctan2(np.sqrt(1 + E) * np.sin(Ea / 2), np.sqrt(1 - E) * np.cos(Ea / 2))
            ctx.close("anomalies agree", [np.cos(f), np.sin(f)], [np.cos(nu), np.sin(nu)], 0,
                      tol, what)
