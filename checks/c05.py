"""C05: orbital basis conversions.  TLC explores every chain of conversions (to_synth, from_synth
with and without the old keys, to_any_basis) over all bases and containers up to a depth, tracking
which keys exist and which are still the caller's own; the chains are replayed on real Parameters,
DataFrames and Vectors, and after every step the orbit, keys, flags and untouched input are checked
against the specification."""
import copy

import numpy as np

import core
import fixtures as fx
import terms

ASSUMPTIONS = ["orbits are compared as elements (times modulo the period, angles modulo 2 pi) and "
               "as velocity curves; flags of newly created parameters are unspecified except for "
               "the documented noVary option"]
CASE_TIMEOUT = 60


def generate(ctx):
    res = core.run_tlc(ctx, "CheckC05", """
CONSTANT Depth = %d
CONSTANT Thorough = %s
INIT Init
NEXT Next
VIEW View
INVARIANTS Exact Declared OwnKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % (ctx.pick(3, 4), core.tla(ctx.thorough)), timeout=3000)
    tables = {}
    edges = []
    for r in res.lines:
        if "table" in r:
            tables.setdefault(r["table"], {})[str(r["i"])] = r
        else:
            edges.append(r)
    starts = {}
    for e in edges:
        starts.setdefault((e["f"]["cont"], e["f"]["src"]), []).append(e)
    rng = ctx.rng("c05")
    nid = 0
    for (cont, src), es in sorted(starts.items()):
        init = next(e["f"] for e in es if e["f"]["n"] == 0)
        g = core.Graph(es, init)
        walks = g.tour(rng=rng) if cont == "vector" or not ctx.thorough else g.tour(rng=rng)
        if cont != "vector" and len(walks) > ctx.pick(60, 4000):
            # every first step is kept; the rest sampled
            first = {}
            for w in walks:
                first.setdefault(core._key(w[0][0]), []).append(w)
            keep = []
            while len(keep) < ctx.pick(60, 4000):
                for k in sorted(first):
                    if first[k]:
                        keep.append(first[k].pop())
            walks = keep
        for j in range(0, len(walks), 20):
            yield {"id": nid, "cont": cont, "src": src, "walks": walks[j:j + 20],
                   "tables": tables}
            nid += 1


LETTERS = [None, {1: "d", 2: "b", 3: "c"}, {1: "x", 2: "y", 3: "z"}]


def angle(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi)


def cyc(a, b, per):
    d = (np.asarray(a) - np.asarray(b)) / np.asarray(per)
    return np.abs(d - np.round(d))


def check_orbit(ctx, case, basis, get, els, t, what):
    """get(key, i) -> value(s) of the converted object; els -> true elements."""
    for i, el in enumerate(els, 1):
        tab = case["tables"][basis][str(i)]
        env = {}
        for k in basis.split():
            env["%s%d" % (k, i)] = np.asarray(get(k, i), dtype=float)
        s = {f: np.asarray(terms.ev(tab["synth"][f], env), dtype=float)
             for f in ("per", "tp", "e", "w", "k")}
        d = "%s planet %d basis %r" % (what, i, basis)
        ctx.close("period", s["per"] + 0 * el["per"], el["per"], 1e-10, 0, d)
        ctx.close("amplitude", s["k"] + 0 * el["k"], el["k"], 1e-10, 0, d)
        ctx.close("eccentricity", s["e"] + 0 * el["e"], el["e"], 1e-9, 1e-12, d)
        # the conjunction time is well defined for every eccentricity
        tc = s["tp"] + conj(s)
        scale = 1e-15 * (np.max(np.abs(el["tp"])) + 1e3) * 40 / np.min(el["per"])
        ctx.true("conjunction", np.all(cyc(tc, el["tp"] + conj(el), el["per"]) < 1e-9 + scale), d)
        ecc = el["e"] > 1e-7
        ctx.true("periastron direction", np.all(np.where(
            ecc, angle(s["w"], el["w"]), 0) < 1e-7), d + " w %s want %s" % (s["w"], el["w"]))
        ctx.true("periastron time", np.all(np.where(
            ecc, cyc(s["tp"], el["tp"], el["per"]), 0) < 1e-8 + scale), d)
        if "tc" in basis.split() and "tp" in basis.split():
            ctx.true("conjunction key", np.all(
                cyc(get("tc", i), el["tp"] + conj(el), el["per"]) < 1e-9 + scale), d)
        # the curves agree
        def curve(x, j=None):
            y = {q: (x[q] if np.ndim(x[q]) == 0 else x[q][0]) for q in x}
            return fx_rv(y, t)
        amp = float(np.max(el["k"])) * (1e-8 + scale * 20) / (1 - float(np.max(el["e"]))) ** 3
        ctx.close("velocity curve", curve(s), curve(el), 1e-9, amp, d)


def conj(el):
    f = np.pi / 2 - el["w"]
    E = np.arctan2(np.sqrt(1 - el["e"] ** 2) * np.sin(f), el["e"] + np.cos(f))
    return el["per"] / (2 * np.pi) * (E - el["e"] * np.sin(E))


def fx_rv(el, t):
    E = terms.kep_E(2 * np.pi * (t - el["tp"]) / el["per"], float(el["e"]))
    nu = 2 * np.arctan2(np.sqrt(1 + el["e"]) * np.sin(E / 2), np.sqrt(1 - el["e"]) * np.cos(E / 2))
    return el["k"] * (np.cos(nu + el["w"]) + el["e"] * np.cos(el["w"]))


def run(ctx, case):
    for w, walk in enumerate(case["walks"]):
        one(ctx, case, w, walk)


def print_key(k, el):
    return fx.key_value(k, el)


def one(ctx, case, w, walk):
    import pandas as pd
    import radvel
    from radvel.basis import Basis
    rng = ctx.nprng("c05", case["id"], w)
    cont, src = case["cont"], case["src"]
    npl = 1 + (w + case["id"]) % 3
    regimes = [["zero", "small", "mid"], ["high", "tiny", "zero"], ["mid", "high", "extreme"],
               ["small", "zero", "tiny"]][(w + case["id"]) % 4]
    t0 = [0.0, 2455200.0][(w // 2) % 2]
    nrow = 4
    els = []
    for i in range(npl):
        rows = [fx.orbit_values(rng, regimes[i], t0) for _ in range(nrow)]
        if cont == "frame":
            els.append({q: np.array([r[q] for r in rows]) for q in rows[0]})
        else:
            els.append(rows[0])
    t = t0 + np.linspace(-30, 90, 23)
    letters = LETTERS[w % 3]
    extras = ["gamma_a", "jit_a", "dvdt", "gp_per", "curv"][:(w % 6)]
    flag, scale = {}, {}
    for i in range(1, npl + 1):
        for k in src.split():
            flag["%s%d" % (k, i)] = bool(rng.integers(2))
            scale["%s%d" % (k, i)] = None if rng.integers(2) else float(rng.uniform(0.1, 2))
    for k in extras:
        flag[k] = bool(rng.integers(2))
        scale[k] = None if rng.integers(2) else float(rng.uniform(0.1, 2))
    exval = {k: float(rng.uniform(-4, 4)) for k in extras}
    if cont == "frame":
        cols = {}
        for i, el in enumerate(els, 1):
            for k in src.split():
                cols["%s%d" % (k, i)] = fx.key_value(k, el)
        for k in extras:
            cols[k] = exval[k] + np.arange(nrow)
        cols["lnprobability"] = -np.arange(nrow) * 1.5
        cur = pd.DataFrame(cols, index=[5, 2, 9, 7][:nrow])
    else:
        cur = radvel.Parameters(npl, basis=src, planet_letters=letters)
        order = ["%s%d" % (k, i) for i in range(1, npl + 1) for k in src.split()] + list(extras)
        for k in order:
            v = exval[k] if k in exval else float(fx.key_value(k[:-1], els[int(k[-1]) - 1]))
            cur[k] = radvel.Parameter(value=v, vary=flag[k], mcmcscale=scale[k],
                                      linear=(k == "gamma_a" and w % 2 == 0))
        if cont == "vector":
            vec = radvel.Vector(cur)
            rows = dict(vec.indices)
            cur = vec if w % 2 else vec.vector
            names = rows
    first = cur
    basis = src
    made = {}
    for a, st in walk:
        what = "%s %s after %s" % (cont, a, basis)
        snap = snapshot(cont, cur)
        bobj = (cur.basis if cont == "params" else
                Basis(basis, npl))
        bname, bparams = bobj.name, list(bobj.params)
        kw = {}
        if a["name"] == "to_synth":
            if a["noVary"] != "default":
                kw["noVary"] = a["noVary"] == "yes"
            if cont == "frame":
                kw.pop("noVary", None)
                kw["basis_name"] = basis if w % 2 else bobj.name
            out = (bobj.v_to_synth if cont == "vector" else bobj.to_synth)(cur, **kw)
        elif a["name"] == "from_synth":
            if cont == "vector":
                out = bobj.v_from_synth(cur, a["to"])
            elif a["keep"] and w % 2:
                out = bobj.from_synth(cur, a["to"])
            else:
                out = bobj.from_synth(cur, a["to"], keep=a["keep"])
        else:
            out = (bobj.v_to_any_basis if cont == "vector" else bobj.to_any_basis)(cur, a["to"])
        ctx.eq("input left unchanged", snapshot(cont, cur), snap, what)
        ctx.eq("source basis left unchanged", (bobj.name, list(bobj.params)), (bname, bparams),
               what)
        basis = st["basis"]
        # ---- contents
        if cont == "params":
            ctx.eq("number of planets", out.num_planets, npl, what)
            ctx.eq("planet letters", out.planet_letters, letters, what)
            ctx.eq("declared basis", (out.basis.name, list(out.basis.params),
                                      list(out.planet_parameters), out.basis.num_planets),
                   (basis, basis.split(), basis.split(), npl), what)
            want = {"%s%d" % (k, i) for k in st["keys"] for i in range(1, npl + 1)} | set(extras)
            ctx.eq("keys", set(out.keys()), want, what)
            for k in extras:
                ctx.eq("other parameters", (out[k].value, out[k].vary, out[k].mcmcscale,
                                            out[k].linear),
                       (exval[k], flag[k], scale[k], k == "gamma_a" and w % 2 == 0), what + " " + k)
            for k in st["own"]:
                for i in range(1, npl + 1):
                    q = "%s%d" % (k, i)
                    ctx.eq("flags of untouched parameters", (out[q].vary, out[q].mcmcscale),
                           (flag[q], scale[q]), what + " " + q)
            if a["name"] == "to_synth" and a["noVary"] != "default":
                for k in set(st["keys"]) - set(made.get("keys", src.split())):
                    for i in range(1, npl + 1):
                        ctx.eq("noVary option", bool(out["%s%d" % (k, i)].vary),
                               a["noVary"] == "no", what)

            def get(k, i, out=out):
                return out["%s%d" % (k, i)].value
        elif cont == "frame":
            want = ({"%s%d" % (k, i) for k in st["keys"] for i in range(1, npl + 1)} |
                    set(extras) | {"lnprobability"})
            ctx.eq("keys", set(out.columns), want, what)
            ctx.eq("samples", list(out.index), [5, 2, 9, 7][:nrow], what)
            for k in extras:
                ctx.close("other parameters", out[k], exval[k] + np.arange(nrow), 0, 0, what)
            ctx.close("other parameters", out["lnprobability"], -np.arange(nrow) * 1.5, 0, 0, what)

            def get(k, i, out=out):
                return np.asarray(out["%s%d" % (k, i)], dtype=float)
        else:
            arr = out
            ctx.eq("rows", arr.shape, (5 * npl + 2 + len([k for k in extras if k not in (
                "dvdt", "curv")]), 4), what)
            for k in extras:
                ctx.eq("other parameters", list(arr[names[k]]),
                       [exval[k], float(flag[k]), scale[k] or 0.0,
                        float(k == "gamma_a" and w % 2 == 0)], what + " " + k)
            for k in st["own"]:
                for i in range(1, npl + 1):
                    q = "%s%d" % (k, i)
                    ctx.eq("flags of untouched parameters", list(arr[names[q]][1:3]),
                           [float(flag[q]), scale[q] or 0.0], what + " " + q)

            def get(k, i, arr=arr):
                return arr[5 * (i - 1) + slot(k)][0]
        check_orbit(ctx, case, basis, get, els, t, what)
        # values of parameters the conversion had no reason to touch are exactly the caller's
        for k in st["own"]:
            if k in ("tc", "tp", "w"):
                continue
            for i in range(1, npl + 1):
                ctx.close("untouched values", get(k, i), fx.key_value(k, els[i - 1]), 1e-9, 1e-12,
                          what + " " + k)
        made["keys"] = st["keys"]
        cur = out
        if cont == "vector" and not isinstance(first, np.ndarray) and len(made) % 2 == 0:
            cur = out


def slot(k):
    return {"per": 0, "logper": 0, "tc": 1, "tp": 1, "e": 2, "se": 2, "secosw": 2, "ecosw": 2,
            "w": 3, "sesinw": 3, "esinw": 3, "k": 4, "logk": 4}[k]


def snapshot(cont, cur):
    if cont == "params":
        return ([(k, p.value, p.vary, p.mcmcscale, p.linear, id(p)) for k, p in cur.items()],
                cur.basis.name, list(cur.basis.params), list(cur.planet_parameters),
                cur.num_planets, copy.copy(cur.planet_letters))
    if cont == "frame":
        return (list(cur.columns), list(cur.index), cur.to_numpy().tolist())
    v = cur if isinstance(cur, np.ndarray) else cur.vector
    return np.nan_to_num(v, nan=-1e99).tolist()
