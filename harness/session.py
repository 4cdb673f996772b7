"""A real posterior driven along a walk of the Session specification."""
import copy
import os

import numpy as np

import core
import fixtures as fx
import terms


class Session(object):
    def __init__(self, ctx, tab, rng, what, free="a", letters=False):
        import radvel
        self.ctx, self.tab, self.what = ctx, tab, what
        cfg = dict(tab["cfg"])
        self.lin = set(tab["lin"])
        keys = [k for k in tab["keys"] if k not in self.lin]
        side = rng.permutation(len(keys)) < rng.integers(1, len(keys))
        self.groups = {"a": [k for k, x in zip(keys, side) if x],
                       "b": [k for k, x in zip(keys, side) if not x]}
        self.keys = list(tab["keys"])
        self.side = {k: g for g in "ab" for k in self.groups[g]}
        self.base = fx.data_env(cfg, rng)
        self.envs = {q: fx.value_env(cfg, rng, self.base) for q in (1, 2)}
        for q in (1, 2):        # zero is a value like any other
            for k in keys:
                if k.startswith(("dvdt", "curv", "gamma")) and rng.uniform() < 0.2:
                    self.envs[q][k] = 0.0
        self.scales = {k: float(10 ** rng.uniform(-5, 1)) for k in keys if rng.uniform() < 0.5}
        # flagged as linear, which only matters for an offset that is not free
        self.linflag = self.lin | {k for k in keys if not k.startswith("gamma") and rng.uniform() < 0.3}
        cfg["free"] = list(self.groups[free])
        cfg["scales"] = self.scales
        cfg["linflag"] = sorted(self.linflag)
        if letters:
            cfg["letters"] = {i: "bcdefgh"[i] for i in range(1, cfg["np"] + 1)}
        self.cfg = cfg
        self.post = radvel.posterior.Posterior(fx.make_like(cfg, self.envs[1]))
        self.post.priors = [fx.make_prior(tab["prior"])]
        self.tb = self.base["t0"] + rng.uniform(-10, 80, 6)
        self.cache = {}
        self.nfile = 0
        self.data = self.snapshot()

    # ---- what the specification says
    def value(self, k, m):
        g = self.side.get(k)
        return None if g is None or m[g] == 0 else self.envs[m[g]][k]

    def env(self, m):
        key = (m["a"], m["b"])
        if key not in self.cache:
            e = dict(self.base)
            for g in "ab":
                for k in self.groups[g]:
                    e[k] = self.envs[m[g]][k]
            e["t"] = self.tb
            T = self.tab
            sc = lambda t, **kw: float(np.asarray(terms.ev(t, dict(e, **kw))).reshape(-1)[0])
            out = {"env": e, "ll": sc(T["ll"]), "lp": sc(T["lp"]), "sc": sc,
                   "resid": [np.atleast_1d(terms.ev(t, e)) for t in T["resid"]],
                   "err": [np.atleast_1d(terms.ev(t, e)) for t in T["err"]],
                   "model": terms.ev(T["model"], e),
                   "mean": [np.atleast_1d(terms.ev(t, e)) for t in T["mean"]],
                   "var": [np.atleast_1d(terms.ev(t, e)) for t in T["var"]]}
            self.cache[key] = out
        return self.cache[key]

    def at(self, m, kind, i, inst):
        """Times of a kind, and the specified conditional mean and variance there."""
        key = (m["a"], m["b"], kind, i)
        if key not in self.cache:
            x = np.array(self.base["x:" + inst["suf"]], dtype=float)
            xp = {"": self.tb, "data": x, "reversed": x[::-1].copy(),
                  "like data": np.concatenate(([np.sort(x)[0]], np.sort(x)[1:-1] + 0.37, [np.sort(x)[-1]])),
                  "later": np.sort(x) + 11.3}[kind]
            e = dict(self.env(m)["env"], t=xp)
            self.cache[key] = (xp, np.atleast_1d(terms.ev(self.tab["mean"][i], e)),
                               np.atleast_1d(terms.ev(self.tab["var"][i], e)))
        return self.cache[key]

    def free(self, vv):
        return [k for g in "ab" if vv[g] for k in self.groups[g]]

    # ---- observations
    def snapshot(self, post=None):
        post = post or self.post
        out = []
        likes = getattr(post.likelihood, "like_list", [post.likelihood])
        for l in [post.likelihood] + list(likes):
            out.append([np.array(l.x), np.array(l.y), np.array(l.yerr), np.array(l.telvec)])
        for l in likes:
            dv = getattr(l, "decorr_vectors", {})
            out.append([np.array(dv[k]) for k in sorted(dv)] if isinstance(dv, dict) else [])
        return out

    def data_same(self, clause, what, post=None, ref=None):
        ref = ref or self.data
        got = self.snapshot(post)
        same = len(got) == len(ref) and all(
            len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
            for a, b in zip(got, ref))
        self.ctx.true(clause, same, what)

    def array(self, names, q):
        return np.array([self.envs[q][k] for k in names], dtype=float)

    def obj(self, o, post=None):
        post = post or self.post
        return post if o == "post" else post.likelihood

    def observe(self, s, what, post=None):
        """Coherence of everything the specification determines in state s."""
        ctx = self.ctx
        post = post or self.post
        free = set(self.free(s["vv"]))
        for o in ("post", "like"):
            ob = self.obj(o, post)
            if set(s["lst"][o]) != {g for g in "ab" if s["vv"][g]}:
                continue
            names = list(ob.name_vary_params())
            ctx.true("names of the array", len(names) == len(free) and set(names) == free,
                     "%s %s lists %s, free are %s" % (what, o, names, sorted(free)))
            arr = np.array(ob.get_vary_params(), dtype=float)
            ctx.eq("length of the array", arr.shape, (len(names),), what)
            for k, v in zip(names, arr):
                w = self.value(k, s["vec"])
                ctx.comparisons += 1
                if w is not None and v != w:
                    raise core.Mismatch("entry of the array is the named value",
                                        "%s %s entry %r: got %r, specification says %r" % (
                                            what, o, k, v, w), "")
        vec = post.vector
        rows = [vec.indices[k] for k in self.keys]
        ctx.true("own place", len(set(rows)) == len(rows) and max(rows) < len(vec.vector), what)
        dv = set(self.free(s["dv"]))
        params = post.params

        def same(clause, got, want, k):
            ctx.comparisons += 1
            if not got == want:
                raise core.Mismatch(clause, "%s %r: got %r, specification says %r" % (
                    what, k, got, want), "")
        table = vec.vector.tolist()
        for k, r in zip(self.keys, rows):
            row = table[r]
            w = self.value(k, s["vec"])
            if w is not None:
                same("model's value", row[0], w, k)
            same("model's flag", bool(row[1]), k in free, k)
            same("linear flag", bool(row[3]), k in self.linflag, k)
            same("model's step size", row[2], self.scales.get(k, 0), k)
            w = self.value(k, s["dict"])
            p = params[k]
            if w is not None:
                same("named value", float(p.value), w, k)
            same("named flag", bool(p.vary), k in dv, k)
            same("step size", p.mcmcscale, self.scales.get(k), k)
            same("linear flag", bool(p.linear), k in self.linflag, k)
        ctx.true("one set of parameters", post.params is post.likelihood.params and
                 post.vector is post.likelihood.vector and post.model.vector is post.vector, what)
        ctx.true("names of the parameters", set(self.keys) == set(post.params.keys()), what)

    # ---- actions
    def tol(self, ll):
        return 1e-6 + 1e-9 * abs(ll)

    def do(self, a, s, t, what, post=None):
        """Perform action a (from state s to t)."""
        ctx = self.ctx
        post = post or self.post
        name = a["name"]
        if name in ("set", "fast"):
            how = a.get("how", a.get("o", "") + ".set")
            ob = self.obj("post" if how.startswith("post") else "like", post)
            names = [k for k in self.order(post, s) if k in self.free(s["vv"])]
            x = self.array(names, a["tok"])
            keep = x.copy()
            r = None
            if how.endswith(".set"):
                ob.set_vary_params(x)
            elif how.endswith(".fast"):
                ob.set_vary_params(x, fast=True)
            elif how.startswith("like."):
                r = getattr(post.likelihood, how[5:])(x)
            else:
                r = getattr(post, how)(x)
            ctx.true("the array is not modified", np.array_equal(x, keep), what)
            if r is not None and t["vec"]["a"] and t["vec"]["b"]:
                e = self.env(t["vec"])
                want = {"logprob_array": e["ll"] + e["lp"], "neglogprob_array": -e["ll"] - e["lp"],
                        "likelihood_ns_array": e["ll"], "extra_likelihood_array": 0.0,
                        "like.logprob_array": e["ll"], "like.neglogprob_array": -e["ll"]}[how]
                ctx.close("value at the array", r, want, 1e-8, self.tol(e["ll"]), what)
                ctx.count("array values")
        elif name == "bad":
            n = len(self.free(s["vv"])) + (1 if a["more"] else -1)
            fixed = self.fixed_values(post, s)
            try:
                x = np.full(n, 0.37)
                if a["how"] == "logprob_array":
                    post.logprob_array(x)
                else:
                    self.obj(a["how"][:4], post).set_vary_params(x)
                refused = False
            except Exception:
                refused = True
            ctx.true("array of the wrong length refused", refused, "%s length %d for %d free" % (
                what, n, len(self.free(s["vv"]))))
            ctx.true("fixed parameters after a refusal", fixed == self.fixed_values(post, s), what)
            ctx.count("refused")
        elif name == "edit":
            for k in self.groups[a["g"]]:
                post.params[k].value = self.envs[a["tok"]][k]
        elif name == "toggle":
            for k in self.groups[a["g"]]:
                post.params[k].vary = not post.params[k].vary
        elif name == "sync":
            post.vector.dict_to_vector()
            post.list_vary_params()
            post.likelihood.list_vary_params()
        elif name == "synclazy":
            post.vector.dict_to_vector()
        elif name == "pull":
            post.vector.vector_to_dict()
        elif name == "print":
            txt = repr(post)
            ctx.true("printed", all(k in txt for k in self.keys), what)
        elif name == "deepcopy":
            self.post = copy.deepcopy(post)
        elif name == "saveload":
            self.post = self.saveload(post)
        elif name == "eval":
            self.evaluate(a.get("what", "logprob"), s, what, post)
        else:
            raise core.MachineryError("unknown action %r" % name)

    def order(self, post, s):
        """Names in the order of the array, from the rows of the parameters."""
        return sorted(self.keys, key=lambda k: post.vector.indices[k])

    def fixed_values(self, post, s):
        free = self.free(s["vv"])
        return [(k, float(post.vector.vector[post.vector.indices[k]][0]), float(post.params[k].value))
                for k in self.keys if k not in free and k not in self.lin]

    def saveload(self, post):
        import radvel
        self.nfile += 1
        path = os.path.join(self.ctx.workdir, "post%d.pkl" % (self.nfile % 3))
        post.writeto(path)
        out = radvel.posterior.load(path)
        os.remove(path)
        return out

    def likes(self, post=None):
        post = post or self.post
        return getattr(post.likelihood, "like_list", [post.likelihood])

    def evaluate(self, what, s, lab, post=None, rng=None):
        """One kind of evaluation, compared with the specification."""
        ctx = self.ctx
        post = post or self.post
        e = self.env(s["vec"])
        lab = "%s %s" % (lab, what)
        tol = self.tol(e["ll"])
        like = post.likelihood
        ctx.count("eval " + what)
        if what == "logprob":
            ctx.close("log-posterior", post.logprob(), e["ll"] + e["lp"], 1e-8, tol, lab)
            ctx.close("log-likelihood", like.logprob(), e["ll"], 1e-8, tol, lab)
        elif what == "residuals":
            want = np.concatenate([r[self.kept(l, i, e["env"])] for i, (l, r) in enumerate(
                zip(self.likes(post), e["resid"]))])
            ctx.close("residuals", post.residuals(), want, 1e-7, 1e-6, lab)
            ctx.close("residuals", like.residuals(), want, 1e-7, 1e-6, lab)
            want = np.concatenate([r[self.kept(l, i, e["env"])] for i, (l, r) in enumerate(
                zip(self.likes(post), e["err"]))])
            ctx.close("error bars", like.errorbars(), want, 1e-10, 1e-12, lab)
        elif what == "ic":
            if set(s["lst"]["like"]) == {g for g in "ab" if s["vv"][g]}:
                n = float(len(self.free(s["vv"])))
                ctx.close("BIC", post.bic(), e["sc"](self.tab["bic"], nfree=n), 1e-8, 2 * tol, lab)
                ctx.close("AIC", post.aic(), e["sc"](self.tab["aic"], nfree=n), 1e-8, 2 * tol, lab)
        elif what == "model":
            t = self.tb.copy()
            ctx.close("model velocities", post.model(t), e["model"], 1e-7, 1e-6, lab)
            ctx.close("model velocities", like.model(t), e["model"], 1e-7, 1e-6, lab)
            ctx.true("times untouched", np.array_equal(t, self.tb), lab)
        elif what.startswith("predict"):
            for i, (l, inst) in enumerate(zip(self.likes(post), self.cfg["insts"])):
                if inst["kind"] == "rv":
                    continue
                xp, mean, var = self.at(s["vec"], what[7:].strip(), i, inst)
                given = xp.copy()
                mu, sd = l.predict(given)
                ctx.true("times untouched", np.array_equal(given, xp), lab)
                ctx.close("conditional mean", mu, mean, 1e-7, 1e-6, lab)
                ctx.close("conditional variance", np.nan_to_num(sd) ** 2,
                          np.maximum(var, 0), 1e-6, 1e-6, lab)
                ctx.count("predictions")
        else:
            raise core.MachineryError(what)
        self.data_same("data unchanged", lab, post)

    def kept(self, l, i, env):
        inst = self.cfg["insts"][i]
        if inst["kind"] != "Celerite":
            return np.arange(inst["n"])
        y = env["y:" + inst["suf"]]
        return np.array([int(np.argmin(np.abs(y - v))) for v in l.y])
