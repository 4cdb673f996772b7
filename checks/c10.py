"""C10: copies.  TLC explores two posteriors and a file under every interleaving of operations on
either, copying, saving, and loading a snapshot taken earlier; every transition is replayed with
real posteriors of every configuration, both objects' parameters, flags, step sizes, priors, data,
naming and values being compared with the specification after each step."""
import copy
import os

import numpy as np

import core
import fixtures as fx
import session
import terms

ASSUMPTIONS = ["priors defined by user functions keep their function when saved (dill)"]


def generate(ctx):
    tabs = core.run_tlc(ctx, "CheckC01", """
CONSTANTS
 Acts = {"eval"}
 Hows = {}
 Evals = {}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
""").lines
    tables = [r for r in tabs if "table" in r]
    n = 0
    for names in ctx.pick([["edit", "set", "free"], ["edit", "data", "eval"],
                           ["logprob_array", "edit", "prior"]],
                          [["set", "edit", "free", "prior", "data", "eval"],
                           ["logprob_array", "edit", "free", "prior", "eval"]]):
        res = core.run_tlc(ctx, "CheckC10", """
CONSTANT Names = %s
SPECIFICATION Spec
VIEW View
PROPERTIES Independent Equivalent Snapshot SaveReads
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % core.tla(set(names)), timeout=3000)
        g = core.Graph(res.lines)
        for w in g.tour(maxlen=100, rng=ctx.rng("c10tour")):
            yield {"id": n, "tab": tables[(n + ctx.seed) % len(tables)], "walk": w}
            n += 1


class Two(session.Session):
    def full(self, s):
        return {"vec": {"a": s["a"], "b": s["b"]}, "dict": {"a": s["a"], "b": s["b"]},
                "vv": {"a": True, "b": s["vb"]}, "dv": {"a": True, "b": s["vb"]},
                "lst": {"post": ["a", "b"] if s["vb"] else ["a"],
                        "like": ["a", "b"] if s["vb"] else ["a"]}}

    def env2(self, s):
        key = (s["a"], s["b"], s["dat"])
        if key not in self.cache:
            e = dict(self.base)
            for g in "ab":
                for k in self.groups[g]:
                    e[k] = self.envs[s[g]][k]
            if s["dat"]:
                suf = self.cfg["insts"][0]["suf"]
                e["y:" + suf] = self.poked(e["y:" + suf])
            self.cache[key] = (float(np.asarray(terms.ev(self.tab["ll"], e)).reshape(-1)[0]),
                               float(np.asarray(terms.ev(self.tab["lp"], e)).reshape(-1)[0]))
        return self.cache[key]

    def poked(self, y):
        y = np.array(y)
        y[0] += 5.0
        return y

    def poke(self, post, on):
        like0 = self.likes(post)[0]
        want = self.poked(self.base["y:" + self.cfg["insts"][0]["suf"]])[0] if on else \
            self.base["y:" + self.cfg["insts"][0]["suf"]][0]
        inst = self.cfg["insts"][0]
        row = 0
        if inst["kind"] == "Celerite":
            row = int(np.argmin(self.base["x:" + inst["suf"]][
                np.argsort(self.base["x:" + inst["suf"]])] != self.base["x:" + inst["suf"]][0]))
        like0.y[row] = want
        if like0 is not post.likelihood:
            post.likelihood.y[row] = want

    def check(self, post, s, ref, what):
        ctx = self.ctx
        self.dict_known = True
        full = self.full(s)
        self.observe(full, what, post)
        ctx.eq("priors", [repr(p) for p in post.priors], ref["priors"][:1] + (
            ref["priors"][1:] if s["pri"] else []), what)
        ctx.eq("planet letters", post.params.planet_letters, ref["letters"], what)
        ctx.eq("number of planets", post.params.num_planets, ref["np"], what)
        ctx.eq("basis", post.params.basis.name, ref["basis"], what)
        ctx.close("time base", post.model.time_base, ref["tb"], 0, 0, what)
        ctx.eq("labels", post.params.tex_labels(), ref["tex"], what)
        ctx.eq("kind of likelihood", type(post.likelihood).__name__, ref["kind"], what)
        self.data_same("data", what, post, ref["data1"] if s["dat"] else ref["data0"])
        ll, lp = self.env2(s)
        lp2 = -np.log(200.0) if s["pri"] else 0.0
        ctx.close("value", post.logprob(), ll + lp + lp2, 1e-8, self.tol(ll), what)
        ctx.close("likelihood", post.likelihood.logprob(), ll, 1e-8, self.tol(ll), what)


def run(ctx, case):
    rng = ctx.nprng("c10", case["id"])
    what = "config %d" % case["tab"]["table"]
    ses = Two(ctx, case["tab"], rng, what, letters=case["id"] % 2 == 0)
    post = ses.post
    import radvel

    # jitters lie inside; the normalisation tells whether the prior is there
    def wide(x):
        return -np.log(200.0)
    second = radvel.prior.UserDefinedPrior([ses.tab["prior"]["key"]], wide, "wide")
    post.list_vary_params()
    post.likelihood.list_vary_params()
    ref = {"priors": [repr(post.priors[0]), repr(second)], "letters": post.params.planet_letters,
           "np": ses.cfg["np"], "basis": ses.cfg["basis"], "tb": ses.base["tb"],
           "tex": post.params.tex_labels(), "kind": type(post.likelihood).__name__}
    ref["data0"] = ses.snapshot(post)
    ses.poke(post, True)
    ref["data1"] = ses.snapshot(post)
    ses.poke(post, False)
    objs = [post, None]
    path = os.path.join(ctx.workdir, "saved.pkl")
    state = [{"a": 1, "b": 1, "vb": False, "pri": False, "dat": False}, None]
    trail = []
    for a, t in case["walk"]:
        trail.append(" ".join(str(v) for v in (a["name"], a["i"], a.get("op", a.get("how", "")))))
        lab = "%s after %s" % (what, trail[-5:])
        i = a["i"] - 1
        p = objs[i]
        if a["name"] == "op":
            op = a["op"]
            s = state[i]
            full = ses.full(s)
            if op["name"] in ("set", "logprob_array"):
                names = [k for k in ses.order(p, full) if k in ses.free(full["vv"])]
                x = ses.array(names, op["tok"])
                if op["name"] == "set":
                    p.set_vary_params(x)
                else:
                    p.logprob_array(x)
                    p.vector.vector_to_dict()
            elif op["name"] == "edit":
                for g in "ab":
                    for k in ses.groups[g]:
                        p.params[k].value = ses.envs[op["tok"]][k]
                p.vector.dict_to_vector()
            elif op["name"] == "free":
                for k in ses.groups["b"]:
                    p.params[k].vary = not p.params[k].vary
                p.vector.dict_to_vector()
                p.list_vary_params()
                p.likelihood.list_vary_params()
            elif op["name"] == "prior":
                if s["pri"]:
                    p.priors.pop()
                else:
                    p.priors.append(second)
            elif op["name"] == "data":
                ses.poke(p, not s["dat"])
            elif op["name"] == "eval":
                p.residuals()
                repr(p)
        elif a["name"] == "copy":
            if a["how"] == "deepcopy":
                objs[1 - i] = copy.deepcopy(p)
            else:
                tmp = os.path.join(ctx.workdir, "copy.pkl")
                p.writeto(tmp)
                objs[1 - i] = radvel.posterior.load(tmp)
                os.remove(tmp)
            ctx.true("another object", objs[1 - i] is not p and objs[1 - i].params is not p.params
                     and objs[1 - i].vector is not p.vector, lab)
        elif a["name"] == "save":
            p.writeto(path)
        elif a["name"] == "load":
            objs[i] = radvel.posterior.load(path)
        ctx.count(a["name"])
        state = [s if s["a"] else None for s in t["o"]]
        for j in (0, 1):
            if state[j] is not None:
                ses.check(objs[j], state[j], ref, "%s, object %d" % (lab, j + 1))
    if os.path.exists(path):
        os.remove(path)


def coverage_check(ctx):
    for k in ("op", "copy", "save", "load"):
        if not ctx.counts.get(k):
            raise core.MachineryError("C10 never reached %r" % k)
