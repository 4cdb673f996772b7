"""Stand-ins for the nested samplers: they take the calls the real packages take (bound to the real
signatures), record them, evaluate the functions they are given at points of the unit cube, write a
checkpoint where the real package writes its own, and answer with samples that follow from the
lineage of runs in that checkpoint.  `MODE[0]` switches between them and the real packages."""
import ctypes
import inspect
import json
import os
import sys
import types

import numpy as np

MODE = ["fake"]
CALLS = []                  # one record per sampler run started
RUN = {"id": 0, "crash": False}
REAL = {}
MULTINEST = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD, default=d) for n, d in [
    ("LogLikelihood", inspect.Parameter.empty), ("Prior", inspect.Parameter.empty),
    ("n_dims", inspect.Parameter.empty), ("n_params", None), ("n_clustering_params", None),
    ("wrapped_params", None), ("importance_nested_sampling", True), ("multimodal", True),
    ("const_efficiency_mode", False), ("n_live_points", 400), ("evidence_tolerance", 0.5),
    ("sampling_efficiency", 0.8), ("n_iter_before_update", 100), ("null_log_evidence", -1e90),
    ("max_modes", 100), ("mode_tolerance", -1e90), ("outputfiles_basename", "chains/1-"), ("seed", -1),
    ("verbose", False), ("resume", True), ("context", 0), ("write_output", True), ("log_zero", -1e100),
    ("max_iter", 0), ("init_MPI", False), ("dump_callback", None), ("use_MPI", True)]])


class Stop(KeyboardInterrupt):
    """The run is interrupted."""


def cube(lineage, n):
    """The unit-cube points of a run: few, and different for every lineage and number of parameters."""
    rng = np.random.default_rng([7, n] + list(lineage))
    return rng.uniform(0.02, 0.98, (6, n))


def answers(lineage):
    rng = np.random.default_rng([11] + list(lineage))
    return float(rng.normal(-50, 5)), float(rng.uniform(0.1, 1))


def evaluate(rec, ndim):
    """Evaluate the functions as the package would; the samples are the transformed points."""
    us = cube(rec["lineage"], ndim)
    xs, ls = [], []
    for u in us:
        keep = u.copy()
        x = np.array(rec["ptform"](u), dtype=float)
        rec.setdefault("changed_u", []).append(not np.array_equal(u, keep))
        xs.append(x)
        ls.append(float(rec["loglike"](x.copy())))
    rec.update(us=us, xs=np.array(xs), ls=np.array(ls))


def load(path):
    with open(path) as fh:
        return json.load(fh)


def store(path, lineage):
    with open(path, "w") as fh:
        json.dump(lineage, fh)


def finish(rec):
    if RUN["crash"]:
        raise Stop()


class DynestyResults(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def samples_equal(self, rstate=None):
        return self._equal.copy()

    def importance_weights(self):
        return np.full(len(self._equal), 1 / len(self._equal))


class DynestySampler:
    def __init__(self, cls, args, kwargs):
        b = inspect.signature(REAL[cls]).bind(*args, **kwargs)
        b.apply_defaults()
        self.rec = {"class": cls, "made": dict(b.arguments), "restored": None, "lineage": [RUN["id"]]}
        self.cls = cls

    @classmethod
    def restore(kind, cls, path):
        s = kind.__new__(kind)
        s.cls = cls
        s.rec = {"class": cls, "made": None, "restored": path, "lineage": load(path) + [RUN["id"]]}
        return s

    def run_nested(self, *args, **kwargs):
        b = inspect.signature(REAL[self.cls].run_nested).bind(None, *args, **kwargs)
        b.apply_defaults()
        rec = self.rec
        rec["run"] = {k: v for k, v in b.arguments.items() if k != "self"}
        CALLS.append(rec)
        if rec["run"]["resume"] and rec["restored"] is None:
            raise AttributeError("nothing to resume")
        if not rec["run"]["resume"] and rec["restored"] is not None:
            rec["lineage"] = [RUN["id"]]
        if rec["made"] is not None:
            rec["loglike"], rec["ptform"] = rec["made"]["loglikelihood"], rec["made"]["prior_transform"]
            rec["ndim"] = rec["made"]["ndim"]
            FUNCS[self.cls] = rec["loglike"], rec["ptform"], rec["ndim"]
        else:
            rec["loglike"], rec["ptform"], rec["ndim"] = FUNCS[self.cls]
        if rec["run"]["checkpoint_file"] is not None:
            store(rec["run"]["checkpoint_file"], rec["lineage"])
        finish(rec)
        evaluate(rec, rec["ndim"])

    def save(self, path):
        self.rec["saved"] = path
        store(path, self.rec["lineage"])

    @property
    def results(self):
        z, e = answers(self.rec["lineage"])
        r = DynestyResults(logz=np.array([-9e9, z - 30, z]), logzerr=np.array([9., 3., e]),
                           samples=self.rec["xs"][::-1] * 0 + 1, logwt=np.zeros(len(self.rec["xs"])))
        r["_equal"] = self.rec["xs"]
        return r


FUNCS = {}


class Switch:
    """A class of the package: the real one, or the stand-in."""

    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *args, **kwargs):
        if MODE[0] == "real":
            return REAL[self.cls](*args, **kwargs)
        kind = {"ReactiveNestedSampler": UltranestSampler, "Sampler": NautilusSampler}.get(self.cls)
        return kind(*args, **kwargs) if kind else DynestySampler(self.cls, args, kwargs)

    def restore(self, path, *args, **kwargs):
        if MODE[0] == "real":
            return REAL[self.cls].restore(path, *args, **kwargs)
        return DynestySampler.restore(self.cls, path)


class UltranestSampler:
    def __init__(self, *args, **kwargs):
        b = inspect.signature(REAL["ReactiveNestedSampler"]).bind(*args, **kwargs)
        b.apply_defaults()
        m = dict(b.arguments)
        self.rec = {"class": "ultranest", "made": m, "loglike": m["loglike"], "ptform": m["transform"],
                    "lineage": [RUN["id"]]}
        self.stepsampler = None
        if m["log_dir"] is not None:
            os.makedirs(os.path.join(m["log_dir"], "chains"), exist_ok=True)
            self.path = os.path.join(m["log_dir"], "chains", "points.json")
            if m["resume"] is True and os.path.exists(self.path):
                self.rec["lineage"] = load(self.path) + [RUN["id"]]

    def run(self, *args, **kwargs):
        b = inspect.signature(REAL["ReactiveNestedSampler"].run).bind(None, *args, **kwargs)
        b.apply_defaults()
        rec = self.rec
        rec["run"] = {k: v for k, v in b.arguments.items() if k != "self"}
        rec["step"] = self.stepsampler
        CALLS.append(rec)
        if rec["made"]["log_dir"] is not None:
            store(self.path, rec["lineage"])
        finish(rec)
        evaluate(rec, len(rec["made"]["param_names"]))
        z, e = answers(rec["lineage"])
        self.results = {"samples": rec["xs"].copy(), "logz": z, "logzerr": e, "logz_single": z - 1,
                        "logzerr_single": e + 1, "niter": 5, "ess": 5.0,
                        "weighted_samples": {"points": rec["xs"][::-1] * 0 + 1}}
        return self.results


class NautilusSampler:
    def __init__(self, *args, **kwargs):
        b = inspect.signature(REAL["Sampler"]).bind(*args, **kwargs)
        b.apply_defaults()
        m = dict(b.arguments)
        self.rec = {"class": "nautilus", "made": m, "loglike": m["likelihood"], "ptform": m["prior"],
                    "lineage": [RUN["id"]]}
        if m["filepath"] is not None and m["resume"] and os.path.exists(m["filepath"]):
            self.rec["lineage"] = load(m["filepath"]) + [RUN["id"]]

    def run(self, *args, **kwargs):
        b = inspect.signature(REAL["Sampler"].run).bind(None, *args, **kwargs)
        b.apply_defaults()
        rec = self.rec
        rec["run"] = {k: v for k, v in b.arguments.items() if k != "self"}
        CALLS.append(rec)
        if rec["made"]["filepath"] is not None:
            os.makedirs(os.path.dirname(os.path.abspath(rec["made"]["filepath"])), exist_ok=True)
            store(rec["made"]["filepath"], rec["lineage"])
        finish(rec)
        evaluate(rec, rec["made"]["n_dim"])
        return True

    def posterior(self, *args, **kwargs):
        b = inspect.signature(REAL["Sampler"].posterior).bind(None, *args, **kwargs)
        b.apply_defaults()
        x = self.rec["xs"]
        if not b.arguments["equal_weight"]:
            return x[::-1] * 0 + 1, np.linspace(-3, -1, len(x)), self.rec["ls"]
        return x.copy(), np.full(len(x), -np.log(len(x))), self.rec["ls"].copy()

    @property
    def log_z(self):
        return answers(self.rec["lineage"])[0]

    @property
    def n_eff(self):
        return answers(self.rec["lineage"])[1] ** -2

    def evidence(self):
        return self.log_z

    def effective_sample_size(self):
        return self.n_eff


def multinest_run(*args, **kwargs):
    b = MULTINEST.bind(*args, **kwargs)
    b.apply_defaults()
    m = dict(b.arguments)
    n = m["n_dims"]

    def ptform(u):
        p = (ctypes.c_double * n)(*u)
        q = ctypes.cast(p, ctypes.POINTER(ctypes.c_double))       # no length, as in the real package
        m["Prior"](q, n, n)
        return [p[i] for i in range(n)]

    def loglike(x):
        p = (ctypes.c_double * n)(*x)
        return m["LogLikelihood"](ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), n, n)

    base = m["outputfiles_basename"]
    rec = {"class": "multinest", "made": None, "run": m, "loglike": loglike, "ptform": ptform,
           "lineage": [RUN["id"]]}
    CALLS.append(rec)
    path = base + "resume.json"
    if m["resume"] and os.path.exists(path):
        rec["lineage"] = load(path) + [RUN["id"]]
    store(path, rec["lineage"])
    finish(rec)
    evaluate(rec, n)
    np.savetxt(base + "post_equal_weights.dat", np.column_stack([rec["xs"], rec["ls"]]), fmt="%.17g")


class Analyzer:
    def __init__(self, n_params, outputfiles_basename="chains/1-", verbose=True):
        self.n, self.base = n_params, outputfiles_basename

    def get_equal_weighted_posterior(self):
        d = np.loadtxt(self.base + "post_equal_weights.dat", ndmin=2)
        if d.shape[1] != self.n + 1:
            raise ValueError("wrong number of parameters")
        return d

    def get_stats(self):
        z, e = answers(load(self.base + "resume.json"))
        return {"global evidence": z, "global evidence error": e,
                "nested sampling global log-evidence": z, "nested sampling global log-evidence error": e,
                "nested importance sampling global log-evidence": z,
                "nested importance sampling global log-evidence error": e, "modes": []}


def install():
    import dynesty
    import nautilus
    import ultranest
    for mod, names in ((dynesty, ("NestedSampler", "DynamicNestedSampler")),
                       (ultranest, ("ReactiveNestedSampler",)), (nautilus, ("Sampler",))):
        for n in names:
            if n not in REAL:
                REAL[n] = getattr(mod, n)
                setattr(mod, n, Switch(n))
    m = types.ModuleType("pymultinest")
    m.run, m.Analyzer = multinest_run, Analyzer
    sys.modules["pymultinest"] = m
