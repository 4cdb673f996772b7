"""The sampler library as seen from radvel.mcmc: every ensemble's steps recorded, the
autocorrelation time scripted on request (installed before radvel is imported)."""
import os
import signal

import numpy as np

_st = {"steps": [], "starts": [], "n": 0, "tau": None, "real": None, "stop": None, "made": [],
       "watch": None, "kill": None}


def install():
    import emcee
    import emcee.autocorr
    if _st["real"] is not None:
        return
    real = _st["real"] = emcee.autocorr.integrated_time
    Base = emcee.EnsembleSampler

    def integrated_time(x, *a, **kw):
        return real(x, *a, **kw) if _st["tau"] is None else _st["tau"](np.asarray(x))

    class EnsembleSampler(Base):
        def __init__(self, *a, **kw):
            Base.__init__(self, *a, **kw)
            self.which = _st["n"]
            _st["n"] += 1
            _st["made"].append((self.nwalkers, self.ndim))

        def sample(self, initial_state, *a, **kw):
            p = getattr(initial_state, "coords", initial_state)
            _st["starts"].append((self.which, None if p is None else np.array(p, dtype=float),
                                  len([1 for s in _st["steps"] if s[0] == self.which])))
            for s in Base.sample(self, initial_state, *a, **kw):
                _event("step")
                _st["steps"].append((self.which, np.array(s.coords), np.array(s.log_prob)))
                if _st["stop"] is not None and len(_st["steps"]) >= _st["stop"]:
                    raise KeyboardInterrupt
                yield s

    import h5py
    create = h5py.Group.create_dataset

    def create_dataset(self, *a, **kw):
        _event("save")
        return create(self, *a, **kw)
    h5py.Group.create_dataset = create_dataset
    for name in ("replace", "rename"):
        move = getattr(os, name)

        def moved(src, dst, *a, _move=move, **kw):
            if str(dst).endswith(".h5"):
                _event("save")
            r = _move(src, dst, *a, **kw)
            if str(dst).endswith(".h5"):
                _event("save")
            return r
        setattr(os, name, moved)
    EnsembleSampler.__module__ = __name__
    EnsembleSampler.__qualname__ = "EnsembleSampler"
    globals()["EnsembleSampler"] = EnsembleSampler
    emcee.autocorr.integrated_time = integrated_time
    emcee.EnsembleSampler = EnsembleSampler
    if hasattr(emcee, "ensemble"):
        emcee.ensemble.EnsembleSampler = EnsembleSampler


def _event(kind):
    """A step drawn or something about to be written; the process is killed at the chosen one."""
    if _st["watch"] is not None:
        _st["watch"].append(kind)
    if _st["kill"] is not None:
        _st["kill"] -= 1
        if _st["kill"] == 0:
            os.kill(os.getpid(), signal.SIGKILL)


def kill(at):
    _st["kill"] = at


def watch(on):
    """Start, or end and return, the list of events."""
    got, _st["watch"] = _st["watch"], [] if on else None
    return got


def begin(tau=None, stop=None):
    """Start recording; tau(x) replaces the autocorrelation time; stop: interrupt at that step."""
    _st.update(steps=[], starts=[], n=0, tau=tau, stop=stop, made=[])


def end():
    _st.update(tau=None, stop=None)


def made():
    return list(_st["made"])


def starts(e):
    return [(p, at) for w, p, at in _st["starts"] if w == e]


def steps(e):
    """Positions (steps, walkers, dimensions) and log-probabilities drawn by ensemble e."""
    s = [(c, l) for w, c, l in _st["steps"] if w == e]
    if not s:
        return np.zeros((0, 0, 0)), np.zeros((0, 0))
    return np.array([c for c, _ in s]), np.array([l for _, l in s])


def table(chains, lnps):
    """Rows (walker, then ensemble, then step) of per-ensemble (steps, walkers, ndim) arrays."""
    c = np.concatenate(chains, axis=0)
    l = np.concatenate(lnps, axis=0)
    return np.swapaxes(c, 0, 1).reshape(-1, c.shape[2]), l.T.reshape(-1)
