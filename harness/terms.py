"""Evaluator for the terms the specification emits.  It shares no code with radvel."""
import numpy as np
import scipy.linalg


def kep_E(M, e):
    """Solve E - e sin E = M by bracketed bisection followed by Newton steps."""
    M = np.asarray(M, dtype=float)
    e = np.broadcast_to(np.asarray(e, dtype=float), M.shape)
    Mr = M - 2 * np.pi * np.floor(M / (2 * np.pi))
    lo = np.zeros_like(Mr)
    hi = np.full_like(Mr, 2 * np.pi)
    for _ in range(54):
        mid = 0.5 * (lo + hi)
        up = mid - e * np.sin(mid) > Mr
        hi = np.where(up, mid, hi)
        lo = np.where(up, lo, mid)
    E = 0.5 * (lo + hi)
    for _ in range(2):
        E = E - (E - e * np.sin(E) - Mr) / (1 - e * np.cos(E))
    return E


def ev(t, env):
    """Evaluate term t in env (a mapping name -> number or array)."""
    with np.errstate(all="ignore"):
        return _ev(t, env)


def _ev(t, env):
    op = t["op"]
    if op == "var":
        v = env[t["v"]]
        return np.asarray(v, dtype=float) if isinstance(v, (list, tuple)) else v
    if op == "num":
        return t["n"] / t["d"]
    if op == "pi":
        return np.pi
    if op == "neginf":
        return -np.inf
    a = t["a"]
    if op == "if":
        c = _ev(a[0], env)
        if np.ndim(c) == 0:
            return _ev(a[1], env) if c else _ev(a[2], env)
        return np.where(c, _ev(a[1], env), _ev(a[2], env))
    if op == "and":
        return np.logical_and(_ev(a[0], env), _ev(a[1], env))
    if op == "or":
        return np.logical_or(_ev(a[0], env), _ev(a[1], env))
    x = _ev(a[0], env)
    if len(a) == 1:
        return _UN[op](x)
    y = _ev(a[1], env)
    if len(a) == 2:
        return _BIN[op](x, y)
    return _TER[op](x, y, _ev(a[2], env))


def _normcdf(x):
    from scipy.special import ndtr
    return ndtr(x)


def _normppf(x):
    from scipy.special import ndtri
    return ndtri(x)


def _solve(K, r):
    """K^-1 r; undefined (NaN) where the inputs are undefined or K is singular."""
    if not (np.all(np.isfinite(K)) and np.all(np.isfinite(r))):
        return np.full(np.shape(r), np.nan)
    try:
        return scipy.linalg.solve(K, r)
    except (np.linalg.LinAlgError, scipy.linalg.LinAlgError):
        return np.full(np.shape(r), np.nan)


_UN = {
    "neg": lambda x: -x, "sqr": lambda x: x * x, "sqrt": np.sqrt, "exp": np.exp, "log": np.log,
    "sin": np.sin, "cos": np.cos, "asin": np.arcsin, "floor": np.floor, "abs": np.abs,
    "sum": np.sum, "mean": np.mean, "count": np.size, "diag": lambda x: np.diag(x),
    "normcdf": _normcdf, "normppf": _normppf,
    "logdet": lambda K: np.linalg.slogdet(K)[1],
}
_BIN = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
    "/": lambda x, y: np.divide(x, y), "atan2": np.arctan2, "kepE": kep_E,
    "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
    "pow": lambda x, y: np.power(x, y),
    "mod": lambda x, y: x - y * np.floor(x / y),
    "min": np.minimum, "max": np.maximum,
    "outerdiff": lambda x, y: np.asarray(x)[:, None] - np.asarray(y)[None, :],
    "quad": lambda K, r: float(np.dot(r, _solve(K, r))),
    "solve": lambda K, r: _solve(K, r),
    "matvec": lambda K, r: np.dot(K, r),
}
_TER = {
    "condvar": lambda Kss, Ks, K: np.diag(Kss) - np.einsum(
        "ij,ji->i", Ks, _solve(K, Ks.T)),
}
