"""A scripted stand-in for scipy.optimize.minimize (installed before radvel is imported)."""
import functools

import numpy as np

_state = {"solve": None, "real": None, "results": []}


def install():
    import scipy.optimize
    if _state["real"] is None:
        real = _state["real"] = scipy.optimize.minimize

        @functools.wraps(real)
        def minimize(fun, x0, args=(), *a, **kw):
            solve = _state["solve"]
            if solve is None:
                res = real(fun, x0, args, *a, **kw)
                _state["results"].append((np.array(x0), res))
                return res
            f = lambda x: fun(x, *(args if isinstance(args, tuple) else (args,)))
            best, points = solve(f, np.array(x0, dtype=float))
            best = np.array(best, dtype=float)
            val = None
            for p in points:
                v = f(np.array(p))
                if np.array_equal(p, best):
                    val = v
            return scipy.optimize.OptimizeResult(x=best.copy(), fun=val, success=True, status=0,
                                                 nit=1, nfev=len(points), message="scripted")
        scipy.optimize.minimize = minimize


def script(solve):
    """solve(fun, x0) -> (answer, points evaluated in order); None restores the real optimiser."""
    _state["solve"] = solve


def results():
    return _state["results"]
