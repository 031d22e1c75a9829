"""Uninitialised memory behind a seam.

What `np.empty` and a ufunc with `where=` but no `out=` leave in the elements that are not written is whatever the
allocator hands out: a source of nondeterminism. In the modules of the code under test such memory is filled with a
value the simulator chooses, so that a result which depends on it differs whenever that value does.
"""
import sys
import types

import numpy as np

FILL = [0]      # which garbage (an index; every process may use another)
GARBAGE = [(7.25e11, 0x5A5A5A5A), (-3.5e-7, 0x7B), (float("nan"), -77), (1.5, 3)]


def _fill(a):
    f, i = GARBAGE[FILL[0] % len(GARBAGE)]
    k = a.dtype.kind
    if a.size == 0 or k not in "fciub":
        return a
    if k == "f":
        a[...] = f
    elif k == "c":
        a[...] = complex(f, -2 * f)
    elif k == "b":
        a[...] = bool(FILL[0] & 1)
    else:
        a[...] = np.array(i).astype(a.dtype)
    return a


class _Ufunc:
    """A ufunc whose unwritten outputs are filled."""

    def __init__(self, f):
        self.__dict__["_f"] = f

    def __call__(self, *a, **kw):
        f = self._f
        w = kw.get("where", True)
        if w is True or kw.get("out") is not None or len(a) > f.nin:
            return f(*a, **kw)
        kw = dict(kw)
        kw.pop("where")
        kw.pop("out", None)
        # shape and type of the result: of the same call without the mask
        with np.errstate(all="ignore"):
            full = f(*a, **kw)
            shape = np.broadcast_shapes(np.shape(full), np.shape(w))
        out = _fill(np.empty(shape, np.asarray(full).dtype))
        r = f(*a, out=out, where=w, **kw)
        return r[()] if r.ndim == 0 else r

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __repr__(self):
        return repr(self._f)

    def __reduce__(self):
        return self._f.__reduce__()


def _empty(*a, **kw):
    return _fill(np.empty(*a, **kw))


def _empty_like(*a, **kw):
    r = np.empty_like(*a, **kw)
    return _fill(r) if type(r) is np.ndarray else r


_np = None


def module():
    global _np
    if _np is None:
        _np = types.ModuleType("numpy")
        _np.__dict__.update(np.__dict__)
        _np.empty, _np.empty_like = _empty, _empty_like
        for k in ("divide", "true_divide", "multiply", "add", "subtract", "sqrt", "square", "log", "log10", "exp", "power", "reciprocal", "abs",
                  "absolute", "floor_divide", "isfinite", "angle", "conjugate", "arctan2", "maximum", "minimum"):
            f = getattr(np, k, None)
            if isinstance(f, np.ufunc) and f.nout == 1:
                setattr(_np, k, _Ufunc(f))
    return _np


def install(mods):
    p, real = module(), sys.modules["numpy"]
    for m in mods.values():
        d = m.__dict__
        for k, v in list(d.items()):
            if v is real:
                d[k] = p
            elif v is np.empty:
                d[k] = _empty
            elif v is np.empty_like:
                d[k] = _empty_like
