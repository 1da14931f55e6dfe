"""Call seam over the numerical substeps the library delegates: numpy.linalg and
scipy.  Installed before modepy is imported, so that it does not matter how the
library names them."""
from __future__ import annotations

import functools
import os
import sys

import numpy as np


REPO = os.environ.get("DST_REPO", "/repo")
_PREFIX = os.path.join(REPO, "modepy") + os.sep

_handler = None          # active fault handler: f(name, orig, args, kwargs)

NUMPY = ["inv", "solve", "svd", "lstsq", "cholesky", "qr", "eig", "eigh", "eigvals",
         "eigvalsh", "pinv", "det", "slogdet", "cond", "matrix_rank", "norm",
         "tensorsolve", "tensorinv", "matrix_power", "multi_dot", "svdvals"]
SCIPY = {
    "scipy.linalg": ["solve_triangular", "solve", "inv", "lu_factor", "lu_solve",
                     "cho_factor", "cho_solve", "cholesky", "qr", "svd", "lstsq",
                     "eig", "eigh", "eigvals", "eigvalsh", "pinv", "det",
                     "eigh_tridiagonal", "null_space"],
    "scipy.special": ["ellipk", "ellipkm1", "ellipj", "ellipkinc", "roots_jacobi",
                      "roots_legendre", "roots_chebyt", "j_roots", "p_roots",
                      "eval_jacobi", "gamma", "gammaln", "factorial", "binom",
                      "comb"],
    "scipy.optimize": ["root_scalar", "brentq", "brenth", "ridder", "bisect", "newton",
                       "toms748", "root", "fsolve", "least_squares", "minimize"],
}


def _wrap(mod, name):
    orig = getattr(mod, name, None)
    if orig is None or getattr(orig, "_dst_orig", None) is not None:
        return
    qual = mod.__name__ + "." + name

    def w(*a, **kw):
        h = _handler
        if h is None:
            return orig(*a, **kw)
        f = sys._getframe(1)
        if not f.f_code.co_filename.startswith(_PREFIX):
            return orig(*a, **kw)
        return h(qual, orig, a, kw)
    try:
        functools.update_wrapper(w, orig)
    except Exception:
        w.__name__ = name
    w._dst_orig = orig
    setattr(mod, name, w)


def install():
    import importlib
    for n in NUMPY:
        _wrap(np.linalg, n)
    for m, names in SCIPY.items():
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        for n in names:
            _wrap(mod, n)


class armed:
    """``with armed(handler):`` deliver calls made by the library to *handler*."""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        global _handler
        _handler = self.h
        return self

    def __exit__(self, *a):
        global _handler
        _handler = None


def corrupt(v, mode, k=0):
    """What a substep hands back when it broke down without saying so."""
    bad = {"nan": float("nan"), "inf": float("inf")}[mode]
    if isinstance(v, np.ndarray):
        if v.dtype.kind not in "fc":
            return v
        v = np.array(v)
        v[...] = bad
        return v
    if isinstance(v, (float, np.floating)):
        return type(v)(bad)
    if isinstance(v, (complex, np.complexfloating)):
        return type(v)(bad)
    if isinstance(v, tuple):
        xs = [corrupt(x, mode) for x in v]
        try:
            return type(v)(*xs)
        except TypeError:
            return type(v)(xs)
    if hasattr(v, "converged") and hasattr(v, "root"):
        v.converged = False
        v.root = v.root + 0.25*(1 - v.root)
        v.flag = "simulated: not converged"
        return v
    if hasattr(v, "success") and hasattr(v, "x"):
        v.success = False
        v.x = corrupt(v.x, mode)
        return v
    return v
