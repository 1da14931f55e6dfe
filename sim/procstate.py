"""Process-wide and interpreter-wide state a library call must leave alone."""
from __future__ import annotations

import builtins
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


class _Rec:
    def __init__(self):
        self.n = 0

    def __call__(self, *a):
        self.n += 1

    def write(self, s):
        self.n += 1


ERR = _Rec()


def _excepthook(*a):
    pass


def _showwarning(*a, **kw):
    pass


def _handler(*a):
    pass


def make_odd(r):
    """Put the process in a legal state that differs from the interpreter's
    defaults, so that "restoring the default" is not mistaken for neutrality."""
    np.seterr(divide=r.choice(["ignore", "call", "warn"]),
              over=r.choice(["ignore", "call", "warn"]),
              under=r.choice(["ignore", "call"]),
              invalid=r.choice(["ignore", "call", "warn"]))
    np.seterrcall(ERR)
    np.random.seed(r.randrange(2**32))
    np.random.normal(size=r.choice([1, 2, 3]))
    random.seed(r.randrange(2**32))
    warnings.filters.clear()
    warnings.simplefilter("ignore")
    warnings.filterwarnings("always", message="dst-only", category=ResourceWarning)
    warnings._filters_mutated()
    warnings.showwarning = _showwarning
    np.set_printoptions(precision=r.randint(3, 17), linewidth=r.randint(40, 300),
                        threshold=r.randint(5, 5000), suppress=r.random() < 0.5)
    os.environ["DST_MARK"] = str(r.randrange(10**6))
    sys.setrecursionlimit(r.choice([900, 1000, 1500, 3000]))
    sys.setswitchinterval(r.choice([0.001, 0.004, 0.02]))
    sys.excepthook = _excepthook
    gc.set_threshold(r.choice([0, 500, 700, 5000]), 11, 9)
    if r.random() < 0.3:
        gc.disable()
    decimal.getcontext().prec = r.randint(5, 40)
    np.setbufsize(r.choice([8192, 16384, 65536]))
    signal.signal(signal.SIGINT, r.choice([signal.SIG_IGN, _handler,
                                           signal.default_int_handler]))
    signal.signal(signal.SIGUSR1, _handler)
    signal.signal(signal.SIGALRM, _handler)
    os.umask(r.choice([0o022, 0o077, 0o027]))
    logging.getLogger().setLevel(r.choice([10, 30, 50]))
    logging.disable(r.choice([0, 20]))


def snap(full=True):
    """Observable state as {name: value}; values compare with ==."""
    s = {
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy error callback": id(np.geterrcall()),
        "numpy print options": repr(sorted(
            (k, v) for k, v in np.get_printoptions().items())),
        "legacy numpy random state": _npstate(),
        "random module state": hash(random.getstate()),
        "warning filters": tuple((f[0], getattr(f[1], "pattern", f[1]), f[2].__name__,
                                  getattr(f[3], "pattern", f[3]), f[4])
                                 for f in warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr),
        "sys.stdin": id(sys.stdin),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "decimal context": repr(decimal.getcontext()),
        "numpy buffer size": np.getbufsize(),
    }
    if full:
        s.update({
            "signal handlers": tuple(_sig(n) for n in range(1, 32)),
            "interval timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
            "threads": tuple(sorted(str(t.name) for t in threading.enumerate())),
            "open files": tuple(sorted(_fds())),
            "sys.path": tuple(sys.path), "sys.meta_path": len(sys.meta_path),
            "sys.path_hooks": len(sys.path_hooks),
            "sys.excepthook": id(sys.excepthook),
            "sys.displayhook": id(sys.displayhook),
            "sys.settrace": id(sys.gettrace()), "sys.setprofile": id(sys.getprofile()),
            "threading trace": (id(threading.gettrace()), id(threading.getprofile())),
            "switch interval": sys.getswitchinterval(),
            "dont_write_bytecode": sys.dont_write_bytecode,
            "int digits limit": sys.get_int_max_str_digits(),
            "locale": locale.setlocale(locale.LC_ALL),
            "umask": _status("Umask"),
            "logging": (logging.getLogger().level, len(logging.getLogger().handlers),
                        logging.root.manager.disable),
            "builtins": hash(tuple(sorted((k, id(v)) for k, v in vars(builtins).items()
                                          if k != "_"))),
            "children": _children(),
            "gc callbacks": len(gc.callbacks),
            "atexit": _atexit(),
            "other packages' attributes": Attrs(),
        })
    return s


def snap_fast():
    """The settings that code is tempted to change for a moment."""
    return (np.geterr(), np.geterrcall(), np.get_printoptions(), list(warnings.filters),
            warnings.showwarning, sys.getrecursionlimit(), sys.stdout, sys.stderr,
            gc.isenabled(), gc.get_threshold(), decimal.getcontext().prec,
            decimal.getcontext().rounding, np.random.mtrand._rand, len(os.environ))


class Attrs:
    """Attributes of other packages: those that exist may not change or vanish
    (lazily imported submodules may appear)."""

    NAMES = ("numpy", "numpy.linalg", "numpy.random", "numpy.polynomial", "math",
             "cmath", "functools", "itertools", "operator", "copy", "pickle", "heapq",
             "pytools", "pymbolic", "pymbolic.primitives", "scipy", "scipy.special",
             "scipy.linalg", "scipy.optimize", "dataclasses", "warnings", "logging",
             "matplotlib", "matplotlib.pyplot", "threading", "abc", "collections")
    SKIP = frozenset(["filters", "__warningregistry__", "_filters_version",
                      "_onceregistry"])

    def __init__(self):
        self.d = {}
        for n in self.NAMES:
            m = sys.modules.get(n)
            if m is not None:
                self.d[n] = {k: id(v) for k, v in vars(m).items()
                             if not (k.startswith("_") or k in self.SKIP)}

    def changed(self, o):
        return [f"{n}.{k}" for n, d in self.d.items() for k, v in d.items()
                if o.d.get(n, {}).get(k) != v]

    def __eq__(self, o):
        return not self.changed(o)

    __hash__ = None


def _atexit():
    import atexit
    return atexit._ncallbacks()


def _sig(n):
    try:
        h = signal.getsignal(n)
    except ValueError:
        return None
    return h if isinstance(h, (int, type(None))) else id(h)


def _npstate():
    t = np.random.get_state()
    return (t[0], t[1].tobytes(), t[2], t[3], t[4])


def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return out


def _status(key):
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith(key + ":"):
                return line.split()[1]
    return None


def _children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return len(f.read().split())
    except OSError:
        return 0


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


class Output:
    """Record what is written to the standard streams."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e

    def text(self):
        return self.out.getvalue() + self.err.getvalue()
