"""Fault injection around one operation."""
from __future__ import annotations

import builtins
import os
import random
import sys

import numpy as np

from . import calls
from .catalog import OPS, Ctx, InjectedFault, canon
from .core import exc_canon
from .natives import Alloc
from .tracer import Tracer, cleanup_point, hot_lines


class SimShutdown(BaseException):
    """Something like a timeout or shutdown handler raising out of nowhere."""


EXCS = {
    "InjectedFault": InjectedFault, "ValueError": ValueError, "TypeError": TypeError,
    "KeyError": KeyError, "IndexError": IndexError, "AttributeError": AttributeError,
    "ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError,
    "AssertionError": AssertionError, "NotImplementedError": NotImplementedError,
    "RuntimeError": RuntimeError, "RecursionError": RecursionError,
    "ZeroDivisionError": ZeroDivisionError, "OverflowError": OverflowError,
    "FloatingPointError": FloatingPointError, "ArithmeticError": ArithmeticError,
    "LinAlgError": np.linalg.LinAlgError, "MemoryError": MemoryError,
    "OSError": OSError, "TimeoutError": TimeoutError, "LookupError": LookupError,
    "UserWarning": UserWarning, "DeprecationWarning": DeprecationWarning,
    "BufferError": BufferError, "EOFError": EOFError, "UnicodeError": UnicodeError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
    "SimShutdown": SimShutdown, "StopIteration": StopIteration,
    "StopAsyncIteration": StopAsyncIteration,
}

_PREFIX = os.path.join(os.environ.get("DST_REPO", "/repo"), "modepy") + os.sep


class ImportFault:
    """Deliver import statements executed by the library to *h(n, name)*."""

    def __init__(self, h):
        self.h, self.n = h, 0

    def __enter__(self):
        self.orig = orig = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(_PREFIX):
                self.n += 1
                self.h(self.n, name)
            return orig(name, globals, locals, fromlist, level)
        builtins.__import__ = imp
        return self

    def __exit__(self, *a):
        builtins.__import__ = self.orig


class Result:
    """outcome: ("ok", canon) | ("raise", exc canon); exc: exception object;
    fired: number of delivered faults; injected: the injected exception object."""

    def __init__(self):
        self.outcome = self.exc = self.injected = self.raw = None
        self.fired = 0
        self.n = 0
        self.where = None


def perform(o, c, fault=None):
    """Run operation *o* in context *c* under *fault*."""
    op = OPS[o["op"]]
    res = Result()
    fault = fault or {"kind": None}
    kind = fault["kind"]
    k = fault.get("k", 0)

    def mk():
        res.fired += 1
        e = EXCS[fault["exc"]](f"injected at {kind} {k}")
        res.injected = e
        return e

    managers = []
    if kind == "callback":
        prev = c.hooks.get("callback")

        def hook(n, name, f, a, kw):
            # (for an iterator, StopIteration is an answer, not a failure)
            if n == k and not (fault["exc"] == "StopIteration"
                               and name in ("bases", "quads")):
                if fault.get("late"):
                    f(*a, **kw)
                raise mk()
            return prev(n, name, f, a, kw) if prev else f(*a, **kw)
        c.hooks = dict(c.hooks, callback=hook)
    elif kind == "interrupt":
        hot = fault.get("hot")
        seen = [0]

        def ev(t, frame):
            if res.fired:
                return
            if hot:
                h, sh, _w = hot_lines(frame)
                if frame.f_lineno not in (sh if hot == "shared" else h):
                    return
                seen[0] += 1
                if seen[0] < k:
                    return
            elif t.n < k:
                return
            if cleanup_point(frame, t.opcodes):
                return
            res.where = (frame.f_code.co_qualname, frame.f_lineno)
            raise mk()
        managers.append(Tracer(ev, opcodes=fault.get("opcodes", False),
                               in_import=fault.get("in_import", False)))
    elif kind == "alloc":
        al = Alloc(fail_at=k, fail_len=fault.get("len", 1))
        managers.append(al)
    elif kind == "poison":
        al = Alloc(poison=fault["mode"], pattern=fault["pattern"])
        managers.append(al)
    elif kind == "call":
        n = [0]

        def h(name, orig, a, kw):
            n[0] += 1
            if n[0] == k or (fault.get("all") and n[0] >= k):
                if fault["mode"] == "raise":
                    exc = fault["exc"]
                    e = EXCS[exc](f"injected at call {k} of {name}")
                    if res.injected is None:
                        res.injected = e
                    res.fired += 1
                    res.where = name
                    raise e
                v = orig(*a, **kw)
                w = calls.corrupt(v, fault["mode"])
                if w is not v or hasattr(v, "converged") or hasattr(v, "success"):
                    res.fired += 1
                    res.where = name
                return w
            return orig(*a, **kw)
        managers.append(calls.armed(h))
        res.counter = n
    elif kind == "import":
        def hi(n, name):
            if n == k or (fault.get("all") and n >= k):
                res.where = name
                raise mk()
        imp = ImportFault(hi)
        managers.append(imp)

    def call():
        v = op.run(c, o["p"])
        res.raw = v
        return v

    try:
        for m in managers:
            m.__enter__()
        try:
            v = call()
        finally:
            for m in managers:
                m.__exit__(None, None, None)
        res.outcome = ("ok", canon(v))
    except Exception as e:
        res.exc = e
        res.outcome = ("raise", exc_canon(e))
    except (KeyboardInterrupt, SystemExit, SimShutdown) as e:
        res.exc = e
        res.outcome = ("raise", exc_canon(e))
    if kind == "alloc":
        res.fired = al.failed
    if kind == "poison":
        res.fired = al.filled
    if kind == "import":
        res.n = imp.n
    if kind == "call":
        res.n = res.counter[0]
    return res


def strip(res):
    """Drop tracebacks (they keep frames and arrays alive)."""
    for e in (res.exc, res.injected):
        if e is not None:
            e.__traceback__ = None


def measure(env, o, kind):
    """How many fault points of *kind* the operation has (in a pristine process)."""
    from . import core
    from .catalog import opkey
    key = (opkey(o), "measure", kind)
    if key in env.lines:
        return env.lines[key]
    env._trim(env.lines)

    def go():
        core.quiet()
        if kind == "alloc":
            with Alloc() as a:
                core.outcome(lambda: OPS[o["op"]].run(Ctx(), o["p"]))
            return a.count
        if kind == "call":
            names = []

            def h(name, orig, a, kw):
                names.append(name)
                return orig(*a, **kw)
            with calls.armed(h):
                core.outcome(lambda: OPS[o["op"]].run(Ctx(), o["p"]))
            return names
        if kind == "callback":
            def hook(n, name, f, a, kw):
                return f(*a, **kw)
            c = Ctx(hooks={"callback": hook})
            core.outcome(lambda: OPS[o["op"]].run(c, o["p"]))
            return c.ncalls
        if kind == "import":
            names = []
            with ImportFault(lambda n, name: names.append(name)):
                core.outcome(lambda: OPS[o["op"]].run(Ctx(), o["p"]))
            return names
        if kind == "window":
            # events at which a process-wide setting is not what it was before
            from . import procstate
            procstate.make_odd(random.Random(1))
            np.seterr(all="call")
            at = []
            base = procstate.snap_fast()

            def ev(t, frame):
                if t.n < 6000 and procstate.snap_fast() != base:
                    at.append(t.n)
            with Tracer(ev):
                core.outcome(lambda: OPS[o["op"]].run(Ctx(), o["p"]))
            return at
        raise ValueError(kind)
    r = env.lines[key] = core.fork_call(go)
    return r


def draw_interrupt(r, env, o, exc=None):
    in_import = r.random() < 0.12
    _out, n, hot, shared = env.nlines(o, in_import)
    f = {"kind": "interrupt", "exc": exc or r.choice(
        ["KeyboardInterrupt"]*4 + ["MemoryError"]*2 + ["SimShutdown", "RecursionError"])}
    if in_import:
        f["in_import"] = True
    x = r.random()
    if shared and x < 0.4:
        f["hot"] = "shared"
        f["k"] = r.randint(1, len(shared))
    elif hot and x < 0.55:
        f["hot"] = "attr"
        f["k"] = r.randint(1, len(hot) + len(shared))
    elif x < 0.7:
        f["opcodes"] = True
        f["k"] = r.randint(1, max(1, 7*n))
    else:
        f["k"] = r.randint(1, max(1, n))
    return f
