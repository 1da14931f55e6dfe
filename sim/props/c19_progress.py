"""C19: every call ends after a bounded amount of work."""
from __future__ import annotations

import sys

import numpy as np

from .. import calls
from ..catalog import Ctx, OPS, np_rng
from ..core import (
    REPO, ChildHang, ChildTimeout, Prop, Violation, draw_op, fork_call, outcome, quiet,
    register, swarm_names)
from ..faults import measure
from ..tracer import _PREFIX


class TooMuch(BaseException):
    pass


class Meter:
    """Counts the source lines the library executes."""

    def __init__(self, limit=None):
        self.n, self.limit, self.where = 0, limit, None

    def __enter__(self):
        mon = sys.monitoring

        def line(code, lineno):
            if not code.co_filename.startswith(_PREFIX):
                return mon.DISABLE
            self.n += 1
            if self.limit is not None and self.n > self.limit:
                self.where = (f"{code.co_filename[len(REPO)+1:]}:{code.co_name}")
                raise TooMuch
            return None
        mon.use_tool_id(3, "meter")
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(3, 0)
        sys.monitoring.free_tool_id(3)


# {{{ adversaries

MODES = ["nan", "nan", "inf", "-inf", "zero", "one", "huge", "tiny", "noise", "flip",
         "neg", "alternate", "grow", "shuffle", "offby"]


def garble(a, mode, g, n):
    """*a* (an array or number) as a party that has gone mad hands it over, the n-th
    time."""
    scalar = not isinstance(a, np.ndarray)
    x = np.array(a)
    if x.dtype.kind not in "fc" or x.size == 0:
        return a
    if mode in ("nan", "inf", "-inf"):
        x[...] = float(mode)
    elif mode == "zero":
        x[...] = 0
    elif mode == "one":
        x[...] = 1
    elif mode == "huge":
        x = x*0 + 1e300 if x.dtype.itemsize >= 8 else x*0 + 1e30
    elif mode == "tiny":
        x = np.full_like(x, 5e-324)
    elif mode == "noise":
        x = g.standard_normal(x.shape).astype(x.dtype)
    elif mode == "flip":
        x = x[..., ::-1].copy() if x.ndim else -x
    elif mode == "neg":
        x = -x
    elif mode == "alternate":
        x = x*(-1)**n
    elif mode == "grow":
        x = x*2.0**min(n, 900)
    elif mode == "shuffle":
        if x.ndim:
            x = g.permutation(x.reshape(-1)).reshape(x.shape)
        else:
            x = x*(1 + 0.5*g.standard_normal())
    elif mode == "offby":
        x = x*(1 + 1e-3*g.standard_normal(x.shape))
    if scalar:
        try:
            return type(a)(x)
        except TypeError:
            return x[()]
    return x


def garble_any(v, mode, g, n, depth=0):
    if isinstance(v, (np.ndarray, float, complex, np.floating, np.complexfloating)):
        return garble(v, mode, g, n)
    if isinstance(v, (tuple, list)) and depth < 3:
        xs = [garble_any(x, mode, g, n, depth+1) for x in v]
        if type(v) in (tuple, list):
            return type(v)(xs)
        try:
            return type(v)(*xs)
        except TypeError:
            return v
    if hasattr(v, "converged") and hasattr(v, "root"):
        v.converged = n % 2 == 0
        v.root = garble(float(v.root), mode, g, n)
        return v
    if hasattr(v, "success") and hasattr(v, "x"):
        v.x = garble(np.asarray(v.x), mode, g, n)
        return v
    return v


class MadCtx(Ctx):
    """The caller's own data are degenerate."""

    data = None
    mad = 0

    def arr(self, name, a):
        if self.data is not None:
            mode, g = self.data
            self.mad += 1
            a = garble(np.asarray(a), mode, g, len(self.inputs))
            if mode == "offby" and a.ndim and a.shape[-1] > 1:
                a = np.repeat(a[..., :1], a.shape[-1], axis=-1)     # repeated nodes
        return super().arr(name, a)


EXTREME = [1 + 2.3e-16, 1 - 1.2e-16, 1.0, 0.0, -1.0, 1e-300, 5e-324, 1e300,
           1.7976931348623157e308, "nan", "inf", "-inf", 1.0 + 1e-9, 40.0, 1e8]


INTS = ("n", "d", "o", "deg", "m", "it", "k", "me", "t")
INTERVALS = [[0.5, 0.5], [0, 5e-324], [0, 1e308], [-1e308, 1e308], ["nan", 1],
             [0, "nan"], [1, 1 + 2.3e-16], ["inf", "inf"], ["-inf", "-inf"],
             ["inf", "-inf"], [0, 0, 0], [1, 0, 1], ["-inf", 0, "inf"], [0]]


def extreme_params(r, p):
    p = dict(p)
    if r.random() < 0.35:
        ks = [k for k in INTS if isinstance(p.get(k), int)]
        if ks:
            p[r.choice(ks)] = r.choice([-1, -2, -7, 0, 0, 0.5, 2.5, "nan"])
            return p
    if "iv" in p and r.random() < 0.5:
        p["iv"] = r.choice(INTERVALS)
        return p
    ks = [k for k, v in p.items() if isinstance(v, float)]
    if "ab" in p:
        ks.append("ab")
    if not ks:
        return None
    k = r.choice(ks)
    if k == "ab":
        p["ab"] = [r.choice([-1.0, -0.999999999, 1e3, 170.5, 1e-300, 0.0])
                   if r.random() < 0.6 else x for x in p["ab"]]
    else:
        p[k] = r.choice(EXTREME)
    return p


def fix(p):
    return {k: float(v) if isinstance(v, str) and v in ("nan", "inf", "-inf") else v
            for k, v in p.items()}

# }}}


def suitable(o):
    return o.name != "random_nodes" and bool(
        {"callback", "array", "lapack", "scipy", "cache", "memo"} & o.tags)


def small(o):
    p = o["p"]
    if o["op"] in ("kronrod", "kronrod_quad", "quadgk", "gauss_rule"):
        p = dict(p, n=min(p["n"], 6))
        if o["op"] != "gauss_rule":
            p["n"] = max(p["n"], 1)
    return {"op": o["op"], "p": p}


@register
class Progress(Prop):
    id = "C19"
    quick_runs = 2000
    thorough_runs = 100000
    rule = ("a run counts when at least one answer given to the library (by a "
            "callback, a numerical substep or as data) was really falsified and the "
            "work was metered to the end; distinct by scenario")
    stubs = ["user callbacks, numpy.linalg/scipy substeps and argument data that "
             "misbehave"]
    assumptions = [
        "work is counted in executed source lines of the library and invocations of "
        "user functions; time spent inside numpy and LAPACK is not",
        "random node generation from a stream that never becomes random is excluded "
        "(see C12); memory-hungry requests (huge orders) are the caller's choice"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.randint(1, 4), suitable)
        o = small(draw_op(r, names))
        if "me" in o["p"] and r.random() < 0.3:
            o["p"]["me"] = r.choice([800, 2000])
        try:
            nsub = len(measure(env, o, "call"))
            self.base(env, o)
        except (ChildTimeout, ChildHang):
            # not even without faults; count in the run
            return {"op": o, "faults": [], "plain": True, "seed": 0}
        faults = []
        for _ in range(1 if r.random() < 0.7 else 2):
            tags = OPS[o["op"]].tags
            kinds = ["param"]*2
            if "callback" in tags:
                kinds += ["cb"]*4
            if nsub:
                kinds += ["call"]*5
            if "array" in tags:
                kinds += ["data"]*3
            kind = r.choice(kinds)
            f = {"kind": kind, "mode": r.choice(MODES)}
            if kind in ("cb", "call"):
                f["k"] = 0 if r.random() < 0.5 else int(
                    (20 if kind == "cb" else nsub)**r.random())
                f["len"] = None if r.random() < 0.7 else r.randint(1, 5)
            if kind == "param":
                p = extreme_params(r, o["p"])
                if p is None:
                    f["kind"] = r.choice(kinds[1:] or ["data"])
                    f["k"] = 0
                    f["len"] = None
                else:
                    o = dict(o, p=p)
            faults.append(f)
        return {"op": o, "faults": faults, "seed": r.randrange(1 << 30)}

    def base(self, env, o):
        """Work of the same call with ordinary data (in a pristine process)."""
        from ..catalog import opkey
        key = (opkey(o), "work")
        if key not in env.lines:
            env._trim(env.lines)

            def go():
                quiet()

                def hook(n, name, f, a, kw):
                    return f(*a, **kw)
                c = Ctx(hooks={"callback": hook})
                with Meter() as m:
                    outcome(lambda: OPS[o["op"]].run(c, o["p"]))
                return m.n, c.ncalls
            env.lines[key] = fork_call(go)
        return env.lines[key]

    def prepare(self, sc, env):
        if sc.get("plain"):
            return 20_000, 10_000
        if any(f["kind"] == "param" for f in sc["faults"]):
            # ordinary parameters of the same operation
            import random
            r = random.Random(sc["seed"])
            b = [self.base(env, small({"op": sc["op"]["op"],
                                       "p": OPS[sc["op"]["op"]].gen(r)}))
                 for _ in range(4)]
            return max(x[0] for x in b), max(x[1] for x in b)
        return self.base(env, sc["op"])

    def run(self, sc, base):
        quiet()
        n0, c0 = base
        limit = 100_000 + 1000*n0
        st = {"falsified": 0, "lines": 0, "calls": 0, "returned": 0, "raised": 0}
        g = np_rng(sc["seed"])
        o = sc["op"]
        p = fix(o["p"])
        cap = 500 + 20*c0 + (p["me"] if "me" in p and p["me"] == p["me"] else 0)
        calls_n = [0]
        cbs = [f for f in sc["faults"] if f["kind"] == "cb"]
        subs = [f for f in sc["faults"] if f["kind"] == "call"]

        def on(f, n):
            return n >= f["k"] and (f["len"] is None or n < f["k"] + f["len"])

        def hook(n, name, f, a, kw):
            calls_n[0] = n + 1
            if n > cap:
                raise TooMuch
            v = f(*a, **kw)
            for x in cbs:
                if on(x, n):
                    v = garble_any(v, x["mode"], g, n)
                    st["falsified"] += 1
            return v
        sub_n = [0]

        def h(name, orig, a, kw):
            n = sub_n[0]
            sub_n[0] += 1
            v = orig(*a, **kw)
            for x in subs:
                if on(x, n):
                    v = garble_any(v, x["mode"], g, n)
                    st["falsified"] += 1
            return v
        c = MadCtx(hooks={"callback": hook})
        for f in sc["faults"]:
            if f["kind"] == "data":
                c.data = (f["mode"], g)
                st["falsified"] += 1
            if f["kind"] == "param":
                st["falsified"] += 1
            st["kind:" + f["kind"]] = 1
        try:
            with Meter(limit) as m, calls.armed(h):
                x = outcome(lambda: OPS[o["op"]].run(c, p))
            if not any(f["kind"] != "data" for f in sc["faults"]):
                st["falsified"] = int(c.mad > 0)
        except TooMuch:
            what = (f"more than {limit} source lines (at {m.where}), {n0} ordinarily"
                    if m.where else
                    f"more than {cap} invocations of user functions, {c0} ordinarily")
            return Violation("unbounded", f"{o['op']} does not come to an end: {what}",
                             op=o), st
        except (KeyboardInterrupt, SystemExit):
            raise
        st["lines"] = m.n
        st["calls"] = calls_n[0]
        st["returned" if x[0] == "ok" else "raised"] = 1
        st["ratio%d" % min(3, int(np.log10(max(1, m.n/max(1, n0)))))] = 1
        return None, st

    def shrink(self, sc):
        if len(sc["faults"]) > 1:
            for i in range(len(sc["faults"])):
                yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i+1:])
        for i, f in enumerate(sc["faults"]):
            if f.get("k"):
                g = dict(f, k=0)
                yield dict(sc, faults=sc["faults"][:i] + [g] + sc["faults"][i+1:])

    def nontrivial(self, sc, st):
        return st.get("falsified", 0) > 0
