"""C11: a NaN or Inf answer, whenever it comes, is an error and never a number."""
from __future__ import annotations

import math

import numpy as np

from ..core import PROPS, Prop, Violation, exc_canon, quiet, register
from ..tracer import StepBudget
from . import c10_adaptive as c10


BAD = {
    "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"),
    "npnan": np.float64("nan"), "npinf": np.float64("inf"), "np-inf": np.float64("-inf"),
    "f32nan": np.float32("nan"), "f32inf": np.float32("inf"),
    "cnan": complex("nan"), "cinf": complex(0, math.inf), "c-inf": complex(-math.inf, 1),
    "cnani": complex(1, math.nan), "npc": np.complex128(complex(1, math.nan)),
    "0dnan": np.array(np.nan), "0dinf": np.array(np.inf),
}


@register
class NonFinite(Prop):
    id = "C11"
    quick_runs = 9000
    thorough_runs = 200000
    rule = ("a run counts when the integrand really gave a non-finite answer at the "
            "chosen query; distinct by scenario (integrand, break points, order, "
            "tolerances, budget, query number, kind of non-finite answer, duration)")
    real = ["modepy.quadrature.kronrod", "numpy"]
    stubs = ["the integrand"]
    assumptions = ["answers are scalars, as documented; the caller's floating-point "
                   "error handling is not set to raise"]

    def gen(self, r, env, i, tier):
        sc = PROPS["C10"].gen(r, env, i, tier)
        f = sc["f"]
        f.pop("garbage", None)
        f.pop("scale", None)
        sc.pop("scale2", None)
        sc["me"] = r.choice([0, 40, 100, 300, 1000])
        base = (len(sc["pts"])-1)*(2*sc["n"]+1)
        x = r.random()
        sc["k"] = (r.randrange(base) if x < 0.45 else
                   base + int((4*sc["n"]+2)*r.random()*r.choice([1, 1, 4, 20])))
        sc["bad"] = r.choice(sorted(BAD))
        # a single bad answer, a burst, a change of mind, or dead from then on
        sc["len"] = r.choice([1, 1, 1, 2, 5, 10**9])
        sc["alt"] = r.choice(sorted(BAD)) if r.random() < 0.3 else None
        return sc

    def run(self, sc, prep):
        quiet()
        from modepy.quadrature.kronrod import quadgk
        n, me = sc["n"], sc["me"]
        pts = [float(p) for p in sc["pts"]]
        cap = max((len(pts)-1)*(2*n+1), me + 4*n + 2)
        st = {"fired": 0, "missed": 0, "bad": [], "late": 0,
              "infinite": int(any(math.isinf(p) for p in pts)), "again": 0}

        class Sick(c10.Party):
            fired = 0

            def __call__(self, x):
                k = len(self.xs)
                y = super().__call__(x)
                if sc["k"] <= k < sc["k"] + sc["len"]:
                    self.fired += 1
                    b = sc["bad"]
                    if sc["alt"] and (k - sc["k"]) % 2:
                        b = sc["alt"]
                    return BAD[b]
                return y
        kw = dict(maxevals=me, order=n, **sc["tol"])
        p = Sick(sc["f"], cap)
        res = exc = None
        try:
            res = quadgk(p, *pts, **kw)
        except StepBudget:
            return Violation("hang", f"a non-finite answer at query {sc['k']} makes the "
                             f"integrator exceed its budget of {cap} queries"), st
        except Exception as e:
            exc = e
        if not p.fired:
            st["missed"] += 1
            if exc is not None:
                return Violation("error", f"finite answers led to {exc_canon(exc)}"), st
        else:
            st["fired"] += 1
            st["bad"].append(sc["bad"])
            st["late"] += sc["k"] >= (len(pts)-1)*(2*n+1)
            if exc is None:
                return Violation("accepted", f"the integrand answered {sc['bad']} at "
                                 f"query {sc['k']} and the result is {res!r}"), st
            if not isinstance(exc, ValueError):
                return Violation("wrong-error", f"the integrand answered {sc['bad']} at "
                                 f"query {sc['k']}; documented ValueError, got "
                                 f"{exc_canon(exc)}"), st
            exc.__traceback__ = None
        # it was a transient: the next conversation is unaffected
        a, b = c10.Party(sc["f"], cap), c10.Party(sc["f"], cap)
        try:
            ra = quadgk(a, *pts, **kw)
            rb = quadgk(b, *pts, **kw)
        except Exception as e:
            return Violation("aftermath", "after a rejected integrand, finite answers "
                             f"led to {exc_canon(e)}"), st
        st["again"] += 1
        if not np.all(np.isfinite(np.asarray(ra, dtype=complex))) or ra != rb \
                or a.xs != b.xs:
            return Violation("aftermath", f"after a rejected integrand: {ra!r} and "
                             f"{rb!r}"), st
        return None, st

    def shrink(self, sc):
        yield from PROPS["C10"].shrink(sc)
        if sc["alt"]:
            yield dict(sc, alt=None)
        if sc["len"] > 1:
            yield dict(sc, len=1)
        if sc["bad"] != "nan":
            yield dict(sc, bad="nan")
        for k in (0, 1, sc["k"]//2, sc["k"]-1):
            if 0 <= k < sc["k"]:
                yield dict(sc, k=k)

    def nontrivial(self, sc, st):
        return st.get("fired", 0) > 0
