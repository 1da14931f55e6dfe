"""C10: the adaptive integrator's contract with whatever integrand it talks to."""
from __future__ import annotations

import math

import numpy as np

from ..catalog import describe
from ..core import Prop, Violation, derive, exc_canon, outcome, quiet, register
from ..tracer import StepBudget


def u01(*parts):
    return derive(*parts)/2.0**64


class Party:
    """The integrand: an external party that answers queries.  Its answers may
    depend on everything asked before, and may be wrong for a while."""

    def __init__(self, spec, cap):
        self.spec, self.cap = spec, cap
        self.xs, self.ys = [], []

    def honest(self, x, k):
        s = self.spec
        kind = s["kind"]
        if kind == "poly":
            return sum(c*x**i for i, c in enumerate(s["co"]))
        if kind == "exp":
            return math.exp(s["a"]*x)
        if kind == "cos":
            return math.cos(s["a"]*x)
        if kind == "kink":
            return abs(x - s["c"])
        if kind == "step":
            return s["lo"] if x < s["c"] else s["hi"]
        if kind == "spike":
            return 1.0/(1e-6**s["p"] + (x - s["c"])**2)
        if kind == "gauss":
            return math.exp(-min(x*x, 700.0))
        if kind == "rat":
            return 1.0/(1.0 + x*x)
        if kind == "rat2":
            return 1.0/(1.0 + x*x)**2
        if kind == "noise":          # never the same answer twice
            return s["lo"] + (s["hi"] - s["lo"])*u01("n", s["s"], k)
        if kind == "noisefn":        # rough but a function
            return s["lo"] + (s["hi"] - s["lo"])*u01("f", s["s"], float(x).hex())
        if kind == "drift":          # answers drift with every query
            return s["lo"] + (s["hi"] - s["lo"])*(k % s["per"])/s["per"]
        if kind == "latch":
            return s["lo"] if k < s["k"] else s["hi"]
        raise ValueError(kind)

    def __call__(self, x):
        k = len(self.xs)
        if k > self.cap:
            raise StepBudget(k)
        self.xs.append(x)
        s = self.spec
        xh = float(x)/s.get("xu", 1.0)      # a power of two: exact
        y = self.honest(xh, k)
        g = s.get("garbage")
        if g and k < g["n"] and u01("p", g["s"], k) < g["p"]:
            y = (u01("g", g["s"], k) - 0.5)*g["amp"]
            if g.get("decay"):
                y /= (1.0 + xh**2)**2
        if s.get("env"):
            y = y/(1.0 + xh**2)**2
        y = y*s.get("scale", 1.0)
        self.ys.append(y)
        t = s.get("type")
        if t == "np":
            return np.float64(y)
        if t == "cplx":
            return complex(y)
        if t == "npc":
            return np.complex128(y)
        if t == "rot":
            return y*1j
        return y


def exact(spec, pts):
    """Known value of the integral over the chain of break points, or None."""
    xu = spec.get("xu", 1.0)
    a, b = pts[0]/xu, pts[-1]/xu
    k = spec["kind"]
    inf = math.inf

    def F(x):
        if k == "poly":
            return sum(c*x**(i+1)/(i+1) for i, c in enumerate(spec["co"]))
        if k == "exp":
            return math.exp(spec["a"]*x)/spec["a"] if spec["a"] else x
        if k == "cos":
            return math.sin(spec["a"]*x)/spec["a"] if spec["a"] else x
        if k == "gauss":
            return 0.5*math.sqrt(math.pi)*math.erf(x)
        if k == "rat":
            return math.atan(x)
        if k == "rat2":
            return (0.5*(math.atan(x) + x/(1 + x*x)) if abs(x) != inf
                    else math.copysign(math.pi/4, x))
        raise KeyError(k)
    try:
        return (F(b) - F(a))*spec.get("scale", 1.0)*xu*(
            1j if spec.get("type") == "rot" else 1)
    except KeyError:
        return None


SMOOTH = ("poly", "exp", "cos", "gauss", "rat", "rat2")
BOUNDED = ("noise", "noisefn", "drift", "latch", "step")


@register
class Adaptive(Prop):
    id = "C10"
    quick_runs = 9000
    thorough_runs = 150000
    rule = ("a run counts when the integrator finished a conversation with a "
            "simulated integrand and its query log was checked; distinct by scenario "
            "(integrand behaviour, corruption window, break points, order, "
            "tolerances, budget)")
    real = ["modepy.quadrature.kronrod", "numpy"]
    stubs = ["the integrand"]
    assumptions = ["accuracy of an individual rule on a given honest function is not "
                   "the subject: known integrals serve as the reference for what an "
                   "integrator must return after transient corruption"]

    def gen(self, r, env, i, tier):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 10])
        x = r.random()
        infinite = False
        if x < 0.55:
            a = r.choice([0.0, -1.0, -2.0, 0.5, r.uniform(-3, 3)])
            b = a + r.choice([1.0, 2.0, 0.25, 3.0, r.uniform(0.01, 5)])
            pts = [a, b]
            if r.random() < 0.2:
                pts = [b, a]
        elif x < 0.8:
            m = r.choice([3, 3, 4, 6])
            pts = [round(r.uniform(-2, 3), 3) for _ in range(m)]
            if r.random() < 0.8:
                pts.sort(reverse=r.random() < 0.25)
        else:
            infinite = True
            c = r.choice([0.0, -1.0, 0.7, r.uniform(-2, 2)])
            pts = r.choice([["-inf", "inf"], [c, "inf"], ["-inf", c], ["inf", c],
                            ["inf", "-inf"], [c, "-inf"], ["-inf", c, "inf"],
                            [c, c+1.5, "inf"], ["-inf", c-1.0, c]])
        lo = r.uniform(-3, 3)
        hi = lo + r.choice([0.0, 1.0, 10.0, 1e3])
        c = r.uniform(-1.5, 2.0)
        if infinite:
            k = r.choice(["gauss", "rat", "rat2", "noise", "noisefn", "drift", "latch"])
        else:
            k = r.choice(["poly", "poly", "exp", "cos", "kink", "step", "spike", "gauss",
                          "noise", "noisefn", "drift", "latch"])
        f = {"kind": k}
        if k == "poly":
            d = r.randint(0, 2*n-1)
            f["co"] = [r.uniform(-2, 2) for _ in range(d)] + [r.uniform(0.5, 2)]
        elif k in ("exp", "cos"):
            f["a"] = r.choice([1.0, -1.0, 0.5, 3.0, 9.0])
        elif k == "spike":
            f["c"], f["p"] = c, r.choice([0.3, 0.6, 1.0])
        elif k in ("kink", "step"):
            f["c"] = c
        if k in BOUNDED:
            f["lo"], f["hi"] = lo, hi
            f["s"] = r.getrandbits(30)
            f["per"] = r.choice([2, 3, 2*n+1, 4*n+2, 50])
            f["k"] = r.choice([1, n, 2*n+1, 2*n+2, 6*n+3, 100])
            if infinite:
                f["env"] = True
        if r.random() < 0.4 and k not in ("noise", "drift", "latch"):
            # isolated, large compared with honest answers: no estimate can miss them
            amp = {"spike": 1e12, "exp": 1e20}.get(k, 1e6)
            f["garbage"] = {"n": r.choice([1, 2, 2*n+1, 4*n+2, 4*(4*n+2)]),
                            "p": r.choice([0.05, 0.1, 0.3, 1.0]),
                            "s": r.getrandbits(30), "amp": amp, "decay": infinite}
        if r.random() < 0.3:
            f["scale"] = 2.0**r.choice([-300, -40, -3, 5, 60, 200])
        if r.random() < 0.4:
            f["type"] = r.choice(["np", "cplx", "npc", "rot"])
        me = r.choice([0, 1, 2*n+1, 40, 100, 300, 1000, 3000])
        tol = {"reltol": r.choice([0.0, 1e-13, 1.49e-8, 1.49e-8, 1e-5, 1e-2, 0.5])}
        if r.random() < 0.3:
            tol["abstol"] = r.choice([1e-12, 1e-6, 1e-2, 1.0])*f.get("scale", 1.0)
        if f.get("garbage"):
            # give it the budget to recover in
            me = r.choice([4000, 8000])
            tol = {"reltol": r.choice([1.49e-8, 1.49e-8, 1e-9])}
        xs2 = None
        if not infinite:
            if r.random() < 0.35:
                # the same problem in other units of length
                xu = f["xu"] = 2.0**r.choice([-240, -90, -60, -44, -30, 12, 50, 200])
                pts = [p*xu for p in pts]
                if "abstol" in tol:
                    tol["abstol"] *= xu
            xs2 = r.choice([None, 0.5, 8.0, 2.0**-36, 2.0**-70, 2.0**45, 2.0**-200])
        return {"f": f, "pts": pts, "n": n, "tol": tol, "me": me, "xs2": xs2,
                "scale2": r.choice([None, 2.0, -1.0, 0.125, -4096.0])}

    def run(self, sc, prep):
        quiet()
        from modepy.quadrature.kronrod import quadgk
        n, me, tol = sc["n"], sc["me"], sc["tol"]
        pts = [float(p) for p in sc["pts"]]
        f = sc["f"]
        nseg = len(pts) - 1
        base = nseg*(2*n + 1)
        cap = max(base, me + 4*n + 2)
        st = {"queries": 0, "exhausted": 0, "converged": 0, "garbage": 0,
              "recovered": 0, "bounded_checks": 0, "kind": [f["kind"]],
              "infinite": int(any(math.isinf(p) for p in pts)), "splits": 0}
        party = Party(f, cap)

        def viol(kind, msg, **kw):
            return Violation(kind, msg, **kw), st
        try:
            res = quadgk(party, *pts, maxevals=me, order=n, **tol)
        except StepBudget:
            return viol("budget", f"more than {cap} evaluations with maxevals={me}, "
                        f"order={n}, {nseg} segments")
        except Exception as e:
            return viol("error", f"finite answers led to {exc_canon(e)} after "
                        f"{len(party.xs)} queries")
        evals = len(party.xs)
        st["queries"] = evals
        try:
            approx, err = res
        except (TypeError, ValueError):
            return viol("shape", f"result is {res!r}")
        approx, err = complex(approx), complex(err)
        if err.imag or not err.real >= 0:
            return viol("error-estimate", f"error estimate {err} is not a "
                        "non-negative number")
        err = err.real
        if not (math.isfinite(approx.real) and math.isfinite(approx.imag)
                and math.isfinite(err)):
            return viol("nonfinite", f"finite answers, but result is {res!r}")
        if evals < base:
            return viol("budget", f"only {evals} evaluations for {nseg} segments of "
                        f"order {n}")
        st["splits"] = max(0, (evals - base)//(4*n + 2))
        # (1) where it asks
        lo, hi = min(pts), max(pts)
        sl = 1e-12*max((abs(p) for p in pts if math.isfinite(p)), default=0.0)
        for x in party.xs:
            x = float(x)
            if not (lo - sl <= x <= hi + sl) or not math.isfinite(x):
                return viol("outside", f"evaluated at {x!r}, outside [{lo}, {hi}]")
        big = max(abs(y) for y in party.ys)
        fin = [p for p in pts if math.isfinite(p)]
        width = (hi - lo) if math.isfinite(hi - lo) else None
        size = (sum(abs(q-p) for p, q in zip(pts, pts[1:])) if width is not None
                else 10.0*(1 + max(map(abs, fin), default=0))**2)
        # (2) when it stops
        want = max(tol.get("abstol", 0.0), tol["reltol"]*abs(approx))
        noise = 1e-13*big*size
        if evals < me:
            st["converged"] += 1
            if err > want*(1 + 1e-6) + noise:
                return viol("tolerance", f"stopped after {evals} of {me} evaluations "
                            f"with error estimate {err:.3g} > {want:.3g}")
        else:
            st["exhausted"] += 1
        # (3) what any positive rule guarantees, however the answers were made
        if f["kind"] in BOUNDED and not f.get("garbage") and not f.get("env") \
                and f.get("type") != "rot" and width is not None \
                and (pts == sorted(pts) or pts == sorted(pts, reverse=True)):
            st["bounded_checks"] += 1
            s = f.get("scale", 1.0)
            w = pts[-1] - pts[0]
            b1, b2 = sorted((f["lo"]*s*w, f["hi"]*s*w))
            if not (b1 - 2*noise <= approx.real <= b2 + 2*noise):
                return viol("bounds", f"answers in [{f['lo']*s}, {f['hi']*s}] over "
                            f"[{pts[0]}, {pts[-1]}] integrate to {approx.real!r}")
        # (4) honest from some point on: the known value comes out
        ex = exact(f, pts) if not f.get("env") else None
        g = f.get("garbage")
        hit = g and any(u01("p", g["s"], k) < g["p"]
                        for k in range(min(g["n"], evals)))
        if g:
            st["garbage"] += bool(hit)
        if ex is not None and f["kind"] in SMOOTH and (
                pts == sorted(pts) or pts == sorted(pts, reverse=True)):
            # cancellation between pieces: measure against the pieces
            tight = tol["reltol"] <= 1.49e-8 and not tol.get("abstol")
            rough = 50 if g else 1
            if tight and evals < me and n >= 2:
                e = abs(approx - ex)
                lim = rough*max(err, want) + 4*noise
                if hit:
                    lim = max(lim, 1e-6*max(abs(ex), 0))
                # the error estimate can be fooled by a feature it never sampled
                if not e <= lim:
                    return viol("value", f"returned {approx!r}, exact value is "
                                f"{ex!r} (error {e:.3g}, estimate {err:.3g})"
                                + (" after the integrand had recovered" if hit else ""))
                st["recovered"] += bool(hit)
        # (5) no further questions once the first answers suffice
        if f["kind"] == "poly" and not g and len(f["co"]) <= 2*n and \
                want > 10*noise and evals != base:
            return viol("overwork", f"{evals} evaluations although the first {base} "
                        "determine the integral")
        # (6) same conversation in other units
        s2 = sc.get("scale2")
        if s2 is not None:
            t2 = dict(tol)
            if "abstol" in t2:
                t2["abstol"] = t2["abstol"]*abs(s2)
            p2 = Party(dict(f, scale=f.get("scale", 1.0)*s2), cap)
            o2 = outcome(lambda: quadgk(p2, *pts, maxevals=me, order=n, **t2))
            ok = o2[0] == "ok" and len(p2.xs) == evals and all(
                float(x) == float(y) for x, y in zip(p2.xs, party.xs))
            if not ok:
                return viol("units", f"answers times {s2} are met with other questions "
                            f"({len(p2.xs)} instead of {evals})", got=describe(o2))
            a2, e2 = (complex(v[3]) for v in o2[1][1:])
            if abs(a2 - approx*s2) > 1e-13*abs(a2) + 1e-300 or \
                    abs(e2 - err*abs(s2)) > 1e-13*abs(e2) + 1e-300:
                return viol("units", f"answers times {s2} give {a2!r} instead of "
                            f"{approx*s2!r}")
        # (7) same conversation in other units of length
        xs2 = sc.get("xs2")
        if xs2 is not None:
            t2 = dict(tol)
            if "abstol" in t2:
                t2["abstol"] = t2["abstol"]*xs2
            p2 = Party(dict(f, xu=f.get("xu", 1.0)*xs2), cap)
            o2 = outcome(lambda: quadgk(p2, *[p*xs2 for p in pts], maxevals=me,
                                        order=n, **t2))
            ok = o2[0] == "ok" and len(p2.xs) == evals and all(
                float(x) == float(y)*xs2 for x, y in zip(p2.xs, party.xs))
            if not ok:
                return viol("units", f"an interval {xs2} times as long is met with "
                            f"other questions ({len(p2.xs)} instead of {evals})",
                            got=describe(o2))
            a2, e2 = (complex(v[3]) for v in o2[1][1:])
            if abs(a2 - approx*xs2) > 1e-13*abs(a2) + 1e-300 or \
                    abs(e2 - err*xs2) > 1e-13*abs(e2) + 1e-300:
                return viol("units", f"an interval {xs2} times as long gives {a2!r} "
                            f"instead of {approx*xs2!r}")
        return None, st

    def shrink(self, sc):
        f = sc["f"]
        for k in ("garbage", "scale", "type", "env"):
            if k in f:
                g = dict(f)
                del g[k]
                yield dict(sc, f=g)
        if sc.get("xs2") is not None:
            yield dict(sc, xs2=None)
        if "xu" in f:
            g = dict(f)
            xu = g.pop("xu")
            t = dict(sc["tol"])
            if "abstol" in t:
                t["abstol"] /= xu
            yield dict(sc, f=g, pts=[p/xu for p in sc["pts"]], tol=t)
        if sc.get("scale2") is not None:
            yield dict(sc, scale2=None)
        if len(sc["pts"]) > 2:
            for i in range(1, len(sc["pts"])-1):
                yield dict(sc, pts=sc["pts"][:i] + sc["pts"][i+1:])
        if f["kind"] == "poly" and len(f["co"]) > 1:
            yield dict(sc, f=dict(f, co=f["co"][:-1]))
        for me in (0, 40, 300):
            if me < sc["me"]:
                yield dict(sc, me=me)
        for n in (1, 2, 3):
            if n < sc["n"]:
                yield dict(sc, n=n)
        if len(sc["tol"]) > 1:
            yield dict(sc, tol={"reltol": sc["tol"]["reltol"]})
        if sc["pts"] != [0.0, 1.0] and "xu" not in f:
            yield dict(sc, pts=[0.0, 1.0])

    def nontrivial(self, sc, st):
        return st.get("queries", 0) > 0
