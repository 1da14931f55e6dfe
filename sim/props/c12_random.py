"""C12: random nodes, whatever the source of randomness does."""
from __future__ import annotations

import math
import random

import numpy as np

from ..catalog import describe, mk_shape, shape_dim
from ..core import Prop, Violation, exc_canon, quiet, register
from ..faults import EXCS, SimShutdown
from ..natives import sim_generator
from ..seams import Scheduler, make_strategy
from ..tracer import Tracer, cleanup_point


def inside(sh, x, tol=1e-12):
    """Columns of *x* that are in the closed reference shape."""
    if sh[0] == "T":
        ok, d = np.ones(x.shape[1], bool), 0
        for s in sh[1]:
            k = shape_dim(s)
            ok &= inside(s, x[d:d+k], tol)
            d += k
        return ok
    if sh[0] == "H":
        return np.all(np.abs(x) <= 1 + tol, axis=0)
    d = sh[1]
    return np.all(x >= -1 - tol, axis=0) & (x.sum(axis=0) <= 2 - d + tol)


def simplex_dims(sh):
    if sh[0] == "T":
        return [d for s in sh[1] for d in simplex_dims(s)]
    return [sh[1]] if sh[0] == "S" else [1]*sh[1]


def draw_bound(sh, n):
    """Generous bound on draws under honest randomness: acceptance can be as low as
    1/d! per candidate."""
    return sum(d*math.factorial(d)*(n + 40)*60 for d in simplex_dims(sh)) + 2000


KINDS = {1: "stuck", 2: "alternating", 3: "counter", 4: "biased-high", 5: "biased-low"}
VALUES = [0, 2**64-1, 2**63, 2**63-1, 2**63+2**11, 1, 2**11, 2**64-2**11, 2**62,
          3*2**62, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555]


@register
class RandomNodes(Prop):
    id = "C12"
    quick_runs = 6000
    thorough_runs = 200000
    rule = ("a run counts when nodes were generated from a scripted stream and "
            "checked; distinct by scenario (shapes, counts, stream script, thread "
            "schedule, faults)")
    real = ["modepy.nodes", "modepy.shapes", "numpy.random.Generator"]
    stubs = ["the bit generator behind numpy.random.Generator", "the operating "
             "system's entropy source"]
    assumptions = ["a stream that never becomes random again may keep a rejection "
                   "sampler busy for ever; bounded work is demanded once it is honest",
                   "distribution is not checked beyond distinctness and coverage"]

    def gen_shape(self, r):
        return r.choice([["S", 1], ["S", 2], ["S", 3], ["S", 3], ["S", 4], ["H", 1],
                         ["H", 2], ["H", 3], ["T", [["S", 2], ["S", 1]]],
                         ["T", [["S", 1], ["S", 2]]], ["T", [["S", 1], ["S", 1]]],
                         ["T", [["S", 3], ["S", 1]]], ["S", 5],
                         ["T", [["S", 1], ["S", 1], ["S", 2]]],
                         ["T", [["S", 2], ["S", 1], ["S", 1]]], ["H", 4]])

    def gen_call(self, r):
        if r.random() < 0.04:
            # few candidates are accepted in high dimensions: many rounds
            return {"sh": ["S", r.choice([6, 6, 7])], "n": r.choice([1, 1, 2, 3])}
        return {"sh": self.gen_shape(r),
                "n": r.choice([0, 1, 1, 2, 3, 5, 8, 20, 60, r.randint(0, 150)])}

    def gen(self, r, env, i, tier):
        segs = []
        if r.random() < 0.75:
            for _ in range(r.choice([1, 1, 2, 4, 8])):
                segs.append([r.choice([0, 1, 1, 2, 3, 4, 5]),
                             r.choice(VALUES) if r.random() < 0.7
                             else r.getrandbits(64),
                             r.choice([1, 2, 3, 7, 20, 100, 600, 600, 4000])])
        sc = {"seed": r.getrandbits(64), "segs": segs,
              "calls": [self.gen_call(r) for _ in range(r.choice([1, 1, 2, 3, 5]))]}
        if r.random() < 0.5 and len(sc["calls"]) > 1:
            sc["calls"][1]["sh"] = sc["calls"][0]["sh"]
            if r.random() < 0.5:
                sc["calls"][1]["n"] = sc["calls"][0]["n"]
        x = r.random()
        if x < 0.25:
            sc["threads"] = r.choice([2, 2, 3])
            sc["sched"] = r.choice([{"kind": "gaps", "hi": 5}, {"kind": "lockstep"},
                                    {"kind": "gaps", "hi": 15}, {"kind": "hot"}])
            sc["sseed"] = r.getrandbits(48)
        elif x < 0.45:
            sc["interrupt"] = {"call": r.randrange(len(sc["calls"])),
                               "k": int(40**r.random()),
                               "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
        elif x < 0.6:
            sc["rngfault"] = {"k": r.randrange(6), "exc": r.choice(
                ["RuntimeError", "OSError", "ValueError", "KeyboardInterrupt",
                 "MemoryError"])}
        elif x < 0.7:
            sc["nogen"] = True
        return sc

    def run(self, sc, prep):
        quiet()
        import modepy as mp
        st = {"nodes": 0, "draws": 0, "faulty_draws": 0, "calls": 0, "rounds": 0,
              "switches": 0, "interrupts": 0, "rng_faults": 0, "segment_kinds": sorted(
                  {KINDS.get(k, "honest") for k, _v, _n in sc["segs"]})}
        calls = sc["calls"]
        total = sum(n for _k, _v, n in sc["segs"])
        limit = total + sum(draw_bound(c["sh"], c["n"]) for c in calls)*max(
            1, sc.get("threads", 1))*(2 if sc.get("interrupt") else 1)
        entropy = []
        self.watch_entropy(entropy, sc["seed"])
        legacy0, py0 = np.random.get_state(), random.getstate()

        def viol(kind, msg, **kw):
            return Violation(kind, msg, **kw), st

        def script():
            return sim_generator(sc["seed"], sc["segs"], limit)

        outs = []

        def one(c, rng):
            x = mp.random_nodes_for_shape(mk_shape(c["sh"]), c["n"], rng=rng)
            outs.append((c, x))
            return x

        if sc.get("nogen"):
            # no generator given: the operating system's entropy decides
            for c in calls:
                x = mp.random_nodes_for_shape(mk_shape(c["sh"]), c["n"])
                y = mp.random_nodes_for_shape(mk_shape(c["sh"]), c["n"])
                outs += [(c, x), (c, y)]
                if c["n"] and np.array_equal(x, y):
                    return viol("frozen", "two calls without a generator return the "
                                f"same nodes for {c}")
            st["os_entropy_requests"] = len(entropy)
            honest = True
        elif sc.get("threads"):
            rng, bits = script()
            nt = sc["threads"]

            def body(t):
                return lambda: [one(c, rng) for c in calls]
            s = Scheduler([body(t) for t in range(nt)],
                          make_strategy(sc["sched"], random.Random(sc["sseed"])),
                          max_events=200_000 + 400*limit)
            res = s.run()
            st["switches"] = len(s.switches)
            if s.failure is not None:
                return viol("stuck", f"threads did not finish: {s.failure!r}")
            for rr in res:
                if rr is None or rr[0] == "raise":
                    return viol("error", f"thread ended with {rr}")
            honest = not sc["segs"]
        else:
            rng, bits = script()
            f = sc.get("interrupt")
            g = sc.get("rngfault")
            if g:
                rng = FaultyGenerator(bits, g, st)
            for j, c in enumerate(calls):
                try:
                    if f and f["call"] == j:
                        self.interrupted(lambda: one(c, rng), f, st)
                    else:
                        self.bounded(lambda: one(c, rng), bits)
                except Hang:
                    return viol("hang", f"more than {bits.stream.draws} draws (bound "
                                f"{limit}) for {c} although the stream was honest again "
                                f"after {total}")
                except Exception as e:
                    if g and e is rng.raised:
                        e.__traceback__ = None
                        rng.fault = None
                        continue
                    return viol("error", f"{c}: {exc_canon(e)}")
                except KeyboardInterrupt as e:
                    if g and e is rng.raised:
                        rng.fault = None
                        continue
                    raise
            honest = not sc["segs"]
        if not sc.get("nogen"):
            st["draws"] = bits.stream.draws
            st["faulty_draws"] = bits.stream.faulty
            if bits.stream.over:
                return viol("hang", f"{bits.stream.draws} draws, bound {limit}")
            if entropy:
                return viol("entropy", "other randomness was used although a generator "
                            f"was given: {entropy[0]}")
        for c, x in outs:
            st["calls"] += 1
            d = shape_dim(c["sh"])
            if not isinstance(x, np.ndarray) or x.shape != (d, c["n"]):
                return viol("shape", f"{c} returned {describe(getattr(x, 'shape', x))}")
            if x.dtype.kind != "f" or not np.all(np.isfinite(x)):
                return viol("nonfinite", f"{c} returned {x!r}"[:400])
            ok = inside(c["sh"], x)
            st["nodes"] += c["n"]
            if not ok.all():
                return viol("outside", f"{c}: node {x[:, ~ok][:, 0].tolist()} is "
                            "outside the shape")
        if honest:
            for c, x in outs:
                if c["n"] > 1 and len(np.unique(x, axis=1).T) != c["n"]:
                    return viol("repeated", f"{c}: honest randomness, but nodes repeat")
                if c["n"] >= 60 and not self.covers(c["sh"], x):
                    return viol("degenerate", f"{c}: {c['n']} honest random nodes stay "
                                "in a small part of the shape")
            seen = {}
            for q, (c, x) in enumerate(outs):
                for col in x.T:
                    k = col.tobytes()
                    if k in seen and seen[k] != q:
                        return viol("repeated", "the same node came out of two calls")
                    seen[k] = q
        lg = np.random.get_state()
        if lg[2:] != legacy0[2:] or not np.array_equal(lg[1], legacy0[1]) \
                or random.getstate() != py0:
            return viol("global-state", "the process-wide random state was advanced")
        # same state of the generator, same nodes
        if not (sc.get("threads") or sc.get("nogen") or sc.get("interrupt")
                or sc.get("rngfault")):
            rng2, _b2 = script()
            for c, x in list(outs):
                y = mp.random_nodes_for_shape(mk_shape(c["sh"]), c["n"], rng=rng2)
                if not np.array_equal(x, y):
                    return viol("irreproducible", f"{c}: same generator state, other "
                                "nodes")
                x[...] = 99.0
        return None, st

    @staticmethod
    def covers(sh, x):
        # every coordinate axis: someone in the lower third, and (where the shape
        # allows) the nodes are not all within a tenth of it
        return bool(np.all(x.min(axis=1) < -1/3)) and bool(
            np.all(np.ptp(x, axis=1) > 0.2))

    @staticmethod
    def watch_entropy(log, seed):
        import secrets
        from numpy.random import bit_generator as bg

        def wrap(obj, name):
            orig = getattr(obj, name, None)
            if orig is None:
                return

            def f(nbits):
                log.append(name)
                return rr.getrandbits(nbits)
            setattr(obj, name, f)
        rr = random.Random(seed)
        wrap(bg, "randbits")
        wrap(secrets, "randbits")

    @staticmethod
    def bounded(fn, bits):
        def ev(t, frame):
            if bits.stream.over or t.n > 2_000_000:
                raise Hang
        with Tracer(ev):
            return fn()

    @staticmethod
    def interrupted(fn, f, st):
        e = EXCS[f["exc"]]("injected")
        fired = []

        def ev(t, frame):
            if t.n >= f["k"] and not fired and not cleanup_point(frame):
                fired.append(1)
                raise e
        try:
            with Tracer(ev):
                fn()
        except BaseException as x:      # noqa: BLE001
            if x is not e:
                raise
            e.__traceback__ = None
        st["interrupts"] += len(fired)

    def shrink(self, sc):
        from ..core import shrink_list
        for xs in shrink_list(sc["segs"], 0):
            yield dict(sc, segs=xs)
        for xs in shrink_list(sc["calls"], 1):
            t = dict(sc, calls=xs)
            if "interrupt" in t:
                t["interrupt"] = dict(t["interrupt"], call=min(
                    t["interrupt"]["call"], len(xs)-1))
            yield t
        for k in ("threads", "interrupt", "rngfault"):
            if k in sc:
                t = dict(sc)
                del t[k]
                yield t
        for i, c in enumerate(sc["calls"]):
            for n in (0, 1, 2, c["n"]//2):
                if n < c["n"]:
                    yield dict(sc, calls=sc["calls"][:i] + [dict(c, n=n)]
                               + sc["calls"][i+1:])

    def nontrivial(self, sc, st):
        return st.get("nodes", 0) > 0


class Hang(SimShutdown):
    pass


class FaultyGenerator(np.random.Generator):
    """A generator whose source fails at the k-th request."""

    def __init__(self, bits, fault, st):
        super().__init__(bits)
        self.fault, self.n, self.raised, self.st = fault, 0, None, st

    def __getattribute__(self, name):
        v = super().__getattribute__(name)
        if name in ("uniform", "random", "integers", "exponential", "standard_exponential",
                    "dirichlet", "normal", "standard_normal", "beta", "permutation",
                    "choice", "shuffle"):
            f = self.fault
            if f is not None:
                if self.n == f["k"]:
                    self.st["rng_faults"] += 1
                    self.raised = EXCS[f["exc"]]("simulated entropy failure")
                    raise self.raised
                self.n += 1
        return v
