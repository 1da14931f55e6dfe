"""C01: results depend on arguments only, whatever happened before."""
from __future__ import annotations

import gc

from ..catalog import OPS, Ctx, InjectedFault, describe, same
from ..core import (
    Prop, Violation, clear_caches, draw_op, neighbour, outcome, quiet, register,
    shrink_list, swarm_names)


LAYOUTS = ["C", "C", "C", "F", "strided", "neg"]


def gen_history(r, n, names):
    steps = []
    for _ in range(n):
        past = [s for s in steps if s.get("op")]
        x = r.random()
        if past and x < 0.30:
            s = neighbour(r, r.choice(past))
        elif past and x < 0.42:
            q = r.choice(past)
            s = {"op": q["op"], "p": q["p"]}
        elif past and x < 0.47:
            steps.append({"ev": r.choice(["gc", "evict", "trim"])})
            continue
        else:
            s = draw_op(r, names)
        if r.random() < 0.5:
            s["layout"] = r.choice(LAYOUTS)
        if r.random() < 0.12 and "callback" in OPS[s["op"]].tags:
            # this call is made to fail half way: its user callback raises
            s["fail_at"] = int(12**r.random()) - 1
        steps.append(s)
    return steps


def run_step(s, pool, reuse):
    hooks = {}
    if "fail_at" in s:
        k0 = s["fail_at"]

        def hook(k, name, f, a, kw):
            if k == k0:
                raise InjectedFault(f"call {k}")
            return f(*a, **kw)
        hooks["callback"] = hook
    c = Ctx(pool=pool, layout=s.get("layout", "C"), hooks=hooks)
    c.reuse = reuse
    raw = []

    def call():
        v = OPS[s["op"]].run(c, s["p"])
        raw.append(v)
        return v
    return outcome(call), raw, c


def simplify_steps(steps):
    yield from shrink_list(steps, 1)
    for i, s in enumerate(steps):
        for k in ("fail_at", "layout"):
            if k in s:
                t = dict(s)
                del t[k]
                yield steps[:i] + [t] + steps[i+1:]


@register
class History(Prop):
    id = "C01"
    quick_runs = 2800
    thorough_runs = 60000
    rule = ("a run counts when at least two calls of its history were compared with "
            "their fresh-process references; distinct by scenario (the sequence of "
            "operations, parameters, object reuse, failures and address reuse)")
    stubs = ["builtins.id as modepy sees it (address reuse is decided by the seed)"]
    assumptions = ["the first call in a fresh process is the specification of a call; "
                   "a change which makes even that call wrong is for the unit tests",
                   "results are compared to 1e-9 (2e-4 in single precision)"]

    def gen(self, r, env, i, tier):
        mode = r.random()
        hunted = env.hunt(r) if r.random() < 0.2 else None
        if hunted:
            # operations that touch the same piece of state
            names = sorted({o["op"] for o in hunted[2]})
            names = r.sample(names, min(len(names), r.choice([1, 2, 4])))
            n = r.randint(6, 20)
        elif mode < 0.6:
            names = swarm_names(r, r.randint(1, 3))
            n = r.randint(4, 20)
        else:
            names = swarm_names(r, r.randint(4, 12))
            n = r.randint(8, 30)
        return {"steps": gen_history(r, n, names),
                "pool": r.random() < 0.6, "reuse": r.random() < 0.3,
                "keep": r.random() < 0.5}

    def prepare(self, sc, env):
        return [env.ref({"op": s["op"], "p": s["p"]})
                if s.get("op") and "fail_at" not in s else None
                for s in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        pool = {} if sc["pool"] else None
        reuse = {} if sc["reuse"] else None
        keep = []
        st = {"ops": 0, "callback_failures": 0, "evictions": 0, "gcs": 0,
              "compared": 0}
        for k, (s, ref) in enumerate(zip(sc["steps"], refs)):
            if s.get("ev"):
                if s["ev"] == "evict":
                    st["evictions"] += clear_caches()
                elif s["ev"] == "gc":
                    gc.collect()
                    st["gcs"] += 1
                else:
                    keep.clear()
                continue
            st["ops"] += 1
            o, raw, c = run_step(s, pool, reuse)
            if "fail_at" in s:
                if o[0] == "raise" and o[1][1] == "InjectedFault":
                    st["callback_failures"] += 1
                continue
            if sc["keep"]:
                keep.append((raw, c))
            st["compared"] += 1
            if not same(o, ref):
                return Violation(
                    "history", f"step {k} ({s['op']}) differs from the same call "
                    f"in a fresh process", step=k, op=s,
                    got=describe(o), expected=describe(ref)), st
        return None, st

    def shrink(self, sc):
        for steps in simplify_steps(sc["steps"]):
            yield dict(sc, steps=steps)
        for k in ("pool", "reuse", "keep"):
            if sc[k]:
                yield dict(sc, **{k: False})

    def nontrivial(self, sc, st):
        return st.get("compared", 0) >= 2
