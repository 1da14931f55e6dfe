"""C03: what a call returns belongs to the caller."""
from __future__ import annotations

import numpy as np

from ..catalog import (
    OPS, Ctx, canon, describe, fingerprint, np_rng, same, tags_of, walk_arrays)
from ..core import (
    Prop, Violation, draw_op, neighbour, outcome, quiet, register, shrink_list,
    swarm_names)


def trash(a, how, seed):
    """A caller modifies its own array in place.  False: refused."""
    if not isinstance(a, np.ndarray) or a.size == 0:
        return None
    if not a.flags.writeable:
        return False
    if a.dtype.kind not in "fciub":
        return None
    g = np_rng(seed)
    if how == "scale":
        if a.dtype.kind in "fc":
            a *= 3.5
        else:
            a *= 3 if a.dtype.kind != "b" else True
    elif how == "fill":
        a[...] = 7
    elif how == "one":
        ix = tuple(int(g.integers(0, n)) for n in a.shape)
        a[ix] = 123
    else:
        a[...] = g.integers(-9, 9, size=a.shape) if a.dtype.kind != "u" else 3
    return True


def trash_lists(x, depth=0):
    n = 0
    if depth > 4:
        return 0
    if isinstance(x, list):
        for i in x:
            n += trash_lists(i, depth+1)
        x.clear()
        return n + 1
    if isinstance(x, dict):
        for i in x.values():
            n += trash_lists(i, depth+1)
        x.clear()
        return n + 1
    if isinstance(x, tuple):
        for i in x:
            n += trash_lists(i, depth+1)
    return n


@register
class Ownership(Prop):
    id = "C03"
    quick_runs = 4000
    thorough_runs = 60000
    rule = ("a run counts when at least one returned or passed array was really "
            "modified by the caller and a later result compared; distinct by scenario")
    assumptions = [
        "arrays the library refuses to let the caller modify (read-only) are fine",
        "objects a user builds from their own arrays (Quadrature, AffineMap, "
        "LinearCombinationIntegrand) legitimately hold those arrays, and the reshape "
        "helpers for tensor product arrays are documented to return views",
    ]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 1, 2, 3, 5]))
        steps = []
        for _ in range(r.randint(2, 12)):
            if steps and r.random() < 0.75:
                q = r.choice(steps)
                o = ({"op": q["op"], "p": q["p"]} if r.random() < 0.55
                     else neighbour(r, q))
            else:
                o = draw_op(r, names)
            s = {"op": o["op"], "p": o["p"], "out": None, "inp": None}
            if r.random() < 0.6:
                s["out"] = r.choice(["scale", "fill", "one", "rand"])
                s["when"] = r.choice(["now", "now", "later"])
            if r.random() < 0.35:
                s["inp"] = r.choice(["scale", "fill", "one", "rand"])
            s["s"] = r.randrange(1000)
            steps.append(s)
        return {"steps": steps, "pool": r.random() < 0.5}

    def prepare(self, sc, env):
        return [env.ref({"op": s["op"], "p": s["p"]}) for s in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        import modepy as mp
        pool = {} if sc["pool"] else None
        st = {"ops": 0, "trashed": 0, "refused": 0, "inputs_trashed": 0,
              "kept_compared": 0}
        kept = []           # (step, raw, canonical) not trashed

        def check_kept(k):
            for (j, raw, cj) in kept:
                st["kept_compared"] += 1
                now = canon(raw)
                if not same(now, cj, 0.0):
                    return Violation(
                        "kept-result", f"the result of step {j} "
                        f"({sc['steps'][j]['op']}) changed when the caller modified "
                        f"what step {k} ({sc['steps'][k]['op']}) returned or received",
                        got=describe(now), expected=describe(cj))
            return None

        later = []
        for k, (s, ref) in enumerate(zip(sc["steps"], refs)):
            op = OPS[s["op"]]
            c = Ctx(pool=pool)
            raw = []

            def call():
                v = op.run(c, s["p"])
                raw.append(v)
                return v
            o = outcome(call)
            st["ops"] += 1
            if not same(o, ref):
                return Violation(
                    "later-result", f"step {k} ({s['op']}) differs from a fresh "
                    "process after the caller modified its own arrays", op=s["op"],
                    got=describe(o), expected=describe(ref)), st
            if not raw:
                continue
            own_inputs = [x for _n, x in c.inputs
                          if isinstance(x, (np.ndarray, list))]
            outs = walk_arrays(raw[0])
            if s["inp"] and "container" not in tags_of(s):
                before = canon(raw[0])
                hit = False
                for x in own_inputs:
                    if isinstance(x, list):
                        x.clear()
                        hit = True
                    elif trash(x, s["inp"], s["s"]):
                        hit = True
                if pool is None:
                    inner = {id(a) for a in walk_arrays(raw[0])} - {
                        id(a) for a in walk_arrays(
                            raw[0], skip={id(x) for _n, x in c.inputs})}
                    for _n, x in c.inputs:
                        if isinstance(x, mp.Quadrature):
                            for a in walk_arrays(x):
                                if id(a) not in inner and trash(a, s["inp"], s["s"]):
                                    hit = True
                if hit:
                    st["inputs_trashed"] += 1
                    if "view" not in tags_of(s) and not same(canon(raw[0]), before, 0.0):
                        return Violation(
                            "input-alias", f"the result of {s['op']} changed when the "
                            "caller modified the arrays it had passed in", op=s["op"],
                            got=describe(canon(raw[0])),
                            expected=describe(before)), st
                v = check_kept(k)
                if v:
                    return v, st
            if s["out"] and "container" not in tags_of(s):
                if s.get("when") == "later":
                    later.append((k, raw[0], s, {id(x) for _n, x in c.inputs}))
                    continue
                v = self._trash_result(k, raw[0], s, c, op, st)
                if v:
                    return v, st
                v = check_kept(k)
                if v:
                    return v, st
            else:
                kept.append((k, raw[0], canon(raw[0])))
            while later and later[0][0] < k - 1:
                j, rj, sj, mine_j = later.pop(0)
                for a in walk_arrays(rj, skip=mine_j):
                    if trash(a, sj["out"], sj["s"]):
                        st["trashed"] += 1
                trash_lists(rj)
                v = check_kept(j)
                if v:
                    return v, st
        return None, st

    def _trash_result(self, k, raw, s, c, op, st):
        ins = [(n, x, fingerprint(x)) for n, x in c.inputs]
        hit = False
        # (not through objects of the caller's that the result consists of)
        for a in walk_arrays(raw, skip={id(x) for _n, x in c.inputs}):
            t = trash(a, s["out"], s["s"])
            if t:
                st["trashed"] += 1
                hit = True
            elif t is False:
                st["refused"] += 1
        if hit and "view" not in tags_of(s):
            for n, x, f in ins:
                if fingerprint(x) != f:
                    return Violation(
                        "result-alias", f"modifying what {s['op']} returned changed "
                        f"the argument {n} it was given", op=s["op"])
        trash_lists(raw)
        return None

    def shrink(self, sc):
        for steps in shrink_list(sc["steps"], 1):
            yield dict(sc, steps=steps)
        for i, s in enumerate(sc["steps"]):
            for key in ("out", "inp"):
                if s[key]:
                    yield dict(sc, steps=sc["steps"][:i] + [dict(s, **{key: None})]
                               + sc["steps"][i+1:])
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return st.get("trashed", 0) + st.get("inputs_trashed", 0) > 0
