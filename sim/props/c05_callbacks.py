"""C05: a failing user callback is reported as it is, and leaves nothing behind."""
from __future__ import annotations

from ..catalog import OPS, Ctx, describe, same
from ..core import (
    Prop, Violation, draw_op, neighbour, outcome, quiet, register, swarm_names)
from ..faults import EXCS, measure, perform, strip


def has_cb(o):
    return "callback" in o.tags


@register
class Callbacks(Prop):
    id = "C05"
    quick_runs = 3000
    thorough_runs = 80000
    rule = ("a run counts when the simulated callback really raised inside the "
            "library; distinct by scenario (operation, arguments, failing invocation, "
            "exception type, follow-up operations)")
    assumptions = ["StopIteration from a user's iterator (rather than function) means "
                   "its end, as the protocol says"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 2, 4]), has_cb)
        faults = []
        for _ in range(r.choice([1, 1, 2, 3])):
            o = (neighbour(r, faults[-1]) if faults and r.random() < 0.7
                 else draw_op(r, names))
            n = measure(env, o, "callback")
            k = r.choice([0, max(0, n-1), r.randrange(max(1, n)), r.randrange(max(1, n)),
                          int(max(1, n)**r.random())])
            o["fault"] = {"kind": "callback", "k": k, "exc": r.choice(list(EXCS)),
                          "late": r.random() < 0.2}
            faults.append(o)
        after = []
        for f in faults:
            after.append({"op": f["op"], "p": f["p"]})
        for _ in range(r.randint(1, 4)):
            after.append(neighbour(r, r.choice(faults)) if r.random() < 0.7
                         else draw_op(r, names))
        r.shuffle(after)
        after = [{"op": a["op"], "p": a["p"]} for a in after]
        return {"faults": faults, "after": after, "pool": r.random() < 0.5,
                "warm": r.random() < 0.3}

    def prepare(self, sc, env):
        return [env.ref(o) for o in sc["after"]]

    def run(self, sc, refs):
        quiet()
        pool = {} if sc["pool"] else None
        st = {"fired": 0, "missed": 0, "after": 0, "exc": [], "depth": 0}
        if sc["warm"]:
            o = sc["after"][0]
            outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
        for o in sc["faults"]:
            res = perform(o, Ctx(pool=pool), o["fault"])
            if not res.fired:
                st["missed"] += 1
                continue
            st["fired"] += 1
            st["exc"].append(o["fault"]["exc"])
            if res.exc is None:
                return Violation("swallowed", f"{o['op']} returned normally although "
                                 f"the user's function raised {o['fault']['exc']}",
                                 op=o, got=describe(res.outcome)), st
            if res.exc is not res.injected:
                return Violation("changed", f"{o['op']} raised "
                                 f"{type(res.exc).__name__}({str(res.exc)[:120]!r}) "
                                 f"instead of the user's {o['fault']['exc']}", op=o), st
            strip(res)
        for o, ref in zip(sc["after"], refs):
            st["after"] += 1
            x = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
            if not same(x, ref):
                return Violation("aftermath", f"{o['op']} differs from a fresh process "
                                 "after an earlier call failed in a user callback",
                                 op=o, got=describe(x), expected=describe(ref)), st
        return None, st

    def shrink(self, sc):
        from ..core import shrink_list
        for xs in shrink_list(sc["faults"], 1):
            yield dict(sc, faults=xs)
        for xs in shrink_list(sc["after"], 0):
            yield dict(sc, after=xs)
        for k in ("pool", "warm"):
            if sc[k]:
                yield dict(sc, **{k: False})

    def nontrivial(self, sc, st):
        return st.get("fired", 0) > 0
