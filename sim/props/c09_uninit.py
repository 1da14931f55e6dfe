"""C09: results never depend on what memory contained before."""
from __future__ import annotations

from ..catalog import OPS, Ctx, describe, same
from ..core import Prop, Violation, draw_ops, quiet, register, shrink_list, swarm_names
from ..faults import perform, strip


PATTERNS = [
    ("nan", 3, 0x7ff8000000000000), ("inf", 3, 0x7ff0000000000000),
    ("huge", 3, 0x7fe0000000000000), ("minus-huge", 3, 0xffe0000000000000),
    ("one", 3, 0x3ff0000000000000), ("byte-ff", 1, 0xff), ("byte-cc", 1, 0xcc),
    ("byte-01", 1, 0x01), ("zero", 1, 0),
    ("stream", 2, 0x1234567), ("stream2", 2, 0xdeadbeefcafe), ("denormal", 3, 1),
    ("bool-ones", 1, 1),
]


@register
class Uninit(Prop):
    id = "C09"
    quick_runs = 6000
    thorough_runs = 100000
    rule = ("a run counts when the simulated allocator handed out poisoned memory "
            "during compared operations; distinct by scenario")
    assumptions = ["covers numpy array data; work space inside LAPACK/scipy is not "
                   "allocated through numpy's data-memory seam"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 2, 5]))
        steps = draw_ops(r, r.randint(1, 6), names)
        for s in steps:
            s["pat"] = r.randrange(len(PATTERNS))
            s["pat2"] = r.randrange(len(PATTERNS)) if r.random() < 0.5 else None
        return {"steps": steps, "pool": r.random() < 0.4}

    def prepare(self, sc, env):
        return [env.ref({"op": o["op"], "p": o["p"]}) for o in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        pool = {} if sc["pool"] else None
        st = {"bytes_poisoned": 0, "ops": 0, "patterns": []}
        for o, ref in zip(sc["steps"], refs):
            for pat in (o["pat"], o["pat2"]):
                if pat is None:
                    continue
                name, mode, pattern = PATTERNS[pat]
                res = perform(o, Ctx(pool=pool), {"kind": "poison", "mode": mode,
                                                  "pattern": pattern})
                strip(res)
                st["ops"] += 1
                st["bytes_poisoned"] += res.fired
                st["patterns"].append(name)
                if not same(res.outcome, ref):
                    return Violation("uninitialised", f"{o['op']} gives another result "
                                     f"when fresh memory contains {name}", op=o,
                                     got=describe(res.outcome),
                                     expected=describe(ref)), st
        return None, st

    def shrink(self, sc):
        for xs in shrink_list(sc["steps"], 1):
            yield dict(sc, steps=xs)
        for i, o in enumerate(sc["steps"]):
            if o["pat2"] is not None:
                yield dict(sc, steps=sc["steps"][:i] + [dict(o, pat2=None)]
                           + sc["steps"][i+1:])
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return st.get("bytes_poisoned", 0) > 0
