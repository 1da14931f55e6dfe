"""C04: arguments are never modified."""
from __future__ import annotations

import numpy as np

from ..catalog import OPS, Ctx, describe, fingerprint, same
from ..core import (
    Prop, Violation, draw_op, quiet, register, swarm_names)
from ..faults import draw_interrupt, measure, perform, strip
from ..tracer import Tracer


def has_input(o):
    return bool({"array", "list", "quadin", "lapack", "callback"} & o.tags)


class SnapCtx(Ctx):
    """Takes a bit-exact snapshot of every argument the moment it is made."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.snaps = []

    def arr(self, name, a):
        a = super().arr(name, a)
        self.snaps.append((name, a, fingerprint(a)))
        return a

    def obj(self, name, o):
        o = super().obj(name, o)
        self.snaps.append((name, o, fingerprint(o)))
        return o

    def changed(self):
        for n, o, f in self.snaps:
            if fingerprint(o) != f:
                return n
        return None


def opaque(a):
    """A key for the arguments of a call, if they are plain arrays or numbers."""
    if a and all(isinstance(x, (np.ndarray, int, float)) for x in a):
        return tuple((x.shape, x.dtype.str, x.tobytes()) if isinstance(x, np.ndarray)
                     else (type(x).__name__, repr(x)) for x in a)
    return None


@register
class Inputs(Prop):
    id = "C04"
    quick_runs = 1600
    thorough_runs = 100000
    rule = ("a run counts when at least one array, list or rule was passed and "
            "fingerprinted; distinct by scenario")
    assumptions = ["an argument may be written to by the caller's own callback; only "
                   "modepy's writes count",
                   "fingerprints are taken at call boundaries, callback invocations and "
                   "seeded line events, so a change undone between two of these is "
                   "not seen"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 2, 4]), has_input)
        steps = []
        for _ in range(r.choice([1, 2, 3, 5])):
            o = draw_op(r, names)
            o["layout"] = r.choice(["C", "C", "F", "strided", "neg"])
            o["readonly"] = r.random() < 0.35
            o["keep"] = r.random() < 0.4
            x = r.random()
            if x < 0.2 and "callback" in OPS[o["op"]].tags:
                n = measure(env, o, "callback")
                o["fault"] = {"kind": "callback", "k": r.randrange(max(1, n)),
                              "exc": "InjectedFault"}
            elif x < 0.45 and "heavy" not in OPS[o["op"]].tags:
                o["fault"] = draw_interrupt(r, env, o)
            elif x < 0.55:
                n = measure(env, o, "alloc")
                o["fault"] = {"kind": "alloc", "k": r.randint(1, max(1, n)), "len": 1}
            elif x < 0.65 and "lapack" in OPS[o["op"]].tags:
                n = len(measure(env, o, "call"))
                o["fault"] = {"kind": "call", "k": r.randint(1, max(1, n)),
                              "mode": "raise", "exc": "LinAlgError"}
            elif x < 0.8 and "heavy" not in OPS[o["op"]].tags:
                o["watch"] = r.choice([1, 3, 10, 40])
            steps.append(o)
        return {"steps": steps, "pool": r.random() < 0.4}

    def prepare(self, sc, env):
        return [env.ref({"op": o["op"], "p": o["p"]}) for o in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        pool = {} if sc["pool"] else None
        st = {"inputs": 0, "readonly": 0, "faults": 0, "observations": 0, "ops": 0,
              "transient_checks": 0, "kept": 0}
        held = []

        for o, ref in zip(sc["steps"], refs):
            seen = []
            table = {}

            def observe(n, name, f, a, kw):
                # what the user's function can see of the user's own data
                st["observations"] += 1
                if n < 60 and not seen:
                    b = c.changed()
                    if b is not None:
                        seen.append((b, f"inside callback {name} (call {n})"))
                if not o.get("keep"):
                    return f(*a, **kw)
                # a caller's function which keeps (and hands out again) what it has
                # already evaluated
                key = (name, opaque(a)) if not kw else None
                if key is not None and key[1] is not None and key in table:
                    st["kept"] += 1
                    return table[key]
                y = f(*a, **kw)
                if key is not None and key[1] is not None and len(table) < 60:
                    table[key] = y
                    c.snaps.append((f"the value that {name} returned and keeps", y,
                                    fingerprint(y)))
                return y
            c = SnapCtx(pool=pool, layout=o["layout"], readonly=o["readonly"],
                        hooks={"callback": observe})
            fault = o.get("fault")
            if o.get("watch"):
                every = o["watch"]

                def ev(t, frame):
                    if t.n % every == 0 and t.n < 4000 and not seen:
                        st["transient_checks"] += 1
                        b = c.changed()
                        if b is not None:
                            seen.append((b, f"at {frame.f_code.co_qualname}:"
                                         f"{frame.f_lineno}"))
                with Tracer(ev):
                    res = perform(o, c, None)
            else:
                res = perform(o, c, fault)
            st["ops"] += 1
            st["inputs"] += len(c.snaps)
            st["readonly"] += o["readonly"]
            if fault and res.fired:
                st["faults"] += 1
                st["fault:" + fault["kind"]] = st.get("fault:" + fault["kind"], 0) + 1
            strip(res)
            if seen:
                return Violation("transient", f"{o['op']}: argument {seen[0][0]} is "
                                 f"modified {seen[0][1]}", op=o), st
            b = c.changed()
            if b is not None:
                how = ("after a failed call" if res.exc is not None else "")
                return Violation("modified", f"{o['op']} modified its argument {b} "
                                 f"{how}", op=o), st
            held.append((o, c))
            for o2, c2 in held:
                b = c2.changed()
                if b is not None:
                    return Violation("modified-later", f"a later call modified argument "
                                     f"{b} of {o2['op']}", op=o2), st
            if not (fault and res.fired) and not same(res.outcome, ref):
                return Violation("layout", f"{o['op']} gives another result for "
                                 f"{'read-only ' if o['readonly'] else ''}"
                                 f"{o['layout']}-layout arguments", op=o,
                                 got=describe(res.outcome), expected=describe(ref)), st
        return None, st

    def shrink(self, sc):
        from ..core import shrink_list
        for xs in shrink_list(sc["steps"], 1):
            yield dict(sc, steps=xs)
        for i, o in enumerate(sc["steps"]):
            for k in ("fault", "watch"):
                if k in o:
                    t = dict(o)
                    del t[k]
                    yield dict(sc, steps=sc["steps"][:i] + [t] + sc["steps"][i+1:])
            if o.get("keep"):
                yield dict(sc, steps=sc["steps"][:i] + [dict(o, keep=False)]
                           + sc["steps"][i+1:])
            if o["readonly"]:
                yield dict(sc, steps=sc["steps"][:i] + [dict(o, readonly=False)]
                           + sc["steps"][i+1:])
            if o["layout"] != "C":
                yield dict(sc, steps=sc["steps"][:i] + [dict(o, layout="C")]
                           + sc["steps"][i+1:])
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return st.get("inputs", 0) > 0
