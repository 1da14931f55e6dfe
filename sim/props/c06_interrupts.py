"""C06: interrupting a call or running out of memory at any point is safe."""
from __future__ import annotations

from ..catalog import OPS, Ctx, describe, same
from ..core import (
    Prop, Violation, draw_op, neighbour, outcome, quiet, register, shrink_list,
    swarm_names)
from ..faults import draw_interrupt, measure, perform, strip


def not_heavy(o):
    return "heavy" not in o.tags


@register
class Interrupts(Prop):
    id = "C06"
    quick_runs = 1500
    thorough_runs = 120000
    rule = ("a run counts when at least one interrupt or allocation failure was "
            "delivered inside the library and a later result compared; distinct by "
            "scenario (operation, arguments, fault kind and point, follow-ups)")
    assumptions = [
        "interrupts are delivered at source-line or bytecode boundaries of library "
        "frames (where CPython delivers signals), not inside numpy's C code",
        "allocation failures cover numpy array data, not Python objects or LAPACK "
        "work space"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 1, 2, 4]), not_heavy)
        faults, after = [], []
        hunted = env.hunt(r) if r.random() < 0.25 else None
        if hunted:
            # hit a call where it touches state that outlives it
            o, at, others = hunted
            o["fault"] = {"kind": "interrupt", "hot": "shared",
                          "k": max(1, at + r.choice([0, 0, 0, 1, 2])),
                          "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
            faults.append(o)
            after += [{"op": o["op"], "p": o["p"]}]
            after += env.mates(r, o, others, r.choice([1, 2, 4, 8]))
        for _ in range(r.choice([0, 0, 1] if hunted else [1, 1, 1, 2, 3])):
            o = (neighbour(r, r.choice(faults)) if faults and r.random() < 0.7
                 else draw_op(r, names))
            o = {"op": o["op"], "p": o["p"]}
            if r.random() < 0.68:
                o["fault"] = draw_interrupt(r, env, o)
            else:
                n = measure(env, o, "alloc")
                o["fault"] = {"kind": "alloc", "k": r.randint(1, max(1, n)),
                              "len": r.choice([1, 1, 1, 2, 5, 10**6])}
            faults.append(o)
            after.append({"op": o["op"], "p": o["p"]})
        for _ in range(r.randint(1, 4)):
            a = (neighbour(r, r.choice(faults)) if r.random() < 0.75
                 else draw_op(r, names))
            after.append({"op": a["op"], "p": a["p"]})
        if r.random() < 0.5:
            r.shuffle(after)
        pre = []
        if r.random() < 0.3:
            a = neighbour(r, r.choice(faults))
            pre.append({"op": a["op"], "p": a["p"]})
        return {"pre": pre, "faults": faults, "after": after, "pool": r.random() < 0.6}

    def prepare(self, sc, env):
        return ([env.ref({"op": o["op"], "p": o["p"]}) for o in sc["faults"]],
                [env.ref(o) for o in sc["after"]])

    def run(self, sc, prep):
        frefs, refs = prep
        quiet()
        pool = {} if sc["pool"] else None
        st = {"interrupts": 0, "alloc_failures": 0, "missed": 0, "after": 0,
              "where": [], "survived": 0}
        for o in sc["pre"]:
            outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
        for o, ref in zip(sc["faults"], frefs):
            f = o["fault"]
            res = perform(o, Ctx(pool=pool), f)
            if not res.fired:
                st["missed"] += 1
                if not same(res.outcome, ref):
                    return Violation("aftermath", f"{o['op']} differs from a fresh "
                                     "process after an earlier call was cut short",
                                     op=o, got=describe(res.outcome),
                                     expected=describe(ref)), st
                continue
            if f["kind"] == "interrupt":
                st["interrupts"] += 1
                st["exc:" + f["exc"]] = st.get("exc:" + f["exc"], 0) + 1
                st["where"].append("%s:%d" % res.where)
            else:
                st["alloc_failures"] += 1
            if res.exc is None:
                st["survived"] += 1
                if not same(res.outcome, ref):
                    return Violation("silent", f"{o['op']} was hit by "
                                     f"{f.get('exc', 'a failing allocation')} and "
                                     "returned a different result instead of raising",
                                     op=o, where=res.where, got=describe(res.outcome),
                                     expected=describe(ref)), st
            elif f["kind"] == "interrupt":
                if res.exc is not res.injected:
                    return Violation("masked", f"{o['op']}: {f['exc']} delivered at "
                                     f"{res.where} came out as "
                                     f"{type(res.exc).__name__}: {str(res.exc)[:120]}",
                                     op=o), st
            else:
                # out of memory: must be MemoryError or what the call always raises
                if not isinstance(res.exc, MemoryError) and not (
                        ref[0] == "raise"
                        and type(res.exc).__name__ == ref[1][1]):
                    return Violation("masked", f"{o['op']}: a failing allocation came "
                                     f"out as {type(res.exc).__name__}: "
                                     f"{str(res.exc)[:120]}", op=o), st
            strip(res)
        for o, ref in zip(sc["after"], refs):
            st["after"] += 1
            x = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
            if not same(x, ref):
                return Violation("aftermath", f"{o['op']} differs from a fresh process "
                                 "after an earlier call was cut short", op=o,
                                 got=describe(x), expected=describe(ref)), st
        return None, st

    def shrink(self, sc):
        for key, m in (("pre", 0), ("faults", 1), ("after", 0)):
            for xs in shrink_list(sc[key], m):
                yield dict(sc, **{key: xs})
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return st.get("interrupts", 0) + st.get("alloc_failures", 0) > 0
