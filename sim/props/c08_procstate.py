"""C08: calls leave the process as they found it, however they end."""
from __future__ import annotations

import random

from .. import procstate
from ..catalog import OPS, Ctx, describe, same
from ..core import (
    Prop, Violation, draw_op, draw_ops, outcome, quiet, register, shrink_list,
    swarm_names)
from ..faults import EXCS, draw_interrupt, measure, perform, strip
from ..seams import Scheduler, make_strategy


def not_heavy(o):
    return "heavy" not in o.tags


@register
class ProcState(Prop):
    id = "C08"
    quick_runs = 1200
    thorough_runs = 120000
    rule = ("a run counts when at least one library call ended (by returning, by a "
            "documented error or by an injected fault) and the process state was "
            "compared; distinct by scenario")
    assumptions = [
        "imported modules and per-module warning registries are not process state in "
        "the sense of this property; numpy's floating-point status flags are not "
        "observable from Python",
        "state changed inside numpy's or scipy's C code between Python events is not "
        "seen while it lasts, only afterwards and in user callbacks"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 2, 4]), not_heavy)
        sc = {"odd": r.getrandbits(32), "pool": r.random() < 0.5}
        if r.random() < 0.25:
            sc["threads"] = [draw_ops(r, r.choice([1, 2]), names, p_nb=0.8)
                             for _ in range(r.choice([2, 2, 3]))]
            sc["sched"] = r.choice([{"kind": "gaps", "hi": 30}, {"kind": "lockstep"},
                                    {"kind": "gaps", "hi": 300}, {"kind": "hot"}])
            sc["sseed"] = r.getrandbits(48)
            return sc
        steps = []
        for o in draw_ops(r, r.choice([1, 2, 3, 5]), names):
            o = {"op": o["op"], "p": o["p"]}
            x = r.random()
            tags = OPS[o["op"]].tags
            if x < 0.25 and "callback" in tags:
                n = measure(env, o, "callback")
                o["fault"] = {"kind": "callback", "k": r.randrange(max(1, n)),
                              "exc": r.choice(list(EXCS))}
            elif x < 0.6:
                o["fault"] = draw_interrupt(r, env, o)
                if r.random() < 0.4 and "in_import" not in o["fault"]:
                    # while a setting is changed
                    at = measure(env, o, "window")
                    if at:
                        o["fault"] = {"kind": "interrupt", "k": r.choice(at),
                                      "exc": o["fault"]["exc"]}
            elif x < 0.7:
                n = measure(env, o, "alloc")
                o["fault"] = {"kind": "alloc", "k": r.randint(1, max(1, n)), "len": 1}
            elif x < 0.8 and {"lapack", "scipy"} & tags:
                n = len(measure(env, o, "call"))
                o["fault"] = {"kind": "call", "k": r.randint(1, max(1, n)),
                              "mode": "raise", "exc": r.choice(
                                  ["LinAlgError", "ValueError", "MemoryError"])}
            elif x < 0.85:
                n = len(measure(env, o, "import"))
                o["fault"] = {"kind": "import", "k": r.randint(1, max(1, n)),
                              "exc": r.choice(["ImportError", "OSError",
                                               "KeyboardInterrupt"])}
            steps.append(o)
        sc["steps"] = steps
        return sc

    def prepare(self, sc, env):
        if "threads" in sc:
            return [[env.ref(o) for o in t] for t in sc["threads"]]
        return [env.ref({"op": o["op"], "p": o["p"]}) for o in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        pool = {} if sc["pool"] else None
        st = {"calls": 0, "faults": 0, "errors": 0, "inside": 0, "threaded": 0,
              "kinds": []}
        procstate.make_odd(random.Random(sc["odd"]))
        with procstate.Output() as out:
            if "threads" in sc:
                v = self.threaded(sc, refs, st, pool)
            else:
                v = self.sequence(sc, refs, st, pool)
        if v is None and out.text():
            v = Violation("output", "the library wrote to the standard streams: "
                          + out.text()[:200])
        return v, st

    def sequence(self, sc, refs, st, pool):
        before = procstate.snap()
        for o, ref in zip(sc["steps"], refs):
            inside = []

            def hook(n, name, f, a, kw):
                if n < 25 and not inside:
                    st["inside"] += 1
                    d = procstate.diff(light, procstate.snap(full=False))
                    if d:
                        inside.append((n, d))
                return f(*a, **kw)
            light = procstate.snap(full=False)
            c = Ctx(pool=pool, hooks={"callback": hook})
            res = perform(o, c, o.get("fault"))
            st["calls"] += 1
            if o.get("fault") and res.fired:
                st["faults"] += 1
                st["kinds"].append(o["fault"]["kind"])
            elif res.exc is not None:
                st["errors"] += 1
            fired = bool(res.fired)
            strip(res)
            how = (f"{o['op']} " + (
                f"cut short by {o['fault'].get('exc', 'a failed allocation')}"
                if fired else "which raised" if res.exc is not None
                else "which returned"))
            d = procstate.diff(before, procstate.snap())
            if d:
                return Violation("leak", f"{', '.join(d)} changed by {how}", op=o,
                                 where=res.where, what=d)
            if inside:
                return Violation("inside", f"while {o['op']} ran the user's function it "
                                 f"saw changed {', '.join(inside[0][1])}", op=o)
            if not fired and not same(res.outcome, ref):
                return Violation("depends", f"{o['op']} gives another result in a "
                                 "process with other (legal) global settings", op=o,
                                 got=describe(res.outcome), expected=describe(ref))
        return None

    def threaded(self, sc, refs, st, pool):
        before = procstate.snap()
        outs = [[None]*len(t) for t in sc["threads"]]
        changed = []

        def body(t):
            def go():
                # error handling and print options are per-thread settings
                mine = procstate.snap(full=False)
                for j, o in enumerate(sc["threads"][t]):
                    outs[t][j] = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool),
                                                                  o["p"]))
                now = procstate.snap(full=False)
                for k in ("numpy error handling", "numpy print options",
                          "decimal context"):
                    if mine[k] != now[k]:
                        changed.append(k)
            return go
        s = Scheduler([body(t) for t in range(len(refs))],
                      make_strategy(sc["sched"], random.Random(sc["sseed"])))
        s.run()
        st["threaded"] += 1
        st["switches"] = len(s.switches)
        if s.failure is not None:
            return Violation("stuck", f"threads did not finish: {s.failure!r}")
        st["calls"] += sum(map(len, refs))
        d = procstate.diff(before, procstate.snap()) + changed
        if d:
            return Violation("leak-threads", f"{', '.join(d)} changed by overlapping "
                             "calls from several threads", what=d)
        for t, tr in enumerate(refs):
            for j, ref in enumerate(tr):
                if not same(outs[t][j], ref):
                    return Violation(
                        "depends", f"{sc['threads'][t][j]['op']} gives another result "
                        "in a process with other (legal) global settings",
                        op=sc["threads"][t][j], got=describe(outs[t][j]),
                        expected=describe(ref))
        return None

    def shrink(self, sc):
        if "threads" in sc:
            for t in range(len(sc["threads"])):
                if len(sc["threads"]) > 2:
                    yield dict(sc, threads=sc["threads"][:t] + sc["threads"][t+1:])
                for xs in shrink_list(sc["threads"][t], 1):
                    yield dict(sc, threads=sc["threads"][:t] + [xs]
                               + sc["threads"][t+1:])
        else:
            for xs in shrink_list(sc["steps"], 1):
                yield dict(sc, steps=xs)
            for i, o in enumerate(sc["steps"]):
                if "fault" in o:
                    yield dict(sc, steps=sc["steps"][:i] + [
                        {"op": o["op"], "p": o["p"]}] + sc["steps"][i+1:])
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return st.get("calls", 0) > 0
