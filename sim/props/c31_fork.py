"""C31: a process forked off at any moment can use the library, and so can its parent."""
from __future__ import annotations

import random

import numpy as np

from .. import seams
from ..catalog import OPS, Ctx, describe, opkey, same
from ..core import (
    ChildHang, ChildTimeout, HarnessError, Prop, Violation, draw_op, exc_canon, fork_call,
    fork_here, neighbour, outcome, quiet, register, shrink_list, swarm_names)
from ..faults import measure
from ..seams import Deadlock, Scheduler, make_strategy
from ..tracer import StepBudget
from .c02_threads import hash_schedule


def not_heavy(o):
    return "heavy" not in o.tags


def has_cb(o):
    return "callback" in o.tags


@register
class Fork(Prop):
    id = "C31"
    quick_runs = 1000
    thorough_runs = 60000
    rule = ("a run counts when a process was forked in the middle of it (while another "
            "thread, or the forking call itself, was inside the library, or between "
            "calls) and parent and child both made calls that were compared; distinct "
            "by scenario")
    stubs = ["the thread scheduler", "locks created by modepy",
             "the operating system's entropy source (own stream per process)"]
    assumptions = ["the fork happens in a thread that is between two calls or in a "
                   "callback; as with POSIX, only that thread lives on in the child"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.randint(1, 3), not_heavy)
        base = draw_op(r, names)
        x = r.random()
        mode = "threads" if x < 0.55 else "callback" if x < 0.85 else "seq"
        sc = {"mode": mode, "pool": r.random() < 0.6, "seed": r.getrandbits(48),
              "generations": r.choice([1, 1, 1, 2]), "pre": [], "rand": r.random() < 0.4}

        def draw():
            x = r.random()
            o = (base if x < 0.35 else neighbour(r, base) if x < 0.8
                 else draw_op(r, names))
            return {"op": o["op"], "p": o["p"]}
        if mode == "threads":
            k = r.choice([1, 1, 2, 3])
            sc["threads"] = [[base if t == 0 and j == 0 else draw()
                              for j in range(r.choice([1, 1, 2]))] for t in range(k)]
            sc["fpos"] = r.randrange(k+1)
            if r.random() < 0.4:
                sc["sched"] = {"kind": r.choice(["gaps", "gaps", "hot"]),
                               "hi": r.choice([30, 300])}
            else:
                v = r.randrange(k)
                hunted = env.hunt(r) if r.random() < 0.5 else None
                if hunted:
                    sc["threads"][v][0], at, others = hunted
                    base = sc["threads"][v][0]
                _out, n, hot, shared = env.nlines(sc["threads"][v][0])
                s = {"kind": "stall", "victim": v + (v >= sc["fpos"])}
                y = r.random()
                if hunted:
                    s |= {"hot": "shared", "k": at}
                elif y < 0.4 and shared:
                    s |= {"hot": "shared", "k": r.randint(1, len(shared))}
                elif y < 0.6 and (hot or shared):
                    s |= {"hot": "attr", "k": r.randint(1, len(hot) + len(shared))}
                else:
                    s |= {"k": r.randint(1, max(1, n))}
                sc["sched"] = s
            sc["pre"] = [draw() for _ in range(r.choice([0, 0, 0, 1]))]
        elif mode == "callback":
            names = swarm_names(r, r.randint(1, 2), has_cb)
            base = draw_op(r, names)
            sc["outer"] = {"op": base["op"], "p": base["p"]}
            n = measure(env, base, "callback")
            sc["k"] = r.choice([0, max(0, n-1), r.randrange(max(1, n))])
        else:
            sc["pre"] = [draw() for _ in range(r.choice([1, 2, 4]))]
        sc["child"] = [draw() for _ in range(r.choice([1, 2, 3]))]
        sc["parent"] = [draw() for _ in range(r.choice([0, 1, 2]))]
        return sc

    def prepare(self, sc, env):
        todo = [*sc["pre"], *sc["child"], *sc["parent"]]
        for t in sc.get("threads", ()):
            todo += t
        if "outer" in sc:
            todo.append(sc["outer"])
        return {opkey(o): env.ref(o) for o in todo}

    def run(self, sc, refs):
        quiet()
        import modepy as mp
        from numpy.random import bit_generator as bg
        st = {"forks": 0, "compared": 0, "switches": 0, "midcall": 0,
              "mode:" + sc["mode"]: 1, "entropy": 0}
        pool = {} if sc["pool"] else None
        proc = {"rng": random.Random(sc["seed"])}

        # every process has an entropy source of its own
        bg.randbits = lambda n: proc["rng"].getrandbits(n)
        bad = []            # violations
        drawn = []          # random nodes drawn without a generator

        def do(o, where):
            out = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
            judge(o, out, where)

        def judge(o, out, where):
            st["compared"] += 1
            if not bad and not same(out, refs[opkey(o)]):
                bad.append(Violation(
                    "result", f"{o['op']}{o['p']} {where}: {describe(out)} instead of "
                    f"{describe(refs[opkey(o)])}"))

        def draw(who):
            if sc["rand"]:
                x = mp.random_nodes_for_shape(mp.Simplex(2), 4)
                drawn.append((who, np.asarray(x).tobytes()))

        def in_child(gen):
            seams.forked()
            proc["rng"] = random.Random(f"{sc['seed']}/{gen}")
            who = "in the forked process" + (" of a forked process" if gen > 1 else "")
            drawn.clear()
            n0 = st["compared"] - (1 if sc["mode"] == "callback" and gen == 1 else 0)
            draw(who)
            for o in sc["child"]:
                do(o, who)
            if gen < sc["generations"]:
                fork(gen+1)
            return bad[:1], drawn, st["compared"] - n0

        def settle(x):
            b, d, n = x
            bad.extend(b)
            drawn.extend(d)
            st["compared"] += n

        def stuck(e):
            if isinstance(e, ChildTimeout) and \
                    float(str(e).split("used ")[1].split("s ")[0]) > 4:
                raise e
            bad.append(Violation("hang", "the forked process waits for ever" if
                                 isinstance(e, ChildTimeout) else
                                 f"the forked process {e}"))

        def fork(gen):
            st["forks"] += 1
            try:
                settle(fork_call(lambda: in_child(gen), timeout=40, group=False))
            except (ChildHang, ChildTimeout) as e:
                stuck(e)

        if sc["mode"] == "threads":
            v = self.in_threads(sc, st, do, draw, fork, judge, pool)
            if v is not None:
                return v, st
        elif sc["mode"] == "callback":
            o = sc["outer"]
            finish = []
            seen = []

            def hook(n, name, f, a, kw):
                if n != sc["k"] or seen:
                    return f(*a, **kw)
                seen.append(1)
                st["midcall"] += 1
                st["forks"] += 1
                try:
                    child, x = fork_here(timeout=40)
                    if child:
                        seams.forked()
                        finish.append(x)
                    else:
                        settle(x)
                except (ChildHang, ChildTimeout) as e:
                    stuck(e)
                return f(*a, **kw)
            try:
                out = outcome(lambda: OPS[o["op"]].run(
                    Ctx(pool=pool, hooks={"callback": hook}), o["p"]))
                judge(o, out, "whose callback forked the process ("
                      + ("child" if finish else "parent") + ")")
                if finish:
                    finish[0](in_child(1))
            except BaseException as e:      # noqa: BLE001
                if finish:
                    finish[0](repr(e), "err")
                raise
            draw("in the parent")
        else:
            for o in sc["pre"]:
                do(o, "before the fork")
            draw("in the parent before")
            fork(1)
            draw("in the parent after")
        if bad:
            return bad[0], st
        for o in sc["parent"]:
            do(o, "in the parent after the fork")
        st["entropy"] = len(drawn)
        if not bad and len({d for _w, d in drawn}) != len(drawn):
            bad.append(Violation(
                "random", "random nodes drawn without a generator repeat across "
                "processes: " + ", ".join(w for w, _d in drawn)))
        return (bad[0] if bad else None), st

    def in_threads(self, sc, st, do, draw, fork, judge, pool):
        outs = [[None]*len(t) for t in sc["threads"]]
        fns = []

        def body(t):
            def go():
                for j, o in enumerate(sc["threads"][t]):
                    outs[t][j] = outcome(
                        lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
            return go

        def forker():
            for o in sc["pre"]:
                do(o, "before the fork")
            draw("in the parent before")
            st["midcall"] += sum(
                1 for t in range(len(outs))
                if s.local_n[t + (t >= sc["fpos"])] and outs[t][-1] is None)
            fork(1)
            draw("in the parent after")
        fns = [body(t) for t in range(len(sc["threads"]))]
        fns.insert(sc["fpos"], forker)
        s = Scheduler(fns, make_strategy(sc["sched"], random.Random(sc["seed"])))
        res = s.run()
        st["switches"] = len(s.switches)
        st["shape"] = hash_schedule(s)
        if isinstance(s.failure, Deadlock):
            return Violation("deadlock", str(s.failure))
        if isinstance(s.failure, StepBudget):
            return Violation("hang", "step budget exceeded under this schedule")
        for t, rr in enumerate(res):
            if rr is None or rr[0] == "raise":
                if rr and isinstance(rr[1], (HarnessError, OSError)):
                    raise rr[1]
                return Violation("crash", f"thread {t} ended with "
                                 f"{exc_canon(rr[1]) if rr else None}")
        for t, ops in enumerate(sc["threads"]):
            for j, o in enumerate(ops):
                judge(o, outs[t][j], f"in thread {t} of the parent")
        return None

    def shrink(self, sc):
        for k in ("child", "parent", "pre"):
            for xs in shrink_list(sc[k], 0):
                yield dict(sc, **{k: xs})
        if sc["generations"] > 1:
            yield dict(sc, generations=1)
        for k in ("rand", "pool"):
            if sc[k]:
                yield dict(sc, **{k: False})
        th = sc.get("threads", ())
        for t in range(len(th)):
            for j in range(len(th[t])):
                if len(th[t]) > 1:
                    yield dict(sc, threads=[*th[:t], th[t][:j] + th[t][j+1:],
                                            *th[t+1:]])

    def nontrivial(self, sc, st):
        return st.get("forks", 0) > 0 and st.get("compared", 0) >= 2
