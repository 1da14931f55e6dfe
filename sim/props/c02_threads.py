"""C02: results are independent of the thread schedule."""
from __future__ import annotations

import random

from ..catalog import OPS, Ctx, describe, same
from ..core import (
    Prop, Violation, draw_op, exc_canon, neighbour, outcome, quiet, register,
    swarm_names)
from ..seams import Deadlock, Scheduler, make_strategy
from ..tracer import StepBudget


def not_heavy(o):
    return "heavy" not in o.tags


@register
class Threads(Prop):
    id = "C02"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("a run counts when at least two threads ran and the scheduler switched "
            "between them inside modepy; distinct by the sequence of scheduling "
            "decisions (thread, file, line)")
    stubs = ["the thread scheduler (one run token, switched at line or opcode events)",
             "locks created by modepy"]
    assumptions = ["switches happen at Python line/opcode boundaries of modepy frames, "
                   "not inside C code",
                   "the specification of a call is the same call alone in a fresh "
                   "process"]

    def gen(self, r, env, i, tier):
        k = r.choice([2, 2, 2, 3, 3, 4])
        names = swarm_names(r, r.randint(1, 3), not_heavy)
        base = draw_op(r, names)
        threads = []
        conflict = r.random() < 0.7
        for t in range(k):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if conflict:
                    x = r.random()
                    o = (dict(base) if x < 0.35 else neighbour(r, base) if x < 0.85
                         else draw_op(r, names))
                else:
                    o = draw_op(r, names)
                ops.append(o)
            threads.append(ops)
        hunted = env.hunt(r) if r.random() < 0.4 else None
        if hunted:
            # one call stalls where it touches state that outlives it, while others make
            # calls that touch the same place (many of them, at times: whatever is kept
            # for a bounded number of arguments is replaced meanwhile)
            base, at, others = hunted
            k = r.choice([2, 2, 3])
            threads = [[base]] + [
                env.mates(r, base, others, r.choice([1, 2, 6, 12]))
                for _ in range(k-1)]
            names = [base["op"]]
        x = r.random()
        if hunted and x < 0.75:
            sched = {"kind": "stall", "victim": 0, "hot": "shared",
                     "k": max(1, at + r.choice([0, 0, 0, 0, 1, -1]))}
        elif x < 0.25:
            sched = {"kind": "gaps", "hi": r.choice([30, 300, 3000])}
        elif x < 0.40:
            sched = {"kind": "lockstep"}
        elif x < 0.65:
            sched = {"kind": "hot"}
        else:
            v = r.randrange(k)
            _out, n, hot, shared = env.nlines(threads[v][0])
            hotmode = r.random()
            if hotmode < 0.4 and shared:
                sched = {"kind": "stall", "victim": v, "hot": "shared",
                         "k": r.randint(1, len(shared))}
            elif hotmode < 0.55 and hot:
                sched = {"kind": "stall", "victim": v, "hot": "attr",
                         "k": r.randint(1, len(hot) + len(shared))}
            else:
                sched = {"kind": "stall", "victim": v, "k": r.randint(1, max(1, n))}
        return {"threads": threads, "sched": sched, "sseed": r.getrandbits(48),
                "opcodes": r.random() < 0.15, "pool": r.random() < 0.6,
                "warm": r.random() < 0.25,
                "probes": [neighbour(r, r.choice(r.choice(threads)))
                           for _ in range(r.choice([0, 2, 4]))]}

    def prepare(self, sc, env):
        return ([[env.ref(o) for o in t] for t in sc["threads"]],
                [env.ref(o) for o in sc["probes"]])

    def run(self, sc, refs):
        quiet()
        refs, probe_refs = refs
        pool = {} if sc["pool"] else None
        st = {"threads": len(refs), "switches": 0, "events": 0, "ops": 0,
              "recheck": 0}
        if sc["warm"]:
            for o in sc["threads"][0]:
                outcome(lambda o=o: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
        outs = [[None]*len(t) for t in sc["threads"]]

        def body(t):
            def go():
                for j, o in enumerate(sc["threads"][t]):
                    c = Ctx(pool=pool)
                    outs[t][j] = outcome(lambda: OPS[o["op"]].run(c, o["p"]))
            return go
        strat = make_strategy(sc["sched"], random.Random(sc["sseed"]))
        s = Scheduler([body(t) for t in range(len(refs))], strat,
                      opcodes=sc["opcodes"])
        res = s.run()
        st["events"] = s.n
        st["switches"] = len(s.switches)
        st["kind:" + sc["sched"]["kind"]] = 1
        st["shape"] = hash_schedule(s)
        explicit = {"kind": "explicit", "switches": s.switches,
                    "finish": s.finish_picks, "first": s.first_run}

        def viol(kind, msg, **kw):
            return Violation(kind, msg, explicit=explicit, **kw), st
        if isinstance(s.failure, Deadlock):
            return viol("deadlock", str(s.failure))
        if isinstance(s.failure, StepBudget):
            return viol("hang", "step budget exceeded under this schedule")
        for t, rr in enumerate(res):
            if rr is None or rr[0] == "raise":
                return viol("crash", f"thread {t} ended with "
                            f"{exc_canon(rr[1]) if rr else None}")
        for t in range(len(refs)):
            for j, o in enumerate(sc["threads"][t]):
                st["ops"] += 1
                if not same(outs[t][j], refs[t][j]):
                    return viol("schedule", f"thread {t} op {j} ({o['op']}) differs "
                                "from the same call made alone", op=o,
                                got=describe(outs[t][j]),
                                expected=describe(refs[t][j]))
        # the interleaving must not have left damage behind
        for t in range(len(refs)):
            for j, o in enumerate(sc["threads"][t]):
                st["recheck"] += 1
                x = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
                if not same(x, refs[t][j]):
                    return viol("aftermath", f"after the threads ended, {o['op']} "
                                "differs from a fresh process", op=o,
                                got=describe(x), expected=describe(refs[t][j]))
        for o, ref in zip(sc["probes"], probe_refs):
            st["recheck"] += 1
            x = outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"]))
            if not same(x, ref):
                return viol("aftermath", f"after the threads ended, {o['op']} "
                            "differs from a fresh process", op=o,
                            got=describe(x), expected=describe(ref))
        return None, st

    def concretise(self, sc, v):
        """Replace the schedule generator by the recorded schedule."""
        if v and "explicit" in v and sc["sched"]["kind"] != "explicit":
            return dict(sc, sched=v["explicit"])
        return None

    def shrink(self, sc):
        th = sc["threads"]
        for t in range(len(th)):
            if len(th) > 2:
                yield dict(sc, threads=th[:t] + th[t+1:])
            for j in range(len(th[t])):
                if len(th[t]) > 1:
                    yield dict(sc, threads=th[:t] + [th[t][:j] + th[t][j+1:]]
                               + th[t+1:])
        for i in range(len(sc["probes"])):
            yield dict(sc, probes=sc["probes"][:i] + sc["probes"][i+1:])
        for k in ("pool", "warm", "opcodes"):
            if sc[k]:
                yield dict(sc, **{k: False})
        if sc["sched"]["kind"] == "explicit":
            from ..core import shrink_list
            for sw in shrink_list(sc["sched"]["switches"], 0):
                yield dict(sc, sched=dict(sc["sched"], switches=sw))

    def nontrivial(self, sc, st):
        return st.get("switches", 0) >= 1


def hash_schedule(s):
    import hashlib
    return hashlib.blake2b(repr((s.switches, s.finish_picks)).encode(),
                           digest_size=8).hexdigest()
