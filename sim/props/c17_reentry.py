"""C17: user callbacks may call the library again, and may suspend a call while
others run."""
from __future__ import annotations

import threading

from ..catalog import OPS, Ctx, InjectedFault, describe, same
from ..core import (
    Prop, Violation, draw_op, exc_canon, neighbour, outcome, quiet, register,
    swarm_names)
from ..faults import measure


def has_cb(o):
    return "callback" in o.tags


def not_heavy(o):
    return "heavy" not in o.tags


class Stuck(BaseException):
    pass


@register
class Reentry(Prop):
    id = "C17"
    quick_runs = 3000
    thorough_runs = 120000
    rule = ("a run counts when at least one library call really ran (or was started) "
            "inside a callback of another one and both results were compared; distinct "
            "by scenario (calls, arguments, invocation points, depth, suspension order)")
    assumptions = ["re-entry happens where the library calls user code; signal handlers "
                   "at arbitrary instructions are not demanded to re-enter",
                   "suspension is simulated by threads handing over to one another, one "
                   "running at a time"]

    def pick_inner(self, r, o, names):
        x = r.random()
        if x < 0.3:
            return {"op": o["op"], "p": o["p"]}
        if x < 0.7:
            n = neighbour(r, o)
            return {"op": n["op"], "p": n["p"]}
        return draw_op(r, names)

    def plan(self, r, env, o, names, depth):
        n = measure(env, o, "callback")
        node = {"op": o["op"], "p": o["p"], "nest": []}
        if not n or depth <= 0:
            return node
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice([0, n-1, r.randrange(n), r.randrange(n), int(n**r.random())])
            inner = self.pick_inner(r, o, names)
            sub = self.plan(r, env, inner, names,
                            depth-1 if r.random() < 0.4 else 0)
            sub["k"] = min(k, n-1)
            sub["late"] = r.random() < 0.3
            if not sub["nest"] and "callback" in OPS[inner["op"]].tags and \
                    r.random() < 0.2:
                m = measure(env, inner, "callback")
                sub["fail"] = r.randrange(max(1, m))
            node["nest"].append(sub)
        return node

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([1, 2, 3]), has_cb)
        inner_names = names + swarm_names(r, r.choice([1, 2, 4]), not_heavy)
        sc = {"pool": r.random() < 0.5}
        if r.random() < 0.3:
            # coroutine-like: several calls, each suspended in its callbacks
            a = draw_op(r, names)
            calls = [a]
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                o = (dict(a) if x < 0.35 else neighbour(r, a) if x < 0.8
                     else draw_op(r, names))
                calls.append({"op": o["op"], "p": o["p"]})
            sc["calls"] = calls
            sc["order"] = [r.randrange(len(calls)) for _ in range(r.choice([4, 10, 30]))]
        else:
            sc["tree"] = self.plan(r, env, draw_op(r, names), inner_names,
                                   r.choice([1, 1, 2, 3]))
        after = []
        for _ in range(r.choice([0, 1, 2])):
            after.append(draw_op(r, inner_names))
        sc["after"] = after
        return sc

    def walk(self, node):
        yield node
        for s in node["nest"]:
            yield from self.walk(s)

    def prepare(self, sc, env):
        refs = {}
        todo = [*sc["after"], *sc.get("calls", ())]
        if "tree" in sc:
            todo += [n for n in self.walk(sc["tree"])]
        from ..catalog import opkey
        for o in todo:
            refs[opkey(o)] = env.ref({"op": o["op"], "p": o["p"]})
        return refs

    def run(self, sc, refs):
        quiet()
        from ..catalog import opkey
        st = {"inner": 0, "depth": 0, "failed_inner": 0, "suspensions": 0, "outer": 0,
              "ops": []}
        pool = {} if sc["pool"] else None
        bad = []

        def check(o, out, where):
            ref = refs[opkey(o)]
            if not same(out, ref):
                bad.append(Violation(
                    "result", f"{o['op']}{o['p']} {where}: {describe(out)} instead of "
                    f"{describe(ref)}", ref=describe(ref, 600), got=describe(out, 600)))

        def run_node(node, depth):
            st["depth"] = max(st["depth"], depth)
            active = set()

            def hook(n, name, f, a, kw):
                todo = [j for j, s in enumerate(node["nest"])
                        if s["k"] == n and j not in active]
                active.update(todo)
                y = None
                late = [j for j in todo if node["nest"][j]["late"]]
                for j in todo:
                    if j not in late:
                        enter(node["nest"][j], depth)
                y = f(*a, **kw)
                for j in late:
                    enter(node["nest"][j], depth)
                return y
            c = Ctx(pool=pool, hooks={"callback": hook} if node["nest"] else None)
            return outcome(lambda: OPS[node["op"]].run(c, node["p"]))

        def enter(s, depth):
            if bad:
                return
            st["inner"] += 1
            if s.get("fail") is not None:
                def hook(n, name, f, a, kw):
                    if n == s["fail"]:
                        raise InjectedFault("inner")
                    return f(*a, **kw)
                c = Ctx(pool=pool, hooks={"callback": hook})
                out = outcome(lambda: OPS[s["op"]].run(c, s["p"]))
                st["failed_inner"] += 1
                if out[0] == "ok":
                    check(s, out, "inside a callback")
                return
            check(s, run_node(s, depth+1), f"called inside a callback (depth {depth+1})")

        if "tree" in sc:
            out = run_node(sc["tree"], 0)
            st["outer"] += 1
            if not bad:
                check(sc["tree"], out, "whose callback called the library")
        else:
            outs = self.coroutines(sc, pool, st)
            if isinstance(outs, Violation):
                return outs, st
            for o, out in zip(sc["calls"], outs):
                st["outer"] += 1
                check(o, out, "suspended in its callbacks while others ran")
        if bad:
            return bad[0], st
        for o in sc["after"]:
            check(o, outcome(lambda: OPS[o["op"]].run(Ctx(pool=pool), o["p"])),
                  "afterwards")
            if bad:
                return bad[0], st
        st["ops"] = sorted({o["op"] for o in sc.get("calls", ())} or
                           {n["op"] for n in self.walk(sc["tree"])})
        return None, st

    def coroutines(self, sc, pool, st):
        """Run the calls in threads that pass a baton in their callbacks."""
        k = len(sc["calls"])
        go = [threading.Semaphore(0) for _ in range(k)]
        main = threading.Semaphore(0)
        done = [False]*k
        outs = [None]*k
        order = list(sc["order"])
        cur = [None]

        def pass_baton():
            """Pick who runs next."""
            while order:
                t = order.pop(0)
                if not done[t]:
                    return t
            for t in range(k):
                if not done[t]:
                    return t
            return None

        def hand_over(me):
            t = pass_baton()
            if t is None:
                main.release()
                return
            if t == me:
                return
            st["suspensions"] += 1
            cur[0] = t
            go[t].release()
            if not done[me]:
                go[me].acquire()

        def body(t):
            go[t].acquire()

            def hook(n, name, f, a, kw):
                y = f(*a, **kw)
                if order:
                    hand_over(t)
                return y
            c = Ctx(pool=pool, hooks={"callback": hook})
            try:
                outs[t] = outcome(lambda: OPS[sc["calls"][t]["op"]].run(
                    c, sc["calls"][t]["p"]))
            except BaseException as e:      # noqa: BLE001
                outs[t] = ("raise", exc_canon(e))
            done[t] = True
            hand_over(t)

        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(k)]
        for t in ths:
            t.start()
        t0 = pass_baton()
        cur[0] = t0
        go[t0].release()
        if not main.acquire(timeout=25):
            return Violation("stuck", f"call {cur[0]} ({sc['calls'][cur[0]]['op']}) does "
                             "not return while another call is suspended in its "
                             "callback", calls=sc["calls"])
        return outs

    def nontrivial(self, sc, st):
        return st.get("inner", 0) > 0 or st.get("suspensions", 0) > 0

    def shrink(self, sc):
        if sc["after"]:
            yield dict(sc, after=[])
        if sc["pool"]:
            yield dict(sc, pool=False)
        if "calls" in sc:
            n = len(sc["order"])
            for m in (n//2, n-1):
                if 0 < m < n:
                    yield dict(sc, order=sc["order"][:m])
            if len(sc["calls"]) > 2:
                for j in range(len(sc["calls"])):
                    cs = sc["calls"][:j] + sc["calls"][j+1:]
                    yield dict(sc, calls=cs, order=[x % len(cs) for x in sc["order"]])
            return

        def variants(node):
            for j, s in enumerate(node["nest"]):
                yield dict(node, nest=node["nest"][:j] + node["nest"][j+1:])
                for v in variants(s):
                    yield dict(node, nest=[*node["nest"][:j], v, *node["nest"][j+1:]])
                if s["late"]:
                    yield dict(node, nest=[*node["nest"][:j], dict(s, late=False),
                                           *node["nest"][j+1:]])
                if s["k"]:
                    yield dict(node, nest=[*node["nest"][:j], dict(s, k=0),
                                           *node["nest"][j+1:]])
        for v in variants(sc["tree"]):
            yield dict(sc, tree=v)
