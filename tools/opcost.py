"""Source lines executed per operation: python3 tools/opcost.py [N] [LIMIT]
(the workload vocabulary must stay small, so that step budgets are meaningful)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams, core, calls
calls.install()
core.import_target()
from sim import catalog, ops
from sim.tracer import _PREFIX
N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
LIM = int(sys.argv[2]) if len(sys.argv) > 2 else 3_000_000


def cost(o):
    def go():
        mon = sys.monitoring
        n = [0]
        def line(code, lineno):
            if not code.co_filename.startswith(_PREFIX):
                return mon.DISABLE
            n[0] += 1
            if n[0] > LIM:
                core.panic("limit")
        core.quiet()
        mon.use_tool_id(4, "dst"); mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
        core.outcome(lambda: catalog.OPS[o["op"]].run(catalog.Ctx(), o["p"]))
        mon.set_events(4, 0)
        return n[0]
    try:
        return core.fork_call(go)
    except core.ChildHang:
        return LIM

import random
from concurrent.futures import ProcessPoolExecutor
def one(name):
    r = random.Random(name)
    best = (0, None); tot = 0
    seen = set()
    for _ in range(N):
        p = catalog.OPS[name].gen(r)
        k = json.dumps(p, sort_keys=True)
        if k in seen: continue
        seen.add(k)
        c = cost({"op": name, "p": p})
        tot += c
        best = max(best, (c, k))
    return best[0], tot//max(1, len(seen)), name, best[1]
if __name__ == "__main__":
    with ProcessPoolExecutor(6) as ex:
        for x in sorted(ex.map(one, sorted(catalog.OPS)), reverse=True)[:30]:
            print(*x)
