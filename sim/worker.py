"""Worker (zygote) process: never calls library code itself, only forks children
that do."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback


def setup():
    """Put the seams in place and load everything but the code under test's state;
    the protocol streams: the library must not be able to write to them."""
    out = os.dup(1)
    inp = os.dup(0)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)

    from . import seams
    seams.install_lock_seam()
    seams.install_id_seam()
    from . import core
    import numpy  # noqa: F401
    from . import calls
    calls.install()
    import pymbolic  # noqa: F401
    import pytools  # noqa: F401
    if os.environ.get("DST_CACHE"):
        # never trust byte code found next to the sources under test
        sys.pycache_prefix = os.environ["DST_CACHE"]
    core.import_target()
    from . import catalog, ops  # noqa: F401
    core.load_props()
    return inp, out


def main():
    inp, out = setup()
    inp, out = os.fdopen(inp, "r"), os.fdopen(out, "w")
    from . import core
    env = core.Env()
    for line in inp:
        t = json.loads(line)
        if t.get("quit"):
            break
        t0 = time.monotonic()
        rep = {"i": t.get("i")}
        try:
            prop = core.PROPS[t["prop"]]
            if "scenario" in t:
                sc = t["scenario"]
            else:
                r = core.rng_for("run", t["seed"], t["prop"], t["i"])
                sc = prop.gen(r, env, t["i"], t["tier"])
                sc = json.loads(json.dumps(sc))
                sc.setdefault("prop", t["prop"])
            rep["scenario"] = sc
            core.BUDGET = sc.get("_budget")
            try:
                v, st = prop.execute(sc, env)
            except core.ChildHang as e:
                v, st = core.Violation("hang", str(e)), {}
            rep["violation"] = v
            rep["stats"] = st
        except core.ChildTimeout as e:
            rep["timeout"] = str(e)
        except Exception as e:
            rep["error"] = "".join(traceback.format_exception(e))[-4000:]
        rep["dt"] = time.monotonic() - t0
        if not rep.get("violation") and not rep.get("error") and not t.get("full"):
            if not rep.get("timeout"):
                rep.pop("scenario", None) if not t.get("sample") else None
        out.write(json.dumps(rep, default=repr) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.exit(main())
