"""One replica: a fresh interpreter in a seeded configuration runs a batch of calls
and reports the outcomes.  Started by props/c18_replicas.py; reads JSON on stdin,
writes a pickle to the original standard output."""
import json
import os
import sys


def main():
    sc = json.loads(sys.stdin.read())
    cf = sc["config"]
    out_fd = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)
    sys.path[:] = [p for p in sys.path if p not in ("", os.environ["DST_VERIF"] + "/sim")]
    sys.path.insert(0, os.environ["DST_REPO"])
    sys.path.append(os.environ["DST_VERIF"])

    import random as pyrandom       # a private source of harness randomness
    r = pyrandom.Random(cf["seed"])

    if cf.get("clock"):
        import time
        kind = cf["clock"]
        state = [r.uniform(-1e9, 4e9) if kind != "zero" else 0.0]

        def tick():
            if kind == "jump":
                state[0] += r.choice([0, 1e-9, 1e-3, 5, 86400*400, -86400*400, -1])
            elif kind == "back":
                state[0] -= r.random()
            elif kind == "stopped":
                pass
            return state[0]
        for n in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, n, tick)
        for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
            setattr(time, n, lambda: int(tick()*1e9))
    if cf.get("urandom"):
        pat = cf["urandom"]

        def urandom(n):
            if pat == "zero":
                return bytes(n)
            if pat == "ones":
                return b"\xff"*n
            return bytes(r.getrandbits(8) for _ in range(n))
        os.urandom = urandom
        pyrandom._urandom = urandom
    junk = []
    for _ in range(cf.get("junk", 0)):
        junk.append([object() for _ in range(r.randrange(2000))])
    if cf.get("locale"):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, cf["locale"])
        except locale.Error:
            pass
    import importlib
    for m in cf.get("imports", ()):
        try:
            importlib.import_module(m)
        except ImportError:
            if m.startswith("modepy"):
                raise
    import gc
    import warnings

    import numpy as np

    from sim import core
    from sim.catalog import OPS, Ctx
    import sim.ops  # noqa: F401
    core.import_target()
    warnings.simplefilter(cf.get("warn", "ignore"))
    np.seterr(all="ignore")
    if cf.get("globals"):
        np.random.seed(r.randrange(2**32))
        pyrandom.seed(r.randrange(2**32))
        np.seterr(under=r.choice(["ignore", "warn"]), over=r.choice(["ignore", "warn"]))
        np.set_printoptions(precision=r.randint(1, 20), threshold=r.choice([0, 5, 9999]),
                            suppress=r.random() < 0.5,
                            legacy=r.choice([False, "1.13", "1.25"]))
        import decimal
        decimal.getcontext().prec = r.randint(2, 50)
        np.setbufsize(r.choice([8192, 16384]))
        sys.setswitchinterval(r.choice([1e-6, 0.5]))
        sys.set_int_max_str_digits(r.choice([0, 700]))
    if cf.get("gc") == "off":
        gc.disable()
    elif cf.get("gc") == "often":
        gc.set_threshold(1, 1, 1)
    elif cf.get("gc") == "freeze":
        gc.freeze()
    if cf.get("nostd"):
        sys.stdout = sys.stderr = sys.stdin = None
        sys.__stdout__ = sys.__stderr__ = None
    for k, v in (cf.get("late_env") or {}).items():
        os.environ[k] = v
    if cf.get("chdir"):
        os.chdir(cf["chdir"])
    if cf.get("argv"):
        sys.argv[:] = cf["argv"]

    outs = []

    def go():
        for o in sc["ops"]:
            outs.append(core.outcome(lambda: OPS[o["op"]].run(Ctx(), o["p"])))
    if cf.get("thread"):
        import threading
        threading.stack_size(r.choice([512*1024, 2**20, 2**24]))
        t = threading.Thread(target=go, name="worker-ü")
        t.start()
        t.join()
    elif cf.get("deep"):
        def deep(n):
            if n:
                return deep(n-1)
            return go()
        deep(r.randrange(200))
    else:
        go()
    import pickle
    with os.fdopen(out_fd, "wb") as f:
        f.write(pickle.dumps(outs, 5))


main()
