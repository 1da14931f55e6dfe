"""C18: replicas in differently configured processes agree."""
from __future__ import annotations

import os
import pickle
import subprocess
import sys

from ..catalog import OPS, describe, same
from ..core import (
    REPO, VERIF, HarnessError, Prop, Violation, draw_ops, register, shrink_list,
    swarm_names)


MODS = ["modepy.quadrature.kronrod", "modepy.quadrature.construction", "modepy.tools",
        "modepy.modes", "modepy.nodes", "modepy.shapes", "modepy.spaces",
        "modepy.matrices", "modepy.modal_decay", "modepy.quadrature.transplanted",
        "modepy.quadrature.jacobi_gauss", "modepy.quadrature.clenshaw_curtis",
        "modepy.quadrature.grundmann_moeller", "modepy.quadrature.xiao_gimbutas",
        "modepy.quadrature.witherden_vincent", "modepy.quadrature", "modepy",
        "modepy.quadrature.vioreanu_rokhlin", "modepy.quadrature.jaskowiec_sukumar",
        "modepy.typing", "modepy.version"]
OTHER = ["scipy", "scipy.special", "scipy.linalg", "scipy.optimize", "matplotlib",
         "pytools", "pymbolic", "numpy.ma", "decimal", "fractions", "pickle"]


@register
class Replicas(Prop):
    id = "C18"
    quick_runs = 200
    thorough_runs = 20000
    timeout = 180.0
    rule = ("a run counts when a fresh interpreter in a configuration other than the "
            "reference's completed its batch; distinct by scenario (configuration, "
            "calls)")
    assumptions = [
        "calls documented by assertions (ones that raise in the reference process) are "
        "not compared under -O",
        "one machine, one numpy/LAPACK build: platform differences are not covered"]
    stubs = ["clock, operating system randomness (seeded, possibly hostile)"]

    def gen(self, r, env, i, tier):
        names = swarm_names(r, r.choice([3, 6, 12]),
                            lambda o: "heavy" not in o.tags or tier != "quick")
        cf = {"seed": r.getrandbits(48)}
        pick = {
            "hashseed": lambda: str(r.choice([0, 1, r.randrange(2**32)])),
            "opt": lambda: r.choice([1, 1, 2]),
            "imports": lambda: r.sample(MODS + OTHER, r.choice([1, 2, 4, 8])),
            "clock": lambda: r.choice(["jump", "back", "stopped", "zero"]),
            "urandom": lambda: r.choice(["zero", "ones", "seeded"]),
            "junk": lambda: r.randrange(1, 40),
            "locale": lambda: r.choice(["C", "C.UTF-8", "POSIX", ""]),
            "globals": lambda: True,
            "gc": lambda: r.choice(["off", "often", "freeze"]),
            "nostd": lambda: True,
            "warn": lambda: r.choice(["always", "once", "default"]),
            "late_env": lambda: {"TZ": "Pacific/Apia", "LC_ALL": "xx", "LANG": "de_DE",
                                 "MODEPY_DEBUG": "1", "DEBUG": "1", "HOME": "/nowhere"},
            "env": lambda: dict(r.sample([
                ("LC_ALL", "C"), ("LANG", "de_DE.UTF-8"), ("PYTHONUTF8", "0"),
                ("PYTHONMALLOC", r.choice(["malloc", "debug"])), ("TZ", "Asia/Kabul"),
                ("COLUMNS", "10"), ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"),
                ("DEBUG", "1"), ("MODEPY_BACKEND", "scipy"), ("NO_COLOR", "1"),
                ("PYTHONDEVMODE", "1"), ("USER", ""), ("PYTHONSAFEPATH", "1")], 4)),
            "chdir": lambda: r.choice(["/", "/tmp", "/dev"]),
            "thread": lambda: True,
            "deep": lambda: True,
            "argv": lambda: [r.choice(["", "prog", "-c"]), "--order", "7"],
        }
        for k in r.sample(list(pick), r.choice([1, 2, 3, 5, 8])):
            cf[k] = pick[k]()
        if cf.get("thread"):
            cf.pop("deep", None)
        return {"config": cf, "ops": draw_ops(r, r.choice([10, 20, 30]), names, p_nb=0.3)}

    def execute(self, sc, env):
        cf = sc["config"]
        refs = [env.ref({"op": o["op"], "p": o["p"]}) for o in sc["ops"]]
        st = {"replicas": 1, "compared": 0, "skipped": 0,
              "varied": {k: 1 for k in cf if k != "seed"}}
        cache = os.environ["DST_CACHE"]
        e = {k: os.environ[k] for k in
             ("PATH", "LC_ALL", "MPLBACKEND", "OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS",
              "DST_REPO", "DST_CACHE", "HOME", "TMPDIR", "DST_VERIF", "MPLCONFIGDIR",
              "XDG_CACHE_HOME") if k in os.environ}
        e["PYTHONPYCACHEPREFIX"] = cache
        e["PYTHONHASHSEED"] = cf.get("hashseed", "0")
        e.update(cf.get("env") or {})
        flags = ["-O"*cf["opt"]] if cf.get("opt") == 1 else (
            ["-OO"] if cf.get("opt") else [])
        import json
        p = subprocess.run(
            [sys.executable, "-B" if cf.get("opt") else "-s", *flags,
             os.path.join(VERIF, "sim", "replica.py")],
            input=json.dumps(sc).encode(), env=e, cwd=cache, capture_output=True,
            timeout=150)
        if p.returncode:
            err = p.stderr.decode(errors="replace")
            tail = err[-1500:]
            if os.path.join(REPO, "modepy") in err and "Error" in tail:
                return Violation(
                    "import", f"the library cannot be loaded in configuration {cf}: "
                    f"{tail.strip().splitlines()[-1]}", stderr=tail), st
            raise HarnessError(f"replica failed ({p.returncode}): {tail}")
        outs = pickle.loads(p.stdout)
        for o, ref, out in zip(sc["ops"], refs, outs):
            if cf.get("opt") and ref[0] == "raise":
                st["skipped"] += 1
                continue
            st["compared"] += 1
            if not same(out, ref):
                return Violation(
                    "replica", f"{o['op']}{o['p']} in configuration {cf}: "
                    f"{describe(out)} instead of {describe(ref)}",
                    ref=describe(ref, 600), got=describe(out, 600)), st
        return None, st

    def nontrivial(self, sc, st):
        return st.get("compared", 0) > 0

    def shrink(self, sc):
        for ops in shrink_list(sc["ops"], 1):
            yield dict(sc, ops=ops)
        for k in sc["config"]:
            if k != "seed":
                yield dict(sc, config={a: b for a, b in sc["config"].items() if a != k})
        for k in ("imports",):
            if sc["config"].get(k):
                for xs in shrink_list(sc["config"][k], 1):
                    yield dict(sc, config=dict(sc["config"], **{k: xs}))
