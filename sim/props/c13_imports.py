"""C13: missing optional packages and failing imports are reported, never
silently absorbed into wrong results, and leave nothing broken behind."""
from __future__ import annotations

import sys

from ..catalog import OPS, Ctx, describe, same, tags_of
from ..core import (
    Prop, Violation, draw_op, draw_ops, outcome, quiet, register, shrink_list)
from ..faults import EXCS, ImportFault, measure, perform, strip
from ..tracer import Tracer, cleanup_point


OPTIONAL = ["scipy", "scipy.special", "scipy.linalg", "scipy.optimize",
            "matplotlib", "matplotlib.pyplot"]
TABLES = ["xg_quad_data", "vr_quad_data_tri", "vr_quad_data_tet",
          "witherden_vincent_quad_data", "jaskowiec_sukumar_tet_data"]
PREFER = ["jacobi_gauss", "gauss_family", "lobatto", "orthogonalize", "map1d",
          "transplanted", "map_bad", "table_xg", "table_vr", "table_wv", "table_js",
          "quad_for_space", "symbolicize", "undetermined", "vr_guess"]


def needs_scipy(o):
    p = o["p"]
    if isinstance(p.get("o"), dict) and needs_scipy(p["o"]):
        return True
    return p.get("be") == "scipy" or p.get("m") == "strip" or o["op"] == "map_bad"


class Absent:
    """Packages that cannot be imported (as after an incomplete installation)."""

    def __init__(self):
        self.saved = {}

    def block(self, name):
        import importlib
        for k in list(sys.modules):
            if k == name or k.startswith(name + "."):
                if k not in self.saved:
                    self.saved[k] = sys.modules[k]
                sys.modules[k] = None
        if sys.modules.get(name, 0) != None:    # noqa: E711
            self.saved.setdefault(name, None)
            sys.modules[name] = None
        importlib.invalidate_caches()

    def restore(self):
        for k, m in self.saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
        self.saved.clear()

    @property
    def active(self):
        return bool(self.saved)


def drop_library():
    for k in list(sys.modules):
        if k == "modepy" or k.startswith("modepy."):
            del sys.modules[k]


@register
class Imports(Prop):
    id = "C13"
    quick_runs = 4000
    thorough_runs = 80000
    rule = ("a run counts when an import made by the library failed (or a package it "
            "may use was absent) and results were compared; distinct by scenario")
    assumptions = [
        "a package is absent as a whole or per submodule; a package that is present "
        "but broken in other ways is not simulated",
        "required dependencies (numpy, pymbolic, pytools, optype) may fail "
        "transiently but are not permanently absent"]

    def gen_op(self, r, names):
        if r.random() < 0.7:
            return draw_op(r, [n for n in PREFER if n in OPS])
        return draw_op(r, names)

    def gen(self, r, env, i, tier):
        names = [n for n in OPS if "heavy" not in OPS[n].tags]
        steps = []
        blocked = False
        mode = r.random()
        if mode < 0.2:
            # the library itself is imported under fault
            steps.append({"ev": "reimport", "k": int(400**r.random()),
                          "how": r.choice(["import", "line"]),
                          "exc": r.choice(["ImportError", "OSError", "MemoryError",
                                           "KeyboardInterrupt"]),
                          "block": r.sample(OPTIONAL, r.choice([0, 0, 1, 2]))})
            if r.random() < 0.4:
                steps.append(dict(steps[0], k=int(400**r.random())))
        for _ in range(r.choice([2, 3, 4, 6])):
            x = r.random()
            if x < 0.25 and not blocked:
                steps.append({"ev": "block", "names": r.sample(
                    OPTIONAL, r.choice([1, 1, 2])) + (
                        ["modepy.quadrature." + r.choice(TABLES)]
                        if r.random() < 0.4 else [])})
                blocked = True
            elif x < 0.35 and blocked:
                steps.append({"ev": "restore"})
                blocked = False
            elif x < 0.42:
                steps.append({"ev": "drop", "name": "modepy.quadrature."
                              + r.choice(TABLES)})
            past = [s for s in steps if "op" in s]
            if past and r.random() < 0.4:
                q = r.choice(past)
                o = {"op": q["op"], "p": q["p"]}
            else:
                o = self.gen_op(r, names)
            if not blocked and r.random() < 0.5:
                n = len(measure(env, o, "import"))
                if n:
                    o["fault"] = {"kind": "import", "k": r.randint(1, n),
                                  "exc": r.choice(["ImportError", "ModuleNotFoundError",
                                                   "OSError", "MemoryError",
                                                   "KeyboardInterrupt"]),
                                  "all": r.random() < 0.2}
                    if r.random() < 0.25 and tags_of(o) & {"table"}:
                        # cut the execution of a module body short instead
                        o["fault"] = {"kind": "interrupt", "in_import": True,
                                      "k": r.choice([1, 2, 3, 5, 8, 20, 60]),
                                      "exc": r.choice(["KeyboardInterrupt",
                                                       "MemoryError"])}
            steps.append(o)
        if r.random() < 0.8:
            steps.append({"ev": "restore"})
            for s in [s for s in steps if "op" in s]:
                steps.append({"op": s["op"], "p": s["p"]})
        return {"steps": steps, "pool": r.random() < 0.3}

    def prepare(self, sc, env):
        return [env.ref({"op": o["op"], "p": o["p"]}) if "op" in o else None
                for o in sc["steps"]]

    def run(self, sc, refs):
        quiet()
        st = {"absent": 0, "import_faults": 0, "refused": 0, "fallback": 0,
              "calls": 0, "reimports": 0, "reimport_failures": 0, "names": []}
        pool = {} if sc["pool"] else None
        ab = Absent()
        for s, ref in zip(sc["steps"], refs):
            ev = s.get("ev")
            if ev == "block":
                for n in s["names"]:
                    ab.block(n)
                continue
            if ev == "restore":
                ab.restore()
                continue
            if ev == "drop":
                if not ab.active:
                    sys.modules.pop(s["name"], None)
                continue
            if ev == "reimport":
                pool = {} if sc["pool"] else None
                v = self.reimport(s, st, ab)
                if v is not None:
                    return v, st
                continue
            o = s
            f = o.get("fault") if not ab.active else None
            res = perform(o, Ctx(pool=pool), f)
            st["calls"] += 1
            if f and res.fired:
                st["import_faults"] += 1
                st["names"].append(str(res.where))
                if res.exc is None:
                    st["fallback"] += 1
                    if not same(res.outcome, ref):
                        return Violation(
                            "silent", f"{o['op']} survived {f['exc']} while importing "
                            f"{res.where} and returned something else", op=o,
                            got=describe(res.outcome), expected=describe(ref)), st
                else:
                    st["refused"] += 1
                    if not self.reported(res.exc, res.injected):
                        return Violation(
                            "masked", f"{o['op']}: {f['exc']} while importing "
                            f"{res.where} came out as {type(res.exc).__name__}: "
                            f"{str(res.exc)[:150]}", op=o), st
                strip(res)
                continue
            if ab.active:
                st["absent"] += 1
                gone = sorted(ab.saved)[:4]
                table = any(n.startswith("modepy.") for n in ab.saved)
                if same(res.outcome, ref):
                    continue
                if res.exc is None:
                    return Violation("silent", f"without {gone} {o['op']} returns "
                                     "something else", op=o, got=describe(res.outcome),
                                     expected=describe(ref)), st
                st["refused"] += 1
                may = needs_scipy(o) or (table and "table" in tags_of(o))
                if not may:
                    return Violation("lost", f"without {gone} {o['op']} fails: "
                                     f"{type(res.exc).__name__}: {str(res.exc)[:150]}",
                                     op=o), st
                if not self.reported(res.exc, None):
                    return Violation("masked", f"without {gone} {o['op']} fails with "
                                     f"{type(res.exc).__name__}: {str(res.exc)[:150]}",
                                     op=o), st
                strip(res)
                continue
            if not same(res.outcome, ref):
                return Violation("aftermath", f"{o['op']} differs from a fresh process "
                                 "after imports had failed", op=o,
                                 got=describe(res.outcome), expected=describe(ref)), st
            strip(res)
        return None, st

    @staticmethod
    def reported(exc, injected):
        """Is the failed import what the caller is told about?"""
        seen = set()
        e = exc
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            if e is injected or (injected is None and isinstance(e, ImportError)):
                # a wrapped report has to be an ordinary error about the import
                return e is exc or isinstance(exc, (ImportError, RuntimeError))
            if injected is not None and type(e) is type(injected) and str(e).startswith(
                    "injected at import"):
                return True
            e = e.__cause__ or e.__context__
        return False

    def reimport(self, s, st, ab):
        drop_library()
        for n in s["block"]:
            ab.block(n)
        e = EXCS[s["exc"]]("injected")
        fired = []

        def hi(n, name):
            if n == s["k"]:
                fired.append(name)
                raise e

        def ev(t, frame):
            if t.n >= s["k"] and not fired and not cleanup_point(frame):
                fired.append((frame.f_code.co_filename, frame.f_lineno))
                raise e
        m = ImportFault(hi) if s["how"] == "import" else Tracer(ev, in_import=True)
        try:
            with m:
                import modepy  # noqa: F401
        except BaseException as x:      # noqa: BLE001
            if x is not e:
                return Violation("import", f"importing the library without "
                                 f"{s['block']} and with {s['exc']} at {fired} fails "
                                 f"with {type(x).__name__}: {str(x)[:200]}")
            e.__traceback__ = None
            st["reimport_failures"] += 1
        st["reimports"] += 1
        try:
            import modepy  # noqa: F401, F811
        except BaseException as x:      # noqa: BLE001
            return Violation("import", f"after an import of the library was cut short "
                             f"at {fired}, importing it again fails with "
                             f"{type(x).__name__}: {str(x)[:200]}")
        return None

    def shrink(self, sc):
        for xs in shrink_list(sc["steps"], 1):
            yield dict(sc, steps=xs)
        for i, o in enumerate(sc["steps"]):
            if "fault" in o:
                yield dict(sc, steps=sc["steps"][:i] + [
                    {"op": o["op"], "p": o["p"]}] + sc["steps"][i+1:])
            if o.get("ev") == "block" and len(o["names"]) > 1:
                for n in o["names"]:
                    yield dict(sc, steps=sc["steps"][:i] + [dict(o, names=[n])]
                               + sc["steps"][i+1:])
        if sc["pool"]:
            yield dict(sc, pool=False)

    def nontrivial(self, sc, st):
        return (st.get("import_faults", 0) + st.get("absent", 0)
                + st.get("reimport_failures", 0) > 0)
