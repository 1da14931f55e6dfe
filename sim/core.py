"""Pristine zygote workers, fresh-process references, scenario execution."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback


REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


def derive(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


_HEX = re.compile(r"0x[0-9a-f]{6,}")


def norm_msg(s):
    return _HEX.sub("0x..", s)


def exc_canon(e):
    return ("exc", type(e).__name__, norm_msg(str(e))[:300])


def outcome(fn):
    """Run *fn*; canonical outcome (value or exception)."""
    from . import catalog
    try:
        return ("ok", catalog.canon(fn()))
    except Exception as e:
        return ("raise", exc_canon(e))


def import_target():
    """Import modepy from the repository under test (only)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import modepy
    p = os.path.abspath(modepy.__file__)
    if not p.startswith(os.path.join(REPO, "modepy") + os.sep):
        raise HarnessError(f"modepy imported from {p}, not {REPO}")
    return modepy


# {{{ fork-run

class ChildDied(HarnessError):
    pass


class ChildTimeout(HarnessError):
    pass


class ChildHang(Exception):
    """The child found out that it will never finish (lock that nobody can release,
    step budget exceeded)."""


BUDGET = None           # line-event budget of the current task, or None
_panic_fd = None


def panic(msg):
    """End this (forked) run: the code under test can make no further progress."""
    if _panic_fd is None:
        raise RuntimeError(msg)
    data = pickle.dumps(("hang", msg), protocol=5)
    while data:
        data = data[os.write(_panic_fd, data):]
    os._exit(0)


def install_budget(limit):
    """Count the source lines the library executes; past *limit* it hangs."""
    from .tracer import _PREFIX
    mon = sys.monitoring
    n = [0]

    def line(code, lineno):
        if not code.co_filename.startswith(_PREFIX):
            return mon.DISABLE
        n[0] += 1
        if n[0] > limit:
            panic(f"no end after {limit} executed source lines "
                  f"(at {os.path.relpath(code.co_filename, REPO)}:{code.co_name})")
        return None
    try:
        mon.use_tool_id(4, "dst")
    except ValueError:
        return
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)


def cpu_time(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12]))/os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return float("inf")


def fork_call(fn, timeout=60.0, group=True):
    """Run *fn()* in a forked child; return its (pickled) value."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            if group:
                os.setpgid(0, 0)
            global _panic_fd
            _panic_fd = wr
            if BUDGET:
                install_budget(BUDGET)
            try:
                v = ("ok", fn())
            except BaseException as e:      # noqa: BLE001
                v = ("err", "".join(traceback.format_exception(e))[-6000:])
            try:
                data = pickle.dumps(v, protocol=5)
            except BaseException as e:      # noqa: BLE001
                data = pickle.dumps(("err", "unpicklable run result: " + repr(e)))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        except BaseException:               # noqa: BLE001
            code = 70
        finally:
            os._exit(code)
    return _collect(pid, rd, wr, timeout, group)


def _collect(pid, rd, wr, timeout, group):
    os.close(wr)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            r, _, _ = select.select([rd], [], [], left)
            if not r:
                timed_out = True
                break
            b = os.read(rd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(rd)
        if timed_out:
            cpu = cpu_time(pid)
            try:
                if not group:
                    raise OSError
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        _, st = os.waitpid(pid, 0)
    if timed_out:
        raise ChildTimeout(f"child exceeded {timeout}s, used {cpu:.1f}s of CPU")
    data = b"".join(chunks)
    if not data:
        raise ChildDied(f"child ended with status {st} and no result")
    kind, v = pickle.loads(data)
    if kind == "hang":
        raise ChildHang(v)
    if kind == "err":
        raise HarnessError(v)
    return v


def fork_here(timeout=60.0):
    """Fork; ``(True, finish)`` in the child, where ``finish(value)`` ends it;
    ``(False, value)`` in the parent, once the child has ended."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid:
        return False, _collect(pid, rd, wr, timeout, False)
    global _panic_fd
    os.close(rd)
    _panic_fd = wr

    def finish(v, kind="ok"):
        try:
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps((kind, v), protocol=5))
        finally:
            os._exit(0)
    return True, finish

# }}}


# {{{ references

class Env:
    """Lives in a zygote: reference cache and fork-run."""

    def __init__(self):
        self.refs = {}
        self.lines = {}
        self.locs = {}
        self._census = None
        self.stats_ref = 0

    def _trim(self, d):
        if len(d) > 20000:
            d.clear()

    def ref(self, o, variant=None):
        """Outcome of a single operation executed alone in a pristine process."""
        from . import catalog
        key = (catalog.opkey(o), json.dumps(variant, sort_keys=True))
        try:
            return self.refs[key]
        except KeyError:
            pass
        self._trim(self.refs)

        def go():
            quiet()
            c = catalog.Ctx()
            return outcome(lambda: catalog.OPS[o["op"]].run(c, o["p"]))
        self.stats_ref += 1
        try:
            r = fork_call(go)
        except ChildHang as e:
            r = ("hang", str(e))
        self.refs[key] = r
        return r

    def census(self):
        """Where operations touch state that outlives a call: ``[(code location,
        [operation, ...], weight), ...]``."""
        if self._census is None:
            try:
                c = fork_call(self._census_child, 120)
            except (ChildHang, HarnessError):
                c = {}
            self._census = [(k, *c[k]) for k in sorted(c)]
        return self._census

    def _census_child(self):
        import random

        from . import catalog
        from .tracer import Tracer, hot_lines
        quiet()
        c, weight = {}, {}
        cur = [None]

        def ev(t, frame):
            h = hot_lines(frame)
            if frame.f_lineno in h[1]:
                key = frame.f_code.co_filename, frame.f_lineno
                weight[key] = 6 if h[2] else 1
                at = c.setdefault(key, [])
                if len(at) < 12 and cur[0] not in at[-3:]:
                    at.append(cur[0])
        for name in sorted(catalog.OPS):
            op = catalog.OPS[name]
            if "heavy" in op.tags:
                continue
            r = random.Random("census" + name)
            for _ in range(6):
                cur[0] = o = {"op": name, "p": op.gen(r)}
                t = Tracer(ev)

                def run(o=o, t=t):
                    with t:
                        return catalog.OPS[o["op"]].run(catalog.Ctx(), o["p"])
                outcome(run)
        return {k: (c[k], weight[k]) for k in c}

    def hunt(self, r):
        """(operation, ordinal of the event, others touching the same place), places
        that change the state more likely; None if there are none."""
        c = self.census()
        if not c:
            return None
        loc, at, _w = r.choices(c, [x[2] for x in c])[0]
        o = r.choice(at)
        self.nlines(o)
        from . import catalog
        ks = [i+1 for i, x in enumerate(self.locs.get(catalog.opkey(o), ())) if x == loc]
        k = r.choice([ks[0], ks[-1], r.choice(ks)]) if ks else 1
        return {"op": o["op"], "p": o["p"]}, k, at

    def mate(self, r, o, others):
        """A call that may collide with *o*."""
        x = r.random()
        m = neighbour(r, o if x < 0.6 else r.choice(others)) if x < 0.85 \
            else r.choice(others)
        return {"op": m["op"], "p": m["p"]}

    def mates(self, r, o, others, n):
        """*n* calls that may collide with *o*."""
        if r.random() < 0.5:
            # all the same but for one parameter
            from .catalog import OPS
            news = [OPS[o["op"]].gen(r) for _ in range(n)]
            keys = sorted(k for k in o["p"]
                          if any(q.get(k, o["p"][k]) != o["p"][k] for q in news))
            if keys:
                k = r.choice(keys)
                return [{"op": o["op"], "p": dict(o["p"], **{k: q.get(k, o["p"][k])})}
                        for q in news]
        return [self.mate(r, o, others) for _ in range(n)]

    def nlines(self, o, in_import=False):
        """(outcome, number of line events, hot event indices)."""
        from . import catalog
        from .tracer import Tracer, hot_lines
        key = (catalog.opkey(o), in_import)
        try:
            return self.lines[key]
        except KeyError:
            pass
        self._trim(self.lines)

        def go():
            quiet()
            c = catalog.Ctx()
            hot, shared, locs = [], [], []

            def ev(t, frame):
                h, s, _w = hot_lines(frame)
                if frame.f_lineno in s:
                    shared.append(t.n)
                    locs.append((frame.f_code.co_filename, frame.f_lineno))
                elif frame.f_lineno in h:
                    hot.append(t.n)
            t = Tracer(ev, in_import=in_import)

            def run():
                with t:
                    return catalog.OPS[o["op"]].run(c, o["p"])
            out = outcome(run)
            return (out, t.n, hot[:2000], shared[:2000]), locs[:2000]
        self.stats_ref += 1
        r, locs = fork_call(go)
        self.lines[key] = r
        if not in_import:
            self.locs[key[0]] = locs
        return r


def quiet():
    import warnings

    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

# }}}


# {{{ workload helpers

def draw_op(r, names=None, pred=None):
    from .catalog import OPS
    if names is None:
        names = [n for n in OPS if pred is None or pred(OPS[n])]
    n = r.choices(names, [OPS[n].weight for n in names])[0]
    return {"op": n, "p": OPS[n].gen(r)}


_KEEP = {"iv", "l", "r"}


def near(r, p):
    """Same parameters, one of them changed by so little that a sloppy key might
    not tell the difference."""
    from .catalog import NVARIANTS, VBASE
    c = []
    for k, v in p.items():
        if k in _KEEP or isinstance(v, bool):
            continue
        if k == "s" and isinstance(v, int):
            c.append((k, None))
        elif isinstance(v, float):
            c.append((k, None))
        elif k == "ab" and isinstance(v, list):
            c.extend((k, i) for i in range(len(v)))
    if not c:
        return None
    p = dict(p)
    k, i = r.choice(c)
    if k == "s":
        v = r.randrange(NVARIANTS)
        p[k] = p[k] % VBASE + VBASE*v
        return p
    eps = 10.0**-r.randint(1, 7)
    if i is None:
        p[k] = p[k]*(1 + eps)
    else:
        p[k] = list(p[k])
        p[k][i] = p[k][i] + eps if r.random() < 0.8 else float(p[k][i])
    return p


def neighbour(r, o):
    """Same operation, some parameters re-drawn."""
    from .catalog import OPS
    new = OPS[o["op"]].gen(r)
    p = dict(o["p"])
    keys = sorted(new)
    if not keys:
        return {"op": o["op"], "p": new}
    k = r.randint(1, max(1, len(keys)//2))
    if r.random() < 0.3:
        q = near(r, p)
        if q is not None:
            return {"op": o["op"], "p": q}
    for key in r.sample(keys, k):
        if key == "sp" and r.random() < 0.6:
            sh, od = p["sp"]
            sh2, od2 = new["sp"]
            if not isinstance(od, list) and not isinstance(od2, list):
                from .catalog import MAXORD, shape_dim
                if r.random() < 0.5:
                    p["sp"] = [sh, min(od2, max(1, MAXORD.get(shape_dim(sh), 1)-1))]
                elif shape_dim(sh2) <= shape_dim(sh) or od <= 2:
                    p["sp"] = [sh2, od]
                continue
        p[key] = new[key]
    return {"op": o["op"], "p": p}


def draw_ops(r, n, names=None, pred=None, p_nb=0.5):
    ops = []
    for _ in range(n):
        if ops and r.random() < p_nb:
            ops.append(neighbour(r, r.choice(ops)))
        else:
            ops.append(draw_op(r, names, pred))
    return ops


def swarm_names(r, k=None, pred=None):
    from .catalog import OPS
    names = [n for n in OPS if pred is None or pred(OPS[n])]
    k = k or r.randint(1, 8)
    return r.sample(names, min(k, len(names)))


def clear_caches():
    """Evict every cache the library exposes through the standard
    ``cache_clear`` protocol (memory pressure)."""
    n = 0
    for name, m in list(sys.modules.items()):
        if name == "modepy" or name.startswith("modepy."):
            for v in list(vars(m).values()):
                cc = getattr(v, "cache_clear", None)
                if cc is not None and callable(cc):
                    try:
                        cc()
                        n += 1
                    except Exception:
                        pass
    return n


class Violation(dict):
    """kind, msg, detail."""

    def __init__(self, kind, msg, **kw):
        super().__init__(kind=kind, msg=msg, **kw)

# }}}


# {{{ property registry

PROPS = {}


class Prop:
    id = None
    timeout = 60.0
    quick_runs = 1000
    thorough_runs = 20000
    hang_budget = 20_000_000
    level = "exploration"
    rule = ""
    real = ["modepy", "numpy", "scipy", "pytools", "pymbolic"]
    stubs = []
    assumptions = []

    def gen(self, r, env, i, tier):
        """scenario dict (JSON-able)"""
        raise NotImplementedError

    def prepare(self, sc, env):
        """references etc., computed in the zygote (through pristine children)"""
        return None

    def run(self, sc, prep):
        """executed in a forked child: (violation | None, stats)"""
        raise NotImplementedError

    def shrink(self, sc):
        """yield smaller scenarios"""
        return iter(())

    def nontrivial(self, sc, st):
        return True

    def execute(self, sc, env):
        prep = self.prepare(sc, env)
        return fork_call(lambda: self.run(sc, prep), self.timeout)


def register(cls):
    PROPS[cls.id] = cls()
    return cls


def load_props():
    import importlib
    import pkgutil

    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module(f"sim.props.{m.name}")

# }}}


def shrink_list(xs, minimum=0):
    """Yield copies of xs with chunks removed."""
    n = len(xs)
    size = n//2
    while size >= 1:
        for s in range(0, n, size):
            ys = xs[:s] + xs[s+size:]
            if len(ys) >= minimum and len(ys) < n:
                yield ys
        size //= 2
