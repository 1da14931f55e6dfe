"""Seams that must be in place before modepy is imported, and the cooperative
thread scheduler."""
from __future__ import annotations

import _thread
import sys
import threading

from .tracer import StepBudget, hot_lines, location, traced


_real_Lock = threading.Lock
_real_RLock = threading.RLock
_current = None         # active Scheduler
_solo = False           # this process has one thread, whatever it had before


def forked():
    """Called in a process just forked off a simulated one: no other thread lives."""
    global _current, _solo
    sys.settrace(None)
    _current = None
    _solo = True


class Deadlock(BaseException):
    pass


def _sched():
    s = _current
    if s is not None and s.is_sim_thread():
        return s
    return None


class SimLock:
    """threading.Lock under the simulator's control."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _sched()
        if s is None:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            if _solo or not _thread._count():
                # nobody else is there to release it
                if timeout is not None and timeout >= 0:
                    return False
                from . import core
                core.panic("waits for a lock that nobody is left to release")
            return self._l.acquire(True, -1 if timeout is None else timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # simulated time out: only after everybody else had a turn
                if not s.block(self, may_fail=True):
                    return False
            else:
                s.block(self)
        return True

    def release(self):
        self._l.release()
        s = _current
        if s is not None:
            s.unblock(self)

    def locked(self):
        return self._l.locked()

    def free_within(self, seconds):
        """Was it released by a thread the simulator does not know?"""
        if self._l.acquire(True, seconds):
            self._l.release()
            return True
        return False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count, self._owner = 0, None
        self._lock.release()
        return c

    def _acquire_restore(self, c):
        self._lock.acquire()
        self._owner, self._count = _thread.get_ident(), c

    def _at_fork_reinit(self):
        self._lock = SimLock()
        self._owner, self._count = None, 0


def _caller_is_target(depth=2):
    f = sys._getframe(depth)
    fn = f.f_code.co_filename
    # functools.cached_property/threading.Condition etc. called from the library
    for _ in range(6):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if "/modepy/" in fn:
            return True
        f = f.f_back
    return False


def _Lock():
    return SimLock() if _caller_is_target() else _real_Lock()


def _RLock(*a, **kw):
    return SimRLock() if _caller_is_target() else _real_RLock()


def install_lock_seam():
    import functools
    threading.Lock = _Lock
    threading.RLock = _RLock
    threading._allocate_lock = _Lock        # (conditions, events, semaphores)
    if hasattr(functools, "RLock"):
        functools.RLock = _RLock


class IdSeam:
    """``id()`` as the library sees it.  CPython may give the address of a dead
    object to the next one; here it always does, most recently freed first, so that
    anything keyed on the address of an object it does not keep alive meets its
    worst case, in every run alike.  Ids of live objects are distinct, as promised."""

    def __init__(self):
        import weakref
        self.weakref = weakref
        self.real = id
        self.live = {}          # real id -> (sim id, weakref)
        self.free = []
        self.next = (1 << 60) + 16

    def __call__(self, obj, /):
        real = self.real
        if not traced_file(sys._getframe(1).f_code.co_filename):
            return real(obj)
        k = real(obj)
        e = self.live.get(k)
        if e is not None and e[1]() is obj:
            return e[0]

        def dead(w, k=k):
            e = self.live.get(k)
            if e is not None and e[1] is w:
                del self.live[k]
                self.free.append(e[0])
        try:
            w = self.weakref.ref(obj, dead)
        except TypeError:
            return k
        if self.free:
            a = self.free.pop()
        else:
            a = self.next
            self.next += 32
        self.live[k] = (a, w)
        return a


def traced_file(fn):
    from .tracer import _PREFIX
    return fn.startswith(_PREFIX)


def install_id_seam():
    import builtins
    if not isinstance(builtins.id, IdSeam):
        builtins.id = IdSeam()


class Scheduler:
    """Runs N real threads one at a time; every switch is its own decision."""

    def __init__(self, fns, strategy, max_events=8_000_000, opcodes=False,
                 max_switches=200_000):
        self.fns = fns
        self.strategy = strategy
        self.n = 0
        self.max_events = max_events
        self.max_switches = max_switches
        self.opcodes = opcodes
        k = len(fns)
        self.gates = [_thread.allocate_lock() for _ in range(k)]
        for g in self.gates:
            g.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.done = [False]*k
        self.blocked = [None]*k
        self.parked = [False]*k
        self.cur = 0
        self.local_n = [0]*k
        self.results = [None]*k
        self.idents = {}
        self.switches = []          # [event number, target]
        self.finish_picks = []      # targets chosen when a thread ends or blocks
        self.preempted_at = {}
        self.failure = None
        self.inside = set()         # locations where >= 1 thread was suspended

    def is_sim_thread(self):
        return _thread.get_ident() in self.idents

    # -- decisions
    def runnable(self, exclude=None):
        return [i for i in range(len(self.fns))
                if not self.done[i] and self.blocked[i] is None and i != exclude]

    def _pick_next(self, me):
        c = self.runnable()
        if not c:
            return None
        t = self.strategy.on_yield(self, me, c)
        if t is None or t not in c:
            u = [i for i in c if not self.parked[i]] or c
            k = len(self.fns)
            t = min(u, key=lambda i: (i - me - 1) % k)
        self.finish_picks.append(t)
        return t

    # -- token passing
    def _handoff(self, me, tgt):
        self.cur = tgt
        self.gates[tgt].release()
        self.gates[me].acquire()
        if self.failure is not None:
            raise self.failure

    def _event(self, frame, me):
        self.n += 1
        self.local_n[me] += 1
        if self.n > self.max_events:
            self.failure = StepBudget(f"{self.n} events")
            raise self.failure
        tgt = self.strategy.on_event(self, me, frame)
        if tgt is None or tgt == me or self.done[tgt] or self.blocked[tgt] is not None \
                or len(self.switches) >= self.max_switches:
            return
        f = frame.f_back
        while f is not None:
            if "importlib" in f.f_code.co_filename or f.f_code.co_name == "<module>":
                return
            f = f.f_back
        self.switches.append([self.n, tgt])
        self.preempted_at[location(frame)[1:]] = \
            self.preempted_at.get(location(frame)[1:], 0) + 1
        self._handoff(me, tgt)

    def block(self, lock, may_fail=False):
        me = self.idents[_thread.get_ident()]
        self.blocked[me] = lock
        t = self._pick_next(me)
        if t is None:
            if may_fail:
                self.blocked[me] = None
                return False
            # a helper thread of the library's own may come to the rescue
            for _ in range(400):
                if not self.foreign() or lock.free_within(0.05):
                    break
                t = self._pick_next(me)
                if t is not None:
                    break
        if t is None and lock.free_within(0):
            self.blocked[me] = None
            return True
        if t is None:
            self.failure = Deadlock(f"all threads blocked; thread {me} on a lock")
            # wake everybody with the failure
            self.blocked = [None]*len(self.fns)
            raise self.failure
        self._handoff(me, t)
        self.blocked[me] = None
        return True

    def foreign(self):
        """Are there threads that the simulator does not schedule?"""
        return _thread._count() > self.base + self.done.count(False)

    def unblock(self, lock):
        for i, b in enumerate(self.blocked):
            if b is lock:
                self.blocked[i] = None

    def _thread(self, me):
        self.gates[me].acquire()
        self.idents[_thread.get_ident()] = me

        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self._event(frame, me)
            return local

        def glob(frame, event, arg):
            if traced(frame.f_code) == 1:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        try:
            if self.failure is not None:
                raise self.failure
            sys.settrace(glob)
            try:
                self.results[me] = ("ok", self.fns[me]())
            finally:
                sys.settrace(None)
        except BaseException as e:      # noqa: BLE001
            self.results[me] = ("raise", e)
        finally:
            self.done[me] = True
            self.idents.pop(_thread.get_ident(), None)
            t = self._pick_next(me)
            if t is None:
                rest = [i for i in range(len(self.fns)) if not self.done[i]]
                if rest:
                    # everybody left is blocked
                    self.failure = Deadlock("remaining threads blocked for ever")
                    self.blocked = [None]*len(self.fns)
                    t = rest[0]
            if t is None:
                self.main.release()
            else:
                self.cur = t
                self.gates[t].release()

    def run(self):
        global _current
        _current = self
        self.base = _thread._count()
        try:
            for i in range(len(self.fns)):
                _thread.start_new_thread(self._thread, (i,))
            first = self.first_run = self.strategy.first(self)
            self.cur = first
            self.gates[first].release()
            self.main.acquire()
        finally:
            _current = None
        return self.results


# {{{ strategies

class Strategy:
    def first(self, s):
        return 0

    def on_yield(self, s, me, cand):
        return None

    def on_event(self, s, me, frame):
        return None


class Explicit(Strategy):
    def __init__(self, spec):
        self.sw = {int(n): t for n, t in spec["switches"]}
        self.fin = list(spec.get("finish", []))
        self.f = spec.get("first", 0)

    def first(self, s):
        return self.f if self.f < len(s.fns) else 0

    def on_event(self, s, me, frame):
        t = self.sw.get(s.n)
        return t if t is not None and t < len(s.fns) else None

    def on_yield(self, s, me, cand):
        if self.fin:
            return self.fin.pop(0)
        return None


class Gaps(Strategy):
    """Run bursts of log-uniform length, random successor."""

    def __init__(self, r, hi=3000):
        self.r, self.hi = r, hi
        self._draw()

    def _draw(self):
        self.left = int(self.hi**self.r.random())

    def first(self, s):
        return self.r.randrange(len(s.fns))

    def on_event(self, s, me, frame):
        self.left -= 1
        if self.left > 0:
            return None
        self._draw()
        c = s.runnable(me)
        return self.r.choice(c) if c else None

    def on_yield(self, s, me, cand):
        return self.r.choice(cand)


class Lockstep(Strategy):
    def __init__(self, r):
        self.r = r
        self.g = r.choice([1, 1, 1, 2, 3, 5])

    def on_event(self, s, me, frame):
        if s.n % self.g:
            return None
        k = len(s.fns)
        for d in range(1, k):
            t = (me + d) % k
            if not s.done[t] and s.blocked[t] is None:
                return t
        return None


class Hot(Strategy):
    """Switch with high probability where shared state is touched."""

    def __init__(self, r):
        self.r = r
        self.ps = r.choice([0.3, 0.6, 1.0])
        self.pa = r.choice([0.0, 0.05, 0.3])
        self.pr = r.choice([0.0, 0.0, 0.01])

    def first(self, s):
        return self.r.randrange(len(s.fns))

    def on_event(self, s, me, frame):
        h, sh, _w = hot_lines(frame)
        p = self.ps if frame.f_lineno in sh else (
            self.pa if frame.f_lineno in h else self.pr)
        if p and self.r.random() < p:
            c = s.runnable(me)
            return self.r.choice(c) if c else None
        return None


class Stall(Strategy):
    """Park one thread at its k-th event (or k-th hot event); let all others
    finish first."""

    def __init__(self, r, k, victim, hot=False):
        self.k, self.victim, self.hot = k, victim, hot
        self.seen = 0
        self.armed = True

    def first(self, s):
        return self.victim

    def on_event(self, s, me, frame):
        if me != self.victim or not self.armed:
            return None
        if self.hot:
            h, sh, _w = hot_lines(frame)
            if frame.f_lineno not in (sh if self.hot == "shared" else h):
                return None
        self.seen += 1
        if self.seen < self.k:
            return None
        self.armed = False
        s.parked[me] = True
        c = s.runnable(me)
        return c[0] if c else None


def make_strategy(spec, r):
    k = spec["kind"]
    if k == "explicit":
        return Explicit(spec)
    if k == "gaps":
        return Gaps(r, spec.get("hi", 3000))
    if k == "lockstep":
        return Lockstep(r)
    if k == "hot":
        return Hot(r)
    if k == "stall":
        return Stall(r, spec["k"], spec["victim"], spec.get("hot", False))
    raise ValueError(k)

# }}}
