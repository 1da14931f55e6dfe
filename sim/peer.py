"""A second machine: a zygote of its own, started afresh (so with other addresses) and
with another hash seed, that runs methods of a property in children it forks."""
from __future__ import annotations

import os
import pickle
import struct
import subprocess
import sys
import traceback


def _read(f, n):
    b = b""
    while len(b) < n:
        x = f.read(n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _recv(f):
    return pickle.loads(_read(f, struct.unpack("<q", _read(f, 8))[0]))


def _send(f, x):
    b = pickle.dumps(x, 5)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


_peer = None


def remote(prop, method, *args, timeout=60.0):
    """``getattr(PROPS[prop], method)(*args)`` in a fresh process over there."""
    global _peer
    from . import core
    if _peer is None or _peer.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="4099")
        _peer = subprocess.Popen([sys.executable, "-m", "sim.peer"], env=env,
                                 cwd=os.environ["DST_VERIF"], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE)
    try:
        _send(_peer.stdin, (prop, method, args, timeout))
        kind, v = _recv(_peer.stdout)
    except (OSError, EOFError) as e:
        _peer = None
        raise core.HarnessError(f"peer lost: {e!r}") from None
    if kind == "ok":
        return v
    if kind in ("ChildHang", "ChildTimeout", "ChildDied"):
        raise getattr(core, kind)(v)
    raise core.HarnessError(v)


def main():
    from . import worker
    inp, out = worker.setup()
    inp, out = os.fdopen(inp, "rb"), os.fdopen(out, "wb")
    from . import core
    while True:
        try:
            prop, method, args, timeout = _recv(inp)
        except EOFError:
            return
        try:
            f = getattr(core.PROPS[prop], method)
            r = ("ok", core.fork_call(lambda: f(*args), timeout))
        except (core.ChildHang, core.ChildTimeout, core.ChildDied) as e:
            r = (type(e).__name__, str(e))
        except BaseException as e:      # noqa: BLE001
            r = ("err", "".join(traceback.format_exception(e))[-4000:])
        _send(out, r)


if __name__ == "__main__":
    main()
