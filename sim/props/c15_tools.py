"""C15: the rule-table tools under a faulty disk, a faulty network and crashes."""
from __future__ import annotations

import ctypes
import io
import os
import pickle
import shutil
import signal
import sys
import tarfile
import tempfile
import time
import zipfile

from ..core import (
    REPO, VERIF, ChildTimeout, HarnessError, Prop, Violation, fork_call, register)


NF = 8
KINDS = {"eio": 1, "enospc": 2, "short": 3, "eintr": 4, "crash": 5, "torn": 6,
         "sigint": 7, "full": 8, "eacces": 9, "tornerr": 10}
NETKINDS = ["refused", "dns", "timeout", "reset", "short", "http503", "http404",
            "sigint", "crash", "stall", "sslerror", "garbage"]


class _IoState(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in (
        "armed", "count", "nfault", "shortmax", "full", "fired")] + [
        (n, ctypes.c_uint64*NF) for n in ("at", "kind", "arg", "hit")] + [
        (n, ctypes.c_uint64) for n in ("reads", "writes", "opens", "renames",
                                       "others")] + [
        ("lastop", ctypes.c_uint64*NF), ("root", ctypes.c_char*512)]


_lib = None


def iolib():
    global _lib
    if _lib is None:
        so = os.path.join(VERIF, "build", "iofault.so")
        if so not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("worker started without the disk seam")
        _lib = ctypes.CDLL(so)
        _lib.iof_state.restype = ctypes.POINTER(_IoState)
    return _lib


# {{{ synthetic sources

def fmt(r, x, style):
    if style == 0:
        return repr(x)
    if style == 1:
        return f"{x:.16e}"
    if style == 2:
        return f"{x:25.17f}" if abs(x) > 1e-2 else f"{x:.16e}"
    return f"{x:+.17g}"


def num(r):
    k = r.random()
    if k < 0.05:
        return 0.0
    if k < 0.1:
        return r.choice([1.0, -1.0, 0.5, 1/3, 2.0])
    if k < 0.15:
        return r.uniform(-1, 1)*10.0**-r.randint(3, 16)
    return r.uniform(-1, 1)


def normed(r, n, total):
    w = [r.uniform(0.1, 1) for _ in range(n)]
    s = sum(w)
    return [x*total/s for x in w]


def src_txt(r):
    d = r.choice([2, 3])
    orders = sorted(r.sample(range(1, 51), r.randint(1, 7)))
    if r.random() < 0.2:
        r.shuffle(orders)
    table, text = {}, []
    style = r.randrange(4)
    for o in orders:
        n = r.randint(1, 12)
        pts_ = [[num(r) for _ in range(d)] for _ in range(n)]
        w = [num(r) for _ in range(n)]
        text.append(f"{o:5d} {n:6d}")
        for p, q in zip(pts_, w):
            text.append("  ".join(fmt(r, x, style) for x in [*p, q]))
            if r.random() < 0.05:
                text.append("")
        table[o] = {"points": pts_, "weights": w}
    return {"in": {"table.txt": ("\n".join(text) + r.choice(["\n", ""])).encode()},
            "args": ["table.txt", "the_table"], "stdout": "out.py",
            "tables": {"the_table": table}}


def src_fortran(r):
    d = r.choice([2, 3])
    orders = sorted(r.sample(range(1, 21), r.randint(1, 6)))
    lines, table = ["c", "c     a file of rules", "C", ""], {}

    def data(v, name, o):
        out = [f"      data {name}s{o}/"]
        for i, x in enumerate(v):
            end = "/" if i == len(v)-1 else ","
            s = f"{x:.16e}"
            s = s.replace("e", r.choice(["D", "D", "e", "E"]))
            out.append(f"     {'*' if i % 10 == 0 else (i % 10)}  {s}{end}")
        return out
    for o in orders:
        n = r.randint(1, 8)
        qd = 2*o + r.randint(-1, 1)
        p = [[num(r) for _ in range(n)] for _ in range(d)]
        w = [num(r) for _ in range(n)]
        lines.append(f"c   nodes for interpolation of order {o:3d} and quadratures of "
                     f"order {qd:4d}")
        lines.append("c")
        for ax in range(d):
            lines += data(p[ax], "xyz"[ax], o)
        lines += data(w, "w", o)
        lines.append("")
        table[o] = {"points": p, "weights": w, "quad_degree": qd}
    return {"in": {"rules.f": ("\n".join(lines) + "\n").encode()},
            "args": ["rules.f", "the_table"], "stdout": "out.py",
            "tables": {"the_table": table}}


def src_festa(r):
    nd = r.randint(1, 6)
    text, table = ["function xw = set_amr_square(deg)", "switch deg"], {}
    for d in range(1, nd+1):
        n = r.randint(1, 7)
        p = [[num(r) for _ in range(n)] for _ in range(2)]
        w = normed(r, n, 4.0)
        for _ in range(r.choice([1, 1, 2])):
            text.append(f"%% DEGREE:  {d}")
        text += [f"case {d}", "xw=["]
        text += [f"{a:.16e} {b:.16e} {c:.16e}" for a, b, c in zip(*p, w)]
        text += ["];", ""]
        table[d] = {"points": p, "weights": w, "quad_degree": d}
    out = r.random() < 0.7
    return {"in": {}, "net": {"set_amr_square.m": ("\n".join(text)).encode()},
            "args": ["out.py"] if out else [],
            "stdout": None if out else "log.txt", "tail": not out,
            "tables": {"square_data": table}}


def zipped(files, r):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
                         ) as z:
        for n, d in files.items():
            z.writestr(zipfile.ZipInfo(n, (2012, 11, 29, 1, 2, 4)), d)
    return b.getvalue()


def rows(cols):
    return ("\n".join("  ".join(f"{x:.16e}" for x in row) for row in zip(*cols))
            + "\n").encode()


def src_wv(r):
    files, tabs = {}, {"quad_data": {}, "hex_data": {}}
    for sh, d, vol in (("quad", 2, 4.0), ("hex", 3, 8.0)):
        for deg in sorted(r.sample(range(1, 22), r.randint(1, 4))):
            n = r.randint(1, 9)
            p = [[num(r) for _ in range(n)] for _ in range(d)]
            w = normed(r, n, vol)
            files[f"expanded/{sh}/{deg}-{n}.txt"] = rows([*p, w])
            tabs[f"{sh}_data"][deg] = {"points": p, "weights": w, "quad_degree": deg}
    if r.random() < 0.5:
        files["expanded/tri/1-1.txt"] = b"0 0 2\n"
    out = r.random() < 0.7
    return {"in": {}, "net": {"1-s2.0-S0898122115001224-mmc1.zip": zipped(files, r)},
            "args": ["out.py"] if out else [],
            "stdout": None if out else "out.py", "tables": tabs}


def src_js(r):
    files, table = {}, {}
    for deg in sorted(r.sample(range(2, 21), r.randint(1, 5))):
        n = r.choice([1, r.randint(2, 9), r.randint(2, 60)])
        p = [[num(r) for _ in range(n)] for _ in range(3)]
        w = normed(r, n, 1.0)
        files[f"cubatures_tet_sym_repository/cubature_tet_sym_p{deg}_n{n}_expand.txt"] \
            = rows([*p, w])
        table[deg-1] = {"points": p, "weights": w, "quad_degree": deg}
    files["cubatures_tet_sym_repository/README"] = b"hello\n"
    res = {"tables": {"tet_data": table}}
    if r.random() < 0.5:
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w") as t:
            for n, d in files.items():
                ti = tarfile.TarInfo(n)
                ti.size = len(d)
                t.addfile(ti, io.BytesIO(d))
        res["in"] = {"sup.tar": b.getvalue()}
        args = ["sup.tar"]
    else:
        res["in"] = {"sup/" + n: d for n, d in files.items()}
        args = ["sup"]
    out = r.random() < 0.7
    res["args"] = [*args, "--outfile", "out.py"] if out else args
    # the progress lines share standard output with the table
    res["stdout"] = None
    if not out:
        res["stdout"] = "log.txt"
        res["tail"] = True
    return res


def src_womersley(r):
    net, tabs = {}, {}
    for key, arc, pre in (("sf_rules", "SF29-Nov-2012", "sf"),
                          ("ss_rules", "SS31-Mar-2016", "ss")):
        files, table = {}, {}
        for deg in sorted(r.sample(range(1, 40), r.randint(1, 4))):
            n = r.randint(2, 12)
            p = [[num(r) for _ in range(n)] for _ in range(3)]
            files[f"{arc}/{pre}{deg:03d}.{n:05d}"] = rows(p)
            table[deg] = {"quad_degree": deg, "points": p}
        if r.random() < 0.5:
            files[f"{arc}/readme"] = b"text\n"
        net[arc + ".zip"] = zipped(files, r)
        tabs[key] = table
    name = r.choice(["out.npz", "out", "o.ut"])
    return {"in": {}, "net": net, "tables": tabs, "stdout": None,
            "args": [name, *(["-f"] if r.random() < 0.5 else [])],
            "npz": name if name.endswith(".npz") else name + ".npz"}


SRC = {"weights-from-txt.py": src_txt, "weights-from-fortran.py": src_fortran,
       "weights-from-festa-sommariva.py": src_festa,
       "weights-from-witherden-vincent.py": src_wv,
       "weights-from-jaskowiec-sukumar.py": src_js,
       "weights-from-womersley.py": src_womersley}

# }}}


# {{{ simulated network (below http.client, at the socket)

class FakeSocket:
    def __init__(self, net):
        self.net = net
        self.sent = b""
        self.data = None

    def setsockopt(self, *a):
        pass

    settimeout = setsockopt

    def gettimeout(self):
        return 120

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def sendall(self, b):
        self.sent += bytes(b)

    def makefile(self, mode="rb", *a, **k):
        return io.BufferedReader(Raw(self), 8192)


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        s = self.s
        if s.data is None:
            s.net.answer(s)
        f, at = s.fault, s.fault_at
        left = len(s.data) - self.pos
        if f and self.pos >= at:
            if f == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if f in ("timeout", "stall"):
                raise TimeoutError("The read operation timed out")
            if f == "sigint":
                raise KeyboardInterrupt
            if f == "crash":
                os._exit(137)
            if f == "short":
                return 0
        n = min(len(b), left, s.net.r.choice([1, 100, 1500, 8192]))
        if f:
            n = min(n, max(0, at - self.pos) or n)
        b[:n] = s.data[self.pos:self.pos+n]
        self.pos += n
        return n


class Net:
    def __init__(self, files, faults, r):
        self.files, self.faults, self.r = files, list(faults), r
        self.nreq = 0
        self.fired = []

    def connect(self, addr, *a, **k):
        i = self.nreq
        self.nreq += 1
        s = FakeSocket(self)
        s.f = next((f for f in self.faults if f["req"] == i), None)
        k = s.f and s.f["kind"]
        if k:
            self.fired.append(k)
        if k == "refused":
            raise ConnectionRefusedError(111, "Connection refused")
        if k == "dns":
            import socket
            raise socket.gaierror(-3, "Temporary failure in name resolution")
        if k == "sslerror":
            import ssl
            raise ssl.SSLError(1, "handshake failure")
        return s

    def answer(self, s):
        line = s.sent.split(b"\r\n")[0].split()
        name = line[1].decode().split("?")[0].rsplit("/", 1)[-1]
        body = self.files.get(name)
        k = s.f["kind"] if s.f else None
        status = b"200 OK"
        if body is None or k == "http404":
            status, body = b"404 Not Found", b"<html>no</html>"
        elif k == "http503":
            status, body = b"503 Service Unavailable", b"<html>later</html>"
        elif k == "garbage":
            s.fault, s.data = None, b"\x16\x03\x01 not http at all\r\n\r\n"
            return
        how = s.f["enc"] if s.f else self.r.choice(["len", "len", "chunked", "close"])
        if s.f and how == "close" and k in ("short",):
            how = "len"     # cutting a body of unknown length cannot be noticed
        h = b"HTTP/1.1 " + status + b"\r\nServer: sim\r\n"
        if how == "len":
            h += b"Content-Length: %d\r\n" % len(body)
        elif how == "chunked":
            h += b"Transfer-Encoding: chunked\r\n"
            cs = self.r.choice([7, 1000, 4096])
            body = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i+cs]), body[i:i+cs])
                            for i in range(0, len(body), cs)) + b"0\r\n\r\n"
        else:
            h += b"Connection: close\r\n"
        h += b"\r\n"
        s.data = h + body
        s.fault = k if k in ("timeout", "stall", "reset", "short", "sigint", "crash") \
            else None
        s.fault_at = len(h) + int(s.f["frac"]*(len(body)-1)) if s.f else 0
        if k == "timeout":
            s.fault_at = 0
        if k == "short" and how == "chunked":
            s.fault_at = len(h) + int(s.f["frac"]*(len(body)-6))

# }}}


def tool_process(script, args, root, stdout, netfiles, iofaults, netfaults, seed, locale,
                 shortmax):
    """Child process body: run the tool as ``python script args`` would; returns the exit
    status."""
    import random
    import runpy
    import socket
    import ssl
    r = random.Random(seed)
    lib = iolib()
    os.chdir(root)
    os.environ["TMPDIR"] = root
    tempfile.tempdir = root
    signal.signal(signal.SIGINT, signal.default_int_handler)
    fd = os.open(stdout if stdout else os.devnull,
                 os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    os.dup2(fd, 1)
    os.close(fd)
    fd = os.open("stderr.txt", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    os.dup2(fd, 2)
    os.close(fd)
    enc = {"C": "ascii", "latin": "latin-1"}.get(locale, "utf-8")
    sys.stdout = open(1, "w", encoding=enc, closefd=False,     # noqa: SIM115
                      errors="surrogateescape" if enc == "ascii" else "strict")
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)     # noqa: SIM115
    net = Net(netfiles, netfaults, r)
    socket.create_connection = net.connect
    socket.getaddrinfo = lambda *a, **k: (_ for _ in ()).throw(
        OSError("no simulated name service"))
    ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock
    rlist = os.listdir

    def listdir(path="."):
        x = sorted(rlist(path))
        r.shuffle(x)
        return x
    os.listdir = listdir
    sys.path[0:0] = [os.path.join(REPO, "contrib")]
    if REPO not in sys.path:
        sys.path.insert(1, REPO)
    sys.argv[:] = [script, *args]
    st = lib.iof_state().contents
    lib.iof_reset()
    st.root = root.encode()
    for i, (at, kind, arg) in enumerate(iofaults[:NF]):
        st.at[i], st.kind[i], st.arg[i] = at, KINDS[kind], arg
    st.nfault = len(iofaults[:NF])
    st.shortmax = shortmax
    if stdout:
        lib.iof_track(1)
    st.armed = 1
    rc = 0
    try:
        runpy.run_path(os.path.join(REPO, "contrib", script), run_name="__main__")
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        e.__traceback__ = None
    except KeyboardInterrupt as e:
        rc = 130
        e.__traceback__ = None
    except BaseException as e:      # noqa: BLE001
        import traceback
        print("".join(traceback.format_exception(e))[-3000:], file=sys.stderr)
        rc = 1
        e.__traceback__ = None
        e.__context__ = e.__cause__ = None
    # what interpreter shutdown does
    import gc
    gc.collect()
    try:
        try:
            sys.stdout.flush()
        except BaseException:       # noqa: BLE001
            rc = rc or 120
    except BaseException:           # noqa: BLE001
        pass
    st.armed = 0
    sys.stderr.flush()
    info = {"count": st.count, "reads": st.reads, "writes": st.writes,
            "opens": st.opens, "renames": st.renames, "fired": st.fired,
            "net": net.nreq, "netfired": net.fired}
    with open(os.path.join(os.path.dirname(root), "info"), "wb") as f:
        pickle.dump((rc, info), f)


def run_tool(*a, timeout=60.0):
    """(exit status, info) of one simulated process."""
    root = a[2]
    infof = os.path.join(os.path.dirname(root), "info")
    if os.path.exists(infof):
        os.unlink(infof)
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            tool_process(*a)
            code = 0
        except BaseException:       # noqa: BLE001
            import traceback
            with open(infof + ".err", "w") as f:
                f.write(traceback.format_exc())
        finally:
            os._exit(code)
    end = time.monotonic() + timeout
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise ChildTimeout("tool did not end")
        time.sleep(0.002)
    code = os.waitstatus_to_exitcode(st)
    if code == 0:
        with open(infof, "rb") as f:
            return pickle.load(f)
    if code == 137:
        return 137, {"fired": 1, "crashed": 1}
    err = ""
    if os.path.exists(infof + ".err"):
        err = open(infof + ".err").read()       # noqa: SIM115
    raise HarnessError(f"tool process ended with {code}: {err[-2000:]}")


def load(root, src, out):
    """{table: plain data} of what loads from the output, or None."""
    import numpy as np
    path = os.path.join(root, out)
    if not os.path.exists(path):
        return None
    names = list(src["tables"])
    if src.get("npz"):
        try:
            with np.load(path, allow_pickle=True) as f:
                return {k: f[k].item() for k in names if k in f.files}
        except Exception:
            return None
    with open(path, "rb") as f:
        text = f.read()
    if src.get("tail"):
        i = text.find(b"# GENERATED")
        if i < 0:
            return None
        text = text[i:]
    ns = {"__name__": "generated"}
    try:
        exec(compile(text, path, "exec"), ns)
    except Exception:
        return None
    return {k: ns[k] for k in names if k in ns}


def plain(t):
    import numpy as np
    res = {}
    for o, rule in t.items():
        res[int(o)] = {str(k): np.asarray(v, dtype=float) for k, v in rule.items()}
    return res


def agrees(got, want):
    """None, or what differs."""
    import numpy as np
    try:
        g, w = plain(got), plain(want)
    except Exception as e:
        return f"not a rule table: {type(e).__name__}: {e}"
    if sorted(g) != sorted(w):
        return f"orders {sorted(g)} instead of {sorted(w)}"
    for o in w:
        if sorted(g[o]) != sorted(w[o]):
            return f"rule {o} has {sorted(g[o])} instead of {sorted(w[o])}"
        for k in w[o]:
            a, b = g[o][k], w[o][k]
            if a.shape != b.shape:
                return f"rule {o} {k}: shape {a.shape} instead of {b.shape}"
            if not np.all(np.abs(a-b) <= 1e-14*np.abs(b) + 5e-16):
                return f"rule {o} {k}: numbers differ by {np.max(np.abs(a-b))}"
    return None


@register
class Tools(Prop):
    id = "C15"
    quick_runs = 700
    thorough_runs = 60000
    timeout = 240.0
    preload = "iofault.so"
    rule = ("a run counts when at least one fault was injected into the tool's disk or "
            "network operations (or the process died) and the tool was run again; "
            "distinct by scenario (source, fault points and kinds)")
    assumptions = [
        "a process crash loses what was not yet written, not what was (no power loss)",
        "a response body cut where HTTP has no length to check is not a detectable fault",
        "the publisher's files are what the synthetic sources imitate"]
    real = ["contrib/weights-from-*.py", "numpy", "zipfile/tarfile/http.client/pytools",
            "the file system (below the fault seam)"]
    stubs = ["network (below http.client)", "libc I/O entry points (fault injection)"]

    def gen(self, r, env, i, tier):
        tool = r.choice(list(SRC))
        nround = r.choice([1, 1, 1, 2, 3])
        rounds = []
        for _ in range(nround):
            io_ = [{"at": r.random(), "late": r.random() < 0.4, "kind": r.choice(
                ["eio", "enospc", "short", "eintr", "crash", "crash", "torn", "torn",
                 "sigint", "full", "eacces", "tornerr"]), "arg": r.getrandbits(30)}
                for _ in range(r.choice([0, 1, 1, 1, 2, 4]))]
            net = []
            if r.random() < 0.35 or not io_:
                net = [{"req": r.randrange(2), "kind": r.choice(NETKINDS),
                        "enc": r.choice(["len", "chunked", "close"]),
                        "frac": r.random()} for _ in range(r.choice([1, 1, 2]))]
            rounds.append({"io": io_, "net": net})
        return {"tool": tool, "src": r.getrandbits(40), "rounds": rounds,
                "seed": r.getrandbits(40),
                "old": r.random() < 0.3, "locale": r.choice(["", "", "", "C", "latin"]),
                "shortmax": r.choice([0, 0, 0, 1000, 64])}

    def execute(self, sc, env):
        top = tempfile.mkdtemp(prefix="c15-", dir=os.environ["DST_CACHE"])
        try:
            return self.simulate(sc, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def populate(self, root, src):
        for n, d in src["in"].items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(d)

    def simulate(self, sc, top):
        import random
        tool = sc["tool"]
        src = SRC[tool](random.Random(sc["src"]))
        out = src.get("npz") or src["stdout"] or "out.py"
        st = {"tool": tool, "processes": 0, "faults": 0, "io": {}, "net": {},
              "outcomes": {}, "ops": 0}

        def run(root, io_, net, seed):
            st["processes"] += 1
            return run_tool(tool, src["args"], root, src["stdout"], src.get("net", {}),
                            io_, net, seed, sc["locale"], sc["shortmax"])

        def check(root, must, what, old=None):
            got = fork_call(lambda: load(root, src, out))
            if got is None or (must is False and not got):
                if must:
                    err = ""
                    p = os.path.join(root, "stderr.txt")
                    if os.path.exists(p):
                        err = open(p).read()[-600:]      # noqa: SIM115
                    return Violation("incomplete", f"{tool}: {what}, but no table can "
                                     f"be loaded from its output; {err}")
                return None
            for name, want in src["tables"].items():
                if name not in got:
                    if must:
                        return Violation("incomplete", f"{tool}: {what}, but table "
                                         f"{name} is missing")
                    continue
                d = agrees(got[name], want)
                if d is not None and old is not None and not must:
                    if agrees(got[name], old[name]) is None:
                        d = None
                if d is not None:
                    return Violation("wrong-table" if must else "torn-table",
                                     f"{tool}: {what}: {name}: {d}")
            return None

        # how many operations does a fault-free run have?
        ref = os.path.join(top, "ref", "d")
        os.makedirs(ref)
        self.populate(ref, src)
        rc, info = run(ref, [], [], sc["seed"])
        if rc:
            err = open(os.path.join(ref, "stderr.txt")).read()[-800:]   # noqa: SIM115
            if sc["locale"] and "UnicodeEncodeError" in err:
                return check(ref, False, "failed"), st
            return Violation("fails", f"{tool} ends with status {rc} without any fault: "
                             f"{err}"), st
        v = check(ref, True, "ended successfully without any fault")
        if v:
            return v, st
        n = info["count"]
        st["ops"] = n

        root = os.path.join(top, "run", "d")
        os.makedirs(root)
        self.populate(root, src)
        old = None
        if sc["old"] and (not src.get("npz") or "-f" in src["args"]):
            # the output of an earlier run on an earlier source
            osrc = SRC[tool](random.Random(sc["src"]+1))
            old = osrc["tables"]
            oroot = os.path.join(top, "old", "d")
            os.makedirs(oroot)
            self.populate(oroot, osrc)
            oout = osrc.get("npz") or osrc["stdout"] or "out.py"
            rc, _ = run_tool(tool, osrc["args"], oroot, osrc["stdout"],
                             osrc.get("net", {}), [], [], sc["seed"], "", 0)
            if rc == 0 and not osrc.get("tail") and not src.get("tail"):
                shutil.copyfile(os.path.join(oroot, oout), os.path.join(root, out))
            else:
                old = None
        for k, rd in enumerate(sc["rounds"]):
            ios = []
            for f in rd["io"]:
                at = 1 + int(f["at"]*n) if not f["late"] else \
                    max(1, n - int(f["at"]**2*12))
                ios.append((at, f["kind"], f["arg"]))
            rc, info = run(root, ios, rd["net"], sc["seed"])
            fired = info.get("fired", 0) + len(info.get("netfired", ()))
            st["faults"] += fired
            for f in (rd["io"] if info.get("fired") else ()):
                st["io"][f["kind"]] = st["io"].get(f["kind"], 0) + 1
            for f in info.get("netfired", ()):
                st["net"][f] = st["net"].get(f, 0) + 1
            o = "ok" if rc == 0 else "crash" if rc == 137 else "failed"
            st["outcomes"][o] = st["outcomes"].get(o, 0) + 1
            what = (f"round {k} ({rd['io'] or ''}{rd['net'] or ''}) ended with status "
                    f"{rc}")
            v = check(root, rc == 0, what, old)
            if v:
                return v, st
        # the faults are over
        rc, info = run(root, [], [], sc["seed"])
        err = open(os.path.join(root, "stderr.txt")).read()[-800:]   # noqa: SIM115
        if sc["locale"] and rc and "UnicodeEncodeError" in err:
            return None, st
        v = check(root, True, f"run again after the faults {sc['rounds']} (status {rc})")
        return v, st

    def nontrivial(self, sc, st):
        return st.get("faults", 0) > 0

    def shrink(self, sc):
        rs = sc["rounds"]
        for i in range(len(rs)):
            if len(rs) > 1:
                yield dict(sc, rounds=rs[:i] + rs[i+1:])
            for key in ("io", "net"):
                for j in range(len(rs[i][key])):
                    x = dict(rs[i], **{key: rs[i][key][:j] + rs[i][key][j+1:]})
                    yield dict(sc, rounds=rs[:i] + [x] + rs[i+1:])
        for k, v in (("old", False), ("locale", ""), ("shortmax", 0)):
            if sc[k] != v:
                yield dict(sc, **{k: v})
