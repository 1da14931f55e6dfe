"""Python side of the native seams: numpy's allocator and bit generators."""
from __future__ import annotations

import ctypes
import os
import threading


_BUILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      "build")

_py = ctypes.pythonapi
_py.PyCapsule_New.restype = ctypes.py_object
_py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
_py.PyCapsule_GetPointer.restype = ctypes.c_void_p
_py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]


# {{{ allocator

class _S(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in (
        "count", "fail_at", "fail_len", "failed", "filled", "live", "poison",
        "pattern")]


_alloc = None


def _load_alloc():
    global _alloc
    if _alloc is None:
        lib = ctypes.CDLL(os.path.join(_BUILD, "alloc.so"))
        lib.get_handler.restype = ctypes.c_void_p
        lib.get_state.restype = ctypes.POINTER(_S)
        try:
            from numpy._core._multiarray_umath import _ARRAY_API
        except ImportError:
            from numpy.core._multiarray_umath import _ARRAY_API
        base = _py.PyCapsule_GetPointer(_ARRAY_API, None)
        tab = ctypes.cast(base, ctypes.POINTER(ctypes.c_void_p))
        sethandler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(tab[304])
        cap = _py.PyCapsule_New(lib.get_handler(), b"mem_handler", None)
        _alloc = lib.get_state().contents, sethandler, cap, lib
    return _alloc


class Alloc:
    """``with Alloc(...)``: numpy data memory comes from the simulated allocator."""

    def __init__(self, fail_at=0, fail_len=1, poison=0, pattern=0):
        self.cfg = (fail_at, fail_len, poison, pattern)

    def __enter__(self):
        st, sethandler, cap, _ = _load_alloc()
        self.st = st
        self.old = sethandler(cap)
        st.count = st.failed = st.filled = 0
        st.fail_at, st.fail_len, st.poison, st.pattern = self.cfg
        return self

    def disarm(self):
        self.st.fail_at = 0
        self.st.poison = 0

    def __exit__(self, *a):
        st, sethandler, _cap, _ = _load_alloc()
        self.count, self.failed, self.filled = st.count, st.failed, st.filled
        self.disarm()
        sethandler(self.old)

# }}}


# {{{ bit generator

MAXSEG = 64


class _Stream(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in (
        "nseg", "seg", "pos", "draws", "faulty", "x", "limit", "over")] + [
        (n, ctypes.c_uint64*MAXSEG) for n in ("kind", "value", "count")]


class _BitGen(ctypes.Structure):
    _fields_ = [(n, ctypes.c_void_p) for n in (
        "state", "next_uint64", "next_uint32", "next_double", "next_raw")]


class SimBits:
    """A bit generator with a scripted stream."""

    def __init__(self, seed, segments=(), limit=0):
        lib = ctypes.CDLL(os.path.join(_BUILD, "bitgen.so"))
        lib.init_bitgen.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        self.stream = s = _Stream()
        s.x = seed & (2**64-1)
        s.limit = limit
        s.nseg = len(segments)
        for i, (k, v, n) in enumerate(segments[:MAXSEG]):
            s.kind[i], s.value[i], s.count[i] = k, v & (2**64-1), n
        self._bg = _BitGen()
        lib.init_bitgen(ctypes.byref(self._bg), ctypes.byref(s))
        self._keep = lib
        self.capsule = _py.PyCapsule_New(
            ctypes.addressof(self._bg), b"BitGenerator", None)
        self.lock = threading.RLock()

    @property
    def state(self):
        s = self.stream
        return {"bit_generator": "SimBits", "seg": s.seg, "pos": s.pos, "x": s.x}


def sim_generator(seed, segments=(), limit=0):
    import numpy as np
    b = SimBits(seed, segments, limit)
    return np.random.Generator(b), b

# }}}
