"""The instruction-level seam: sys.settrace based event stream over modepy code.

Every executed source line (optionally: every bytecode instruction) of a modepy
frame is one *event*.  The simulator decides at each event whether to go on, to
hand the (single) run token to another thread, to raise an exception
("interrupt"), or to run something else right here (signal handler / finaliser
re-entrancy).
"""
from __future__ import annotations

import dis
import os
import sys
import types


REPO = os.environ.get("DST_REPO", "/repo")
_PREFIX = os.path.join(REPO, "modepy") + os.sep
_PYTOOLS_NAMES = {"wrapper", "new_inner", "inner_wrapper"}

_code_kind = {}     # code -> 0 (ignore) | 1 (trace)
_hot = {}           # code -> frozenset of "hot" lines


class StepBudget(BaseException):
    """The step budget of a run was exceeded (liveness)."""


def traced(code):
    k = _code_kind.get(code)
    if k is None:
        fn = code.co_filename
        if fn.startswith(_PREFIX):
            k = 2 if code.co_name == "<module>" else 1
        elif fn.endswith("pytools/__init__.py") and code.co_name in _PYTOOLS_NAMES:
            k = 1
        else:
            k = 0
        _code_kind[code] = k
    return k


_IMMUT = (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType,
          str, int, float, complex, tuple, frozenset, bool, type(None), bytes)


def _is_state(v):
    """Something two calls may communicate through."""
    if v is None or isinstance(v, _IMMUT):
        return False
    return not callable(v) or hasattr(v, "cache_info")


def _function_of(code, g):
    """The module-level function or method that runs *code*, if it can be found."""
    v = None
    for i, part in enumerate(code.co_qualname.split(".")):
        v = g.get(part) if i == 0 else getattr(v, "__dict__", {}).get(part)
        if v is None:
            return None
    for _ in range(5):
        if isinstance(v, property):
            v = v.fget
        v = getattr(v, "__func__", v)
        if getattr(v, "__code__", None) is code:
            return v
        v = getattr(v, "__wrapped__", None)
    return None


_MUTATORS = {"append", "add", "pop", "popitem", "clear", "update", "setdefault", "extend",
             "insert", "remove", "discard", "move_to_end", "appendleft", "popleft", "sort",
             "fill", "resize", "__setattr__", "cache_clear"}
_INIT = {"__init__", "__post_init__", "__new__", "__setstate__"}


def hot_lines(frame):
    """(lines of interest, lines of shared state) of a frame's code.

    Shared state is what another activation can see: stores to globals, any use of a
    mutable global or class attribute (also through a local name bound to it), mutable
    defaults, containers of an enclosing scope, attributes assigned outside of a
    constructor; plus the line that follows each (the far side of a check-then-act
    window)."""
    code = frame.f_code
    h = _hot.get(code)
    if h is not None:
        return h
    lines, shared = set(), set()
    order = []
    g = frame.f_globals
    alias = set()
    fn = _function_of(code, g)
    if fn is not None:
        names = code.co_varnames[:code.co_argcount]
        dfl = dict(zip(names[len(names)-len(fn.__defaults__ or ()):],
                       fn.__defaults__ or ()))
        dfl.update(fn.__kwdefaults__ or {})
        alias |= {k for k, v in dfl.items() if _is_state(v) and not callable(v)}
    free = {}
    if code.co_freevars:
        free = {k: frame.f_locals.get(k) for k in code.co_freevars}
    ctor = code.co_name in _INIT
    inss = list(dis.get_instructions(code))
    for again in range(2):
        line = code.co_firstlineno
        prev, kept = None, False
        for ins in inss:
            if ins.starts_line is not None:
                if ins.starts_line != line:
                    kept = False
                line = ins.starts_line
            if line is None:
                continue
            if not order or (order[-1] != line and not again):
                order.append(line)
            opn = ins.opname
            if opn in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                shared.add(line)
            elif opn in ("STORE_ATTR", "DELETE_ATTR"):
                (lines if ctor else shared).add(line)
            elif opn in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = prev = g.get(ins.argval)
                if _is_state(v):
                    shared.add(line)
                    kept = kept or not callable(v)
                continue
            elif opn == "LOAD_ATTR":
                if not ctor and ins.argval in ("__setattr__", "__dict__"):
                    shared.add(line)
                # state kept on a class or module of the library
                elif prev is not None and getattr(
                        prev, "__module__", getattr(prev, "__name__", "") or "").startswith(
                        "modepy") and isinstance(prev, (type, types.ModuleType)):
                    v = vars(prev).get(ins.argval)
                    if _is_state(v):
                        shared.add(line)
                        kept = kept or not callable(v)
            elif opn in ("LOAD_DEREF", "LOAD_CLASSDEREF"):
                if isinstance(free.get(ins.argval), (dict, list, set)):
                    shared.add(line)
                else:
                    lines.add(line)
            elif opn == "STORE_FAST" and kept:
                alias.add(ins.argval)
            elif opn.startswith("LOAD_FAST") and ins.argval in alias:
                shared.add(line)
            prev = None
        if not alias:
            break
    follow = set()
    for i, ln in enumerate(order[:-1]):
        if ln in shared:
            follow.add(order[i+1])
    # code that changes what it shares, rather than only using it
    writes = any(i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SUBSCR",
                              "DELETE_SUBSCR", "STORE_SLICE")
                 or not ctor and i.opname in ("STORE_ATTR", "DELETE_ATTR")
                 or i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in _MUTATORS
                 for i in inss)
    h = (frozenset(lines | shared | follow), frozenset(shared | follow), writes)
    _hot[code] = h
    return h


_clean_lines = {}
_clean_code = {}


def _cleanup_lines(filename):
    """(lines of clean-up code and ``try`` keywords, lines of statements right
    before a ``try``)."""
    r = _clean_lines.get(filename)
    if r is not None:
        return r
    import ast
    lines, before = set(), set()

    def span(stmts):
        for s in stmts:
            lines.update(range(s.lineno, s.end_lineno + 1))
    try:
        with open(filename) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = ast.Module([], [])
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if not isinstance(b, list):
                continue
            for p, q in zip(b, b[1:]):
                if isinstance(q, (ast.Try, ast.TryStar)):
                    before.update(range(p.lineno, p.end_lineno + 1))
        if isinstance(node, (ast.Try, ast.TryStar)):
            lines.add(node.lineno)
            span(node.finalbody)
            for h in node.handlers:
                if any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                    lines.add(h.lineno)
                    span(h.body)
    r = _clean_lines[filename] = (frozenset(lines), frozenset(before))
    return r


def cleanup_point(frame, opcodes=False):
    """Is this event inside code that releases or restores something?  No Python
    code can protect its own clean-up against asynchronous exceptions (and CPython
    does not deliver signals between the end of a ``with`` body and the call of
    ``__exit__``), so nothing is injected there."""
    code = frame.f_code
    offs = _clean_code.get(code)
    if offs is None:
        offs = set()
        ins = list(dis.get_instructions(code))
        for i in range(len(ins)-3):
            a = ins[i:i+4]
            if (all(x.opname == "LOAD_CONST" and x.argval is None for x in a[:3])
                    and a[3].opname in ("CALL", "PRECALL")):
                for x in ins[max(0, i-3):i]:
                    if x.opname in ("SWAP", "POP_TOP", "NOP"):
                        offs.add(x.offset)
                offs.update(x.offset for x in ins[i:i+5])
        inh = False
        for x in ins:
            if x.opname == "PUSH_EXC_INFO":
                inh = True
            if inh:
                offs.add(x.offset)
            if inh and x.opname in ("RERAISE", "POP_EXCEPT", "POP_TOP", "STORE_FAST"):
                inh = False
        _clean_code[code] = offs
    if frame.f_lasti in offs:
        return True
    lines, before = _cleanup_lines(code.co_filename)
    return frame.f_lineno in lines or (opcodes and frame.f_lineno in before)


class Tracer:
    """Single-threaded event stream.  *on_event(tracer, frame)* is called at each
    event and may raise."""

    def __init__(self, on_event, opcodes=False, in_import=False):
        self.on_event = on_event
        self.opcodes = opcodes
        self.in_import = in_import      # also deliver events in module top levels
        self.n = 0
        self.active = False

    def _global(self, frame, event, arg):
        k = traced(frame.f_code)
        if k == 0:
            return None
        if k == 2 and not self.in_import:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if (event == "line" and not self.opcodes) or (
                self.opcodes and event == "opcode"):
            self.n += 1
            self.on_event(self, frame)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def location(frame):
    c = frame.f_code
    return (os.path.relpath(c.co_filename, REPO), c.co_qualname, frame.f_lineno)
