"""Operation catalogue: the workload vocabulary of the simulator.

An operation is ``{"op": name, "p": {json params}}``.  ``gen`` draws parameters from a
seeded PRNG, ``run`` performs the public API call(s).  Everything an operation
receives is registered with the context, so that the simulator can snapshot it,
change its memory layout, make it read-only, trash it afterwards, or wrap it
with faults.

The module does not import modepy at import time.
"""
from __future__ import annotations

import json
import math

import numpy as np


OPS = {}


class Op:
    def __init__(self, name, gen, run, weight, tags):
        self.name, self.gen, self.run = name, gen, run
        self.weight, self.tags = weight, frozenset(tags)


def op(name, gen, weight=1.0, tags=()):
    def deco(f):
        OPS[name] = Op(name, gen, f, weight, tags)
        return f
    return deco


def opkey(o):
    return json.dumps([o["op"], o["p"]], sort_keys=True)


def tags_of(o):
    """The operation's tags and those of the operation it wraps."""
    t = OPS[o["op"]].tags
    inner = o["p"].get("o")
    return t | tags_of(inner) if isinstance(inner, dict) and "op" in inner else t


# {{{ context

class InjectedFault(Exception):
    """Raised by simulated user callbacks."""


class Ctx:
    """What an operation sees of its environment."""

    def __init__(self, pool=None, layout="C", readonly=False, hooks=None):
        self.pool = pool            # shared object pool (dict) or None
        self.layout = layout
        self.readonly = readonly
        self.hooks = hooks or {}
        self.inputs = []            # (name, object)
        self.ncalls = 0             # number of callback invocations
        self.rng_override = None
        self.reuse = None           # dict: caller-side reusable buffers
        self.mangle = None          # (which array, how it is malformed)
        self.narr = 0

    def arr(self, name, a):
        """Register an input array (and apply the layout variant)."""
        a = np.asarray(a)
        if self.mangle is not None:
            if self.narr == self.mangle[0]:
                a = malform(a, self.mangle[1])
            self.narr += 1
        if self.reuse is not None and self.layout == "C":
            # the caller keeps one buffer per shape and refills it
            key = (a.shape, a.dtype.str)
            buf = self.reuse.get(key)
            if buf is None:
                buf = self.reuse[key] = []
            used = {id(x) for _, x in self.inputs}
            for b in buf:
                if id(b) not in used:
                    b.setflags(write=True)
                    b[...] = a
                    a = b
                    break
            else:
                a = np.array(a, order="C")
                buf.append(a)
        elif self.layout == "F":
            a = np.array(a, order="F")
        elif self.layout == "strided" and a.ndim >= 1 and a.size:
            big = np.zeros(tuple(2*s for s in a.shape), a.dtype)
            sl = tuple(slice(None, None, 2) for _ in a.shape)
            big[sl] = a
            a = big[sl]
        elif self.layout == "neg" and a.ndim >= 1 and a.size:
            b = np.array(a[..., ::-1], order="C")
            a = b[..., ::-1]
        else:
            a = np.array(a, order="C")
        if self.readonly:
            a.setflags(write=False)
        self.inputs.append((name, a))
        return a

    def obj(self, name, o):
        self.inputs.append((name, o))
        return o

    def fn(self, name, f):
        """Wrap a user callback."""
        hook = self.hooks.get("callback")
        if hook is None:
            return f
        return _Callback(self, name, f, hook)

    def fns(self, name, fs):
        hook = self.hooks.get("callback")
        if hook is None:
            return tuple(fs)
        return tuple(_Callback(self, f"{name}[{i}]", f, hook)
                     for i, f in enumerate(fs))

    def items(self, name, seq):
        """A user-supplied one-shot iterable."""
        hook = self.hooks.get("callback")
        if hook is None:
            return iter(seq)
        return _Iter(self, name, seq, hook)

    def shared(self, key, factory):
        if self.pool is None:
            return factory()
        key = json.dumps(key, sort_keys=True)
        try:
            return self.pool[key]
        except KeyError:
            o = self.pool[key] = factory()
            return o


def malform(a, how):
    """An array as a careless caller might pass it."""
    if how == "scalar":
        return np.array(a.reshape(-1)[0]) if a.size else a
    if how == "lift":
        return a[np.newaxis].copy()
    if how == "int":
        with np.errstate(all="ignore"):
            return np.nan_to_num(a.real if a.dtype.kind == "c" else a).astype(int)
    if a.ndim == 0:
        return a
    if how == "drop":
        return a[..., :-1].copy()
    if how == "droprow":
        return a[:-1].copy()
    if how == "dup":
        return np.concatenate([a, a[..., -1:]], axis=-1)
    if how == "duprow":
        return np.concatenate([a, a[-1:]], axis=0)
    if how == "flat":
        return a.reshape(-1).copy()
    if how == "empty":
        return a[..., :0].copy()
    raise ValueError(how)


class _Callback:
    def __init__(self, ctx, name, f, hook):
        self.ctx, self.name, self.f, self.hook = ctx, name, f, hook

    def __call__(self, *a, **kw):
        k = self.ctx.ncalls
        self.ctx.ncalls += 1
        return self.hook(k, self.name, self.f, a, kw)

    def conj(self):  # pragma: no cover
        raise TypeError


class _Iter:
    def __init__(self, ctx, name, seq, hook):
        self.ctx, self.name, self.hook = ctx, name, hook
        self.it = iter(seq)

    def __iter__(self):
        return self

    def __next__(self):
        k = self.ctx.ncalls
        self.ctx.ncalls += 1
        return self.hook(k, self.name, lambda: next(self.it), (), {})

# }}}


# {{{ parameter generators

def ch(r, *xs):
    return xs[r.randrange(len(xs))]


def gen_shape(r, dims=(1, 2, 3), kinds=("simplex", "hypercube", "prism", "tp")):
    k = ch(r, *kinds)
    if k == "simplex":
        return ["S", ch(r, *dims)]
    if k == "hypercube":
        return ["H", ch(r, *dims)]
    if k == "prism":
        return ["T", [["S", 2], ["S", 1]] if r.random() < 0.5
                else [["S", 1], ["S", 2]]]
    return ["T", [["S", 1], ["S", 1]]]


MAXORD = {1: 7, 2: 5, 3: 3}


def gen_space(r, dims=(1, 2, 3), maxord=None, **kw):
    sh = gen_shape(r, dims, **kw)
    d = shape_dim(sh)
    m = min(MAXORD.get(d, 2), maxord or 99)
    if sh[0] == "T" and r.random() < 0.4:
        return [sh, [r.randint(0 if r.random() < 0.2 else 1, m) for _ in sh[1]]]
    return [sh, r.randint(0 if r.random() < 0.15 else 1, m)]


def shape_dim(sh):
    if sh[0] == "T":
        return sum(shape_dim(s) for s in sh[1])
    return sh[1]


def mk_shape(sh):
    import modepy as mp
    if sh[0] == "S":
        return mp.Simplex(sh[1])
    if sh[0] == "H":
        return mp.Hypercube(sh[1])
    return mp.TensorProductShape(tuple(mk_shape(s) for s in sh[1]))


def c_shape(c, sh):
    return c.shared(["shape", sh], lambda: mk_shape(sh))


def c_space(c, sp):
    import modepy as mp
    shape = c_shape(c, sp[0])
    order = tuple(sp[1]) if isinstance(sp[1], list) else sp[1]
    return c.shared(["space", sp], lambda: mp.space_for_shape(shape, order)), shape


def c_basis(c, sp, fam):
    import modepy as mp
    space, shape = c_space(c, sp)
    f = {"onb": mp.orthonormal_basis_for_space,
         "mono": mp.monomial_basis_for_space,
         "any": mp.basis_for_space}[fam]
    return c.shared(["basis", sp, fam], lambda: f(space, shape)), space, shape


def np_rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


# A data seed is ``base + variant*VBASE``: same base, different variant means
# arrays that agree in shape, in most entries and in most summary statistics.
VBASE = 1 << 20
NVARIANTS = 8


def vary(a, variant):
    """A near-collision of *a*."""
    if not variant or not a.size:
        return a
    a = np.array(a)
    n = a.shape[-1]
    f = a.reshape(-1)
    k = (variant*7) % f.size
    if variant == 1:
        return np.ascontiguousarray(a[..., ::-1])
    if variant == 2:                # same ends, different order in between
        a[..., 1:n-1] = a[..., 1:n-1][..., ::-1].copy()
        if n < 4:
            f[k] *= 1 - 1e-3
    elif variant == 3:              # one entry, a little
        f[k] *= 1 - 1e-3
    elif variant == 4:              # one entry, hardly
        f[k] *= 1 - 1e-6
    elif variant == 5:              # same sum
        d = 1e-2*f[k]
        f[k] -= d
        f[(k+1) % f.size] += d
    elif variant == 6:              # all of them, hardly
        a *= 1 - 1e-7
    elif variant == 7:              # the last column only
        a[..., -1] *= 0.9
    return a


def normal(seed, size):
    return vary(np_rng(seed % VBASE).normal(size=size), seed // VBASE)


def pts(dim, n, seed, interior=False):
    """Harness-side points strictly inside the simplex (hence any ref. shape)."""
    g = np_rng(seed % VBASE)
    if dim == 0:
        return np.zeros((0, n))
    e = g.exponential(size=(dim+1, n)) + 1e-3
    e /= e.sum(axis=0)
    # (the last factor: all bits of the mantissa in use, so that no arithmetic on the
    # points is exact by luck)
    return vary((e[1:]*2 - 1)*(1 - 1e-9), seed // VBASE)


def as_dtype(x, dt):
    """The caller's data in another precision / kind."""
    if dt == "f4":
        return x.astype(np.float32)
    if dt == "c16":
        return x.astype(complex)
    if dt == "i8":
        return np.sign(np.round(2*x)).astype(int)
    if dt in ("v8", "v4"):      # at the vertices of the simplex
        y = -np.ones(x.shape)
        for j in range(x.shape[-1]):
            k = j % (len(x)+1) if x.ndim == 2 else j % 2
            if x.ndim == 1:
                y[j] = 2*k - 1
            elif k:
                y[k-1, j] = 1
        return y.astype(np.float32 if dt == "v4" else float)
    if dt in ("nan", "inf"):
        x = np.array(x)
        if x.size:
            x.reshape(-1)[x.size//2] = np.nan if dt == "nan" else np.inf
    return x


def g_dtype(r):
    return r.choice(["f4", "i8", "c16", "v8", "v4", "nan", "inf"]) \
        if r.random() < 0.2 else "f8"


def equi(space):
    """Harness-side unisolvent nodes (independent of the library's node code is
    not needed: this only supplies inputs)."""
    import modepy as mp
    if isinstance(space, mp.PN):
        return mp.edge_clustered_nodes_for_space(space, mp.Simplex(space.spatial_dim))
    raise TypeError


def nodes_for(c, space, shape, kind="clustered"):
    import modepy as mp
    f = (mp.edge_clustered_nodes_for_space if kind == "clustered"
         else mp.equispaced_nodes_for_space)
    return f(space, shape)


def g_seed(r):
    s = r.randrange(8)
    return s + VBASE*r.randrange(NVARIANTS) if r.random() < 0.15 else s

# }}}


# {{{ canonicalisation of results

def canon(x, depth=0):
    """Turn a result into comparable plain data (arrays copied)."""
    import modepy as mp
    from modepy.quadrature import _Inf
    if depth > 8:
        return ("deep",)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(canon(i, depth+1) for i in x.flat))
        return ("nd", x.dtype.kind, x.shape, np.array(x, copy=True))
    if x is None or isinstance(x, (bool, str, bytes)):
        return ("lit", x)
    if isinstance(x, np.bool_):
        return ("lit", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("nd", "i", (), np.asarray(int(x), dtype=object))
    if isinstance(x, (float, np.floating)):
        return ("nd", "f", (), np.array(float(x)))
    if isinstance(x, (complex, np.complexfloating)):
        return ("nd", "c", (), np.array(complex(x)))
    if isinstance(x, tuple):
        return ("tuple",) + tuple(canon(i, depth+1) for i in x)
    if isinstance(x, list):
        return ("list",) + tuple(canon(i, depth+1) for i in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(
            (repr(k), canon(v, depth+1)) for k, v in x.items())
    if isinstance(x, _Inf):
        return ("lit", "inf-object")
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__, str(x)[:300])
    if isinstance(x, mp.Quadrature):
        try:
            et = x.exact_to
        except AttributeError:
            et = None
        out = [type(x).__name__, canon(x.nodes, depth+1), canon(x.weights, depth+1),
               canon(et, depth+1)]
        for a in ("alpha", "beta", "kind", "left", "right"):
            if hasattr(x, a):
                out.append((a, canon(getattr(x, a), depth+1)))
        if isinstance(x, mp.TensorProductQuadrature):
            out.append(canon(tuple(x.quadratures), depth+1))
        return ("quad", *out)
    if isinstance(x, mp.Face):
        return ("face", type(x).__name__, x.dim, x.face_index,
                repr(x.volume_shape), tuple(int(i) for i in x.volume_vertex_indices))
    if isinstance(x, (mp.Shape, mp.FunctionSpace)):
        return ("repr", repr(x))
    from modepy.tools import AffineMap, Monomial
    if isinstance(x, AffineMap):
        return ("affine", canon(x.a), canon(x.b))
    if isinstance(x, Monomial):
        return ("lit", repr(x))
    from modepy.quadrature.kronrod import KronrodQuadrature
    if isinstance(x, KronrodQuadrature):
        return ("kq", canon(x.nodes), canon(x.weights),
                canon(x.weights_at_gauss_nodes), canon(x.exact_to),
                canon(x.gauss_quadrature, depth+1))
    from modepy.quadrature.construction import (
        LinearCombinationIntegrand, QuadratureResidualJacobian)
    if isinstance(x, QuadratureResidualJacobian):
        return ("qrj", canon(x.residual), canon(x.dresid_dweights),
                canon(x.dresid_dnodes))
    if isinstance(x, LinearCombinationIntegrand):
        return ("lc", canon(np.asarray(x.coefficients)), len(x.functions))
    if isinstance(x, mp.Basis):
        return ("basis", type(x).__name__, canon(x.mode_ids, depth+1))
    try:
        from pymbolic.primitives import ExpressionNode
        if isinstance(x, ExpressionNode):
            return ("expr", str(x))
    except ImportError:
        pass
    if callable(x):
        return ("callable", type(x).__name__)
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(i) for i in x)))
    return ("other", type(x).__name__, repr(x)[:200])


RTOL = 1e-8


def same(a, b, rtol=RTOL):
    """Structural comparison of canonical results; arrays to *rtol* of max norm."""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if len(a) and a[0] == "nd" and isinstance(b, tuple) and len(b) and b[0] == "nd":
            if len(a) != 4 or len(b) != 4:
                return False
            ka, kb = a[1], b[1]
            if ka != kb and not {ka, kb} <= {"i", "f", "u", "b"}:
                return False
            if a[2] != b[2]:
                return False
            return _close(a[3], b[3], rtol)
        if len(a) != len(b):
            return False
        return all(same(x, y, rtol) for x, y in zip(a, b))
    return a == b


def _close(x, y, rtol):
    if x.dtype == object or y.dtype == object:
        try:
            x = np.asarray(x, dtype=float)
            y = np.asarray(y, dtype=float)
        except (OverflowError, ValueError, TypeError):
            return bool(np.all(x == y))
    if x.size == 0:
        return True
    with np.errstate(all="ignore"):
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return False
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        bad = ~fx & ~np.isnan(x)
        if bad.any() and not np.array_equal(x[bad], y[bad]):
            return False
        if x.dtype.char in "fF" or y.dtype.char in "fF":
            rtol = max(rtol, 2e-4)
        x, y = x[fx], y[fx]
        if x.size == 0:
            return True
        scale = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))))
        return float(np.max(np.abs(x - y))) <= rtol*scale + 1e-300


def describe(c, n=300):
    def d(c):
        if isinstance(c, tuple) and c and c[0] == "nd":
            with np.printoptions(precision=6, threshold=12, linewidth=10**6):
                return f"array{c[2]}{np.array2string(np.asarray(c[3]))}".replace("\n", "")
        if isinstance(c, tuple):
            return "(" + ", ".join(d(i) for i in c) + ")"
        return repr(c)
    s = d(c)
    return s if len(s) <= n else s[:n] + "..."


def fingerprint(o):
    """Bit-exact snapshot of an input object, for mutation checks."""
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.strides, o.flags.writeable,
                o.tobytes() if o.dtype != object else tuple(map(repr, o.flat)))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fingerprint(i) for i in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((repr(k), fingerprint(v)) for k, v in o.items())
    import modepy as mp
    if isinstance(o, mp.Quadrature):
        try:
            et = repr(canon(o.exact_to))
        except AttributeError:
            et = None
        return ("quad", fingerprint(o.nodes), fingerprint(o.weights), et,
                *((fingerprint(tuple(o.quadratures)),)
                  if hasattr(o, "quadratures") else ()))
    from modepy.tools import AffineMap
    if isinstance(o, AffineMap):
        return ("affine", fingerprint(o.a), fingerprint(o.b))
    if isinstance(o, (mp.Shape, mp.FunctionSpace)):
        return ("repr", repr(o))
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    from modepy.quadrature.construction import (
        LinearCombinationIntegrand, QuadratureResidualJacobian)
    if isinstance(o, QuadratureResidualJacobian):
        return ("qrj", fingerprint(o.residual), fingerprint(o.dresid_dweights),
                fingerprint(o.dresid_dnodes))
    if isinstance(o, LinearCombinationIntegrand):
        return ("lc", fingerprint(np.asarray(o.coefficients)),
                tuple(id(f) for f in o.functions))
    return ("obj", type(o).__name__)


def walk_arrays(x, out=None, depth=0, skip=()):
    """All ndarrays reachable from a result through public containers; objects whose
    id is in *skip* (the caller's own) are not entered."""
    import modepy as mp
    if out is None:
        out = []
    if depth > 6 or (depth and id(x) in skip and not isinstance(x, np.ndarray)):
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for i in x:
            walk_arrays(i, out, depth+1, skip)
    elif isinstance(x, dict):
        for i in x.values():
            walk_arrays(i, out, depth+1, skip)
    elif isinstance(x, mp.Quadrature):
        walk_arrays(x.nodes, out, depth+1, skip)
        walk_arrays(x.weights, out, depth+1, skip)
        if isinstance(x, mp.TensorProductQuadrature):
            walk_arrays(tuple(x.quadratures), out, depth+1, skip)
    else:
        from modepy.quadrature.construction import (
            LinearCombinationIntegrand, QuadratureResidualJacobian)
        from modepy.quadrature.kronrod import KronrodQuadrature
        if isinstance(x, KronrodQuadrature):
            for a in (x.nodes, x.weights, x.weights_at_gauss_nodes,
                      x.gauss_quadrature):
                walk_arrays(a, out, depth+1, skip)
        elif isinstance(x, QuadratureResidualJacobian):
            for a in (x.residual, x.dresid_dweights, x.dresid_dnodes):
                walk_arrays(a, out, depth+1, skip)
        elif isinstance(x, LinearCombinationIntegrand):
            walk_arrays(x.coefficients, out, depth+1, skip)
    return out

# }}}
