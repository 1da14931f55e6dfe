"""The operations themselves: the public surface of modepy."""
from __future__ import annotations

import numpy as np

from .catalog import (
    OPS, as_dtype, c_basis, c_shape, c_space, canon, ch, g_dtype, g_seed, gen_shape,
    gen_space, mk_shape, nodes_for, normal, np_rng, op, pts, shape_dim)


# {{{ shapes

@op("unit_vertices", lambda r: {"sh": gen_shape(r, (0, 1, 2, 3, 4))})
def _(c, p):
    import modepy as mp
    return mp.unit_vertices_for_shape(c_shape(c, p["sh"]))


@op("faces", lambda r: {"sh": gen_shape(r, (1, 2, 3), ("simplex", "hypercube")),
                        "s": g_seed(r), "n": r.randint(1, 4)})
def _(c, p):
    import modepy as mp
    sh = c_shape(c, p["sh"])
    faces = mp.faces_for_shape(sh)
    x = c.arr("x", pts(shape_dim(p["sh"])-1, p["n"], p["s"]))
    return faces, [f.map_to_volume(x) for f in faces]


@op("face_normal", lambda r: {"sh": gen_shape(r, (1, 2, 3), ("simplex", "hypercube")),
                              "norm": bool(r.getrandbits(1))}, tags=["heavy"],
    weight=0.7)
def _(c, p):
    import modepy as mp
    sh = c_shape(c, p["sh"])
    return [mp.face_normal(f, normalize=p["norm"]) for f in mp.faces_for_shape(sh)]


@op("submesh", lambda r: {"sh": gen_shape(r, (1, 2, 3), ("simplex", "hypercube")),
                          "n": r.randint(1, 3)}, tags=["list"])
def _(c, p):
    import modepy as mp
    sh = c_shape(c, p["sh"])
    space = mp.space_for_shape(sh, p["n"])
    nt = c.obj("node_tuples", list(mp.node_tuples_for_space(space)))
    return mp.submesh_for_shape(sh, nt)


@op("shape_props", lambda r: {"sh": gen_shape(r, (0, 1, 2, 3, 4))})
def _(c, p):
    sh = c_shape(c, p["sh"])
    return sh, sh.dim, sh.nvertices, sh.nfaces

# }}}


# {{{ spaces

@op("space_props", lambda r: {"sp": gen_space(r)})
def _(c, p):
    sp, _sh = c_space(c, p["sp"])
    try:
        o = sp.order
    except AttributeError as e:
        o = type(e).__name__
    return sp, o, sp.spatial_dim, sp.space_dim


@op("node_tuples", lambda r: {"sp": gen_space(r)})
def _(c, p):
    import modepy as mp
    return mp.node_tuples_for_space(c_space(c, p["sp"])[0])


@op("tp_space_build", lambda r: {"n": [r.randint(0, 3) for _ in range(ch(r, 1, 2, 3))]},
    tags=["iterables"])
def _(c, p):
    import modepy as mp
    sp = mp.TensorProductSpace(tuple(mp.PN(1, n) for n in p["n"]))
    q = mp.QN(2, p["n"][0])
    return sp, q, q.order, sp.space_dim, q == mp.QN(2, p["n"][0])

# }}}


# {{{ nodes

@op("equispaced", lambda r: {"sp": gen_space(r)})
def _(c, p):
    import modepy as mp
    return mp.equispaced_nodes_for_space(*c_space(c, p["sp"]))


@op("edge_clustered", lambda r: {"sp": gen_space(r)})
def _(c, p):
    import modepy as mp
    return mp.edge_clustered_nodes_for_space(*c_space(c, p["sp"]))


def _perm_tuples(d, n, s):
    from pytools import generate_nonnegative_integer_tuples_summing_to_at_most as g
    t = list(g(n, d))
    if s:
        if s < 4:
            np_rng(s).shuffle(t)
        else:                       # same first and last
            mid = t[1:-1]
            np_rng(s).shuffle(mid)
            t[1:-1] = mid
        t = [tuple(int(i) for i in x) for x in t]
    return t


def _gen_dn(r, dims=(1, 2, 3), maxn=6):
    d = ch(r, *dims)
    return {"d": d, "n": r.randint(0 if r.random() < 0.15 else 1,
                                   maxn if d < 3 else min(maxn, 4)),
            "nt": r.randrange(6)}


@op("warp_and_blend", _gen_dn, weight=1.5, tags=["list"])
def _(c, p):
    import modepy as mp
    nt = (c.obj("node_tuples", _perm_tuples(p["d"], p["n"], p["nt"]))
          if p["nt"] else None)
    return mp.warp_and_blend_nodes(p["d"], p["n"], nt)


@op("equidistant", lambda r: _gen_dn(r, (1, 2, 3, 4)), tags=["list"])
def _(c, p):
    import modepy as mp
    nt = (c.obj("node_tuples", _perm_tuples(p["d"], p["n"], p["nt"]))
          if p["nt"] else None)
    return mp.equidistant_nodes(p["d"], p["n"], nt)


@op("warp_factor", lambda r: {"n": r.randint(1, 6), "m": r.randint(1, 5),
                              "s": g_seed(r), "sc": bool(r.getrandbits(1))},
    tags=["array"])
def _(c, p):
    from modepy.nodes import warp_factor
    x = c.arr("x", pts(1, p["m"], p["s"])[0])
    return warp_factor(p["n"], x, p["sc"])


@op("tensor_product_nodes", lambda r: {
    "k": ch(r, "int", "list"), "d": r.randint(1, 3), "m": r.randint(1, 3),
    "s": g_seed(r), "ds": [ch(r, 1, 1, 2) for _ in range(r.randint(1, 3))]},
    tags=["array", "list"])
def _(c, p):
    import modepy as mp
    if p["k"] == "int":
        return mp.tensor_product_nodes(p["d"], c.arr("n1", pts(1, p["m"], p["s"])[0]))
    sets = [c.arr(f"n{i}", pts(d, p["m"]+(i == 1), p["s"]+i)) if d > 1
            else c.arr(f"n{i}", pts(d, p["m"], p["s"]+i)[0])
            for i, d in enumerate(p["ds"])]
    return mp.tensor_product_nodes(c.obj("sets", sets))


@op("lg_tp_nodes", lambda r: {"d": r.randint(1, 3), "n": r.randint(1, 4),
                              "l": bool(r.getrandbits(1))})
def _(c, p):
    import modepy as mp
    f = (mp.legendre_gauss_lobatto_tensor_product_nodes if p["l"]
         else mp.legendre_gauss_tensor_product_nodes)
    return f(p["d"], p["n"])


@op("random_nodes", lambda r: {"sh": gen_shape(r, (1, 2, 3)), "n": r.randint(0, 9),
                               "s": g_seed(r)}, tags=["rng"], weight=1.5)
def _(c, p):
    import modepy as mp
    rng = c.rng_override or np_rng(p["s"])
    return mp.random_nodes_for_shape(c_shape(c, p["sh"]), p["n"], rng=rng)

# }}}


# {{{ modes

def _big(r, n, m, lo=0):
    """Mostly small, sometimes well beyond what the tests use."""
    return r.randint(n+1, m) if r.random() < 0.12 else r.randint(lo, n)


def _n1(r, n):
    """Orders of one-dimensional rules; sometimes very large ones."""
    if r.random() < 0.9:
        return r.randint(0, n)
    return r.choice([15, 16, 17, 24, 31, 32, 33, 41, 64, 90, 101, 127, 128])


def _ab(r):
    return [ch(r, 0, 0, 1, 2, 0.5, -0.5, 1.5), ch(r, 0, 0, 1, 3, 0.5, -0.5, 2.5)]


def _ab_wild(r):
    return r.choice([[85.0, 85.5], [171.0, 0.0], [0.5, 200.0], [-0.999999, -0.5],
                     [1e6, 1e6], [1e-300, 1.0], [60.0, -0.9]])


@op("jacobi", lambda r: {"ab": _ab(r) if r.random() < 0.85 else _ab_wild(r),
                         "n": _big(r, 6, 14), "m": r.randint(1, 5), "s": g_seed(r), "f": ch(r, "j", "g", "s"),
                         "sc": r.random() < 0.15, "dt": g_dtype(r)},
    weight=2, tags=["array"])
def _(c, p):
    import modepy as mp
    a, b = p["ab"]
    x = c.arr("x", as_dtype(pts(1, p["m"], p["s"])[0], p["dt"]))
    if p["sc"]:
        x = float(x[0])
    if p["f"] == "j":
        return mp.jacobi(a, b, p["n"], x)
    if p["f"] == "g":
        return mp.grad_jacobi(a, b, p["n"], x)
    return mp.scaled_jacobi(abs(a), abs(b), p["n"], x)


@op("pkdo", lambda r: {"d": ch(r, 2, 3), "o": [r.randint(0, 3) for _ in range(3)],
                       "m": r.randint(1, 5), "s": g_seed(r), "g": bool(r.getrandbits(1)),
                       "v": r.random() < 0.3, "dt": g_dtype(r)},
    weight=1.5, tags=["array"])
def _(c, p):
    from modepy import modes as m
    d = p["d"]
    x = as_dtype(pts(d, p["m"], p["s"]), p["dt"])
    if p["v"]:
        import modepy as mp
        x = mp.unit_vertices_for_shape(mp.Simplex(d))
    x = c.arr("x", x)
    f = {(2, 0): m.pkdo_2d, (2, 1): m.grad_pkdo_2d,
         (3, 0): m.pkdo_3d, (3, 1): m.grad_pkdo_3d}[d, int(p["g"])]
    return f(tuple(p["o"][:d]), x)


@op("monomial_modes", lambda r: {"o": [r.randint(0, 3) for _ in range(ch(r, 1, 2, 3))],
                                 "m": r.randint(1, 4), "s": g_seed(r),
                                 "f": ch(r, "m", "d", "g"), "a": r.randrange(3),
                                 "dt": g_dtype(r)},
    tags=["array"])
def _(c, p):
    from modepy import modes as m
    d = len(p["o"])
    x = c.arr("x", as_dtype(pts(d, p["m"], p["s"]), p["dt"]))
    o = tuple(p["o"])
    if p["f"] == "m":
        return m.monomial(o, x)
    if p["f"] == "d":
        return m.diff_monomial(o, p["a"] % d, x)
    return m.grad_monomial(o, x)


def _gen_basis(r, maxord=None, fams=("onb", "onb", "mono", "any"), dims=(1, 2, 3)):
    return {"sp": gen_space(r, dims, maxord), "fam": ch(r, *fams),
            "m": r.randint(1, 5), "s": g_seed(r)}


@op("basis_functions", lambda r: _gen_basis(r, 4), weight=2, tags=["array", "pool"])
def _(c, p):
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr("x", pts(sh.dim, p["m"], p["s"]))
    return b.mode_ids, [f(x) for f in b.functions]


@op("basis_gradients", lambda r: _gen_basis(r, 3), weight=2, tags=["array", "pool"])
def _(c, p):
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr("x", pts(sh.dim, p["m"], p["s"]))
    return [f(x) for f in b.gradients]


@op("basis_derivatives", lambda r: dict(_gen_basis(r, 2), ax=r.randrange(3)),
    weight=1.5, tags=["array", "pool"])
def _(c, p):
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr("x", pts(sh.dim, p["m"], p["s"]))
    return [f(x) for f in b.derivatives(p["ax"] % sh.dim)]


@op("basis_props", lambda r: _gen_basis(r, 3), tags=["pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    try:
        w = b.orthonormality_weight()
    except mp.BasisNotOrthonormal as e:
        w = type(e).__name__
    return b, b.mode_ids, w, len(b.functions)


@op("basis_bad", lambda r: {"fam": ch(r, "onb", "mono", "any", "quad", "nodes"),
                            "k": r.randrange(2)}, weight=0.5, tags=["raises"])
def _(c, p):
    import modepy as mp
    f = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
         "any": mp.basis_for_space, "quad": mp.quadrature_for_space,
         "nodes": mp.edge_clustered_nodes_for_space}[p["fam"]]
    if p["k"]:
        return f(mp.PN(2, 2), mp.Hypercube(2))
    return f(mp.QN(2, 2), mp.Hypercube(3))


@op("tp_basis_build", lambda r: {"n": [r.randint(0, 2) for _ in range(ch(r, 1, 2, 3))],
                                 "m": r.randint(1, 3), "s": g_seed(r)},
    tags=["iterables", "callback"])
def _(c, p):
    import modepy as mp
    bs = [mp.orthonormal_basis_for_space(mp.PN(1, n), mp.Simplex(1)) for n in p["n"]]
    b = mp.TensorProductBasis(c.items("bases", bs), dims_per_basis=(1,)*len(bs))
    x = c.arr("x", pts(len(bs), p["m"], p["s"]))
    return b.mode_ids, [f(x) for f in b.functions], [f(x) for f in b.gradients]


def user_basis(c, name, n, dim, s):
    """A basis the caller wrote: its functions are the caller's code."""
    from modepy.modes import Basis

    class UserBasis(Basis):
        def orthonormality_weight(self):
            return 1

        @property
        def mode_ids(self):
            return tuple((i,)*dim for i in range(n))

        @property
        def functions(self):
            return c.fns(name, [lambda x, i=i: 1.0 + (i + s % 5)*x[i % dim] + x[-1]**i
                                for i in range(n)])

        @property
        def gradients(self):
            return c.fns("d" + name, [
                lambda x, i=i: tuple((i + s % 5)*(1.0 + 0*x[0]) - j*x[j]
                                     for j in range(dim)) for i in range(n)])
    return UserBasis()


@op("user_tp_basis", lambda r: {"n": [r.randint(1, 2) for _ in range(ch(r, 1, 2, 2, 3))],
                                "d": ch(r, 1, 1, 2), "m": r.randint(1, 3),
                                "s": g_seed(r), "f": ch(r, "f", "f", "g", "d", "v"),
                                "own": r.randrange(4)},
    weight=1.5, tags=["callback", "array"])
def _(c, p):
    import modepy as mp
    dims = [p["d"]] + [1]*(len(p["n"]) - 1)
    bs = [mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
          if p["own"] == i + 1 else user_basis(c, f"f{i}", n, d, p["s"] + i)
          for i, (n, d) in enumerate(zip(p["n"], dims))]
    b = mp.TensorProductBasis(bs, dims_per_basis=tuple(dims))
    x = c.arr("x", pts(sum(dims), p["m"], p["s"]))
    if p["f"] == "g":
        return [g(x) for g in b.gradients]
    if p["f"] == "d":
        return b.mode_ids, [f(x) for f in b.derivatives(p["s"] % sum(dims))]
    if p["f"] == "v":
        return mp.vandermonde(b.functions, x), mp.multi_vandermonde(b.gradients, x)
    return [f(x) for f in b.functions]


@op("symbolicize", lambda r: {"sp": gen_space(r, (1, 2), 2), "fam": ch(r, "onb", "mono"),
                              "g": bool(r.getrandbits(1)), "i": r.randrange(5)},
    weight=0.7, tags=["pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    fs = b.gradients if p["g"] else b.functions
    return mp.symbolicize_function(fs[p["i"] % len(fs)], sh.dim)

# }}}


# {{{ matrices

def _gen_mat(r, maxord=3, fams=("onb", "mono"), dims=(1, 2, 3)):
    d = _gen_basis(r, maxord, fams, dims)
    d["nk"] = ch(r, "clustered", "equi")
    return d


def _bn(c, p, name="nodes"):
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr(name, nodes_for(c, sp, sh, "clustered" if p.get("nk") != "equi"
                              else "equi"))
    return b, sp, sh, x


@op("vandermonde", lambda r: dict(_gen_mat(r), k=ch(r, "f", "cplx", "empty", "tuple")
                                  if r.random() < 0.3 else None, dt=g_dtype(r)),
    weight=2, tags=["array", "callback", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr("x", as_dtype(pts(sh.dim, p["m"], p["s"]), p["dt"]))
    if p["k"] == "empty":
        return mp.vandermonde((), x)
    if p["k"] == "tuple":
        return mp.vandermonde(c.fns("g", b.gradients), x)
    if p["k"] == "cplx":
        return mp.vandermonde(c.fns("f", [lambda y, f=f: f(y)*(1+1j)
                                          for f in b.functions]), x)
    return mp.vandermonde(c.fns("f", b.functions), x)


@op("multi_vandermonde", lambda r: _gen_mat(r, 2), tags=["array", "callback", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh = c_basis(c, p["sp"], p["fam"])
    x = c.arr("x", pts(sh.dim, p["m"], p["s"]))
    return mp.multi_vandermonde(c.fns("g", b.gradients), x)


@op("resampling", lambda r: dict(_gen_mat(r), ls=ch(r, 0, 0, 1, 2)),
    weight=2, tags=["array", "callback", "lapack", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p, "old")
    new = c.arr("new", pts(sh.dim, p["m"], p["s"]))
    if p["ls"]:
        # overdetermined; ls == 2 asks without least_squares_ok (documented error)
        x = c.arr("old2", np.hstack([np.asarray(x), pts(sh.dim, 2, p["s"]+1)]))
    return mp.resampling_matrix(c.fns("f", b.functions), new, x,
                                least_squares_ok=p["ls"] == 1)


@op("diff_matrices", lambda r: dict(_gen_mat(r, 2), fr=ch(r, 0, 0, 1, 2)),
    weight=2, tags=["array", "callback", "lapack", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p)
    if p["fr"] == 0:
        return mp.diff_matrices(b, x)
    if p["fr"] == 2:
        return mp.differentiation_matrices(c.fns("f", b.functions),
                                           c.fns("g", b.gradients), x)
    y = c.arr("y", pts(sh.dim, p["m"], p["s"]))
    return mp.differentiation_matrices(c.fns("f", b.functions),
                                       c.fns("g", b.gradients), y, from_nodes=x)


@op("diff_perm", lambda r: {"sp": gen_space(r, (2, 3), 3,
                                            kinds=("simplex", "hypercube")),
                            "ax": r.randrange(3)},
    tags=["list"])
def _(c, p):
    import modepy as mp
    sp, sh = c_space(c, p["sp"])
    nt = c.obj("node_tuples", list(mp.node_tuples_for_space(sp)))
    return mp.diff_matrix_permutation(nt, p["ax"] % sh.dim)


@op("mass", lambda r: dict(_gen_mat(r, 3, ("onb",)), inv=bool(r.getrandbits(1)),
                           seq=r.random() < 0.3),
    weight=1.5, tags=["array", "lapack", "callback", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p)
    f = mp.inverse_mass_matrix if p["inv"] else mp.mass_matrix
    return f(c.fns("f", b.functions) if p["seq"] else b, x)


@op("mass_bad", lambda r: _gen_mat(r, 2, ("mono",)), weight=0.4, tags=["raises", "pool"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p)
    return mp.mass_matrix(b, x)


def _q(c, space, shape):
    import modepy as mp
    return mp.quadrature_for_space(space, shape)


def mk_vol_quad(c, spj, extra=2):
    import modepy as mp
    shape = c_shape(c, spj[0])
    o = (max(spj[1]) if isinstance(spj[1], list) else spj[1])
    # cheap rules that do not pull the large tables into every child
    key = ["volquad", spj[0], o, extra]

    def build():
        n = o + extra
        if spj[0][0] == "S" and spj[0][1] >= 2:
            return mp.GrundmannMoellerSimplexQuadrature(n//2 + 1, spj[0][1])

        def one(s):
            if s[0] == "S" and s[1] == 1:
                return mp.LegendreGaussQuadrature(n, force_dim_axis=True)
            if s[0] == "S":
                return mp.GrundmannMoellerSimplexQuadrature(n//2 + 1, s[1])
            return mp.LegendreGaussTensorProductQuadrature(n, s[1])
        if spj[0][0] == "T":
            return mp.TensorProductQuadrature([one(s) for s in spj[0][1]])
        return one(spj[0])
    return c.obj("quad", c.shared(key, build))


@op("nodal_quad_test", lambda r: dict(_gen_mat(r, 2, ("onb",)), mp=r.random() < 0.3),
    weight=1, tags=["array", "callback", "lapack", "pool", "quadin"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p)
    q = mk_vol_quad(c, p["sp"], 1)
    kw = {}
    if p["mp"]:
        kw["test_function_node_map"] = c.fn("map", lambda y: 0.5*y)
    return mp.nodal_quadrature_test_matrix(
        q, c.fns("t", b.functions), c.fns("i", b.functions), x, **kw)


@op("bilinear", lambda r: dict(_gen_mat(r, 2, ("onb",)), out=r.random() < 0.4,
                               mp=r.random() < 0.3),
    weight=1.5, tags=["array", "callback", "lapack", "pool", "quadin"])
def _(c, p):
    import modepy as mp
    b, sp, sh, x = _bn(c, p)
    q = mk_vol_quad(c, p["sp"], 1)
    kw = {}
    if p["mp"]:
        kw["test_function_node_map"] = c.fn("map", lambda y: 0.5*y)
    if p["out"]:
        kw["output_nodes"] = c.arr("out", nodes_for(c, sp, sh, "clustered")*0.97)
    fs = c.fns("f", b.functions)
    return mp.nodal_quadrature_bilinear_form_matrix(q, fs, fs, fs, fs, x, **kw)


@op("spectral_diag", lambda r: {"n": r.randint(1, 4), "d": r.randint(1, 3),
                                "l": bool(r.getrandbits(1)), "bad": r.random() < 0.1},
    tags=["pool", "quadin"])
def _(c, p):
    import modepy as mp
    if p["bad"]:
        return mp.spectral_diag_nodal_mass_matrix(
            mp.LegendreGaussQuadrature(2, force_dim_axis=True))
    cls = (mp.LegendreGaussLobattoTensorProductQuadrature if p["l"]
           else mp.LegendreGaussTensorProductQuadrature)
    q = c.obj("quad", c.shared(["lgtp", p["l"], p["n"], p["d"]],
                               lambda: cls(p["n"], p["d"])))
    return mp.spectral_diag_nodal_mass_matrix(q)


@op("face_mass", lambda r: {"d": ch(r, 1, 2, 3), "n": r.randint(1, 2), "i": r.randrange(3),
                            "f": ch(r, "modal", "nodal", "mquad", "nquad", "vq", "mvq")},
    weight=1, tags=["callback", "lapack", "quadin", "pool", "array"])
def _(c, p):
    import modepy as mp
    d, n = p["d"], p["n"]
    shj = ["S", d]
    b, sp, sh = c_basis(c, [shj, n], "onb")
    x = c.arr("vol", nodes_for(c, sp, sh))
    if p["f"] in ("vq", "mvq"):
        q = mk_vol_quad(c, [shj, n], 2)
        from modepy.matrices import modal_quad_mass_matrix
        if p["f"] == "vq":
            return mp.nodal_quad_mass_matrix(q, c.fns("f", b.functions), x)
        return modal_quad_mass_matrix(q, c.fns("f", b.functions))
    face = mp.faces_for_shape(sh)[p["i"] % sh.nfaces]
    fsp = mp.space_for_shape(face, n)
    fb = mp.orthonormal_basis_for_space(fsp, face)
    if d == 1:
        q = mp.ZeroDimensionalQuadrature()
    elif d == 2:
        q = mp.LegendreGaussQuadrature(n+1, force_dim_axis=True)
    else:
        q = mp.GrundmannMoellerSimplexQuadrature(n+1, 2)
    q = c.obj("quad", q)
    tf, vf = c.fns("trial", fb.functions), c.fns("test", b.functions)
    if p["f"] == "modal":
        return mp.modal_mass_matrix_for_face(face, q, tf, vf)
    if p["f"] == "nodal":
        fx = c.arr("fn", mp.edge_clustered_nodes_for_space(fsp, face))
        return mp.nodal_mass_matrix_for_face(face, q, tf, vf, x, fx)
    if p["f"] == "mquad":
        return mp.modal_quad_mass_matrix_for_face(face, q, vf)
    return mp.nodal_quad_mass_matrix_for_face(face, q, vf, x)

# }}}


# {{{ quadratures

@op("jacobi_gauss", lambda r: {"ab": _ab(r), "n": r.randint(0, 6), "fd": r.random() < 0.6,
                               "be": ch(r, None, None, None, "scipy", "builtin", "bad")},
    weight=2, tags=["lapack", "scipy", "quadout"])
def _(c, p):
    import modepy as mp
    return mp.JacobiGaussQuadrature(*p["ab"], p["n"], backend=p["be"],
                                    force_dim_axis=p["fd"])


@op("gauss_family", lambda r: {"k": ch(r, "lg", "ch1", "ch2", "gg", "gl"),
                               "n": _n1(r, 7), "fd": r.random() < 0.6,
                               "be": ch(r, None, None, "scipy")},
    weight=1.5, tags=["lapack", "scipy", "quadout"])
def _(c, p):
    import modepy as mp
    kw = {"backend": p["be"], "force_dim_axis": p["fd"]}
    n = p["n"]
    return {"lg": lambda: mp.LegendreGaussQuadrature(n, **kw),
            "ch1": lambda: mp.ChebyshevGaussQuadrature(n, kind=1, **kw),
            "ch2": lambda: mp.ChebyshevGaussQuadrature(n, kind=2, **kw),
            "gg": lambda: mp.GaussGegenbauerQuadrature(1.5, n, **kw),
            "gl": lambda: mp.GaussLegendreQuadrature(n, **kw)}[p["k"]]()


@op("lobatto", lambda r: {"k": ch(r, "lgl", "jgl", "nodes", "lnodes"),
                          "a": ch(r, 0, 1, 2, 0.5), "n": _n1(r, 7),
                          "fd": r.random() < 0.6, "be": ch(r, None, None, "scipy")},
    weight=1.5, tags=["lapack", "scipy", "quadout"])
def _(c, p):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes)
    kw = {"backend": p["be"], "force_dim_axis": p["fd"]}
    a, n = p["a"], p["n"]
    return {"lgl": lambda: mp.LegendreGaussLobattoQuadrature(n, **kw),
            "jgl": lambda: mp.JacobiGaussLobattoQuadrature(a, a, n, **kw),
            "nodes": lambda: jacobi_gauss_lobatto_nodes(a, a, n, **kw),
            "lnodes": lambda: legendre_gauss_lobatto_nodes(n, **kw)}[p["k"]]()


@op("cc_fejer", lambda r: {"k": ch(r, "cc", "f1", "f2", "f3"), "n": _n1(r, 9),
                           "fd": r.random() < 0.6}, tags=["quadout"], weight=1.5)
def _(c, p):
    import modepy as mp
    if p["k"] == "cc":
        return mp.ClenshawCurtisQuadrature(p["n"], force_dim_axis=p["fd"])
    return mp.FejerQuadrature(p["n"], kind=int(p["k"][1]), force_dim_axis=p["fd"])


@op("grundmann", lambda r: {"k": r.randint(0, 3), "d": r.randint(0, 3)},
    tags=["quadout"])
def _(c, p):
    import modepy as mp
    return mp.GrundmannMoellerSimplexQuadrature(p["k"], p["d"])


def _tab(r, n, *edges):
    return r.choice(edges) if r.random() < 0.4 else r.randint(0, n)


@op("table_xg", lambda r: {"o": _tab(r, 16, 15, 16, 20, 21, 30, 50, 51), "d": ch(r, 2, 2, 3, 3, 4)},
    weight=0.5, tags=["table", "quadout"])
def _(c, p):
    import modepy as mp
    return mp.XiaoGimbutasSimplexQuadrature(p["o"], p["d"])


@op("table_vr", lambda r: {"o": _tab(r, 10, 9, 10, 11, 12, 18, 19, 20), "d": ch(r, 2, 2, 3, 3, 4)},
    weight=0.7, tags=["table", "quadout"])
def _(c, p):
    import modepy as mp
    return mp.VioreanuRokhlinSimplexQuadrature(p["o"], p["d"])


@op("table_wv", lambda r: {"o": _tab(r, 12, 10, 11, 16, 18, 20, 21), "d": ch(r, 2, 2, 3, 3, 4)},
    weight=0.7, tags=["table", "quadout"])
def _(c, p):
    import modepy as mp
    return mp.WitherdenVincentQuadrature(p["o"], p["d"])


@op("table_js", lambda r: {"o": _tab(r, 12, 1, 2, 19, 20, 21), "d": ch(r, 3, 3, 2)},
    weight=0.5, tags=["table", "quadout"])
def _(c, p):
    import modepy as mp
    return mp.JaskowiecSukumarQuadrature(p["o"], p["d"])


@op("quad_for_space", lambda r: {"sp": gen_space(r, (1, 2, 3), 3)
                                 if r.random() < 0.7 else
                                 ch(r, [["S", 2], ch(r, 6, 14, 15, 16, 17, 20, 30, 50)],
                                    [["S", 3], ch(r, 6, 14, 15, 16, 17)])},
    weight=0.6, tags=["table", "lapack", "quadout", "pool"])
def _(c, p):
    import modepy as mp
    sp, sh = c_space(c, p["sp"])
    return mp.quadrature_for_space(sp, sh)


def _gen_q1(r):
    return {"k": ch(r, "lg", "cc", "f1", "lgl"), "n": r.randint(2, 5)}


def mk_q1(q, fd=True):
    import modepy as mp
    n = q["n"]
    return {"lg": lambda: mp.LegendreGaussQuadrature(n, force_dim_axis=fd),
            "cc": lambda: mp.ClenshawCurtisQuadrature(n, force_dim_axis=fd),
            "f1": lambda: mp.FejerQuadrature(n, force_dim_axis=fd),
            "lgl": lambda: mp.LegendreGaussLobattoQuadrature(n, force_dim_axis=fd),
            }[q["k"]]()


@op("tp_quad", lambda r: {"qs": [_gen_q1(r) for _ in range(r.randint(0, 3))]},
    tags=["quadout", "callback", "quadin", "pool", "iterables"])
def _(c, p):
    import modepy as mp
    qs = [c.obj(f"q{i}", c.shared(["q1", q], lambda q=q: mk_q1(q)))
          for i, q in enumerate(p["qs"])]
    return mp.TensorProductQuadrature(c.items("quads", qs))


@op("lgtp_quad", lambda r: {"n": r.randint(0, 4), "d": r.randint(1, 3),
                            "l": bool(r.getrandbits(1))}, tags=["quadout", "lapack"])
def _(c, p):
    import modepy as mp
    cls = (mp.LegendreGaussLobattoTensorProductQuadrature if p["l"]
           else mp.LegendreGaussTensorProductQuadrature)
    return cls(p["n"], p["d"])


@op("transformed_1d", lambda r: {"q": _gen_q1(r), "l": ch(r, -1, 0, 0.5),
                                 "r": ch(r, 0.5, 1, 2.5), "fd": r.random() < 0.5},
    tags=["quadout", "quadin", "pool"])
def _(c, p):
    from modepy.quadrature import Transformed1DQuadrature
    q = c.obj("q", c.shared(["q1", p["q"], p["fd"]], lambda: mk_q1(p["q"], p["fd"])))
    return Transformed1DQuadrature(q, p["l"], p["r"])


@op("quad_call", lambda r: {"q": _gen_q1(r), "fd": r.random() < 0.5,
                            "v": ch(r, 0, 0, 1, 1, "view", "kept")},
    weight=1.5, tags=["callback", "quadin", "pool"])
def _(c, p):
    q = c.obj("q", c.shared(["q1", p["q"], p["fd"]], lambda: mk_q1(p["q"], p["fd"])))
    kept = c.arr("table", np.cos(np.asarray(q.nodes).reshape(-1, q.nodes.shape[-1])[0]))

    def f(x):
        y = x[0] if x.ndim > 1 else x
        if p["v"] == "view":
            return y                # the rule's own nodes
        if p["v"] == "kept":
            return kept             # the caller's own table
        return np.array([y**2, np.cos(y), 1+0*y]) if p["v"] else np.exp(y)
    return q(c.fn("f", f))


@op("quad_call_nd", lambda r: {"sp": gen_space(r, (1, 2, 3), 2),
                               "v": ch(r, 0, 0, 1, 2)},
    tags=["callback", "quadin", "pool"])
def _(c, p):
    q = mk_vol_quad(c, p["sp"], 2)
    if p["v"] == 1:
        return q(c.fn("f", lambda x: x[0])), q(c.fn("g", lambda x: x))
    if p["v"] == 2:
        kept = c.arr("table", np.cos(np.asarray(q.nodes)))
        return q(c.fn("f", lambda x: kept[-1])), q(c.fn("g", lambda x: kept))
    return q(c.fn("f", lambda x: np.sum(x, axis=0)**2 + 1)), q.exact_to, q.dim


@op("zero_d_quad", lambda r: {"v": r.randrange(3)}, weight=0.4,
    tags=["quadout", "callback"])
def _(c, p):
    import modepy as mp
    q = mp.ZeroDimensionalQuadrature()
    return q, q(c.fn("f", lambda x: np.full(x.shape[-1], 2.0 + p["v"])))


@op("kronrod", lambda r: {"n": _big(r, 9, 15)}, weight=1.5, tags=["cache", "lapack"])
def _(c, p):
    from modepy.quadrature.kronrod import kronrod
    return kronrod(p["n"])


@op("gauss_rule", lambda r: {"n": r.randint(0, 6)}, weight=0.7, tags=["lapack"])
def _(c, p):
    from modepy.quadrature.kronrod import gauss
    return gauss(p["n"])


@op("kronrod_quad", lambda r: {"n": r.randint(1, 8), "c": bool(r.getrandbits(1))},
    tags=["cache", "callback"])
def _(c, p):
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    q = make_kronrod_quadrature(p["n"])
    if p["c"]:
        return q(c.fn("f", lambda x: np.exp(x))), q.dim
    return q


INTEGRANDS = {
    "poly": lambda x: x**2 + 0.5*x + 1,
    "exp": lambda x: np.exp(-x*x),
    "osc": lambda x: np.cos(7*x),
    "abs": lambda x: abs(x - 0.3),
    "cplx": lambda x: np.exp(1j*x),
    "rat": lambda x: 1/(1 + x*x),
    "step": lambda x: 1.0 if x > 0.41 else 0.0,
}


@op("quadgk", lambda r: {"f": ch(r, *INTEGRANDS),
                         "iv": ch(r, [0, 1], [-1, 2], [0, 0.5, 1], [1, 0],
                                  ["-inf", "inf"], [0, "inf"], ["-inf", 0.5]),
                         "n": r.randint(2, 8), "me": ch(r, 60, 120, 250),
                         "rt": ch(r, 1.49e-8, 1e-5, 1e-3)},
    weight=2, tags=["cache", "callback"])
def _(c, p):
    from modepy.quadrature.kronrod import quadgk
    iv = [float(x) if isinstance(x, str) else x for x in p["iv"]]
    f = INTEGRANDS[p["f"]]
    if any(isinstance(x, str) for x in p["iv"]) and p["f"] in (
            "poly", "osc", "abs", "cplx", "step"):
        f = INTEGRANDS["exp"] if p["f"] != "abs" else INTEGRANDS["rat"]
    return quadgk(c.fn("f", f), *iv, order=p["n"], maxevals=p["me"], reltol=p["rt"])


def _gen_map(r):
    return {"m": ch(r, "id", "sausage", "kte", "ktea", "strip", "strip"),
            "rho": ch(r, 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2.0) if r.random() < 0.5
            else 1.08 + r.randrange(100)/80,
            "deg": ch(r, 1, 3, 5, 9, 11, 13, 15, 21, 2*r.randint(0, 20)+1), "n": r.randint(1, 6), "s": g_seed(r)}


def mk_map(p):
    from functools import partial

    from modepy.quadrature import transplanted as t
    return {"id": lambda: t.map_identity,
            "sausage": lambda: partial(t.map_sausage, degree=p["deg"]),
            "kte": lambda: partial(t.map_kosloff_tal_ezer, rho=p["rho"]),
            "ktea": lambda: partial(t.map_kosloff_tal_ezer, alpha=1/p["rho"]),
            "strip": lambda: partial(t.map_strip, rho=p["rho"])}[p["m"]]()


@op("map1d", _gen_map, weight=1.5, tags=["array", "scipy", "cache"])
def _(c, p):
    return mk_map(p)(c.arr("s", pts(1, p["n"], p["s"])[0]))


@op("transplanted", lambda r: dict(_gen_map(r), fd=r.random() < 0.5, lg=r.random() < 0.5),
    weight=1.2, tags=["quadout", "callback", "scipy", "cache", "quadin", "pool"])
def _(c, p):
    import modepy as mp
    m = mk_map(p)
    if p["m"] != "id":
        m = c.fn("map", m)
    if p["lg"]:
        return mp.transplanted_legendre_gauss_quadrature(p["n"], m,
                                                         force_dim_axis=p["fd"])
    q = c.obj("q", c.shared(["lgq", p["n"], p["fd"]],
                            lambda: mp.LegendreGaussQuadrature(
                                p["n"], force_dim_axis=p["fd"])))
    return mp.transplanted_1d_quadrature(q, m)


@op("map_bad", lambda r: {"k": r.randrange(5)}, weight=0.5, tags=["raises", "cache"])
def _(c, p):
    from modepy.quadrature import transplanted as t
    s = np.array([-0.5, 0.25])
    return [lambda: t.map_sausage(s, 2), lambda: t.map_strip(np.array([1.0, 0.0])),
            lambda: t.map_strip(s, rho=0.5),
            lambda: t.map_kosloff_tal_ezer(s, alpha=2.0),
            lambda: t.map_kosloff_tal_ezer(s, rho=1.0)][p["k"]]()

# }}}


# {{{ construction

def _cbasis(n, k):
    import modepy as mp
    if k == "tri":
        b = mp.monomial_basis_for_space(mp.PN(2, n), mp.Simplex(2))
        return b.functions, mp.GrundmannMoellerSimplexQuadrature(n+1, 2)
    b = mp.monomial_basis_for_space(mp.PN(1, n), mp.Simplex(1))
    return b.functions, mp.LegendreGaussQuadrature(n+2, force_dim_axis=True)


@op("orthogonalize", lambda r: {"n": ch(r, 1, 1, 2, 3, 5, 6), "k": ch(r, "tri", "seg"),
                                "s": g_seed(r), "m": r.randint(1, 3)},
    weight=1, tags=["callback", "lapack", "scipy", "array"])
def _(c, p):
    from modepy.quadrature.construction import orthogonalize_basis
    fs, q = _cbasis(p["n"], p["k"])
    onb = orthogonalize_basis(c.fn("integrate", q), c.obj("basis", list(
        c.fns("f", fs))))
    x = c.arr("x", pts(2 if p["k"] == "tri" else 1, p["m"], p["s"]))
    return [np.asarray(f.coefficients) for f in onb], [f(x) for f in onb]


@op("lincomb", lambda r: {"n": r.randint(1, 3), "s": g_seed(r), "m": r.randint(1, 3),
                          "nest": ch(r, 0, 1, 2, 3, 3)},
    tags=["array", "callback"])
def _(c, p):
    from modepy.quadrature.construction import linearly_combine
    fs = list(c.fns("f", _cbasis(p["n"], "tri")[0]))
    x = c.arr("x", pts(2, p["m"], p["s"]))

    def co(name, i, n):
        return c.arr(name, normal(p["s"] + i, n))
    lc = linearly_combine(co("co", 0, len(fs)), c.obj("fs", fs))
    if p["nest"] == 3:
        # combinations over a growing list of functions, as in Gram-Schmidt
        ls = [linearly_combine(co("co0", 1, 1), [fs[0]])]
        for i in range(1, len(fs)):
            ls.append(linearly_combine(co(f"co{i}", i+1, i+1), [*ls, fs[i]]))
            c.obj(f"l{i}", list(ls))
        return [f(x) for f in ls], [len(f.functions) for f in ls]
    if p["nest"]:
        # (the flattening needs at least as many combinations as functions)
        ls = [lc] + [linearly_combine(co(f"co{i}", i+1, len(fs)), fs)
                     for i in range(len(fs)-1)]
        if p["nest"] == 2:
            ls[-1] = fs[0]
        lc = linearly_combine(co("cc", 99, len(ls)), c.obj("ls", ls))
    return lc(x), len(lc.functions)


@op("vr_guess", lambda r: {"n": r.randint(1, 2)}, weight=0.5,
    tags=["callback", "lapack", "heavy"])
def _(c, p):
    import modepy as mp
    from modepy.quadrature.construction import (
        adapt_2d_integrands_to_complex_arg, guess_nodes_vioreanu_rokhlin)
    b = mp.orthonormal_basis_for_space(mp.PN(2, p["n"]), mp.Simplex(2))
    q0 = mp.GrundmannMoellerSimplexQuadrature(p["n"]+1, 2)
    z = q0.nodes[0] + 1j*q0.nodes[1]
    fs = adapt_2d_integrands_to_complex_arg(c.fns("f", b.functions))
    r = guess_nodes_vioreanu_rokhlin(
        c.fn("integrate", lambda f: np.dot(f(z), q0.weights)), fs)
    # power sums: independent of the order of the eigenvalues
    return [np.sum(np.asarray(r)**k) for k in range(1, 4)]


@op("undetermined", lambda r: {"n": r.randint(1, 3), "d": ch(r, 1, 2),
                               "k": ch(r, 0, 0, 1, 2)},
    tags=["callback", "lapack", "array"])
def _(c, p):
    import modepy as mp
    from modepy.quadrature.construction import find_weights_undetermined_coefficients
    sp, sh = mp.PN(p["d"], p["n"]), mp.Simplex(p["d"])
    b = mp.orthonormal_basis_for_space(sp, sh)
    x = c.arr("nodes", mp.edge_clustered_nodes_for_space(sp, sh))
    ref = np.zeros(len(b.functions))
    ref[0] = 2**0.5
    if p["k"] == 1:
        ref = ref[:-1]
    ref = c.arr("ref", ref)
    fs = c.fns("f", b.functions)
    if p["k"] == 2:
        # (harmlessly) overdetermined
        fs = fs + c.fns("f2", b.functions[:1])
        ref = c.arr("ref2", np.concatenate([np.asarray(ref), ref[:1]]))
    return find_weights_undetermined_coefficients(fs, x, ref)


def gn_setup(n, d):
    import modepy as mp
    from modepy.quadrature.construction import find_weights_undetermined_coefficients
    sp, sh = mp.PN(d, n), mp.Simplex(d)
    b = mp.orthonormal_basis_for_space(sp, sh)
    x = mp.edge_clustered_nodes_for_space(sp, sh)
    b2 = mp.orthonormal_basis_for_space(mp.PN(d, n+1), sh)
    ref = np.zeros(len(b2.functions))
    ref[0] = 2**0.5 if d < 3 else 1.0
    w = find_weights_undetermined_coefficients(b.functions, x, ref[:len(b.functions)])
    # away from symmetry the Jacobian has full numerical rank, so that the
    # result does not hinge on a rank decision at rounding level
    g = np_rng(17)
    x = 0.85*x + 0.05*g.normal(size=x.shape)
    w = w*(1 + 0.1*g.normal(size=w.shape))
    return b2, x, w, ref


@op("gauss_newton", lambda r: {"n": r.randint(1, 2), "d": ch(r, 1, 2),
                               "it": r.randint(0, 2)},
    weight=1, tags=["callback", "lapack", "array"])
def _(c, p):
    from modepy.quadrature.construction import (
        quad_gauss_newton_increment, quad_residual_and_jacobian)
    b2, x, w, ref = gn_setup(p["n"], p["d"])
    x, w, ref = c.arr("x", x), c.arr("w", w), c.arr("ref", ref)
    fs = c.fns("f", b2.functions)
    ds = [c.fns(f"d{i}", b2.derivatives(i)) for i in range(p["d"])]
    q = quad_residual_and_jacobian(x, w, fs, ds, ref)
    for _i in range(p["it"]):
        dw, dx = quad_gauss_newton_increment(q)
        x, w = x + 0.5*dx, w + 0.5*dw
        q = quad_residual_and_jacobian(x, w, fs, ds, ref)
    return q, quad_gauss_newton_increment(q) if p["it"] else None

# }}}


# {{{ modal decay

@op("modal_decay", lambda r: {"n": r.randint(2, 4), "d": ch(r, 1, 2), "e": r.randint(1, 3),
                              "s": g_seed(r), "f": ch(r, "fit", "res", "sky"),
                              "ig": ch(r, 1, 1, 2),
                              "dt": r.choice(["nan", "inf"]) if r.random() < 0.2 else "f8"},
    weight=1.5, tags=["array", "lapack"])
def _(c, p):
    from modepy import modal_decay as md
    from math import comb
    nm = comb(p["n"]+p["d"], p["d"])
    co = c.arr("coeffs", as_dtype(normal(p["s"], (p["e"], nm))
                                  * np.exp(-np.arange(nm)*0.4), p["dt"]))
    if p["f"] == "sky":
        return md.skyline_pessimize(co)
    f = (md.fit_modal_decay if p["f"] == "fit"
         else md.estimate_relative_expansion_residual)
    return f(co, p["d"], p["n"], p["ig"])


@op("decay_parts", lambda r: {"n": r.randint(2, 4), "d": ch(r, 1, 2),
                              "ig": ch(r, 0, 1, 2), "f": ch(r, "b", "m", "v")},
    tags=["array", "lapack"])
def _(c, p):
    from modepy import modal_decay as md
    from pytools import generate_nonnegative_integer_tuples_summing_to_at_most as g
    mv = md.make_mode_number_vector(tuple(g(p["n"], p["d"])), p["ig"])
    if p["f"] == "v":
        return mv
    mv = c.arr("mv", mv)
    if p["f"] == "b":
        return md.create_decay_baseline(mv, p["n"])
    return md.get_decay_fit_matrix(mv, p["ig"], c.arr("w", np.ones(len(mv))))


@op("interp_error", lambda r: dict(_gen_mat(r, 3, ("onb",)), t=r.randint(1, 2),
                                   dep=r.random() < 0.3),
    tags=["array", "lapack", "pool"])
def _(c, p):
    from modepy import modal_decay as md
    if p["dep"] and p["sp"][0][0] == "S":
        import modepy as mp
        sp, sh = c_space(c, p["sp"])
        x = c.arr("x", mp.edge_clustered_nodes_for_space(sp, sh))
        return md.simplex_interp_error_coefficient_estimator_matrix(
            x, sp.order, p["t"])
    b, sp, sh, x = _bn(c, p)
    return (md.degree_vector(b),
            md.interp_error_coefficient_estimator_matrix(x, p["t"], b))

# }}}


# {{{ tools

@op("monomial", lambda r: {"e": [r.randint(0, 3) for _ in range(ch(r, 1, 2, 3))],
                           "f": ch(r, 1, 2.5), "m": r.randint(1, 3), "s": g_seed(r)},
    tags=["array", "list"])
def _(c, p):
    from modepy.tools import Monomial
    m = Monomial(c.obj("e", list(p["e"])), p["f"])
    x = c.arr("x", pts(len(p["e"]), p["m"], p["s"]))
    return (m(x), m.simplex_integral(), m.hypercube_integral(), m.diff(0),
            m.diff(len(p["e"])-1)(x), str(m))


def singular(kind, d):
    """Exactly singular matrices of small integers."""
    if kind == 1:
        return np.zeros((d, d))
    return np.outer(np.arange(1., d+1), np.ones(d))*(0 if d == 1 else 1)


@op("affine", lambda r: {"d": ch(r, 1, 2, 3), "s": g_seed(r), "m": r.randint(1, 3),
                         "sing": ch(r, 0, 0, 0, 0, 1, 2)},
    weight=1.5, tags=["array", "lapack", "pool", "memo"])
def _(c, p):
    from modepy.tools import AffineMap
    a = normal(p["s"], (p["d"], p["d"])) + 3*np.eye(p["d"])
    b = normal(p["s"] + 1, p["d"])
    if p["sing"]:
        a = singular(p["sing"], p["d"])
    m = c.shared(["affine", p["d"], p["s"], p["sing"]],
                 lambda: AffineMap(a, b))
    x = c.arr("x", pts(p["d"], p["m"], p["s"]))
    return m(x), m.jacobian, m.inverse(x), m.inverse.inverse(x), m.inverse.jacobian


@op("bary", lambda r: {"d": ch(r, 1, 2, 3), "s": g_seed(r),
                       "m": r.randint(1, 3) if r.random() < 0.6 else
                       ch(r, 7, 20, 33, 50, 120, 400),
                       "f": ch(r, "e2u", "b2u", "u2b", "b2e")},
    weight=1.2, tags=["array"])
def _(c, p):
    from modepy import tools as t
    x = pts(p["d"], p["m"], p["s"])
    if p["f"] == "u2b":
        return t.unit_to_barycentric(c.arr("x", x))
    if p["f"] == "e2u":
        return t.equilateral_to_unit(c.arr("x", x))
    b = np.vstack([1 - np.sum(0.5*(x+1), axis=0), 0.5*(x+1)])
    return (t.barycentric_to_unit if p["f"] == "b2u"
            else t.barycentric_to_equilateral)(c.arr("b", b))


@op("lebesgue", lambda r: {"n": r.randint(1, 2), "d": ch(r, 1, 2),
                           "h": bool(r.getrandbits(1))},
    weight=0.5, tags=["array", "lapack", "heavy"])
def _(c, p):
    import modepy as mp
    from modepy.tools import estimate_lebesgue_constant
    sh = mp.Hypercube(p["d"]) if p["h"] and p["d"] > 1 else mp.Simplex(p["d"])
    n = 1 if p["d"] == 2 else p["n"]
    sp = mp.space_for_shape(sh, n)
    x = c.arr("x", mp.edge_clustered_nodes_for_space(sp, sh))
    return estimate_lebesgue_constant(n, x, sh)


@op("reshape_tp", lambda r: {"sp": gen_space(r, (2, 3), 2), "ax": ch(r, 0, 1, -1),
                             "s": g_seed(r)}, tags=["array", "view", "pool"])
def _(c, p):
    from modepy.tools import (
        reshape_array_for_tensor_product_space as rs,
        unreshape_array_for_tensor_product_space as un)
    sp, sh = c_space(c, p["sp"])
    shp = [3, 3]
    shp[p["ax"]] = sp.space_dim
    a = c.arr("a", normal(p["s"], shp))
    b = rs(sp, a, p["ax"])
    return b, un(sp, b, p["ax"])

# }}}


# {{{ documented-error and edge arguments

@op("bad_args", lambda r: {"k": r.randrange(12)}, weight=0.8, tags=["raises"])
def _(c, p):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    from modepy.quadrature.kronrod import kronrod, quadgk
    from modepy.tools import AffineMap
    lg = lambda: mp.LegendreGaussQuadrature(2, force_dim_axis=True)  # noqa: E731
    return [
        lambda: kronrod(0),
        lambda: quadgk(lambda x: x, 0),
        lambda: quadgk(lambda x: float("nan"), 0, 1),
        lambda: mp.tensor_product_nodes(2),
        lambda: mp.warp_and_blend_nodes(4, 3),
        lambda: mp.warp_and_blend_nodes(1, 3, [(0,)]),
        lambda: Transformed1DQuadrature(lg(), 1, 1),
        lambda: AffineMap(np.zeros((2, 2)), np.zeros(2)).inverse,
        lambda: mp.XiaoGimbutasSimplexQuadrature(3, 5),
        lambda: mp.resampling_matrix(
            mp.basis_for_space(mp.PN(1, 2), mp.Simplex(1)).functions,
            np.zeros((1, 3)), np.zeros((1, 3))),
        lambda: mp.multi_vandermonde((), np.zeros((1, 3))),
        lambda: mp.transplanted_1d_quadrature(
            mp.LegendreGaussTensorProductQuadrature(2, 2), lambda s: (s, s)),
    ][p["k"]]()

# }}}


# {{{ malformed arrays

def _gen_malformed(r):
    names = [n for n, o in OPS.items() if "array" in o.tags and "heavy" not in o.tags
             and n not in ("malformed", "symbolicize")]
    n = r.choice(names)
    # (no nearly singular systems: what comes out of them is not determined)
    return {"o": {"op": n, "p": OPS[n].gen(r)}, "k": ch(r, 0, 0, 0, 1, 1, 2),
            "how": ch(r, "drop", "drop", "droprow", "flat", "lift", "empty")
            if "lapack" in OPS[n].tags else
            ch(r, "drop", "drop", "droprow", "dup", "duprow", "flat", "lift",
               "int", "empty", "scalar")}


def _structure(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind, x.shape
    if isinstance(x, tuple):
        return tuple(_structure(y) for y in x)
    return x if isinstance(x, (str, int)) else type(x).__name__


@op("malformed", _gen_malformed, weight=2.5, tags=["array", "callback", "lapack", "pool"])
def _(c, p):
    """Any operation, one of whose arrays has the wrong shape or type."""
    c.mangle, c.narr = (p["k"], p["how"]), 0
    try:
        x = OPS[p["o"]["op"]].run(c, p["o"]["p"])
        return repr(_structure(canon(x))) if "lapack" in OPS[p["o"]["op"]].tags else x
    finally:
        c.mangle = None

# }}}
