"""C16: what the library keeps between calls is bounded."""
from __future__ import annotations

import gc
import sys
import threading
import weakref

import numpy as np

from ..catalog import OPS, Ctx, InjectedFault, np_rng, pts
from ..core import Prop, Violation, quiet, register, rng_for
from ..natives import Alloc
from ..tracer import Tracer


W = {}      # name -> (function(g, i, t), weight)


def work(weight=1.0):
    def deco(f):
        W[f.__name__.lstrip("_")] = (f, weight)
        return f
    return deco


def sh_sp(g, m=2):
    import modepy as mp
    sh = [mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(1), mp.Hypercube(2),
          mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))][int(g.integers(6))]
    return sh, mp.space_for_shape(sh, int(g.integers(1, m+1)))


def onb(g, m=2):
    import modepy as mp
    sh, sp = sh_sp(g, m)
    f = mp.orthonormal_basis_for_space if g.random() < 0.7 else \
        mp.monomial_basis_for_space
    return f(sp, sh), sp, sh


def xs(g, d, n=4):
    e = g.exponential(size=(d+1, n)) + 1e-3
    e /= e.sum(axis=0)
    return e[1:]*2 - 1


def fn(g):
    a, b = float(g.normal()), float(g.normal())

    def f(x):
        return a*x + b*x*x
    return f


@work()
def shapes(g, i, t):
    import modepy as mp
    sh, sp = sh_sp(g)
    t(sh)
    t(sp)
    t(mp.unit_vertices_for_shape(sh))
    if not type(sh) is mp.TensorProductShape and sh.dim:
        for f in mp.faces_for_shape(sh):
            t(f)
            t(mp.face_normal(f))
            if f.dim:
                x = t(xs(g, f.dim))
                t(f.map_to_volume(x))


@work(2)
def bases(g, i, t):
    b, sp, sh = onb(g)
    t(b), t(sp), t(sh)
    x = t(xs(g, sh.dim))
    k = int(g.integers(3))
    if k == 0:
        [t(f(x)) for f in b.functions]
    elif k == 1:
        [f(x) for f in b.gradients]
    else:
        [f(x) for f in b.derivatives(0)]
    b.mode_ids
    try:
        b.orthonormality_weight()
    except Exception:
        pass


@work()
def nodes(g, i, t):
    import modepy as mp
    sh, sp = sh_sp(g)
    t(mp.edge_clustered_nodes_for_space(sp, sh))
    t(mp.equispaced_nodes_for_space(sp, sh))
    t(mp.random_nodes_for_shape(sh, 3, rng=t(np.random.default_rng(i))))


@work()
def warp(g, i, t):
    import modepy as mp
    from modepy.nodes import warp_factor
    from pytools import generate_nonnegative_integer_tuples_summing_to_at_most as gen
    d, n = int(g.integers(1, 4)), int(g.integers(1, 4))
    nt = list(gen(n, d))
    g.shuffle(nt)
    nt = [tuple(int(k) for k in q) for q in nt]
    t(mp.warp_and_blend_nodes(d, n, nt))
    t(mp.equidistant_nodes(d, n, nt))
    t(warp_factor(n, t(xs(g, 1)[0])))
    t(mp.tensor_product_nodes([t(xs(g, 1)[0]), t(xs(g, 2))]))
    t(mp.tensor_product_nodes(2, t(xs(g, 1)[0])))


@work()
def modes_1d(g, i, t):
    import modepy as mp
    from modepy import modes
    x = t(xs(g, 1)[0])
    a, b = float(g.random()*3), float(g.random()*3)
    t(mp.jacobi(a, b, 3, x))
    t(mp.grad_jacobi(a, b, 3, x))
    y = t(xs(g, 2))
    t(modes.pkdo_2d((1, 2), y))
    modes.grad_pkdo_2d((1, 1), y)
    t(modes.monomial((1, 2), y))
    modes.grad_monomial((1, 2), y)


@work(2)
def matrices(g, i, t):
    import modepy as mp
    b, sp, sh = onb(g)
    t(b)
    n = t(mp.edge_clustered_nodes_for_space(sp, sh) * (1 - 1e-3*g.random()))
    m = t(xs(g, sh.dim))
    t(mp.vandermonde(b.functions, n))
    t(mp.resampling_matrix(b.functions, m, n))
    mp.diff_matrices(b, n)
    mp.multi_vandermonde(b.gradients, n)
    try:
        t(mp.mass_matrix(b, n))
        t(mp.inverse_mass_matrix(b, n))
    except (mp.BasisNotOrthonormal, NotImplementedError) as e:
        t(e)


@work()
def user_vandermonde(g, i, t):
    import modepy as mp
    fs = [t(fn(g)) for _ in range(3)]
    x = t(xs(g, 1)[0])
    t(mp.vandermonde(fs, x))
    t(mp.resampling_matrix([lambda y, k=k: y**k for k in range(3)], t(xs(g, 1)[0]),
                           t(xs(g, 1, 3)[0])))


@work()
def mass(g, i, t):
    import modepy as mp
    n = int(g.integers(1, 4))
    sh = mp.Hypercube(int(g.integers(1, 3)))
    sp = mp.QN(sh.dim, n)
    b = mp.orthonormal_basis_for_space(sp, sh)
    q = t(mp.LegendreGaussTensorProductQuadrature(n+1, sh.dim))
    q2 = t(mp.LegendreGaussLobattoTensorProductQuadrature(n, sh.dim))
    t(mp.spectral_diag_nodal_mass_matrix(q2))
    t(mp.nodal_quad_mass_matrix(q, b.functions, t(mp.edge_clustered_nodes_for_space(
        sp, sh))))
    face = mp.faces_for_shape(sh)[int(g.integers(sh.nfaces))]
    fq = (mp.LegendreGaussQuadrature(n+1, force_dim_axis=True) if sh.dim > 1
          else mp.ZeroDimensionalQuadrature())
    x = t(mp.edge_clustered_nodes_for_space(sp, sh))
    t(mp.nodal_quad_mass_matrix_for_face(t(face), t(fq), b.functions, x))
    t(mp.modal_quad_mass_matrix_for_face(face, fq, b.functions))
    t(mp.nodal_quadrature_bilinear_form_matrix(
        q, b.functions, b.functions, b.functions, b.functions, x))


@work()
def rules(g, i, t):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    a, b = float(g.random()*2), float(g.random()*2)
    n = int(g.integers(1, 6))
    t(mp.JacobiGaussQuadrature(a, b, n, force_dim_axis=True))
    t(mp.GaussGegenbauerQuadrature(0.6 + a, n))
    t(mp.JacobiGaussLobattoQuadrature(a, b, n+1))
    q = t(mp.LegendreGaussQuadrature(n, force_dim_axis=True))
    t(Transformed1DQuadrature(q, a, a + b + 1))
    t(mp.TensorProductQuadrature([q, q]))
    t(mp.ClenshawCurtisQuadrature(n+1))
    t(mp.FejerQuadrature(n+1, 1 + n % 2))
    t(mp.GrundmannMoellerSimplexQuadrature(n % 3, 2))
    try:
        mp.XiaoGimbutasSimplexQuadrature(n*30, 2)
    except mp.QuadratureRuleUnavailable as e:
        t(e)


@work()
def table_rules(g, i, t):
    import modepy as mp
    n = int(g.integers(1, 6))
    t(mp.XiaoGimbutasSimplexQuadrature(n, 2))
    t(mp.VioreanuRokhlinSimplexQuadrature(n, 2))
    t(mp.WitherdenVincentQuadrature(2*n-1, 2))
    t(mp.JaskowiecSukumarQuadrature(n+1, 3))


@work()
def rule_calls(g, i, t):
    import modepy as mp
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    n = int(g.integers(1, 6))
    f = t(fn(g))
    t(mp.LegendreGaussQuadrature(n))(f)
    t(mp.LegendreGaussTensorProductQuadrature(n, 2))(lambda x: f(x[0]))
    t(make_kronrod_quadrature(n))(f)
    t(mp.Quadrature(t(xs(g, 2)), t(g.normal(size=4)), 3))(lambda x: f(x[1]))


@work(2)
def adaptive(g, i, t):
    from modepy.quadrature.kronrod import quadgk
    f = t(fn(g))
    a = float(g.random())
    quadgk(f, a, a + 1 + float(g.random()), order=int(g.integers(2, 6)), maxevals=60,
           abstol=float(1e-5*g.random()))
    e = t(fn(g))
    quadgk(lambda x: e(x)*np.exp(-x*x), -np.inf, np.inf, order=4, maxevals=60)
    # more than the budget allows
    quadgk(lambda x: abs(x - a - 0.5)**0.3, a, a+1, order=int(g.integers(1, 4)),
           maxevals=int(g.integers(8, 80)), reltol=1e-13)
    try:
        quadgk(lambda x: float("nan"), a, a+1)
    except ValueError as ex:
        t(ex)


@work(1.5)
def maps(g, i, t):
    from functools import partial

    import modepy as mp
    from modepy.quadrature import transplanted as tr
    rho = 1.05 + float(g.random())
    s = t(xs(g, 1)[0])
    tr.map_kosloff_tal_ezer(s, rho=rho)
    tr.map_kosloff_tal_ezer(s, alpha=1/rho)
    tr.map_sausage(s, degree=2*int(g.integers(1, 8)) + 1)
    if g.random() < 0.25:
        tr.map_strip(s, rho=rho + 0.1)
        m = t(partial(tr.map_strip, rho=rho + 0.1))
        t(mp.transplanted_1d_quadrature(t(mp.LegendreGaussQuadrature(3)), m))
    m = t(partial(tr.map_kosloff_tal_ezer, rho=rho))
    t(mp.transplanted_1d_quadrature(t(mp.LegendreGaussQuadrature(3)), m))
    a = float(g.random()*0.5)

    def mine(x):
        return x + a*(x - x**3), 1 + a*(1 - 3*x*x)
    t(mp.transplanted_1d_quadrature(mp.LegendreGaussQuadrature(3), t(mine)))


@work()
def affine(g, i, t):
    from modepy.tools import AffineMap
    d = int(g.integers(1, 4))
    m = t(AffineMap(t(g.normal(size=(d, d)) + 3*np.eye(d)), t(g.normal(size=d))))
    t(m.inverse)
    m.jacobian
    m.inverse.jacobian
    t(m(t(xs(g, d))))
    t(m.inverse(xs(g, d)))
    t(m.inverse.inverse)


@work()
def tools(g, i, t):
    import modepy as mp
    from modepy import tools as tl
    d = int(g.integers(1, 4))
    x = t(xs(g, d))
    t(tl.unit_to_barycentric(x))
    t(tl.equilateral_to_unit(x))
    m = t(tl.Monomial(tuple(int(k) for k in g.integers(0, 4, d)), float(g.random())))
    t(m(x))
    m.simplex_integral()
    t(m.diff(0))
    sp = mp.QN(2, 2)
    a = t(g.normal(size=(9,)))
    tl.reshape_array_for_tensor_product_space(sp, a)
    tl.unreshape_array_for_tensor_product_space(
        sp, tl.reshape_array_for_tensor_product_space(sp, a))


@work()
def construction(g, i, t):
    import modepy as mp
    from modepy.quadrature import construction as c
    b = mp.monomial_basis_for_space(mp.PN(1, 2), mp.Simplex(1))
    q = mp.LegendreGaussQuadrature(5, force_dim_axis=True)
    r = c.orthogonalize_basis(q, [t(fn2(g)) for _ in range(2)])
    [t(f) for f in r]
    x = t(xs(g, 1))
    t(r[0](x))
    lc = t(c.linearly_combine(t(g.normal(size=3)), b.functions))
    t(lc(x))
    t(c.find_weights_undetermined_coefficients(b.functions, t(xs(g, 1, 3)),
                                               t(np.array([2.0, 0, 2/3]))))


def fn2(g):
    a = g.normal(size=4)

    def f(x):
        return sum(c*x[0]**k for k, c in enumerate(a))
    return f


@work()
def gauss_newton(g, i, t):
    import modepy as mp
    from modepy.quadrature import construction as c
    b = mp.orthonormal_basis_for_space(mp.PN(1, 3), mp.Simplex(1))
    x, w = t(np.sort(xs(g, 1, 2))), t(1 + 0.1*g.random(2))
    q = t(c.quad_residual_and_jacobian(x, w, b.functions, [b.derivatives(0)],
                                       np.array([2**0.5, 0, 0, 0])))
    c.quad_gauss_newton_increment(q)


@work()
def decay(g, i, t):
    from modepy import modal_decay as md
    co = t(g.normal(size=(2, 6)))
    md.fit_modal_decay(co, 2, 2)
    md.estimate_relative_expansion_residual(co, 2, 2)
    t(md.skyline_pessimize(co))


@work()
def estimators(g, i, t):
    import modepy as mp
    from modepy import modal_decay as md
    b = mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2))
    n = t(mp.edge_clustered_nodes_for_space(mp.PN(2, 2), mp.Simplex(2))*(1-1e-3*g.random()))
    t(md.interp_error_coefficient_estimator_matrix(n, 1, b))


@work(0.3)
def symbolic(g, i, t):
    import modepy as mp
    b = mp.orthonormal_basis_for_space(mp.PN(2, 1), mp.Simplex(2))
    mp.symbolicize_function(b.functions[int(g.integers(3))], 2)


@work()
def failing(g, i, t):
    """Calls that end with a user's exception."""
    import modepy as mp
    from modepy.quadrature.kronrod import quadgk
    k = int(g.integers(6))
    n = [0]
    at = int(g.integers(0, 12))
    x0 = t(xs(g, 1)[0])

    def bad(x):
        n[0] += 1
        if n[0] > at:
            raise InjectedFault(str(i))
        return x*x + x0[0]
    t(bad)
    try:
        if k == 0:
            quadgk(bad, 0, 1 + float(g.random()), maxevals=60)
        elif k == 1:
            mp.vandermonde([bad]*13, x0)
        elif k == 2:
            at = 0
            mp.LegendreGaussQuadrature(3)(bad)
        elif k == 3:
            mp.transplanted_1d_quadrature(mp.LegendreGaussQuadrature(3), bad)
        elif k == 4:
            mp.symbolicize_function(bad, 1)
        else:
            mp.resampling_matrix([bad]*4, x0, x0)
    except Exception:
        pass


class Stop(BaseException):
    pass


@register
class Retention(Prop):
    id = "C16"
    quick_runs = 240
    thorough_runs = 3000
    timeout = 300.0
    hang_budget = 10**12     # long by design
    rule = ("a run counts when all its windows of calls with ever-distinct inputs "
            "completed and at least 100 dropped inputs or results were watched; "
            "distinct by scenario (operation mix, seed, faults, threads)")
    assumptions = [
        "a bounded cache holds fewer than 4000 entries",
        "Python object memory is counted in interpreter blocks and numpy memory in live "
        "bytes; memory inside LAPACK or scipy is not seen"]
    WIN = 120

    def gen(self, r, env, i, tier):
        if r.random() < 0.25:
            # any operation of the vocabulary, with ever new data
            from ..core import draw_op, neighbour
            for _ in range(20):
                o = draw_op(r, None, lambda o: "heavy" not in o.tags)
                if env.nlines(o)[1] <= 1500:
                    break
            else:
                o = {"op": "bary", "p": OPS["bary"].gen(r)}
            return {"mix": [o["op"]], "vocab": True, "seed": r.getrandbits(40),
                    "threads": r.random() < 0.15, "interrupt": r.random() < 0.25,
                    "base": [o["p"]] + [neighbour(r, o)["p"] for _ in range(3)
                                        if r.random() < 0.3],
                    "evict": False, "warn": r.random() < 0.6}
        names = list(W)
        k = r.choice([1, 1, 2, 3])
        ws = [W[n][1] for n in names]
        mix = sorted({r.choices(names, ws)[0] for _ in range(k)})
        return {"mix": mix, "seed": r.getrandbits(40), "threads": r.random() < 0.15,
                "interrupt": r.random() < 0.25, "evict": r.random() < 0.1,
                "warn": r.random() < 0.6}

    def run(self, sc, prep):
        quiet()
        st = {"calls": 0, "watched": 0, "interrupts": 0, "failed_calls": 0,
              "windows": 0, "escalations": 0, "mix": sc["mix"]}
        refs = []

        def t(o):
            try:
                refs.append(weakref.ref(o))
                st["watched"] += 1
            except TypeError:
                pass
            return o

        if sc["warn"]:
            # as users run: warnings are shown, once per text and place
            import warnings
            warnings.resetwarnings()
            warnings.simplefilter("default")
            warnings.showwarning = lambda *a, **kw: None
            np.seterr(all="warn")

        def vocab(g, i, t):
            o = sc["mix"][0]
            p = dict(sc["base"][int(g.integers(len(sc["base"])))])
            for k in ("s", "seed"):
                if isinstance(p.get(k), int):
                    p[k] = int(g.integers(1 << 20))
            c = Ctx()
            try:
                t(OPS[o].run(c, p))
            finally:
                for _n, x in c.inputs:
                    t(x)

        def one(i):
            g = np_rng([sc["seed"], i])
            if sc.get("vocab"):
                f = vocab
            else:
                f = W[sc["mix"][int(g.integers(len(sc["mix"])))]][0]
            k = int(400**g.random()) if sc["interrupt"] and g.random() < 0.3 else None
            st["calls"] += 1

            def ev(tr, frame):
                # (an exception raised by a trace function while another one is being
                # handled leaves CPython's exception stack unpopped: not the
                # library's leak)
                if tr.n >= k and sys.exception() is None:
                    st["interrupts"] += 1
                    raise Stop()
            try:
                if k is None:
                    f(g, i, t)
                else:
                    with Tracer(ev):
                        f(g, i, t)
            except Stop:
                pass
            except Exception:
                # the check is about memory; whether calls work is not its business
                st["failed_calls"] += 1

        def body(i):
            if sc["threads"]:
                th = threading.Thread(target=one, args=(i,))
                th.start()
                th.join()
            else:
                one(i)

        with Alloc() as al:
            def window(start, n):
                for i in range(start, start+n):
                    body(i)
                    if i % 16 == 0:
                        prune()
                st["windows"] += 1
                return measure()

            def prune():
                refs[:] = [x for x in refs if x() is not None]

            def measure():
                for _ in range(3):
                    gc.collect()
                prune()
                return (len(refs), sys.getallocatedblocks(), int(al.st.live))
            n = self.WIN
            window(0, n)
            a = window(n, n)
            b = window(2*n, n)
            if self.grew(a, b, n):
                # suspicious: does it ever stop?  (bounded caches may still be filling)
                st["escalations"] += 1
                at = 3*n
                c = window(at, 3000)
                at += 3000
                c = window(at, 1500)
                d = window(at+1500, 1500)
                g = self.grew(c, d, 1500)
                if g:
                    # a leak keeps its pace; a cache over finitely many keys does not
                    e = window(at+3000, 1500)
                    j = {"objects": 0, "blocks": 1, "bytes": 2}
                    g = [x for x in g if x in self.grew(d, e, 1500)
                         and e[j[x]] - d[j[x]] > 0.7*(d[j[x]] - c[j[x]])]
                if g:
                    alive = self.kinds(refs)
                    return Violation(
                        "growth", f"after {st['calls']} calls of {sc['mix']} the last "
                        f"1500 still left {d[0]-c[0]} dropped objects alive, "
                        f"{d[1]-c[1]} interpreter blocks and {d[2]-c[2]} bytes of array "
                        f"memory; still alive: {alive}", grew=g), st
        return None, st

    def grew(self, a, b, n):
        long = n > 1000
        out = []
        if b[0] - a[0] > (0.03 if long else 0.05)*n:
            out.append("objects")
        if b[1] - a[1] > (0.08 if long else 0.3)*n:
            out.append("blocks")
        if b[2] - a[2] > (0.5 if long else 2)*n:
            out.append("bytes")
        return out

    def kinds(self, refs):
        c = {}
        for x in refs:
            o = x()
            k = type(o).__name__
            c[k] = c.get(k, 0) + 1
        return c

    def nontrivial(self, sc, st):
        return st.get("watched", 0) >= 100

    def shrink(self, sc):
        if len(sc["mix"]) > 1:
            for m in sc["mix"]:
                yield dict(sc, mix=[m])
        for k in ("threads", "interrupt", "evict"):
            if sc[k]:
                yield dict(sc, **{k: False})
