"""C07: a failed numerical substep never becomes a silently wrong result."""
from __future__ import annotations

import numpy as np

from ..catalog import Ctx, OPS, describe, same
from ..core import (
    Prop, Violation, draw_op, neighbour, outcome, quiet, register, shrink_list,
    swarm_names)
from ..faults import measure, perform, strip


def has_sub(o):
    return bool({"lapack", "scipy", "cache", "quadout", "quadin", "pool", "memo"}
                & o.tags)


def finite(c):
    """Are all numbers in a canonical result finite?"""
    if isinstance(c, tuple):
        if c and c[0] == "nd" and len(c) == 4:
            a = c[3]
            if a.dtype == object:
                return True
            return bool(np.all(np.isfinite(a)))
        return all(finite(x) for x in c)
    return True


def partly_visible(got, ref, rtol=1e-8):
    """Every number that is finite where the reference is finite must be right?  No:
    a result in which the breakdown shows (NaN/Inf where the reference has none) is
    a visible failure.  Structure-wise: each array with a wrong finite entry must
    itself show it."""
    if type(got) is not type(ref):
        return finite(got) is False
    if isinstance(got, tuple):
        if got and got[0] == "nd" and len(got) == 4:
            if same(got, ref, rtol):
                return True
            if len(ref) != 4:
                return False
            a, b = got[3], ref[3]
            if a.dtype == object or b.dtype == object or a.shape != b.shape:
                return not finite(got)
            differs = ~((a == b) | (np.isnan(a) & np.isnan(b)))
            return bool(np.any(~np.isfinite(a) & differs))
        if len(got) != len(ref):
            return not finite(got)
        return all(partly_visible(a, b, rtol) for a, b in zip(got, ref))
    return got == ref


DEGEN = ["resampling", "resampling", "diff", "nodal_test", "affine", "mass", "bilinear"]


def degen_points(p, x):
    """Make nodes for which the exact problem has no solution."""
    x = np.array(x)
    if p["how"] == "same":
        x[:] = x[:, :1]
    elif p["how"] == "dup":
        x[:, -1] = x[:, 0]
    elif p["how"] == "line":
        x[-1] = x[-1, 0]
    elif p["how"] == "nan":
        x[0, -1] = np.nan
    return x


def residual(p):
    """Call a function of the library whose linear system cannot be solved (exactly or
    nearly); what it returns, and the equations it then claims to have solved."""
    import modepy as mp
    from modepy.tools import AffineMap
    if p["k"] == "affine":
        d = p["d"]
        a = np.outer(np.arange(1., d+1), np.ones(d)) if d > 1 else np.zeros((1, 1))
        if p["how"] == "same":
            a = np.zeros((d, d))
        if p["how"] == "dup":
            a = a + 1e-17*np.eye(d)
        if p["how"] == "nan":
            a[0, 0] = np.nan
        b = np.ones(d)
        m = AffineMap(a, b)
        for _ in range(p["again"]):
            try:
                m.inverse   # noqa: B018
            except np.linalg.LinAlgError:
                pass
        inv = m.inverse
        if not isinstance(inv, AffineMap):
            return None, [(np.ones(1), np.zeros(1), 1.0)]
        na = np.linalg.norm(a)
        return [inv.a, inv.b], [
            (a @ inv.a, np.eye(d), na*np.linalg.norm(inv.a)),
            (a @ inv.b, -b, na*np.linalg.norm(inv.b))]
    sh = (mp.Simplex if p["shape"] == "s" else mp.Hypercube)(p["d"])
    sp = mp.space_for_shape(sh, p["n"])
    b = mp.basis_for_space(sp, sh)
    x0 = mp.edge_clustered_nodes_for_space(sp, sh)
    x = degen_points(p, x0)
    vold = mp.vandermonde(b.functions, x)

    def eqs(r, v, rhs):
        return (r @ v, rhs, np.linalg.norm(r)*np.linalg.norm(v))
    if p["k"] == "resampling":
        r = mp.resampling_matrix(b.functions, x0, x)
        return [r], [eqs(r, vold, mp.vandermonde(b.functions, x0))]
    if p["k"] == "diff":
        rs = mp.diff_matrices(b, x0, from_nodes=x)
        gs = mp.multi_vandermonde(b.gradients, x0)
        return list(rs), [eqs(r, vold, g) for r, g in zip(rs, gs)]
    if p["k"] == "mass":
        m, mi = mp.mass_matrix(b, x), mp.inverse_mass_matrix(b, x)
        return [m], [eqs(m, mi, np.eye(len(m)))]
    q = mp.quadrature_for_space(mp.space_for_shape(sh, 2*p["n"]), sh)
    vq = mp.vandermonde(b.functions, q.nodes)
    if p["k"] == "nodal_test":
        r = mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, nodes=x)
        return [r], [eqs(vold.T, r, vq.T*q.weights)]
    r = mp.nodal_quadrature_bilinear_form_matrix(
        q, b.functions, b.functions, b.functions, b.functions,
        input_nodes=x0, output_nodes=x)
    v0 = mp.vandermonde(b.functions, x0)
    return [r], [(vold.T @ r @ v0, vq.T*q.weights @ vq,
                  np.linalg.norm(vold)*np.linalg.norm(r)*np.linalg.norm(v0))]


@register
class Substeps(Prop):
    id = "C07"
    quick_runs = 3000
    thorough_runs = 80000
    rule = ("a run counts when a numpy.linalg/scipy substep called by the library was "
            "made to fail or to return a corrupted value; distinct by scenario")
    stubs = ["the failing numpy.linalg / scipy call (pass-through otherwise)"]
    assumptions = ["corrupted substeps return NaN of the right shape, or report "
                   "non-convergence the way the real routine does; plausible but wrong "
                   "finite values cannot be told from right ones by any caller"]

    def gen(self, r, env, i, tier):
        if r.random() < 0.15:
            return {"degen": [{
                "k": r.choice(DEGEN), "d": r.randint(1, 3), "n": r.randint(1, 4),
                "shape": r.choice("ssh"), "again": r.randrange(3),
                "how": r.choice(["same", "same", "dup", "line", "nan"])}
                for _ in range(r.randint(1, 6))]}
        for _ in range(50):
            names = swarm_names(r, 3, has_sub)
            o = draw_op(r, names)
            calls = measure(env, o, "call")
            if calls:
                break
        else:
            o = {"op": "affine", "p": OPS["affine"].gen(r)}
            calls = measure(env, o, "call")
        n = len(calls)
        mode = r.choice(["raise", "nan"])
        k = r.randint(1, max(1, n))
        # norms and determinants are not the interesting ones
        hard = [j+1 for j, c in enumerate(calls)
                if not c.endswith((".norm", ".det"))]
        if hard and r.random() < 0.8:
            k = r.choice(hard)
        f = {"kind": "call", "k": k, "mode": mode, "all": r.random() < 0.25}
        if mode == "raise":
            name = calls[k-1] if k <= n else ""
            f["exc"] = ("RuntimeError" if "scipy.optimize" in name
                        else r.choice(["LinAlgError", "LinAlgError", "LinAlgError",
                                       "MemoryError", "ValueError",
                                       "FloatingPointError"]))
        after = [{"op": o["op"], "p": o["p"]}]
        for _ in range(r.randint(0, 3)):
            a = neighbour(r, o) if r.random() < 0.8 else draw_op(r, names)
            after.append({"op": a["op"], "p": a["p"]})
        return {"op": {"op": o["op"], "p": o["p"]}, "fault": f, "after": after,
                "pool": r.random() < 0.5}

    def run_degen(self, sc):
        quiet()
        st = {"degen": 0, "degen_raised": 0, "degen_visible": 0, "degen_solved": 0}
        for p in sc["degen"]:
            st["degen"] += 1
            try:
                out, eqs = residual(p)
            except Exception:
                # (which class is not this property's business)
                st["degen_raised"] += 1
                continue
            if out is not None and not all(np.all(np.isfinite(a)) for a in out):
                st["degen_visible"] += 1
                continue
            for lhs, rhs, scale in eqs:
                scale = scale + np.linalg.norm(rhs)
                bad = np.linalg.norm(np.asarray(lhs) - rhs)
                if not bad <= 1e-6*scale:
                    return Violation(
                        "silent", f"{p['k']} on data for which the equations cannot be "
                        f"solved returned a finite result with residual {bad:.3g} "
                        f"(scale {scale:.3g})", op=p), st
            st["degen_solved"] += 1
        return None, st

    def prepare(self, sc, env):
        if "degen" in sc:
            return None
        return env.ref(sc["op"]), [env.ref(o) for o in sc["after"]]

    def run(self, sc, prep):
        if "degen" in sc:
            return self.run_degen(sc)
        ref, refs = prep
        quiet()
        pool = {} if sc["pool"] else None
        st = {"fired": 0, "missed": 0, "visible": 0, "raised": 0, "absorbed": 0,
              "after": 0, "where": []}
        o, f = sc["op"], sc["fault"]
        res = perform(o, Ctx(pool=pool), f)
        strip(res)
        if not res.fired:
            st["missed"] = 1
        else:
            st["fired"] = res.fired
            st["where"].append(f"{res.where}:{f['mode']}")
            if res.exc is not None:
                st["raised"] = 1
            elif same(res.outcome, ref):
                st["absorbed"] = 1
            elif partly_visible(res.outcome, ref):
                st["visible"] = 1
            else:
                return Violation(
                    "silent", f"{o['op']} returned a different, finite result although "
                    f"{res.where} (call {f['k']}) "
                    + ("raised " + f["exc"] if f["mode"] == "raise" else
                       f"broke down ({f['mode']})"), op=o,
                    got=describe(res.outcome), expected=describe(ref)), st
        # after an error everything must be as if the call had not been made; what a
        # silent breakdown left in a cache must at least show as NaN
        for pl in (pool, None):
            for o2, r2 in zip(sc["after"], refs):
                st["after"] += 1
                x = outcome(lambda: OPS[o2["op"]].run(Ctx(pool=pl), o2["p"]))
                if not same(x, r2) and (f["mode"] == "raise" or (
                        x[0] == "ok" and not partly_visible(x, r2))):
                    return Violation("aftermath", f"{o2['op']} differs from a fresh "
                                     f"process after {res.where} failed in an earlier "
                                     "call", op=o2, got=describe(x),
                                     expected=describe(r2)), st
        return None, st

    def shrink(self, sc):
        if "degen" in sc:
            for xs in shrink_list(sc["degen"], 1):
                yield {"degen": xs}
            return
        for xs in shrink_list(sc["after"], 0):
            yield dict(sc, after=xs)
        if sc["pool"]:
            yield dict(sc, pool=False)
        if sc["fault"]["all"]:
            yield dict(sc, fault=dict(sc["fault"], all=False))

    def nontrivial(self, sc, st):
        return st.get("fired", 0) + st.get("degen", 0) > 0
