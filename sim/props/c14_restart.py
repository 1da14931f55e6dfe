"""C14: saved objects survive a transfer to another process; checkpointed
computations continue after a crash as if nothing had happened."""
from __future__ import annotations

import base64
import copy
import pickle
from functools import partial

import numpy as np

from ..catalog import (
    canon, ch, describe, gen_shape, gen_space, mk_shape, np_rng, pts, same, shape_dim,
    walk_arrays)
from ..core import (
    Prop, Violation, draw_op, exc_canon, fork_call, outcome, quiet, register,
    shrink_list)
from ..ops import _cbasis, gn_setup, mk_map, mk_q1
from ..peer import remote
from ..tracer import Tracer


FACT = {}


def fact(name, gen, weight=1.0):
    def deco(mk):
        def use_deco(use):
            FACT[name] = (gen, mk, use, weight)
            return use
        return use_deco
    return deco


def space_of(p):
    import modepy as mp
    sh = mk_shape(p["sp"][0])
    o = p["sp"][1]
    return mp.space_for_shape(sh, tuple(o) if isinstance(o, list) else o), sh


def basis_of(p):
    import modepy as mp
    sp, sh = space_of(p)
    return {"onb": mp.orthonormal_basis_for_space,
            "mono": mp.monomial_basis_for_space,
            "any": mp.basis_for_space}[p["fam"]](sp, sh)


def gen_sp(r, m=2):
    return {"sp": gen_space(r, (1, 2, 3), m)}


def gen_b(r, m=2):
    return dict(gen_sp(r, m), fam=ch(r, "onb", "onb", "mono", "any"), i=r.randrange(20),
                ax=r.randrange(3), s=r.randrange(8))


def u_shape(o, p):
    import modepy as mp
    out = [o.dim, o.nvertices, o.nfaces, mp.unit_vertices_for_shape(o), repr(o)]
    if not (isinstance(o, mp.TensorProductShape) and not isinstance(o, mp.Hypercube)):
        if 0 < o.dim < 4:
            out.append([mp.face_normal(f) for f in mp.faces_for_shape(o)])
    return out


fact("shape", lambda r: {"sh": gen_shape(r, (1, 2, 3, 4))}, 2)(
    lambda p: mk_shape(p["sh"]))(u_shape)


def mk_face(p):
    import modepy as mp
    fs = mp.faces_for_shape(mk_shape(p["sh"]))
    return fs[p["i"] % len(fs)]


def u_face(o, p):
    import modepy as mp
    out = [o.dim, o.face_index, repr(o.volume_shape), tuple(o.volume_vertex_indices),
           mp.face_normal(o), mp.face_normal(o, normalize=False), o.nvertices, o.nfaces]
    if o.dim:
        out.append(o.map_to_volume(pts(o.dim, 3, 1)))
        out.append(mp.unit_vertices_for_shape(o))
    else:
        out.append(o.map_to_volume(np.zeros((0, 1))))
    return out


fact("face", lambda r: {"sh": gen_shape(r, (1, 2, 3), ("simplex", "hypercube")),
                        "i": r.randrange(6)}, 2)(mk_face)(u_face)


def u_space(o, p):
    import modepy as mp
    sh = mk_shape(p["sp"][0])
    out = [o.spatial_dim, o.space_dim, repr(o), mp.node_tuples_for_space(o),
           mp.edge_clustered_nodes_for_space(o, sh),
           mp.equispaced_nodes_for_space(o, sh)]
    try:
        out.append(o.order)
    except AttributeError:
        out.append(None)
    b = mp.basis_for_space(o, sh)
    out.append([f(pts(o.spatial_dim, 2, 0)) for f in b.functions])
    return out


fact("space", gen_sp, 2)(lambda p: space_of(p)[0])(u_space)


def u_basis(o, p):
    x = pts(shape_dim(p["sp"][0]), 3, p["s"])
    out = [o.mode_ids, [f(x) for f in o.functions]]
    if p["fam"] != "any" or p["i"] % 2:
        out.append([g(x) for g in o.gradients])
    try:
        out.append(o.orthonormality_weight())
    except Exception as e:
        out.append(exc_canon(e))
    return out


fact("basis", gen_b, 2)(basis_of)(u_basis)


def u_fn(o, p):
    return o(pts(shape_dim(p["sp"][0]), 3, p["s"]))


fact("mode", lambda r: gen_b(r, 3), 2)(
    lambda p: (lambda fs: fs[p["i"] % len(fs)])(basis_of(p).functions))(u_fn)
fact("grad", gen_b, 2)(
    lambda p: (lambda fs: fs[p["i"] % len(fs)])(basis_of(p).gradients))(u_fn)
fact("deriv", gen_b, 2)(
    lambda p: (lambda fs: fs[p["i"] % len(fs)])(basis_of(p).derivatives(
        p["ax"] % shape_dim(p["sp"][0]))))(u_fn)


def mk_quad(p):
    import modepy as mp
    k, n, d = p["k"], p["n"], p["d"]
    from modepy.quadrature import Transformed1DQuadrature
    return {
        "q1": lambda: mk_q1(p["q"], p["fd"]),
        "jg": lambda: mp.JacobiGaussQuadrature(0.5, 1.5, n, force_dim_axis=p["fd"]),
        "ch": lambda: mp.ChebyshevGaussQuadrature(n, 1 + n % 2,
                                                  force_dim_axis=p["fd"]),
        "gg": lambda: mp.GaussGegenbauerQuadrature(1.5, n, force_dim_axis=p["fd"]),
        "jgl": lambda: mp.JacobiGaussLobattoQuadrature(0.5, 0.5, n+1,
                                                       force_dim_axis=p["fd"]),
        "gm": lambda: mp.GrundmannMoellerSimplexQuadrature(n % 3, d),
        "xg": lambda: mp.XiaoGimbutasSimplexQuadrature(n, 2),
        "vr": lambda: mp.VioreanuRokhlinSimplexQuadrature(n, 2),
        "wv": lambda: mp.WitherdenVincentQuadrature(2*n-1, 2),
        "js": lambda: mp.JaskowiecSukumarQuadrature(n, 3),
        "tp": lambda: mp.TensorProductQuadrature([mk_q1(p["q"])]*d),
        "lgtp": lambda: mp.LegendreGaussTensorProductQuadrature(n, d),
        "lgltp": lambda: mp.LegendreGaussLobattoTensorProductQuadrature(n, d),
        "tr": lambda: Transformed1DQuadrature(mk_q1(p["q"], p["fd"]), 0.25, 2),
        "zero": lambda: mp.ZeroDimensionalQuadrature(),
        "plain": lambda: mp.Quadrature(pts(d, 4, n), np_rng(n).normal(size=4)),
        "plainx": lambda: mp.Quadrature(pts(d, 4, n), np_rng(n).normal(size=4), n),
    }[k]()


def u_quad(o, p):
    out = [o, o.dim, type(o).__name__]
    out.append(o(lambda x: np.cos(np.sum(x, axis=0)) if x.ndim > 1 else np.exp(x)))
    if hasattr(o, "quadratures"):
        out.append([q(lambda x: x[0]**2) for q in o.quadratures])
    return out


fact("quad", lambda r: {
    "k": ch(r, "q1", "jg", "ch", "gg", "jgl", "gm", "xg", "vr", "wv", "js", "tp",
            "lgtp", "lgltp", "tr", "zero", "plain", "plainx"),
    "n": r.randint(1, 4), "d": r.randint(1, 3), "fd": r.random() < 0.5,
    "q": {"k": ch(r, "lg", "cc", "f1", "lgl"), "n": r.randint(2, 4)}}, 3)(
        mk_quad)(u_quad)


def mk_kq(p):
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    return make_kronrod_quadrature(p["n"])


def u_kq(o, p):
    return [o, o(np.exp), o.dim, o.exact_to]


fact("kronrod", lambda r: {"n": r.randint(1, 8)})(mk_kq)(u_kq)


def mk_mono(p):
    from modepy.tools import Monomial
    return Monomial(p["e"], p["f"])


def u_mono(o, p):
    x = pts(len(p["e"]), 3, 2)
    return [o(x), o.diff(0), o.diff(len(p["e"])-1)(x), o.simplex_integral(),
            o.hypercube_integral(), str(o)]


fact("monomial", lambda r: {"e": [r.randint(0, 3) for _ in range(ch(r, 1, 2, 3))],
                            "f": ch(r, 1, 2.5)})(mk_mono)(u_mono)


def mk_affine(p):
    from modepy.tools import AffineMap
    g = np_rng(p["s"])
    return AffineMap(g.normal(size=(p["d"], p["d"])) + 3*np.eye(p["d"]),
                     g.normal(size=p["d"]))


def u_affine(o, p):
    x = pts(p["d"], 3, 3)
    return [o(x), o.inverse(x), o.jacobian, o.inverse.inverse(x), o.inverse.jacobian,
            o.a, o.b]


fact("affine", lambda r: {"d": r.randint(1, 3), "s": r.randrange(8)}, 2)(
    mk_affine)(u_affine)


def mk_lc(p):
    from modepy.quadrature.construction import linearly_combine
    fs = list(_cbasis(p["n"], p["k"])[0])
    if p["ortho"]:
        from modepy.quadrature.construction import orthogonalize_basis
        fs, q = _cbasis(p["n"], p["k"])
        r = orthogonalize_basis(q, fs)
        return r[p["i"] % len(r)]
    return linearly_combine(np_rng(p["s"]).normal(size=len(fs)), fs)


def u_lc(o, p):
    x = pts(2 if p["k"] == "tri" else 1, 3, 4)
    return [o(x), np.asarray(o.coefficients), len(o.functions)]


fact("lincomb", lambda r: {"n": r.randint(1, 3), "s": r.randrange(8), "i": r.randrange(9),
                           "k": ch(r, "tri", "seg"), "ortho": r.random() < 0.4})(
                               mk_lc)(u_lc)


def mk_qrj(p):
    from modepy.quadrature.construction import quad_residual_and_jacobian
    b2, x, w, ref = gn_setup(p["n"], p["d"])
    return quad_residual_and_jacobian(
        x, w, b2.functions, [b2.derivatives(i) for i in range(p["d"])], ref)


def u_qrj(o, p):
    from modepy.quadrature.construction import quad_gauss_newton_increment
    return [o, quad_gauss_newton_increment(o)]


fact("qrj", lambda r: {"n": r.randint(1, 2), "d": r.randint(1, 2)})(mk_qrj)(u_qrj)


def u_map(o, p):
    return o(pts(1, 4, 1)[0])


fact("map", lambda r: {"m": ch(r, "id", "sausage", "kte", "ktea", "strip"),
                       "rho": ch(r, 1.2, 1.4, 1.7), "deg": ch(r, 1, 3, 5)}, 0.7)(
                           mk_map)(u_map)


def mk_misc(p):
    import modepy as mp
    from modepy.quadrature import _Inf, inf
    return [inf, mp.QuadratureRuleUnavailable("order 99"),
            mp.BasisNotOrthonormal("no"), _Inf()][p["k"]]


def u_misc(o, p):
    from modepy.quadrature import inf, isinf
    if p["k"] in (0, 3):
        return [o == inf, inf == o, isinf(o), o > 3, 3 < o, o >= inf]
    return [type(o).__name__, str(o)]


fact("misc", lambda r: {"k": r.randrange(4)}, 0.5)(mk_misc)(u_misc)


def mk_graph(p):
    """Several objects that refer to each other, as a program's state would."""
    import modepy as mp
    b = basis_of(p)
    sp, sh = space_of(p)
    n = mp.edge_clustered_nodes_for_space(sp, sh)
    return {"shape": sh, "space": sp, "basis": b, "nodes": n, "fns": b.functions,
            "same": [sh, sp, b], "rng": np_rng(p["s"]), "vdm": mp.vandermonde(
                b.functions, n), "part": partial(mp.vandermonde, b.functions)}


def u_graph(o, p):
    import modepy as mp
    n2 = np.array(o["rng"].bit_generator.state["state"]["state"] % 997)
    return [o["same"][0] is o["shape"], o["same"][1] is o["space"],
            o["same"][2] is o["basis"], mp.vandermonde(o["fns"], o["nodes"]), o["vdm"],
            o["part"](o["nodes"]), [f(o["nodes"]) for f in o["basis"].functions], n2,
            mp.resampling_matrix(o["fns"], o["nodes"], o["nodes"])]


fact("graph", lambda r: dict(gen_sp(r, 2), fam=ch(r, "onb", "mono"), i=0, ax=0,
                             s=r.randrange(8)), 1.5)(mk_graph)(u_graph)


# {{{ checkpointed computations

class SimCrash(BaseException):
    pass


def loop_init(p):
    import modepy as mp
    if p["k"] == "gn":
        b2, x, w, ref = gn_setup(p["n"], p["d"])
        return {"i": 0, "x": x, "w": w, "ref": ref, "fs": b2.functions,
                "ds": [b2.derivatives(i) for i in range(p["d"])], "q": None, "hist": []}
    if p["k"] == "rand":
        return {"i": 0, "rng": np_rng(p["s"]), "shape": mk_shape(p["sh"]), "hist": []}
    b = basis_of(p)
    sp, sh = space_of(p)
    n = mp.edge_clustered_nodes_for_space(sp, sh)
    g = np_rng(p["s"])
    from modepy.tools import AffineMap
    d = shape_dim(p["sp"][0])
    m = AffineMap(np.eye(d)*0.9 + 0.01*g.normal(size=(d, d)), 0.01*g.normal(size=d))
    return {"i": 0, "b": b, "n": n, "space": sp, "shape": sh, "map": m,
            "u": g.normal(size=n.shape[1]), "hist": []}


def loop_step(p, s):
    """One step; a new state (the old one is not touched)."""
    import modepy as mp
    from modepy.quadrature.construction import (
        quad_gauss_newton_increment, quad_residual_and_jacobian)
    s = dict(s)
    if p["k"] == "gn":
        q = s["q"]
        if q is None:
            q = quad_residual_and_jacobian(s["x"], s["w"], s["fs"], s["ds"], s["ref"])
        dw, dx = quad_gauss_newton_increment(q)
        s["x"], s["w"] = s["x"] + 0.5*dx, s["w"] + 0.5*dw
        s["q"] = quad_residual_and_jacobian(s["x"], s["w"], s["fs"], s["ds"], s["ref"])
        s["hist"] = [*s["hist"], (s["x"], s["w"], s["q"].residual)]
    elif p["k"] == "rand":
        s["rng"] = copy.deepcopy(s["rng"])
        x = mp.random_nodes_for_shape(s["shape"], 3, rng=s["rng"])
        s["hist"] = [*s["hist"], x]
    else:
        # pull the field back along the map, then damp its high modes
        y = s["map"](s["n"]) if s["i"] % 2 else s["map"].inverse(s["map"](s["n"]))*0.95
        u = mp.resampling_matrix(s["b"].functions, y, s["n"]) @ s["u"]
        v = mp.vandermonde(s["b"].functions, s["n"])
        s["u"] = u/(1 + np.linalg.norm(u))
        s["hist"] = [*s["hist"], (s["u"], v)]
    s["i"] += 1
    return s


def run_loop(p, state, steps, proto, every, crash_at, opcodes=False):
    """Run to *steps*, checkpointing; crash at line event *crash_at* (None: never).
    Returns (final history or None, last durable checkpoint)."""
    durable = None
    n = 0

    def ev(t, frame):
        if crash_at is not None and t.n >= crash_at:
            raise SimCrash()
    try:
        with Tracer(ev):
            if state is None:
                state = loop_init(p)
                durable = pickle.dumps(state, proto)
            while state["i"] < steps:
                state = loop_step(p, state)
                if state["i"] % every == 0:
                    durable = pickle.dumps(state, proto)
                    n += 1
    except SimCrash:
        return None, durable, n
    return canon(state["hist"]), durable, n

# }}}


def save(objs, how):
    if how[0] == "pickle":
        return pickle.dumps(objs, how[1])
    return pickle.dumps(objs)


@register
class Restart(Prop):
    id = "C14"
    quick_runs = 3000
    thorough_runs = 60000
    rule = ("a run counts when at least one object was restored (or a computation "
            "restarted) in a process other than the one that saved it and its results "
            "were compared; distinct by scenario (objects, parameters, protocol, "
            "history, transfers, crash points)")
    assumptions = [
        "what is restored was saved completely: a torn file is the caller's concern",
        "faces are compared by what they do, not by ==, because a face carries its map "
        "as a function object"]

    def gen(self, r, env, i, tier):
        if r.random() < 0.2:
            p = {"k": r.choice(["gn", "gn", "rand", "adv", "adv"]), "n": r.randint(1, 2),
                 "d": r.randint(1, 2), "s": r.randrange(50),
                 "sh": gen_shape(r, (1, 2, 3)), "fam": ch(r, "onb", "mono"),
                 "sp": gen_space(r, (1, 2), 2)}
            return {"loop": p, "steps": r.randint(2, 5), "every": r.choice([1, 1, 2]),
                    "proto": r.randint(0, 5),
                    "crashes": [r.random() for _ in range(r.choice([1, 1, 2, 3]))],
                    "far": r.random() < 0.5}
        names = list(FACT)
        ws = [FACT[n][3] for n in names]
        objs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if objs and r.random() < 0.4:
                o = dict(r.choice(objs))
                if r.random() < 0.6:
                    o["p"] = FACT[o["f"]][0](r)
            else:
                n = r.choices(names, ws)[0]
                o = {"f": n, "p": FACT[n][0](r)}
            o["pre"] = r.choice([0, 0, 1, 2])
            objs.append(o)
        hops = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            hops.append({"proto": r.choice([0, 1, 2, 3, 4, 5, 5]),
                         "use": r.random() < 0.4,
                         "dup": r.random() < 0.3,
                         "warm": [draw_op(r, pred=lambda o: "heavy" not in o.tags)]
                         if r.random() < 0.3 else [],
                         "imp": r.random() < 0.3, "far": r.random() < 0.5})
        sc = {"objs": objs, "hops": hops, "alive": r.random() < 0.4}
        if r.random() < 0.5:
            sc["copy"] = {"how": r.choice(["deepcopy", "deepcopy", "copy", "pickle"]),
                          "when": r.choice(["fresh", "used"]),
                          "trash": r.random() < 0.7}
        return sc

    def execute(self, sc, env):
        if "loop" in sc:
            return self.loop(sc, env)
        st = {"objects": len(sc["objs"]), "hops": 0, "copies": 0, "bytes": 0,
              "kinds": sorted({o["f"] for o in sc["objs"]}), "loops": 0, "restarts": 0,
              "checkpoints": 0, "trashed": 0, "protocols": []}
        refs = []
        for o in sc["objs"]:
            key = ("c14", str(sorted(o["p"].items())), o["f"])
            if key not in env.refs:
                env._trim(env.refs)

                def go(o=o):
                    quiet()
                    _g, mk, use, _w = FACT[o["f"]]
                    return outcome(lambda: use(mk(o["p"]), o["p"]))
                env.refs[key] = fork_call(go)
            refs.append(env.refs[key])
        keep = [j for j, ref in enumerate(refs) if ref[0] == "ok"]
        if len(keep) < len(refs):
            # an object that cannot be made (or used) at all is not our business
            st["unmakeable"] = len(refs) - len(keep)
            sc = dict(sc, objs=[sc["objs"][j] for j in keep])
            refs = [refs[j] for j in keep]
            if not refs:
                return None, st

        v, blob = fork_call(lambda: self.produce(sc, refs, st), self.timeout)
        if v is not None:
            return v, st
        for j, h in enumerate(sc["hops"]):
            last = j == len(sc["hops"])-1
            nxt = None if last else sc["hops"][j+1]["proto"]
            st["hops"] += 1
            st["bytes"] += len(blob)
            st["protocols"] = sorted({*st["protocols"], h["proto"]})
            if h.get("far"):
                st["other_machine"] = st.get("other_machine", 0) + 1
                v, blob = remote(self.id, "consume", sc, refs, blob, h, nxt, last)
            else:
                v, blob = fork_call(lambda b=blob, h=h, nxt=nxt, last=last: self.consume(
                    sc, refs, b, h, nxt, last), self.timeout)
            if v is not None:
                v["hop"] = j
                return v, st
        if sc.get("copy"):
            v, n = fork_call(lambda: self.copies(sc, refs), self.timeout)
            st["copies"] += len(sc["objs"])
            st["trashed"] += n
            if v is not None:
                return v, st
        return None, st

    def prepare(self, sc, env):
        return None

    def produce(self, sc, refs, st):
        quiet()
        live = []
        for o, ref in zip(sc["objs"], refs):
            _g, mk, use, _w = FACT[o["f"]]
            try:
                x = mk(o["p"])
            except Exception as e:
                return self.bad("use", o, ref, ("raise", exc_canon(e)), "made"), None
            for _ in range(o["pre"]):
                out = outcome(lambda: use(x, o["p"]))
                if not same(out, ref):
                    return self.bad("use", o, ref, out, "before saving"), None
            live.append(x)
        try:
            blob = pickle.dumps(live, sc["hops"][0]["proto"])
        except Exception as e:
            return Violation("save", f"{[o['f'] for o in sc['objs']]} cannot be saved: "
                             f"{exc_canon(e)}", objs=sc["objs"]), None
        if sc["alive"]:
            for o, ref, x in zip(sc["objs"], refs, live):
                out = outcome(lambda: FACT[o["f"]][2](x, o["p"]))
                if not same(out, ref):
                    return self.bad("after-save", o, ref, out,
                                    "the original, after saving it"), None
        return None, blob

    def consume(self, sc, refs, blob, h, nxt, last):
        quiet()
        if h["imp"]:
            import modepy  # noqa: F401
        from ..catalog import OPS, Ctx
        for w in h["warm"]:
            outcome(lambda: OPS[w["op"]].run(Ctx(), w["p"]))
        try:
            live = pickle.loads(blob)
        except Exception as e:
            return Violation("restore", f"{[o['f'] for o in sc['objs']]} cannot be "
                             f"restored: {exc_canon(e)}", objs=sc["objs"]), None
        sets = [live]
        if h["dup"]:
            sets.append(pickle.loads(blob))
        if last or h["use"]:
            for objs in sets:
                for o, ref, x in zip(sc["objs"], refs, objs):
                    _g, mk, use, _w = FACT[o["f"]]
                    out = outcome(lambda: use(x, o["p"]))
                    if not same(out, ref):
                        return self.bad("restored", o, ref, out, "after restoring"), None
                    v = self.identity(o, x, mk(o["p"]))
                    if v is not None:
                        return v, None
        if nxt is None:
            return None, b""
        try:
            return None, pickle.dumps(live, nxt)
        except Exception as e:
            return Violation("resave", f"{[o['f'] for o in sc['objs']]} cannot be saved "
                             f"again: {exc_canon(e)}", objs=sc["objs"]), None

    def identity(self, o, x, twin):
        if o["f"] == "misc" and o["p"]["k"] in (1, 2):
            return None
        if o["f"] == "space" and (type(x) is not type(twin) or repr(x) != repr(twin)):
            return Violation("identity", f"restored {x!r} is not a {twin!r}", obj=o)
        if not type(twin).__module__.startswith("modepy"):
            return None
        # where two objects made alike are equal, so must the restored one be
        eq = type(twin).__eq__ is not object.__eq__
        try:
            t2 = FACT[o["f"]][1](o["p"])
            eq = eq and t2 is not twin and t2 == twin
        except Exception:
            eq = False
        if not (eq is True or o["f"] in ("shape", "misc")):
            return None
        ok = (x == twin and twin == x and type(x) is type(twin) and not (x != twin))
        try:
            if ok and (hash(twin) == hash(t2) or o["f"] == "shape"):
                ok = hash(x) == hash(twin) and {x: 1}.get(twin) == 1
        except TypeError:
            pass
        if not ok:
            return Violation("identity", f"restored {x!r} does not compare (or hash) "
                             f"equal to {twin!r}", obj=o)
        return None

    def copies(self, sc, refs):
        quiet()
        cp = sc["copy"]
        n = 0
        for o, ref in zip(sc["objs"], refs):
            _g, mk, use, _w = FACT[o["f"]]
            x = mk(o["p"])
            if cp["when"] == "used":
                outcome(lambda: use(x, o["p"]))
            try:
                y = {"deepcopy": copy.deepcopy, "copy": copy.copy,
                     "pickle": lambda z: pickle.loads(pickle.dumps(z))}[cp["how"]](x)
            except Exception as e:
                return Violation("copy", f"{o['f']} cannot be copied ({cp['how']}): "
                                 f"{exc_canon(e)}", obj=o), n
            out = outcome(lambda: use(y, o["p"]))
            if not same(out, ref):
                return self.bad("copied", o, ref, out, f"after {cp['how']}"), n
            v = self.identity(o, y, x)
            if v is not None:
                return v, n
            if cp["trash"] and cp["how"] != "copy":
                n += self.trash(y)
                out = outcome(lambda: use(x, o["p"]))
                if not same(out, ref):
                    return self.bad("shared", o, ref, out, "the original, after its "
                                    "copy was modified"), n
        return None, n

    def trash(self, y):
        n = 0
        seen = set()

        def walk(z, depth=0):
            nonlocal n
            if id(z) in seen or depth > 6:
                return
            seen.add(id(z))
            if isinstance(z, np.ndarray):
                if z.flags.writeable and z.dtype.kind in "fc" and z.size:
                    z *= 3.5
                    z += 1
                    n += 1
            elif isinstance(z, (list, tuple)):
                for i in z:
                    walk(i, depth+1)
            elif isinstance(z, dict):
                for i in z.values():
                    walk(i, depth+1)
            elif isinstance(z, partial):
                walk(z.args, depth+1)
                walk(z.keywords, depth+1)
            elif type(z).__module__.startswith("modepy"):
                walk(dict(vars(z)), depth+1)
        for a in walk_arrays(y):
            walk(a)
        walk(y)
        return n

    def bad(self, kind, o, ref, out, when):
        return Violation(kind, f"{o['f']}{o['p']} {when}: {describe(out)} instead of "
                         f"{describe(ref)}", obj=o, ref=describe(ref, 600),
                         got=describe(out, 600))

    # {{{ crash and restart

    def loop(self, sc, env):
        p = sc["loop"]
        st = {"loops": 1, "restarts": 0, "checkpoints": 0, "kinds": ["loop-" + p["k"]],
              "objects": 1, "hops": 0, "copies": 0, "bytes": 0, "trashed": 0,
              "protocols": [sc["proto"]]}
        key = ("c14loop", str(sorted(p.items())), sc["steps"])
        if key not in env.refs:
            env._trim(env.refs)

            def go():
                quiet()
                cnt = [0]
                with Tracer(lambda t, f: cnt.__setitem__(0, t.n)):
                    s = loop_init(p)
                    for _ in range(sc["steps"]):
                        s = loop_step(p, s)
                return canon(s["hist"]), cnt[0]
            env.refs[key] = fork_call(go)
        ref, total = env.refs[key]
        durable = None
        for x in [*sc["crashes"], None]:
            left = total
            if durable is not None:
                left = max(1, int(total*0.8))
            k = None if x is None else max(1, int(x*left))

            if sc.get("far") and st["restarts"] % 2:
                st["other_machine"] = st.get("other_machine", 0) + 1
                h, d, n = remote(self.id, "leg", sc, k, durable)
            else:
                h, d, n = fork_call(lambda: self.leg(sc, k, durable),  # noqa: B023
                                    self.timeout)
            st["checkpoints"] += n
            if isinstance(h, tuple) and h and h[0] == "fail":
                return Violation("restart", f"{p}: restarted computation failed: "
                                 f"{h[1]}"), st
            durable = d or durable
            if h is not None:
                if not same(h, ref):
                    return Violation("trajectory", f"{p}: after {st['restarts']} "
                                     f"restarts the computation gives {describe(h)} "
                                     f"instead of {describe(ref)}"), st
                return None, st
            st["restarts"] += 1
            st["hops"] += durable is not None
        return None, st

    # }}}

    def leg(self, sc, k, blob):
        quiet()
        try:
            s = None if blob is None else pickle.loads(base64.b64decode(blob))
            h, d, n = run_loop(sc["loop"], s, sc["steps"], sc["proto"], sc["every"], k)
        except Exception as e:
            return ("fail", exc_canon(e)), None, 0
        return h, d and base64.b64encode(d), n

    def nontrivial(self, sc, st):
        return st.get("hops", 0) > 0

    def shrink(self, sc):
        if "loop" in sc:
            for cs in shrink_list(sc["crashes"], 1):
                yield dict(sc, crashes=cs)
            if sc["steps"] > 2:
                yield dict(sc, steps=sc["steps"]-1)
            return
        for os_ in shrink_list(sc["objs"], 1):
            yield dict(sc, objs=os_)
        for hs in shrink_list(sc["hops"], 1):
            yield dict(sc, hops=hs)
        for j, h in enumerate(sc["hops"]):
            for k in ("use", "dup", "imp", "far"):
                if h.get(k):
                    hs = list(sc["hops"])
                    hs[j] = dict(h, **{k: False})
                    yield dict(sc, hops=hs)
            if h["warm"]:
                hs = list(sc["hops"])
                hs[j] = dict(h, warm=[])
                yield dict(sc, hops=hs)
        for j, o in enumerate(sc["objs"]):
            if o["pre"]:
                os_ = list(sc["objs"])
                os_[j] = dict(o, pre=0)
                yield dict(sc, objs=os_)
        if sc.get("copy"):
            yield {k: v for k, v in sc.items() if k != "copy"}
        if sc["alive"]:
            yield dict(sc, alive=False)
