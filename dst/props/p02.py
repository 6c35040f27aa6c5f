"""P02: boundary samples lie on the boundary of their tag, and the Dirichlet data pair each of them
with the value of that tag's own function."""

import os
import pathlib

import numpy as np

from .. import meshgen as M
from ..core import Rng, Violation, arr_digest
from ..draws import Draws, gen_draws

LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 40000}
RULE = (
    "one run = one problem geometry (rectangle or generated mesh file) sampled under seeded or extreme draws, one space and "
    "data handler on it, and a seeded history of 2-8 requests for boundary data (scalar, per component, tensors, repeated, "
    "interleaved with other requests, with failing boundary functions, with re-sampling); non-trivial when at least two tags "
    "have different functions; distinct by digest of the recorded history"
)
MEASURE = "distinct (geometry, sampling, draw mode, request kind, tag count, precision) situations"
REAL = ["fastvpinns.Geometry.geometry_2d", "fastvpinns.FE (all)", "fastvpinns.data.datahandler2d", "pyDOE", "numpy", "tensorflow", "meshio"]
STUB = ["random source (seeded, or extreme draws patched onto numpy.random)", "boundary functions (generated, may fail)"]
ASSUME = ["at least one boundary point per side is requested", "boundary functions are pure"]


def setup():
    import fastvpinns.data.datahandler2d  # noqa: F401


REQ = ["scalar", "scalar", "vector", "tensor", "tensor", "attr", "fail", "fail", "scalar", "resample", "newspace", "newspace", "attr", "sensor"]


def generate(rng, i, tier):
    p = {"kind": rng.pick(["internal", "internal", "external"]), "draws": gen_draws(rng), "dtype": rng.pick(["f4", "f8"])}
    if p["kind"] == "external":
        p["mesh"] = M.gen_mesh(rng.sub("m"), 12, loose=True)
        p["how"] = rng.pick(["lhs", "lhs", "uniform"])
        p["level"] = rng.randint(0, 3)
        tags = sorted(set(p["mesh"]["etags"]))
    else:
        x0, y0 = rng.wpick([(4, 0), (4, rng.real(-9, 9, 3)), (1, rng.real(-20000, 20000, 1))]), rng.pick([0, rng.real(-9, 9, 3)])
        w, h = rng.pick([1, rng.real(0.01, 5, 3), 1000]), rng.pick([1, rng.real(0.01, 5, 3)])
        p["x"], p["y"] = [x0, round(x0 + w, 4)], [y0, round(y0 + h, 4)]
        p["n"] = [rng.randint(1, 3), rng.randint(1, 3)]
        p["nb"] = rng.wpick([(3, rng.randint(4, 16)), (3, rng.randint(16, 90)), (1, 400), (0.4, rng.randint(1000, 6000))])
        tags = [1000, 1001, 1002, 1003]
    rng.shuffle(tags)
    p["tags"] = tags  # order of the function dictionary
    style = rng.pick(["distinct", "distinct", "distinct", "constants", "equal"])
    eq = [rng.real(-2, 2, 3) for _ in range(4)]
    p["funs"] = [eq if style == "equal" else ([rng.real(-50, 50, 2), 0, 0, 0] if style == "constants" else [rng.real(-5, 5, 3) for _ in range(4)]) for _ in tags]
    p["ret"] = rng.pick(["float", "array", "npfloat", "mixed"])
    p["extra_tag"] = rng.chance(0.15)
    p["ops"] = [{"req": rng.pick(REQ), "comp": rng.randrange(3), "draws": gen_draws(rng), "frac": rng.random()} for _ in range(rng.randint(2, 8))]
    return p


def make_fun(co, ret, arm):
    a, b, c, d = co

    def f(x, y):
        arm()
        v = a + b * x + c * y + d * x * y
        if ret == "array":
            return np.array([v])
        if ret == "npfloat":
            return np.float64(v)
        return float(v)

    return f


def geometry(plan, s, draws):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    out = os.path.join(s, "out")
    os.makedirs(out, exist_ok=True)
    if plan["kind"] == "external":
        path = os.path.join(s, "in.mesh")
        with open(path, "w") as fh:
            fh.write(M.mesh_text(dict(plan["mesh"], version=2)))
        g = Geometry_2D("quadrilateral", "external", 4, 4, out)
        with Draws(draws["mode"], draws["seed"]):
            cells, bd = g.read_mesh(path, plan["level"], plan["how"], 0)
    else:
        g = Geometry_2D("quadrilateral", "internal", 4, 4, out, True)
        with Draws(draws["mode"], draws["seed"]):
            cells, bd = g.generate_quad_mesh_internal(tuple(plan["x"]), tuple(plan["y"]), plan["n"][0], plan["n"][1], plan["nb"])
    return g, cells, bd


def check_sides(w, plan, bd):
    if plan["kind"] == "internal":
        (x0, x1), (y0, y1) = plan["x"], plan["y"]
        tol = 1e-12 * max(map(abs, (x0, x1, y0, y1, x1 - x0, y1 - y0)))
        per = plan["nb"] // 4
        w.check({int(t) for t in bd} == {1000, 1001, 1002, 1003}, "tags", f"{list(bd)}")
        for t, axis, fixed, lo, hi in ((1000, 1, y0, x0, x1), (1001, 0, x1, y0, y1), (1002, 1, y1, x0, x1), (1003, 0, x0, y0, y1)):
            P = np.asarray(bd[t])
            w.check(P.shape == (per, 2), "count", f"side {t}: {P.shape} for {plan['nb']} requested")
            w.check(np.abs(P[:, axis] - fixed).max() <= tol, "off-side", lambda: f"side {t}: {P[np.abs(P[:, axis] - fixed).argmax()].tolist()}")
            q = np.sort(P[:, 1 - axis])
            w.check(q[0] >= lo - tol and q[-1] <= hi + tol, "out-of-limits", lambda: f"side {t}: {q[[0, -1]].tolist()} not in [{lo}, {hi}]")
            k = np.arange(per)
            L = hi - lo
            ok = (q >= lo + L * k / per - 4 * tol - 1e-12 * L) & (q <= lo + L * (k + 1) / per + 4 * tol + 1e-12 * L)
            w.check(ok.all(), "not-stratified", lambda: f"side {t}: sorted samples {q.tolist()[:8]} are not one per stratum of [{lo}, {hi}]")
        return
    m = plan["mesh"]
    V = np.array(m["verts"], float)
    tags = {}
    for e, t in zip(m["edges"], m["etags"]):
        tags.setdefault(int(t), []).append(e)
    w.check({int(t) for t in bd} == set(tags), "tags", f"{list(bd)}")
    span = float(np.abs(V).max()) + float(V.max() - V.min())
    n = 2 ** plan["level"] + 1
    for t, es in tags.items():
        P = np.asarray(bd[t])[:, :2]
        A, B = V[[e[0] for e in es]], V[[e[1] for e in es]]
        D = B - A
        rel = P[:, None, :] - A[None]
        s = (rel * D[None]).sum(-1) / (D * D).sum(-1)[None]
        off = np.sqrt(((rel - s[..., None] * D[None]) ** 2).sum(-1))
        on = (off <= 1e-10 * span) & (s >= -1e-9) & (s <= 1 + 1e-9)
        w.check(on.any(axis=1).all(), "off-side", lambda: f"tag {t}: {P[~on.any(axis=1)][0].tolist()} lies on none of its edges")
        if plan["how"] == "lhs" and plan["_seeded"]:
            sole = on.sum(axis=1) == 1
            for k in range(len(es)):
                c = int((on[:, k] & sole).sum())
                w.check(c <= n and int(on[:, k].sum()) >= n - 1, "count", f"tag {t}: {c} samples on an edge, {n} expected")
                if c == n:
                    q = np.sort(s[on[:, k] & sole, k])
                    if tuple(es[k]) and q[0] >= 0:
                        j = np.arange(n)
                        w.check(((q >= j / n - 1e-6) & (q <= (j + 1) / n + 1e-6)).all(), "not-stratified", lambda: f"tag {t}: edge parameters {q.tolist()}")


def pairs(xs, ys):
    return sorted((float(p[0]), float(p[1]), float(np.asarray(v).reshape(-1)[0])) for p, v in zip(xs, ys))


def execute(plan, w):
    import tensorflow as tf
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.FE.fespace2d import Fespace2D

    s = w.scratch
    plan["_seeded"] = plan["draws"]["mode"] == "seeded"
    w.nontrivial = len(plan["tags"]) > 1
    trip = {"left": -1}

    def arm():
        if trip["left"] == 0:
            trip["left"] = -1
            raise ArithmeticError("injected failure of a boundary function")
        if trip["left"] > 0:
            trip["left"] -= 1

    q = Rng(plan["draws"]["seed"], "ret")
    rets = [plan["ret"] if plan["ret"] != "mixed" else q.pick(["float", "array", "npfloat"]) for _ in plan["tags"]]
    scal = {t: make_fun(co, r, arm) for t, co, r in zip(plan["tags"], plan["funs"], rets)}
    vec = {t: (lambda x, y, f=f: [f(x, y), 2.0 * np.asarray(f(x, y)) - 1.0, np.asarray(f(x, y)) * 0.5 + x]) for t, f in scal.items()}
    if plan["extra_tag"]:
        scal[424242] = lambda x, y: 1e9
        vec[424242] = lambda x, y: [1e9] * 3
    coef = dict(zip(plan["tags"], plan["funs"]))

    def truth(t, x, y):
        a, b, c, d = coef[t]
        return a + b * x + c * y + d * x * y

    g, cells, bd = geometry(plan, s, plan["draws"])
    check_sides(w, plan, bd)
    keep = {int(t): np.array(p) for t, p in bd.items()}
    tfd = {"f4": tf.float32, "f8": tf.float64}[plan["dtype"]]

    def space(funs):
        return Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre",
                         quad_order=3, quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict=funs,
                         bound_condition_dict={t: "dirichlet" for t in funs}, forcing_function=lambda x, y: x + y,
                         output_path=os.path.join(s, "out"))

    sp, vs = space(scal), None
    dh = DataHandler2D(sp, g, tfd)

    def expected(comp=None):
        out = []
        for t, P in keep.items():
            for p in P:
                v = truth(t, p[0], p[1])
                if comp is not None:
                    v = [v, 2.0 * v - 1.0, v * 0.5 + p[0]][comp]
                out.append((float(p[0]), float(p[1]), float(v)))
        return sorted(out)

    def compare(xs, ys, comp, what, tol=0.0):
        a = np.array(pairs(xs, ys), float)
        b = np.array(expected(comp), float)
        w.check(len(a) == len(b), "pair-count", f"{what}: {len(a)} pairs for {len(b)} boundary points")
        if tol:
            # single precision: the pairing itself is what counts; compare in the given order of points
            scale = np.abs(b).max(axis=0) + 1e-30
            xa, xb = a[:, :2].astype(np.float32), b[:, :2].astype(np.float32)
            a = a[np.lexsort((a[:, 2], xa[:, 1], xa[:, 0]))]
            b = b[np.lexsort((b[:, 2], xb[:, 1], xb[:, 0]))]
            bad = (np.abs(a - b) > tol * scale).any(axis=1)
        else:
            bad = (np.abs(a - b) > 1e-12 * (1 + np.abs(b))).any(axis=1)
        w.check(not bad.any(), "wrong-pair", lambda: f"{what}: (x, y, value) {a[bad][0].tolist()} expected {b[bad][0].tolist()}")

    order = {}

    def same_order(xs, space_, what):
        # rows of one request go with rows of another one (components of a vector condition)
        P = np.array([[float(p[0]), float(p[1])] for p in xs])
        ref = order.setdefault(id(space_), (space_, P))[1]
        if what == "tensors":
            ref = ref.astype(np.float32 if plan["dtype"] == "f4" else float)
            P = P.astype(ref.dtype)
        w.check(P.shape == ref.shape and (P == ref).all(), "order", lambda: f"{what}: the points come in another order than in an earlier request of the same space")

    w.log("bd", sorted((t, arr_digest(p)) for t, p in keep.items()))
    for k, op in enumerate(plan["ops"]):
        r = op["req"]
        if r == "scalar":
            x, y = sp.generate_dirichlet_boundary_data()
            compare(x, y, None, "scalar data")
            same_order(x, sp, "scalar data")
            w.check(sp.total_dirichlet_dofs == sum(map(len, keep.values())), "dof-count", f"{sp.total_dirichlet_dofs}")
            w.log(r, [list(map(float, p)) for p in x[:3]])
        elif r == "vector":
            vs = vs or space(vec)
            x, y = vs.generate_dirichlet_boundary_data_vector(op["comp"])
            compare(x, y, op["comp"], f"component {op['comp']}")
            same_order(x, vs, f"component {op['comp']}")
            w.log(r, op["comp"], len(x))
        elif r == "tensor":
            tx, ty = dh.get_dirichlet_input()
            n = sum(map(len, keep.values()))
            w.check(tx.dtype == tfd and ty.dtype == tfd and tuple(tx.shape) == (n, 2) and tuple(ty.shape) == (n, 1), "tensor-shape", f"{tx.shape} {ty.shape} {tx.dtype}")
            compare(tx.numpy().astype(float), ty.numpy().astype(float), None, "tensors", tol=4e-6 if plan["dtype"] == "f4" else 0.0)
            if id(sp) in order:
                same_order(tx.numpy(), sp, "tensors")
            w.log(r, tx.numpy(), ty.numpy())
        elif r == "attr":
            x, y = sp.dirichlet_boundary_data
            compare(x, y, None, "data of the constructor")
            same_order(x, sp, "data of the constructor")
        elif r == "fail":
            n = sum(map(len, keep.values()))
            trip["left"] = int(op["frac"] * n)
            try:
                sp.generate_dirichlet_boundary_data()
                failed = False
            except ArithmeticError:
                failed = True
            trip["left"] = -1
            w.check(failed, "failure-swallowed", "the failure of a boundary function was swallowed")
            w.fired("boundary-function")
        elif r == "sensor":
            with Draws(op["draws"]["mode"], op["draws"]["seed"]):
                sp.get_sensor_data(lambda x, y: x * y, 7)
        elif r == "resample":
            g, cells, bd = geometry(plan, s, op["draws"])
            plan["_seeded"] = op["draws"]["mode"] == "seeded"
            check_sides(w, plan, bd)
            keep = {int(t): np.array(p) for t, p in bd.items()}
            sp, vs = space(scal), None
            dh = DataHandler2D(sp, g, tfd)
            w.log(r, sorted((t, arr_digest(p)) for t, p in keep.items()))
        elif r == "newspace":
            sp = space(dict(reversed(list(scal.items()))))
            dh = DataHandler2D(sp, g, tfd)
        w.step()
        w.mark(plan["kind"], plan.get("how"), plan["draws"]["mode"], r, len(plan["tags"]), plan["dtype"])
        now = {int(t): np.array(p) for t, p in bd.items()}
        w.check(now.keys() == keep.keys() and all(np.array_equal(now[t], keep[t]) for t in now), "input-changed", f"{r} changed the boundary points")

