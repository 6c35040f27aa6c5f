"""P14: observing a problem between training steps does not change its training run."""

import json
import os

import numpy as np

from .. import faults as F
from .. import fresh, problem as PB
from ..core import HarnessError, Rng
from ..draws import Draws

LEVEL = "seeded_exploration"
RUNS = {"quick": 400, "thorough": 10000}
RULE = (
    "one run = one generated problem trained in a pristine process without being looked at, and again in another one with a seeded history of "
    "predictions, evaluations, plots, exports, saves, configuration and data requests (some failing: full disk, bad arguments) between and before the "
    "steps; after every request the training state must be untouched and every step bit for bit that of the undisturbed run; non-trivial when at least "
    "two requests were made; distinct by digest of the recorded history"
)
MEASURE = "distinct (request, fault, before the first step or later, model, precision, mode) situations"
REAL = ["fastvpinns.model (all four)", "fastvpinns.physics", "fastvpinns.data", "fastvpinns.FE", "fastvpinns.Geometry", "fastvpinns.utils", "tensorflow", "matplotlib", "kernel file system in a scratch folder"]
STUB = ["random source of sensor requests (seeded)", "disk capacity", "resolution of saved images (lowered)"]
ASSUME = ["requests that draw random numbers may advance the shared random generators; training draws none"]

REQUESTS = ["predict", "predict", "predictpts", "errors", "config", "summary", "weights", "save", "ckpt", "export", "export", "plotloss", "plotmulti", "contour", "meshplot",
            "residualplot", "dirichlet", "dirichlet-raw", "testpoints", "sensors", "pars", "inverse", "cells", "cells", "residual", "gradient", "handler", "rate", "forcing", "inputs"]
FAULTS = {"save": ["fsize"], "ckpt": ["fsize"], "export": ["fsize", "names", "nofolder"], "plotloss": ["fsize", "nofolder"], "plotmulti": ["nofolder"], "contour": ["fsize", "nofolder"],
          "meshplot": ["nofolder", "fsize"], "residualplot": ["nofolder"], "cells": ["index"], "predictpts": ["shape"], "pars": ["raise"], "inverse": ["raise"], "sensors": ["raise"],
          "residual": ["shape"]}


def setup():
    PB.imports()
    import fastvpinns.utils.compute_utils  # noqa: F401
    import fastvpinns.utils.plot_utils  # noqa: F401


def generate(rng, i, tier):
    c = PB.gen(rng.sub("cfg"), cells=4, f8=0.6)
    ops, n = [], rng.randint(2, 6)
    for t in range(n + 1):
        r = rng.sub("t", t)
        for _ in range(r.wpick([(2, 0), (3, 1), (3, 2), (2, 4)])):
            q = r.pick(REQUESTS)
            op = {"op": q, "seed": r.randrange(1 << 20), "fault": None}
            if q in FAULTS and r.chance(0.35):
                op["fault"] = {"kind": r.pick(FAULTS[q]), "limit": r.pick([0, 60, 400, 2500])}
            ops.append(op)
        if t < n:
            ops.append({"op": "step"})
    return {"cfg": c, "mode": rng.wpick([(1, "graph"), (5, "eager")]), "ops": ops, "vary": rng.chance(0.5)}


def shrink(plan):
    from ..run import generic_shrink

    yield from generic_shrink(plan)
    for k, op in enumerate(plan["ops"]):
        if op.get("fault"):
            q = json.loads(json.dumps(plan))
            q["ops"][k]["fault"] = None
            yield q


def step_args(plan, t):
    return PB.gen_step(Rng("p14", plan["cfg"]["seed"], t if plan["vary"] else 0))


def build(plan, folder):
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    pb = PB.Problem(plan["cfg"], folder)
    pb.seed()
    pb.geo(optimized=False)
    pb.space()
    pb.data()
    pb.model()
    pb.setw()
    return pb


def look(pb):
    return [PB.digest([list(x) for x in pb.state()])]


def undisturbed(plan, folder):
    pb = build(plan, folder)
    out = [(None, look(pb))]
    n = sum(op["op"] == "step" for op in plan["ops"])
    for t in range(n):
        res = pb.step(step_args(plan, t))
        out.append((sorted((k, PB.digest(v)) for k, v in res.items()), look(pb)))
    return json.loads(json.dumps([out, PB.digest(pb.predict())]))


def request(pb, op, ctx):
    """One request, as a user would make it -> what must come out the same again while no step is taken (or None)."""
    import tensorflow as tf
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.utils import compute_utils as CU
    from fastvpinns.utils import plot_utils as PU

    q, fault = op["op"], (op["fault"] or {}).get("kind")
    r = Rng("p14", op["seed"])
    out = os.path.join(pb.folder, "gone") if fault == "nofolder" else pb.folder
    m, dh, sp, c = pb.m, pb.dh, pb.sp, pb.cfg
    n = len(pb.cells)
    if q == "predict":
        return pb.m(dh.x_pde_list).numpy()
    if q == "predictpts":
        x = np.asarray(pb.geom.get_test_points())
        if fault == "shape":
            x = np.column_stack([x, x, x])
        if r.chance(0.2) and not fault:
            return m.predict(tf.constant(x, pb.tfd()), verbose=0)
        return m(tf.constant(x, pb.tfd())).numpy()
    if q == "errors":
        u = np.asarray(m(dh.get_test_points())).astype(float)[:, 0]
        e = np.cos(np.arange(len(u)))
        return [float(v) for v in CU.compute_errors_combined(e, u)]
    if q == "config":
        cfg = m.get_config()
        return [list(cfg["layer_dims"]), sorted(map(str, cfg))]
    if q == "summary":
        m.summary()
        return None
    if q == "weights":
        ws = m.get_weights()
        got = [w.copy() for w in ws]
        for w in ws:
            if isinstance(w, np.ndarray) and w.flags.writeable:
                w += 1
        return got
    if q == "save":
        m.save_weights(os.path.join(out, "weights-%d" % op["seed"]))
        return None
    if q == "ckpt":
        tf.train.Checkpoint(model=m).write(os.path.join(out, "ckpt-%d" % op["seed"]))
        return None
    if q == "export":
        u = np.asarray(m(tf.constant(ctx["grid"], pb.tfd()))).astype(float)
        cols = np.column_stack([u[:, 0], np.abs(u[:, 0])])
        before = cols.copy()
        names = ["Sol", "Err"] if fault != "names" else ["Sol"]
        try:
            pb.geom.write_vtk(cols, out, "prediction_%d.vtk" % ctx["t"], names)
        finally:
            ctx["changed"] |= not np.array_equal(cols, before)
        return None
    if q == "plotloss":
        xs = list(ctx["losses"]) or [1.0]
        keep = list(xs)
        try:
            [PU.plot_loss_function, PU.plot_test_loss_function, PU.plot_inverse_test_loss_function][r.randrange(3)](xs, out)
        finally:
            ctx["changed"] |= xs != keep
        return None
    if q == "plotmulti":
        xs = [list(ctx["losses"]) or [1.0], [2.0, 1.0]]
        PU.plot_multiple_loss_function(xs, out, "multi", ["a", "b"], "loss", "t")
        return None
    if q == "contour":
        a, b = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 1, 5))
        u = np.asarray(m(tf.constant(np.column_stack([a.ravel(), b.ravel()]), pb.tfd()))).astype(float)[:, 0].reshape(a.shape)
        PU.plot_contour(a, b, u, out, "contour", "u")
        return None
    if q == "meshplot":
        sp.generate_plot(out)
        return None
    if q == "residualplot":
        pb.geom.plot_adaptive_mesh(cells_list=[x for x in np.asarray(pb.cells)], area_averaged_cell_loss_list=list(np.arange(n) + 1.0), epoch=ctx["t"], filename="gone/cells" if fault else "cells")
        return None
    if q == "dirichlet":
        return list(dh.get_dirichlet_input())
    if q == "dirichlet-raw":
        x, y = sp.generate_dirichlet_boundary_data()
        return [np.array(x), np.array(y)]
    if q == "testpoints":
        return [dh.get_test_points(), np.asarray(pb.geom.get_test_points())]
    if q == "sensors":
        def exact(x, y):
            if fault:
                raise ArithmeticError("injected failure of the exact solution")
            return x + y

        with Draws("seeded", op["seed"]):
            p, v = dh.get_sensor_data(exact, 6, "internal")
        return None
    if q in ("pars", "inverse"):
        def give():
            if fault:
                raise ArithmeticError("injected failure of a parameter function")
            return pb.given["pars" if q == "pars" else "inv"]

        d = (dh.get_bilinear_params_dict_as_tensors if q == "pars" else dh.get_inverse_params)(give)
        res = sorted((k, PB.digest(v)) for k, v in d.items())
        d.clear()
        return res
    if q == "cells":
        k = n + 3 if fault else r.randrange(n)
        g = [sp.get_shape_function_val, sp.get_shape_function_grad_x, sp.get_shape_function_grad_y, sp.get_quadrature_actual_coordinates,
             sp.get_quadrature_weights, sp.get_shape_function_grad_x_ref, sp.get_shape_function_grad_y_ref]
        vals = [np.array(f(k)) for f in g]
        for f in g:
            f(k)[...] = 7.5
        ctx["key"] = k
        return vals
    if q == "forcing":
        k = r.randrange(n)
        ctx["key"] = k
        return np.array(sp.get_forcing_function_values(k))
    if q == "residual":
        if fault == "shape":
            u = tf.zeros([n + 1, 3], pb.tfd())
        else:
            u = tf.reshape(m(dh.x_pde_list)[:, 0], [n, -1])
        kw = dict(test_shape_val_mat=dh.shape_val_mat_list, test_grad_x_mat=dh.grad_x_mat_list, test_grad_y_mat=dh.grad_y_mat_list, pred_nn=u, pred_grad_x_nn=u * 2,
                  pred_grad_y_nn=u * 3, forcing_function=dh.forcing_function_list, bilinear_params=pb.pars)
        if c["kind"] == "inverse":
            kw["inverse_params_dict"] = pb.inv
        elif c["kind"] == "domain":
            kw["inverse_params_list"] = [u]
        return pb.loss_function()(**kw)
    if q == "gradient":
        with tf.GradientTape() as tape:
            tape.watch(dh.x_pde_list)
            u = m(dh.x_pde_list)
        return tape.gradient(u, dh.x_pde_list)
    if q == "handler":
        d2 = DataHandler2D(sp, pb.geom, pb.tfd())
        return [d2.x_pde_list, d2.shape_val_mat_list, d2.grad_x_mat_list, d2.grad_y_mat_list, d2.forcing_function_list]
    if q == "rate":
        return float(np.asarray(m.optimizer.learning_rate))
    if q == "inputs":
        return [dh.x_pde_list, dh.shape_val_mat_list, dh.grad_x_mat_list, dh.grad_y_mat_list, dh.forcing_function_list, pb.dirx, pb.diry, list(pb.sensors or [])]
    raise HarnessError(q)


STATIC = {"dirichlet", "dirichlet-raw", "testpoints", "pars", "inverse", "cells", "handler", "config", "forcing", "inputs"}


def observed(w, plan, folder, ref):
    import matplotlib.figure

    steps, final = ref
    real = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = lambda self, f, **k: real(self, f, **dict(k, dpi=12))
    cwd = os.path.join(w.scratch, "cwd")
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    c = plan["cfg"]
    pb = build(plan, folder)
    w.check(look(pb) == steps[0][1], "state-differs", "the set-up of the same problem gave another model")
    from .. import meshgen as M

    vtk = os.path.join(folder, "internal.vtk" if c["geo"]["kind"] == "internal" else "external.vtk")
    ctx = {"t": 0, "losses": [], "changed": False, "grid": M.parse_vtk(F.read_bytes(vtk))["points"][:, :2]}
    seen = {}
    t = asked = 0
    for k, op in enumerate(plan["ops"]):
        w.step()
        if op["op"] == "step":
            res = pb.step(step_args(plan, t))
            t += 1
            ctx["t"] = t
            ctx["losses"].append(res["loss"])
            got = json.loads(json.dumps(sorted((k, PB.digest(v)) for k, v in res.items())))
            w.log("step", t, got)
            w.check(got == steps[t][0], "losses-differ", lambda: f"step {t} ({c['kind']}, {plan['mode']}): {got}, undisturbed {steps[t][0]}")
            w.check(look(pb) == steps[t][1], "state-differs", f"step {t} ({c['kind']}, {plan['mode']}): the training state is not that of the undisturbed run")
            seen = {a: b for a, b in seen.items() if a[0] in STATIC}
            continue
        asked += 1
        w.nontrivial = asked > 1
        fault = (op["fault"] or {}).get("kind")
        ctx["key"] = None
        if fault:
            w.arm(fault)
        err = got = None
        try:
            if fault == "fsize":
                with F.fsize(op["fault"]["limit"]):
                    got = request(pb, op, ctx)
            else:
                got = request(pb, op, ctx)
        except HarnessError:
            raise
        except Exception as e:
            if not fault:
                raise
            err = type(e).__name__
            w.fired(fault)
        w.mark(op["op"], fault, t == 0, c["kind"], c["dtype"], plan["mode"])
        w.log("request", k, op["op"], fault, "failed" if err else "ok")
        at = f"{op['op']} before step {t + 1}" + (f" with {fault}" if fault else "")
        w.check(look(pb) == steps[t][1], "state-changed", f"{at} ({c['kind']}): the training state is no longer that after {t} steps")
        w.check(not ctx["changed"], "input-modified", f"{at}: an array or list handed in was modified")
        if got is not None and not fault:
            d = PB.digest(got)
            key = (op["op"], ctx["key"], op["seed"] if op["op"] == "predictpts" else None)
            w.check(seen.setdefault(key, d) == d, "answer-changed", f"{at} ({c['kind']}): another answer than before, though nothing was trained since or it does not depend on training")
    w.check(PB.digest(pb.predict()) == final, "prediction-differs", f"the final predictions are not those of the undisturbed run ({c['kind']}, {plan['mode']})")
    w.check(not pb.modified(), "input-modified", f"inputs modified: {pb.modified()}")


def execute(plan, w):
    ref = fresh.call(undisturbed, plan, os.path.join(w.scratch, "ref"))
    w.log(ref)
    fresh.run_in(w, observed, plan, os.path.join(w.scratch, "run"), ref)
