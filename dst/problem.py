"""Generated boundary value problems, driven through the library's public interface
one operation at a time, as a user's script would."""

import hashlib
import os

import numpy as np

from . import meshgen as M
from .core import arr_digest

FAMILIES = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]
KINDS = ["dense", "hard", "inverse", "domain"]
EQS = {"dense": ["poisson", "cd", "helmholtz"], "hard": ["poisson", "cd", "helmholtz"], "inverse": ["poisson", "cd"], "domain": ["cd"]}


def imports():
    import matplotlib.pyplot  # noqa: F401
    import tensorflow  # noqa: F401

    import fastvpinns.data.datahandler2d  # noqa: F401
    import fastvpinns.FE.fespace2d  # noqa: F401
    import fastvpinns.Geometry.geometry_2d  # noqa: F401
    import fastvpinns.model.model  # noqa: F401
    import fastvpinns.model.model_hard  # noqa: F401
    import fastvpinns.model.model_inverse  # noqa: F401
    import fastvpinns.model.model_inverse_domain  # noqa: F401
    import fastvpinns.physics.cd2d  # noqa: F401
    import fastvpinns.physics.cd2d_inverse  # noqa: F401
    import fastvpinns.physics.cd2d_inverse_domain  # noqa: F401
    import fastvpinns.physics.helmholtz2d  # noqa: F401
    import fastvpinns.physics.poisson2d  # noqa: F401
    import fastvpinns.physics.poisson2d_inverse  # noqa: F401


def gen_lr(rng):
    return {"initial_learning_rate": rng.pick([0.001, 0.01, 0.05, 0.003]), "use_lr_scheduler": rng.chance(0.7), "decay_steps": rng.randint(1, 5),
            "decay_rate": rng.pick([0.5, 0.9, 0.99, 0.7]), "staircase": rng.chance(0.5)}


def gen_step(rng):
    """What one training step is called with."""
    return {"beta": rng.pick([10, 1, 0, 0.5, 100, rng.real(0, 20, 3)]),
            "pars": {"eps": rng.real(0.05, 2, 4), "b_x": rng.real(-2, 2, 4), "b_y": rng.real(-2, 2, 4), "c": rng.real(-2, 2, 4), "k": rng.real(-4, 4, 4)}}


def gen(rng, mesh_ok=True, attention=True, cells=6, f8=0.75):
    c = {"kind": rng.pick(KINDS)}
    c["eq"] = rng.pick(EQS[c["kind"]])
    if mesh_ok and rng.chance(0.3):
        c["geo"] = {"kind": "mesh", "mesh": moderate_mesh(rng, cells), "nb": 0}
    else:
        x0, y0 = rng.real(-2, 2, 2), rng.real(-2, 2, 2)
        n = [rng.randint(1, 3), rng.randint(1, 2)]
        c["geo"] = {"kind": "internal", "x": [x0, round(x0 + rng.real(0.3, 2.5, 2), 3)], "y": [y0, round(y0 + rng.real(0.3, 2.5, 2), 3)], "n": n, "nb": rng.randint(5, 14)}
    c["fe"] = {"order": rng.randint(2, 4), "type": rng.pick(FAMILIES), "qorder": rng.randint(3, 5), "qtype": rng.pick(["gauss-legendre", "gauss-jacobi"]),
               "trans": rng.pick(["affine", "bilinear"])}
    c["dtype"] = "f8" if rng.chance(f8) else "f4"
    c["layers"] = [rng.randint(2, 6) for _ in range(rng.wpick([(3, 1), (3, 2), (1, 3)]))]
    c["act"] = rng.wpick([(5, "tanh"), (1, "sigmoid"), (1, "swish"), (1, "elu")])
    c["attention"] = attention and rng.chance(0.4 if c["dtype"] == "f4" else 0.15)
    c["lr"] = gen_lr(rng)
    c["co"] = [rng.real(-2, 2, 3) for _ in range(5)]
    c["bdco"] = [rng.real(-1, 1, 3) for _ in range(5)]
    c["sens"] = {"n": rng.randint(3, 9), "co": [rng.real(-1, 1, 3) for _ in range(5)]}
    c["inv"] = rng.real(0.2, 2, 3)
    c["hard"] = [rng.real(-1, 1, 3) for _ in range(4)] if rng.chance(0.7) else None
    c["seed"] = rng.randrange(1 << 20)
    return c


def moderate_mesh(rng, cells):
    for k in range(200):
        m = M.gen_mesh(rng.sub("m", k), cells, 1)
        V = np.array(m["verts"], float)
        if np.abs(V).max() < 8 and (V.max(axis=0) - V.min(axis=0)).min() > 0.3 and len(m["cells"]) <= cells:
            return m
    raise AssertionError("no mesh")


def function(co):
    a, b, c, d, e = co
    return lambda x, y: a + b * x + c * y + d * x * y + e * np.sin(x + 2.0 * y)


def hard_fn(co, dtype):
    if co is None:
        return None
    a, b, c, d = co

    def constrain(inputs, out):
        x, y = inputs[:, 0:1], inputs[:, 1:2]
        return (a + b * x + c * y) * out + d * x

    return constrain


class Problem:
    """One problem; methods are the operations of its history.  `self.out` records what
    was observed, in order."""

    def __init__(self, cfg, folder, shared=None):
        self.cfg = cfg
        self.folder = folder
        os.makedirs(folder, exist_ok=True)
        self.out = []
        self.given = {}  # inputs handed to the library
        self.snaps = []
        self.changed = []  # inputs found modified
        self.shared = shared or {}

    def give(self, name, obj):
        """Note what an input looked like when it was handed in."""
        self.given[name] = obj
        self.snaps.append((name, snapshot(obj), obj))
        return obj

    def rec(self, name, *vals):
        self.out.append((name, [digest(v) for v in vals]))

    # --- set-up

    def seed(self):
        import tensorflow as tf

        tf.keras.utils.set_random_seed(self.cfg["seed"])

    def tfd(self):
        import tensorflow as tf

        return {"f4": tf.float32, "f8": tf.float64}[self.cfg["dtype"]]

    def geo(self, optimized=True):
        from fastvpinns.Geometry.geometry_2d import Geometry_2D

        g = self.cfg["geo"]
        if g["kind"] == "mesh":
            path = os.path.join(self.folder, "in.mesh")
            with open(path, "w") as fh:
                fh.write(M.mesh_text(dict(g["mesh"], version=2)))
            self.geom = Geometry_2D("quadrilateral", "external", 3, 3, self.folder)
            self.cells, self.bd = self.geom.read_mesh(path, g.get("ref", 1), g.get("bs", "uniform"), 0)
        else:
            self.geom = Geometry_2D("quadrilateral", "internal", 3, 3, self.folder, optimized)
            self.cells, self.bd = self.geom.generate_quad_mesh_internal(tuple(g["x"]), tuple(g["y"]), g["n"][0], g["n"][1], g["nb"])
        self.rec("geo", self.cells, sorted((k, digest(np.asarray(v))) for k, v in self.bd.items()))

    def space(self):
        from fastvpinns.FE.fespace2d import Fespace2D

        c = self.cfg
        bf = function(c["bdco"])
        self.give("bound_function_dict", {t: bf for t in self.bd})
        self.give("bound_condition_dict", {t: "dirichlet" for t in self.bd})
        self.give("cells", self.cells)
        self.give("bd", self.bd)
        self.sp = Fespace2D(
            mesh=self.geom.mesh, cells=self.cells, boundary_points=self.bd, cell_type="quadrilateral", fe_order=c["fe"]["order"], fe_type=c["fe"]["type"],
            quad_order=c["fe"]["qorder"], quad_type=c["fe"]["qtype"], fe_transformation_type=c["fe"]["trans"], bound_function_dict=self.given["bound_function_dict"],
            bound_condition_dict=self.given["bound_condition_dict"], forcing_function=function(c["co"]), output_path=self.folder)
        self.rec("space", [self.sp.get_shape_function_val(k) for k in range(len(self.cells))])

    def sensor_table(self):
        """Sensors inside the bounding box, from the configuration alone."""
        c = self.cfg
        r = np.random.RandomState(c["seed"] % (1 << 31))
        P = np.asarray(self.cells, float).reshape(-1, 2)
        lo, hi = P.min(axis=0), P.max(axis=0)
        pts = lo + (hi - lo) * r.rand(c["sens"]["n"], 2)
        return np.column_stack([pts, function(c["sens"]["co"])(pts[:, 0], pts[:, 1])])

    def data(self):
        from fastvpinns.data.datahandler2d import DataHandler2D

        c = self.cfg
        self.dh = dh = DataHandler2D(self.sp, self.geom, self.tfd())
        self.dirx, self.diry = dh.get_dirichlet_input()
        self.give("pars", self.shared.get("pars") or {"eps": 1.0, "b_x": 0.5, "b_y": -0.5, "c": 0.25, "k": 1.5})
        self.pars = dh.get_bilinear_params_dict_as_tensors(lambda: self.given["pars"])
        self.give("inv", self.shared.get("inv") or {"eps": c["inv"]})
        self.inv = dh.get_inverse_params(lambda: self.given["inv"])
        if c["kind"] in ("inverse", "domain"):
            if c["sens"].get("sample"):
                self.sensors = dh.get_sensor_data(function(c["sens"]["co"]), max(3, c["sens"]["n"]), "internal")
            else:
                path = os.path.join(self.folder, "sensors.csv")
                with open(path, "w") as fh:
                    fh.write("x,y,u\n" + "".join("%r,%r,%r\n" % tuple(r) for r in self.sensor_table().tolist()))
                self.sensors = dh.get_sensor_data(None, c["sens"]["n"], "external", path)
        else:
            self.sensors = None
        self.rec("data", dh.x_pde_list, dh.shape_val_mat_list, dh.grad_x_mat_list, dh.grad_y_mat_list, dh.forcing_function_list,
                 self.dirx, self.diry, sorted((k, digest(v)) for k, v in self.pars.items()), list(self.sensors or []))

    def loss_function(self):
        c = self.cfg
        if c["kind"] == "domain":
            from fastvpinns.physics.cd2d_inverse_domain import pde_loss_cd2d_inverse_domain as f
        elif c["kind"] == "inverse" and c["eq"] == "poisson":
            from fastvpinns.physics.poisson2d_inverse import pde_loss_poisson_inverse as f
        elif c["kind"] == "inverse":
            from fastvpinns.physics.cd2d_inverse import pde_loss_cd2d as f
        elif c["eq"] == "poisson":
            from fastvpinns.physics.poisson2d import pde_loss_poisson as f
        elif c["eq"] == "cd":
            from fastvpinns.physics.cd2d import pde_loss_cd2d as f
        else:
            from fastvpinns.physics.helmholtz2d import pde_loss_helmholtz as f
        return f

    def model(self, loss=None, hard=None, act=None):
        self.m = self.new_model(loss, hard, act)
        self.rec("model", self.m.get_weights())

    def new_model(self, loss=None, hard=None, act=None):
        c = self.cfg
        dh = self.dh
        given = self.given
        self.give("layers", [2, *c["layers"], 2 if c["kind"] == "domain" else 1])
        self.give("lr", self.shared.get("lr") or dict(c["lr"]))
        self.give("params", {"n_cells": len(self.cells)})
        self.give("inputs", [dh.x_pde_list, self.dirx, self.diry])
        self.give("factors", [dh.shape_val_mat_list, dh.grad_x_mat_list, dh.grad_y_mat_list])
        self.give("sensors", self.sensors if self.sensors is None else list(self.sensors))
        self.give("inverse_params_dict", self.inv)
        kw = dict(layer_dims=given["layers"], learning_rate_dict=given["lr"], params_dict=given["params"], loss_function=loss or self.loss_function(),
                  input_tensors_list=given["inputs"], orig_factor_matrices=given["factors"], force_function_list=dh.forcing_function_list,
                  tensor_dtype=self.tfd(), use_attention=c["attention"], activation=act or c["act"])
        if c["kind"] == "dense":
            from fastvpinns.model.model import DenseModel as K
        elif c["kind"] == "hard":
            from fastvpinns.model.model_hard import DenseModel_Hard as K

            kw["hard_constraint_function"] = hard or hard_fn(c["hard"], self.tfd())
        elif c["kind"] == "inverse":
            from fastvpinns.model.model_inverse import DenseModel_Inverse as K

            kw.update(sensor_list=given["sensors"], inverse_params_dict=self.inv)
        else:
            from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain as K

            kw.update(sensor_list=given["sensors"])
        return K(**kw)

    def setw(self, key=0):
        """Weights decided by the configuration (also the biases)."""
        r = np.random.RandomState((self.cfg["seed"] + 7919 * key) % (1 << 31))
        self.m.set_weights([r.uniform(-1.2, 1.2, w.shape).astype(w.dtype) if np.ndim(w) else w for w in self.m.get_weights()])

    # --- training

    def args(self, st):
        """Arguments of a step, as tensors (a Python number would retrace)."""
        import tensorflow as tf

        d = self.tfd()
        if st is None:
            return dict(beta=tf.constant(10.0, d), bilinear_params_dict=self.pars)
        return dict(beta=tf.constant(st["beta"], d), bilinear_params_dict={k: tf.constant(v, d) for k, v in st["pars"].items()})

    def step(self, st=None, args=None):
        args = args or self.args(st)
        before = snapshot(args["bilinear_params_dict"])
        r = self.m.train_step(**args)
        if snapshot(args["bilinear_params_dict"]) != before:
            self.changed.append("bilinear_params_dict")
        res = losses(r)
        self.rec("step", sorted(res.items()))
        return res

    def modified(self):
        """Inputs that are no longer what was handed in."""
        return sorted({n for n, snap, obj in self.snaps if snapshot(obj) != snap} | set(self.changed))

    def predict(self, pts=None):
        import tensorflow as tf

        x = self.dh.x_pde_list if pts is None else tf.constant(pts, self.tfd())
        u = self.m(x).numpy()
        self.rec("predict", u)
        return u

    def state(self):
        return train_state(self.m)

    def refspace(self):
        from .ref import RefSpace

        f = self.cfg["fe"]
        return RefSpace(np.asarray(self.cells, float), f["order"], f["type"], f["qorder"], f["qtype"], f["trans"], function(self.cfg["co"]))


def losses(r):
    """The numbers a step reports (inverse parameters included), as floats."""
    out = {}
    for k, v in r.items():
        if k == "inverse_params":
            for q, t in v.items():
                out["inverse/" + q] = float(np.asarray(t).reshape(-1)[0])
        else:
            out[k] = float(np.asarray(v).reshape(-1)[0])
    return out


def split(m):
    """Trainable values of a model by role: (kernel, bias) pairs and scalars."""
    vs = [np.asarray(v) for v in m.trainable_variables]
    ks = [v for v in vs if v.ndim == 2]
    bs = [v for v in vs if v.ndim == 1]
    return list(zip(ks, bs)), [v for v in vs if v.ndim == 0]


def train_state(m):
    """Everything that decides how training goes on."""
    return [np.array(v) for v in m.trainable_variables], [np.array(v) for v in opt_vars(m.optimizer)]


def opt_vars(o):
    v = o.variables
    return v() if callable(v) else v


def digest(v):
    if isinstance(v, (list, tuple)):
        return hashlib.sha256("|".join(map(str, map(digest, v))).encode()).hexdigest()[:16]
    if hasattr(v, "numpy"):
        v = v.numpy()
    if isinstance(v, np.ndarray):
        return arr_digest(v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex()
    return str(v)


def snapshot(o):
    """A deep, comparable description of an input object."""
    if isinstance(o, dict):
        return ("dict", [(repr(k), snapshot(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snapshot(v) for v in o])
    if hasattr(o, "numpy"):
        return ("tensor" if type(o).__name__ != "ResourceVariable" else "variable", arr_digest(o.numpy()))
    if isinstance(o, np.ndarray):
        return ("array", arr_digest(o))
    if isinstance(o, float):
        return ("float", o.hex())
    if callable(o):
        return ("callable", id(o))
    return (type(o).__name__, repr(o))
