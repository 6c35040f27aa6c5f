"""P09: each training step is one Adam update of the variational loss."""

import os

import numpy as np

from .. import fresh, problem as PB, ref as RF

LEVEL = "seeded_exploration"
RUNS = {"quick": 480, "thorough": 12000}
RULE = (
    "one run = one generated problem (geometry, space, equation, model, network) set up through the public interface in a pristine process "
    "and a seeded history of training steps with changing penalty weight and coefficients, learning rate schedules, predictions and weight "
    "resets; every step is compared with the reference model started from the weights before it; non-trivial when at least three steps "
    "with different arguments were taken; distinct by digest of the recorded history"
)
MEASURE = "distinct (model, equation, family, quadrature, mapping, geometry, precision, activation, attention, schedule, execution mode) situations"
REAL = ["fastvpinns.model (all four)", "fastvpinns.physics (all)", "fastvpinns.data.datahandler2d", "fastvpinns.FE (all)", "fastvpinns.Geometry.geometry_2d", "tensorflow", "keras Adam and ExponentialDecay"]
STUB = ["random source (seeded)", "sensor tables, forcing, boundary data and hard constraints (generated)"]
ASSUME = ["TensorFlow differentiates elementary functions correctly (the reference uses it in double precision)",
          "an affine mapping of a cell is the one fixed by its first, second and fourth corner",
          "single precision is compared with correspondingly larger tolerances"]


def setup():
    PB.imports()


def widen(rng, c, tier):
    """Sizes, orders, scales and rates beyond the everyday ones, a few at a time."""
    f8 = c["dtype"] == "f8"
    for what in rng.sample(["order", "quad", "cells", "net", "rate", "scale", "deep", "magnitude"], rng.randint(1, 3)):
        if what == "order":
            c["fe"]["order"] = rng.randint(2, 8 if f8 else 6)
        elif what == "quad":
            c["fe"]["qorder"] = rng.randint(3, 14)
        elif what == "cells":
            if c["geo"]["kind"] == "internal":
                c["geo"]["n"] = [rng.randint(1, 9), rng.randint(1, 9)]
            else:
                c["geo"]["mesh"] = PB.moderate_mesh(rng, 24)
        elif what == "net":
            c["layers"] = [rng.randint(10, 40) for _ in range(rng.randint(1, 2))]
        elif what == "deep":
            c["layers"] = [rng.randint(2, 5) for _ in range(rng.randint(4, 6))]
        elif what == "magnitude":
            # an equation in other units: coefficients and forcing are all small, or all large
            c["mag"] = rng.pick([1e-10, 1e-8, 1e-5, 1e4] if f8 else [1e-5, 1e-3, 1e2])
            c["co"] = [v * c["mag"] for v in c["co"]]
            c["inv"] *= c["mag"]
        elif what == "rate":
            c["lr"].update(initial_learning_rate=rng.pick([1e-6, 1e-4, 0.2, 1.0]), decay_steps=rng.pick([1, 10, 1000, 100000]), decay_rate=rng.pick([0.01, 1.0, 0.999, 1.1]))
        elif what == "scale" and c["geo"]["kind"] == "internal":
            k = rng.pick([0.01, 0.05, 5])
            c["geo"]["x"] = [round(v * k, 8) for v in c["geo"]["x"]]
            if rng.chance(0.5):
                c["geo"]["y"] = [round(v * k, 8) for v in c["geo"]["y"]]


def in_units(st, mag):
    if mag != 1:
        st["pars"] = {k: v * (mag**0.5 if k == "k" else mag) for k, v in st["pars"].items()}
    return st


def generate(rng, i, tier):
    c = PB.gen(rng.sub("cfg"), f8=0.8)
    mode = rng.wpick([(2, "eager"), (1, "graph")])
    n = rng.randint(3, 14) if mode == "graph" else rng.randint(3, 9)
    wide = rng.sub("wide")
    if wide.chance(0.35):
        widen(wide, c, tier)
        if mode == "graph" and wide.chance(0.5):
            n = wide.randint(20, 60)
    vary = rng.wpick([(5, "all"), (2, "beta"), (2, "none")])
    st = in_units(PB.gen_step(rng.sub("s")), c.get("mag", 1))
    ops = []
    for k in range(n):
        r = rng.sub("op", k)
        new = in_units(PB.gen_step(r), c.get("mag", 1))
        if vary == "all":
            st = new
        elif vary == "beta":
            st = dict(st, beta=new["beta"])
        x = r.random()
        if k and x < 0.08:
            ops.append({"op": "setw", "key": k})
        elif x < 0.2:
            ops.append({"op": "predict"})
        ops.append({"op": "step", "st": st, "python": r.chance(0.3)})
    return {"cfg": c, "mode": mode, "vary": vary, "ops": ops, "own_init": rng.chance(0.25)}


def roles(w, m, cfg):
    Wb, sc = PB.split(m)
    dims = [2, *cfg["layers"], 2 if cfg["kind"] == "domain" else 1]
    ok = [A.shape for A, _ in Wb] == list(zip(dims[:-1], dims[1:])) and [b.shape for _, b in Wb] == [(d,) for d in dims[1:]]
    want = 1 if cfg["kind"] == "inverse" else 0
    w.check(ok and len(sc) == want and len(m.trainable_variables) == 2 * len(dims) - 2 + want, "trainable",
            lambda: f"trainable values {[tuple(v.shape) for v in m.trainable_variables]} for layers {dims} and {want} inverse parameters")
    return [(A.astype(float), b.astype(float)) for A, b in Wb], {"eps": float(sc[0])} if want else {}


def flatten(W, inv):
    return [t for p in W for t in p] + [np.asarray(v) for v in inv.values()]


def main(w, plan):
    import tensorflow as tf

    cfg = plan["cfg"]
    f8 = cfg["dtype"] == "f8"
    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    pb = PB.Problem(cfg, os.path.join(w.scratch, "out"))
    pb.seed()
    pb.geo()
    pb.space()
    pb.data()
    pb.model()
    if not plan["own_init"]:
        pb.setw()
    m = pb.m
    sp = pb.refspace()
    bx = np.concatenate([np.asarray(p, float)[:, :2] for p in pb.bd.values()])
    fn = PB.function(cfg["bdco"])
    bd = bx, np.array([fn(x, y) for x, y in bx])
    sens = None
    if cfg["kind"] in ("inverse", "domain"):
        p, v = (np.asarray(t, float) for t in pb.sensors)
        sens = p.reshape(-1, 2), v.reshape(-1)
    hard = PB.hard_fn(cfg["hard"], None) if cfg["kind"] == "hard" else None
    adam = None
    eg_max = 0.0
    t = 0
    w.mark(cfg["kind"], cfg["eq"], cfg["fe"]["type"], cfg["fe"]["qtype"], cfg["fe"]["trans"], cfg["geo"]["kind"], cfg["dtype"])
    w.mark(cfg["kind"], cfg["act"], cfg["attention"], cfg["lr"]["use_lr_scheduler"], cfg["lr"]["staircase"], plan["mode"], plan["vary"], len(cfg["layers"]), cfg["hard"] is None)
    for op in plan["ops"]:
        w.step()
        if op["op"] == "setw":
            pb.setw(op["key"])
            continue
        W, inv = roles(w, m, cfg)
        if op["op"] == "predict":
            u = pb.predict()
            W8 = [(tf.constant(A), tf.constant(b)) for A, b in W]
            want = RF.network(W8, tf.constant(sp.x), cfg["act"], cfg["attention"], hard).numpy()
            w.check(u.shape == want.shape, "prediction", f"shape {u.shape}, not {want.shape}")
            size = 1 + np.abs(want).max()
            bad = np.abs(u - want).max()
            w.check(bad <= (1e-9 if f8 else 1e-4) * size, "prediction", f"prediction differs from that of the network by {bad:.3g}")
            w.log("predict", round(float(np.abs(want).max()), 6))
            continue
        st = op["st"]
        L, G, scale = RF.losses_and_gradients(sp, cfg["kind"], cfg["eq"], W, inv, st["pars"], st["beta"], bd, sens, cfg["act"], cfg["attention"], hard)
        args = None
        if op["python"] and plan["mode"] == "eager":
            args = dict(beta=st["beta"], bilinear_params_dict=dict(st["pars"]))
        res = pb.step(st, args)
        W2, inv2 = roles(w, m, cfg)
        at = f"step {t} ({cfg['kind']}, {cfg['eq']}, {plan['mode']})"
        rel = 1e-9 if f8 else 5e-5

        def slack(k):
            # an error e of every residual entry changes a mean of squares by 2 sqrt(mean) e + e^2
            if k == "loss":
                return slack("loss_pde") + st["beta"] * slack("loss_dirichlet") + 10 * slack("sensor_loss") + rel * 0.1 * abs(L["loss"])
            want = L.get(k, 0.0)
            ncell, e = (sp.n_cells, rel * scale) if k == "loss_pde" else (1, rel * (1 + np.sqrt(want)))
            return 2 * np.sqrt(max(want, 0) * ncell) * e + ncell * e * e + rel * 0.1 * want

        for k, want in L.items():
            w.check(k in res, "loss-missing", f"{at}: {k} is not reported")
            tol = slack(k)
            w.check(abs(res[k] - want) <= tol, "loss", lambda: f"{at}: {k} reported {res[k]!r}, by definition {want!r} (tolerance {tol:.2g})")
        for k, v in inv.items():
            # the step reports its variables, i.e. the value after the update (graph mode may read either)
            w.check("inverse/" + k in res, "loss-missing", f"{at}: inverse parameter {k} is not reported")
            w.check(min(abs(res["inverse/" + k] - v), abs(res["inverse/" + k] - inv2[k])) <= 1e-6 * (1 + abs(v)), "inverse-reported", f"{at}: {k} reported as {res['inverse/' + k]}, is {v} -> {inv2[k]}")
        if adam is None:
            adam = RF.Adam([g.shape for g in G])
        lr = RF.rate(cfg["lr"], t)
        eg = max(np.abs(g).max() for g in G) * (1e-8 if f8 else 3e-3) + scale * (1e-10 if f8 else 1e-4)
        eg_max = max(eg_max, eg)
        D = adam.update(G, lr)
        worst = 0.0
        for k, ((d, a), x0, x1) in enumerate(zip(D, flatten(W, inv), flatten(W2, inv2))):
            den = np.sqrt(adam.v[k]) + adam.EPS
            tol = a * eg_max / den * (1 + np.abs(adam.m[k]) / den) + (1e-14 if f8 else 2e-6) * (np.abs(x0) + a) + (3e-5 if f8 else 2e-4) * np.abs(d)
            bad = np.abs((x0 - x1) - d) > tol
            name = f"inverse parameter {k - 2 * len(W)}" if k >= 2 * len(W) else ("kernel", "bias")[k % 2] + f" of layer {k // 2}"
            w.check(not bad.any(), "update", lambda: f"{at}: {name} moved by {(x1 - x0).reshape(-1)[bad.reshape(-1)][:3]}, one Adam update at rate {lr:g} is {-d.reshape(-1)[bad.reshape(-1)][:3]}")
            worst = max(worst, float(np.abs(d).max()))
        w.log("step", t, sorted((k, round(v, 5) if abs(v) < 1e4 else f"{v:.4e}") for k, v in res.items()))
        t += 1
    if t >= 3 and plan["vary"] != "none":
        w.nontrivial = True


def execute(plan, w):
    fresh.run_in(w, main, plan)


def shrink(plan):
    from ..run import generic_shrink

    yield from generic_shrink(plan)
