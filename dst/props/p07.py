"""P07: seeded runs are reproducible whatever happened before."""

import json
import os
import random
import subprocess
import time

import numpy as np

from .. import faults as F
from .. import fresh, problem as PB
from ..core import HarnessError, Rng, np_seed

LEVEL = "seeded_exploration"
RUNS = {"quick": 150, "thorough": 4000}
TWICE = {"quick": 24, "thorough": 200}
DETERMINISM_IS_PROPERTY = True
RULE = (
    "one run = one generated problem executed in a pristine process, and again in a process with a seeded history of other work, failed work, "
    "leftover files, random draws and a displaced clock before (and between its operations, work that may not matter); once more in the same "
    "process, and in some runs in a new interpreter with another hash seed; everything observed must agree bit for bit; non-trivial always "
    "(every run has a history); distinct by digest of the recorded history"
)
MEASURE = "distinct (preceding event, its outcome), (problem part, mode) situations"
REAL = ["fastvpinns.Geometry", "fastvpinns.FE (all)", "fastvpinns.data", "fastvpinns.model (all four)", "fastvpinns.physics", "tensorflow", "gmsh", "meshio", "pyDOE", "matplotlib"]
STUB = ["clock (displaced)", "failures of user functions, disk and gmsh (injected)", "random source (seeded)"]
ASSUME = ["the user seeds with tf.keras.utils.set_random_seed", "TensorFlow runs with one thread and deterministic kernels (pinned by the check)"]

NOISE = ["problem", "problem", "draws", "reseed", "leftovers", "clock", "badmesh", "badfe", "badbd", "gmshfail", "badstep", "clearsession", "figures", "environ",
         "printopts", "chdir", "vtk", "badforce", "garbage", "resave", "samefolder"]
LIGHT = ["draws-private", "clock", "garbage", "environ", "getters"]


def setup():
    PB.imports()


def gen_problem(rng):
    c = PB.gen(rng, f8=0.5)
    g = c["geo"]
    if g["kind"] == "mesh":
        g["ref"] = rng.randint(1, 3)
        g["bs"] = rng.pick(["uniform", "lhs", "lhs"])
    c["sens"]["sample"] = rng.chance(0.3)
    c["points"] = rng.chance(0.3)
    return c


def generate(rng, i, tier):
    p = {"cfg": gen_problem(rng.sub("cfg")), "mode": rng.pick(["graph", "eager", "eager"]), "steps": rng.randint(2, 6), "fresh_args": rng.chance(0.5)}
    hist = []
    for k in range(rng.randint(1, 5)):
        r = rng.sub("n", k)
        ev = {"kind": r.pick(NOISE), "key": r.randrange(1 << 30)}
        if ev["kind"] in ("problem", "badstep"):
            ev["cfg"] = gen_problem(r.sub("c"))
            if r.chance(0.5):  # a near twin: same discretisation, something else different
                ev["cfg"] = near(r, p["cfg"], ev["cfg"])
            ev["steps"] = r.randint(0, 3)
        hist.append(ev)
    p["ops"] = hist
    p["between"] = [{"kind": rng.pick(LIGHT), "at": rng.randint(0, 8), "key": rng.randrange(1 << 30)} for _ in range(rng.randint(0, 3))]
    p["again"] = rng.chance(0.6)
    p["hashseed"] = rng.randint(1, 4000) if i % 12 == 5 else None
    return p


def near(r, a, b):
    c = json.loads(json.dumps(a))
    for key in r.sample(["seed", "fe", "geo", "co", "bdco", "lr", "layers", "inv", "hard", "act", "sens", "kind"], r.randint(1, 2)):
        c[key] = b[key]
    c["eq"] = c["eq"] if c["eq"] in PB.EQS[c["kind"]] else PB.EQS[c["kind"]][0]
    if c["kind"] == "domain":
        c["eq"] = "cd"
    return c


def play(cfg, folder, mode, steps, fresh_args, between=()):
    """The whole problem; returns the observations."""
    import tensorflow as tf

    tf.config.run_functions_eagerly(mode == "eager")
    here = os.getcwd()
    os.makedirs(folder, exist_ok=True)
    os.chdir(folder)
    try:
        pb = PB.Problem(cfg, folder)
        pb.seed()
        todo = [pb.geo, pb.space]
        if cfg["points"]:
            todo.append(lambda: points(pb))
        todo += [pb.data, pb.model]
        todo += [(lambda k=k: pb.step(PB.gen_step(Rng("st", cfg["seed"], k)) if fresh_args else None)) for k in range(steps)]
        todo += [pb.predict]
        for k, op in enumerate(todo):
            for ev in between:
                if ev["at"] == k:
                    light(ev, pb)
            op()
        # whatever is drawn next (by a second problem, say) is reproducible too
        pb.rec("next", np.random.rand(2), np.array([random.random()]), tf.random.uniform([2]))
        return json.loads(json.dumps(pb.out))
    finally:
        os.chdir(here)
        tf.config.run_functions_eagerly(False)


def points(pb):
    if pb.cfg["geo"]["kind"] == "internal":
        pb.geom.generate_vtk_for_test()
        import meshio

        p = meshio.read(os.path.join(pb.folder, "internal.vtk"))
        pb.rec("vtk", p.points)
    else:
        pb.geom.generate_vtk_for_test()
    pb.rec("points", pb.geom.get_test_points())


def light(ev, pb):
    """Work between the operations of the problem which has no part in it."""
    r = Rng("light", ev["key"])
    if ev["kind"] == "draws-private":
        random.Random(ev["key"]).random()
        np.random.RandomState(ev["key"] % 1000).rand(5)
    elif ev["kind"] == "clock":
        clock(r)
    elif ev["kind"] == "garbage":
        garbage(r)
    elif ev["kind"] == "environ":
        os.environ["FASTVPINNS_X%d" % r.randint(0, 9)] = str(r.random())
    elif ev["kind"] == "getters" and hasattr(pb, "sp"):
        for k in range(len(pb.cells)):
            for g in (pb.sp.get_shape_function_val, pb.sp.get_shape_function_grad_x, pb.sp.get_quadrature_weights, pb.sp.get_forcing_function_values):
                g(k)


REAL_CLOCK = time.time, time.time_ns


def clock(r):
    off = r.pick([0.0, -3.5e8, 7.7e8, 123.456])
    time.time = lambda: REAL_CLOCK[0]() + off
    time.time_ns = lambda: REAL_CLOCK[1]() + int(off * 1e9)


KEEP = []


def garbage(r):
    import gc

    KEEP.append([bytearray(r.randint(1, 5000)) for _ in range(r.randint(1, 200))])
    if r.chance(0.5) and len(KEEP) > 1:
        KEEP.pop(0)
    gc.collect()


def noise(ev, folder, main_folder, plan):
    """Returns a short description of what happened."""
    import matplotlib.pyplot as plt
    import tensorflow as tf

    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    r = Rng("noise", ev["key"])
    k = ev["kind"]
    if k == "problem":
        play(ev["cfg"], folder, r.pick(["graph", "eager", "eager"]), ev["steps"], True)
    elif k == "samefolder":
        # the same output folder was used for another problem
        play(dict(gen_problem(r.sub("c")), points=True), main_folder, "eager", 1, False)
    elif k == "resave":
        # the very problem ran before
        play(plan["cfg"], folder, "eager", 1, False)
    elif k == "draws":
        np.random.rand(r.randint(1, 50))
        [random.random() for _ in range(r.randint(1, 50))]
        tf.random.uniform([r.randint(1, 9)])
        np.random.default_rng().random()
    elif k == "reseed":
        tf.keras.utils.set_random_seed(r.randint(0, 10**6))
        np.random.rand(3)
    elif k == "leftovers":
        os.makedirs(main_folder, exist_ok=True)
        for n in r.sample(["internal.vtk", "internal.msh", "external.vtk", "mesh.png", "sensor_points.png", "sensors.csv", "in.mesh", "cache.npy", "model.h5", "checkpoint"], 4):
            with open(os.path.join(main_folder, n), "w") as fh:
                fh.write("leftover %s\n" % r.random())
        os.makedirs(os.path.join(main_folder, "sub"), exist_ok=True)
    elif k == "clock":
        clock(r)
    elif k == "garbage":
        garbage(r)
    elif k == "badmesh":
        p = os.path.join(folder, "bad.mesh")
        with open(p, "w") as fh:
            fh.write("MeshVersionFormatted 1\nDimension 3\nVertices\n2\n0 0 0 1\n")
        Geometry_2D("quadrilateral", "external", 3, 3, folder).read_mesh(p, 1, "lhs", 0)
    elif k in ("badfe", "badbd", "badforce"):
        g = Geometry_2D("quadrilateral", "internal", 3, 3, folder, True)
        cells, bd = g.generate_quad_mesh_internal((0, 1), (0, 1), 2, 1, 6)
        calls = []

        def fn(x, y):
            calls.append(1)
            if len(calls) > r.randint(0, 4):
                raise ArithmeticError("injected")
            return x + y

        sp = Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=3, fe_type="nonsense" if k == "badfe" else "legendre", quad_order=4,
                       quad_type="gauss-legendre", fe_transformation_type="affine", bound_function_dict={t: fn if k == "badbd" else (lambda x, y: 0.0) for t in bd},
                       bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=fn, output_path=folder)
        sp.get_forcing_function_values(0)
    elif k == "gmshfail":
        g = Geometry_2D("quadrilateral", "internal", 3, 3, folder, False)
        with F.GmshFault(r.randint(0, 12)):
            g.generate_quad_mesh_internal((0, 1), (0, 2), 2, 2, 5)
    elif k == "vtk":
        g = Geometry_2D("quadrilateral", "internal", r.randint(2, 5), 3, folder, False)
        g.generate_quad_mesh_internal((0, 1), (0, r.randint(1, 3)), 2, 2, 5)
        g.get_test_points()
    elif k == "badstep":
        def loss(**kw):
            raise ArithmeticError("injected")

        tf.config.run_functions_eagerly(True)
        try:
            pb = PB.Problem(dict(ev["cfg"], sens=dict(ev["cfg"]["sens"], sample=False)), folder)
            pb.seed(), pb.geo(), pb.space(), pb.data(), pb.model(loss)
            pb.step()
        finally:
            tf.config.run_functions_eagerly(False)
    elif k == "clearsession":
        tf.keras.backend.clear_session()
    elif k == "figures":
        plt.figure()
        plt.plot([1, 2])
    elif k == "environ":
        os.environ["HOME"] = folder
        os.environ["FASTVPINNS_SEED"] = str(r.randint(0, 99))
        os.environ["USER"] = "u%d" % r.randint(0, 99)
    elif k == "printopts":
        np.set_printoptions(precision=2, suppress=True)
    elif k == "chdir":
        os.makedirs(os.path.join(folder, "elsewhere"), exist_ok=True)
        os.chdir(os.path.join(folder, "elsewhere"))


def pristine(plan, folder):
    return play(plan["cfg"], folder, plan["mode"], plan["steps"], plan["fresh_args"])


def polluted(plan, scratch):
    """-> (descriptions of the history, observations, observations of a repetition)"""
    log = []
    main_folder = os.path.join(scratch, "main")
    for j, ev in enumerate(plan["ops"]):
        folder = os.path.join(scratch, f"n{j}")
        os.makedirs(folder, exist_ok=True)
        try:
            noise(ev, folder, main_folder, plan)
            log.append((ev["kind"], "ok"))
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:
            log.append((ev["kind"], type(e).__name__))
    out = play(plan["cfg"], main_folder, plan["mode"], plan["steps"], plan["fresh_args"], plan["between"])
    rep = play(plan["cfg"], main_folder, plan["mode"], plan["steps"], plan["fresh_args"]) if plan["again"] else None
    return log, out, rep


def sub(path):
    """Entry point of the new interpreter."""
    plan = json.load(open(path))
    PB.imports()
    out = pristine(plan, path + ".d")
    json.dump(out, open(path + ".out", "w"))


def other_interpreter(plan, scratch):
    from .. import run as R

    p = os.path.join(scratch, "other")
    json.dump(plan, open(p, "w"))
    env = R.run_env(plan["hashseed"])
    env["HOME"] = scratch
    e = subprocess.run([R.PY, "-c", "import sys; from dst.props import p07; p07.sub(sys.argv[1])", p], cwd=R.VERIF, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
    if not os.path.exists(p + ".out"):
        raise HarnessError("new interpreter failed: " + e.stderr.decode(errors="replace")[-800:])
    return json.load(open(p + ".out"))


def compare(w, a, b, what):
    w.check(len(a) == len(b), "irreproducible", f"{what}: {len(b)} observations, not {len(a)}")
    for k, (x, y) in enumerate(zip(a, b)):
        w.check(x == y, "irreproducible", lambda: f"{what}: observation {k} ({x[0]}) differs: {json.dumps(x)[:300]} / {json.dumps(y)[:300]}")


def execute(plan, w):
    s = w.scratch
    base = fresh.call(pristine, plan, os.path.join(s, "pristine"))
    log, out, rep = fresh.call(polluted, plan, s)
    w.nontrivial = True
    for k, res in log:
        w.step()
        w.mark("before", k, res)
        w.log("before", k, res)
        if res != "ok" and k.startswith("bad") or k in ("gmshfail", "clock", "leftovers"):
            w.fired(k)
    c = plan["cfg"]
    w.mark(c["kind"], c["geo"]["kind"], c["geo"].get("bs"), c["sens"]["sample"] and c["kind"] in ("inverse", "domain"), c["points"], plan["mode"])
    w.step(len(out))
    for o in base:
        w.log(*o)
    compare(w, base, out, f"after {[x[0] for x in log]}")
    if rep is not None:
        compare(w, base, rep, "repeated in the same process and folder")
    if plan["hashseed"]:
        compare(w, base, other_interpreter(plan, s), f"in a new interpreter with hash seed {plan['hashseed']}")
        w.fired("hashseed")
