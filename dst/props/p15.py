"""P15: an interrupted experiment can simply be run again."""

import importlib
import json
import os
import runpy
import shutil
import sys
import time

import numpy as np

from .. import faults as F
from .. import fresh, meshgen as M, problem as PB
from ..core import HarnessError, Rng, Violation

LEVEL = "seeded_exploration"
RUNS = {"quick": 96, "thorough": 1500}
TWICE = {"quick": 4, "thorough": 16}
RULE = (
    "one run = one shipped example driver with a generated configuration and mesh, run once in an empty folder, and then in a folder that sees a seeded "
    "history of attempts which are killed, interrupted, meet full disks or missing inputs, or belong to another configuration, over one or several "
    "processes, with a last attempt left in peace; non-trivial when at least one attempt was disturbed; distinct by digest of the recorded history"
)
MEASURE = "distinct (driver, disturbance, outcome, stage of the attempt) situations"
REAL = ["examples/**/main*.py (ten shipped drivers with their example modules)", "fastvpinns (all but the tuner)", "tensorflow", "gmsh", "meshio", "matplotlib", "numpy", "pandas", "kernel file system in a scratch folder"]
STUB = ["clock (strictly increasing, deterministic)", "process death (the process leaves at the k-th executed line)", "disk capacity (RLIMIT_FSIZE, /dev/full, failing open)", "resolution of saved images (lowered)"]
ASSUME = ["the user seeds with tf.keras.utils.set_random_seed before every attempt", "a write that was completed survives the death of the process"]

EX = os.path.join(F.REPO, "examples")
FW, INV = "forward_problems_2d/", "inverse_problems_2d/"
# folder, example module, mesh, sensor table?
DRIVERS = [
    (FW + "uniform_mesh/poisson_2d", "sin_cos", False, False),
    (FW + "uniform_mesh/helmholtz_2d", "helmholtz_example", False, False),
    (FW + "hard_boundary_constraints/poisson_2d", "sin_cos", False, False),
    (FW + "complex_mesh/poisson2d", "sin_cos", True, False),
    (FW + "complex_mesh/cd2d", "cd2d_example", True, False),
    (FW + "complex_mesh/helmholtz2d", "helmholtz_example", True, False),
    (FW + "complex_mesh/cd2d_gear", None, True, True),
    (INV + "const_inverse_poisson2d", "inverse_uniform", False, False),
    (INV + "domain_inverse_cd2d/circle", "cd2d_inverse_circle_example", True, True),
    (INV + "domain_inverse_cd2d/USA", "cd2d_inverse_usa_example", True, False),
    (FW + "complex_mesh/USA", "sin_cos", True, False),
]
FAULTS = ["kill", "kill", "kill", "kill-wide", "interrupt", "interrupt", "fsize", "fsize", "open-w", "devfull", "missing", "other", "other", "isdir"]


def setup():
    PB.imports()
    import fastvpinns.utils.compute_utils  # noqa: F401
    import fastvpinns.utils.plot_utils  # noqa: F401
    import fastvpinns.utils.print_utils  # noqa: F401
    import pandas  # noqa: F401
    import rich.console  # noqa: F401
    import tqdm  # noqa: F401
    import yaml  # noqa: F401


# ---------------------------------------------------------------- plans
def gen_cfg(rng, mesh):
    n = rng.randint(4, 6)
    return {
        "cells": [rng.randint(1, 3), rng.randint(1, 2)], "nb": rng.pick([8, 16, 21]), "test": n, "plot": rng.chance(0.5),
        "fe": [rng.pick([2, 3]), rng.pick(["legendre", "jacobi"])], "quad": [rng.randint(3, 5), rng.pick(["gauss-jacobi", "gauss-legendre"])],
        "layers": [rng.randint(2, 6) for _ in range(rng.randint(1, 2))], "act": rng.pick(["tanh", "tanh", "swish"]), "epochs": rng.randint(2, 4), "out": rng.randint(1, 3),
        "dtype": rng.pick(["float32", "float64"]), "lr": [rng.pick([0.001, 0.01]), rng.chance(0.5), rng.randint(1, 3), rng.chance(0.5)], "beta": rng.pick([10, 1, 3]),
        "ref": rng.randint(1, 2), "bs": "uniform", "sensors": rng.randint(2, 5), "mesh": rng.randrange(1 << 20) if mesh else None,
    }


def generate(rng, i, tier):
    d = i % len(DRIVERS)
    mesh = DRIVERS[d][2]
    p = {"driver": d, "seed": rng.randrange(1 << 16), "cfg": gen_cfg(rng.sub("a"), mesh), "other": gen_cfg(rng.sub("b"), mesh)}
    if rng.chance(0.5):
        # the same experiment but for a detail
        q = json.loads(json.dumps(p["cfg"]))
        for k in rng.sample(["epochs", "layers", "fe", "dtype", "lr", "cells", "mesh", "test", "nb"], 2):
            q[k] = p["other"][k]
        p["other"] = q
    ops = []
    for k in range(rng.randint(1, 3)):
        r = rng.sub("op", k)
        kind = r.pick(FAULTS)
        ops.append({"kind": kind, "frac": r.random() if r.chance(0.7) else 1 - r.random() ** 2 * 0.2, "new": r.chance(0.4), "key": r.randrange(1 << 20)})
    ops.append({"kind": None, "frac": 0.0, "new": rng.chance(0.35), "key": 0})
    p["ops"] = ops
    return p


def shrink(plan):
    from ..run import generic_shrink

    for q in generic_shrink(plan):
        if q["ops"] and q["ops"][-1]["kind"] is None:
            yield q


# ---------------------------------------------------------------- one attempt
def driver(plan):
    folder = os.path.join(EX, DRIVERS[plan["driver"]][0])
    main = sorted(f for f in os.listdir(folder) if f.startswith("main") and f.endswith(".py"))[0]
    inp = sorted(f for f in os.listdir(folder) if f.endswith(".yaml"))[0]
    return folder, main, inp


def mesh_for(seed, tags):
    r = Rng("p15-mesh", seed)
    m = PB.moderate_mesh(r, 6)
    m["etags"] = [tags[0] if k == 0 else r.pick(tags) for k in range(len(m["edges"]))]
    return m


def prepare(plan, c, here, name):
    """Inputs of an attempt: the shipped configuration with other values, mesh and table."""
    import yaml

    folder, main, inp = driver(plan)
    _f, module, external, table = DRIVERS[plan["driver"]]
    with open(os.path.join(folder, inp)) as fh:
        y = yaml.safe_load(fh)
    y["experimentation"]["output_path"] = os.path.join(here, "results", "run")
    g = y["geometry"]
    g["mesh_generation_method"] = "external" if external else "internal"
    g["generate_mesh_plot"] = c["plot"]
    im = g["internal_mesh_params"]
    im["n_cells_x"], im["n_cells_y"] = c["cells"]
    im["n_boundary_points"] = c["nb"]
    im["n_test_points_x"] = im["n_test_points_y"] = c["test"]
    y["fe"].update(fe_order=c["fe"][0], fe_type=c["fe"][1], quad_order=c["quad"][0], quad_type=c["quad"][1])
    y["pde"]["beta"] = c["beta"]
    out = y["model"]["model_architecture"][-1]
    y["model"].update(model_architecture=[2, *c["layers"], out], activation=c["act"], epochs=c["epochs"], dtype=c["dtype"])
    y["model"]["learning_rate"].update(initial_learning_rate=c["lr"][0], use_lr_scheduler=c["lr"][1], decay_steps=c["lr"][2], staircase=c["lr"][3])
    y["logging"]["update_console_output"] = c["out"]
    if "inverse" in y:
        y["inverse"]["num_sensor_points"] = c["sensors"]
    inputs = []
    if external:
        tags = [1000, 1001] if "gear" in folder else [1000]
        mesh = mesh_for(c["mesh"], tags)
        path = os.path.join(here, name + ".mesh")
        with open(path, "w") as fh:
            fh.write(M.mesh_text(mesh))
        inputs.append(path)
        g["external_mesh_params"].update(mesh_file_name=path, boundary_refinement_level=c["ref"], boundary_sampling_method=c["bs"])
        if table:
            path = os.path.join(here, name + ".csv")
            pts = np.asarray(mesh["verts"], float)
            np.savetxt(path, np.column_stack([pts, np.sin(pts[:, 0]) + pts[:, 1], np.cos(pts[:, 1])]), delimiter=",", fmt="%.17g")
            inputs.append(path)
            if "exact_solution" in g:
                g["exact_solution"].update(exact_solution_generation="external", exact_solution_file_name=path)
            if "inverse" in y:
                y["inverse"]["sensor_data_file"] = path
        elif "exact_solution" in g:
            g["exact_solution"]["exact_solution_generation"] = "internal"
    path = os.path.join(here, name + ".yaml")
    with open(path, "w") as fh:
        yaml.safe_dump(y, fh)
    return path, inputs, y


class Surroundings:
    """What every attempt finds: working directory, clock, image resolution."""

    def __init__(self, here):
        self.here = here
        self.t = 1.7e9

    def __enter__(self):
        import matplotlib
        import matplotlib.figure

        self.cwd = os.getcwd()
        os.makedirs(self.here, exist_ok=True)
        os.chdir(self.here)
        self.real = time.time, matplotlib.figure.Figure.savefig
        matplotlib.rcParams["svg.hashsalt"] = "x"
        os.environ["SOURCE_DATE_EPOCH"] = "0"

        def now():
            self.t += 0.001
            return self.t

        real = self.real[1]
        time.time = now
        matplotlib.figure.Figure.savefig = lambda fig, f, **k: real(fig, f, **dict(k, dpi=12))

    def __exit__(self, *exc):
        import matplotlib.figure

        time.time, matplotlib.figure.Figure.savefig = self.real
        os.chdir(self.cwd)
        return False


def run_driver(plan, config):
    """The user runs `python main.py input.yaml` (in this process)."""
    import tensorflow as tf

    folder, main, _inp = driver(plan)
    for n in list(sys.modules):
        m = sys.modules[n]
        if str(getattr(m, "__file__", None) or "").startswith(EX + os.sep):
            del sys.modules[n]
    tf.keras.utils.set_random_seed(plan["seed"])
    argv, path = sys.argv, list(sys.path)
    sys.argv = [main, config]
    sys.path.insert(0, folder)
    sys.dont_write_bytecode = True
    try:
        runpy.run_path(os.path.join(folder, main), run_name="__main__")
    finally:
        sys.argv = argv
        sys.path[:] = path


class Lines(F.LineHook):
    def __init__(self, at=None, wide=False, places=None):
        super().__init__(at, wide, places)
        self.prefixes += (EX + os.sep,)


def results(folder):
    """{file: what a user would compare}."""
    import tensorflow as tf

    out = {}
    for base, _d, files in os.walk(folder):
        for n in sorted(files):
            p = os.path.join(base, n)
            rel = os.path.relpath(p, folder)
            if n == "checkpoint" or ".data-" in n or n == "time_per_epoch.txt":
                continue
            if n.endswith(".index"):
                try:
                    r = tf.train.load_checkpoint(p[: -len(".index")])
                    keys = sorted(k for k in r.get_variable_to_shape_map() if k != "_CHECKPOINTABLE_OBJECT_GRAPH" and "save_counter" not in k)
                    out[rel] = PB.digest([[k, np.asarray(r.get_tensor(k))] for k in keys])
                except Exception as e:
                    out[rel] = "unreadable: " + type(e).__name__
            else:
                out[rel] = PB.digest(np.frombuffer(F.read_bytes(p), np.uint8))
    return out


# ---------------------------------------------------------------- reference
def forward(c, prefix, x, hard):
    import tensorflow as tf

    r = tf.train.load_checkpoint(prefix)
    layers = sorted({int(k.split("/")[1]) for k in r.get_variable_to_shape_map() if k.startswith("layer_list/") or k.startswith("layer_list\\")})
    x = np.asarray(x, float)
    h = x
    for k in layers:
        kern, bias = (np.asarray(r.get_tensor(f"layer_list/{k}/{n}/.ATTRIBUTES/VARIABLE_VALUE"), float) for n in ("kernel", "bias"))
        h = h @ kern + bias
        if k != layers[-1]:
            h = np.tanh(h) if c["act"] == "tanh" else h / (1 + np.exp(-h))
    return h


def reference(plan, here):
    """The first attempt, in an empty folder and in peace -> what it leaves, and how long it is."""
    with Surroundings(here):
        c = plan["cfg"]
        config, _inputs, y = prepare(plan, c, here, "experiment")
        config2, _i, _y = prepare(plan, plan["other"], here, "other")
        opened = [0]

        class Count(F.OpenFault):
            pass

        with Count(os.path.join(here, "results"), "w", -1) as of:
            run_driver(plan, config)
        opened[0] = of.seen
        out = os.path.join(here, "results", "run")
        res = results(out)
        sizes = sorted({os.path.getsize(os.path.join(b, n)) for b, _d, fs in os.walk(out) for n in fs})
        names = sorted(os.path.relpath(os.path.join(b, n), out) for b, _d, fs in os.walk(out) for n in fs)
        facts = check_reference(plan, c, y, out)
    return {"results": res, "opened": opened[0], "sizes": sizes, "names": names, "facts": facts}


def count_lines(plan, here, wide):
    with Surroundings(here):
        config, _i, _y = prepare(plan, plan["cfg"], here, "experiment")
        places, moves, seen = {}, [], [None]
        out = os.path.join(here, "results", "run")

        def look(k):
            now = disk(out)
            if now != seen[0]:
                seen[0] = now
                moves.append(k)

        with Lines(look, wide=wide, places=places):
            run_driver(plan, config)
        return {"places": sorted(places.values()), "moves": moves}


def disk(folder):
    try:
        with os.scandir(folder) as it:
            return sorted((e.name, (st := e.stat(follow_symlinks=False)).st_size, st.st_mtime_ns, st.st_ino) for e in it)
    except OSError:
        return None


def check_reference(plan, c, y, out):
    """What the files of an undisturbed run must say, whatever the network."""
    has = lambda n: os.path.exists(os.path.join(out, n))
    load = lambda n: np.atleast_1d(np.loadtxt(os.path.join(out, n)))
    facts = []
    if not has("model_weights.index"):
        raise Violation("no-weights", "the experiment saved no weights")
    if not has("loss_function.txt"):
        raise Violation("no-losses", "the experiment saved no losses")
    n = len(load("loss_function.txt"))
    if n != c["epochs"]:
        raise Violation("losses-incomplete", f"{n} losses were saved for {c['epochs']} epochs")
    facts.append("losses")
    tol = 2e-4 if c["dtype"] == "float32" else 1e-9
    folder = DRIVERS[plan["driver"]][0]
    external = DRIVERS[plan["driver"]][2]
    if external:
        P = M.parse_vtk(F.read_bytes(os.path.join(out, "external.vtk")))["points"][:, :2]
    else:
        im = y["geometry"]["internal_mesh_params"]
        a, b = np.meshgrid(np.linspace(im["x_min"], im["x_max"], c["test"]), np.linspace(im["y_min"], im["y_max"], c["test"]))
        P = np.column_stack([a.ravel(), b.ravel()])
    u = forward(c, os.path.join(out, "model_weights"), P, None)
    if "hard_boundary" in folder:
        t = lambda v: np.tanh(4 * np.pi * v)
        u = u * (t(P[:, 0]) * t(P[:, 1]) * t(P[:, 0] - 1) * t(P[:, 1] - 1))[:, None]
    scale = 1 + np.abs(u).max()
    for nm in sorted(os.listdir(out)):
        if nm == "prediction.txt":
            p = load(nm).ravel()
            if p.shape != u[:, 0].shape or not np.all(np.abs(p - u[:, 0]) <= tol * scale):
                raise Violation("prediction-wrong", f"prediction.txt is not the prediction of the saved network at the test points ({folder})")
            e, x = load("error.txt").ravel(), load("exact.txt").ravel()
            if not np.all(np.abs(np.abs(p - x) - e) <= tol * (scale + np.abs(x).max())):
                raise Violation("error-wrong", f"error.txt is not the difference of prediction.txt and exact.txt ({folder})")
            facts.append("prediction")
        elif nm.endswith(".vtk") and nm != "external.vtk" and nm != "internal.vtk":
            v = M.parse_vtk(F.read_bytes(os.path.join(out, nm)))
            if not np.array_equal(v["points"][:, :2], P):
                raise Violation("export-grid", f"{nm} has another grid than external.vtk ({folder})")
            last = nm.startswith("final") or nm == f"prediction_{c['epochs']}.vtk"
            if last:
                f = dict([(a[1], a[3]) for a in v["scalars"]] + [(k[1], x) for k, x in v["fields"].items()]).get("Sol", [])
                if len(f) != len(P) or not np.all(np.abs(np.asarray(f).ravel() - u[:, 0]) <= tol * scale):
                    raise Violation("export-wrong", f"{nm}: Sol is not the prediction of the saved network at the grid points ({folder})")
                facts.append("export")
    return facts


# ---------------------------------------------------------------- lives
def disturbed(op, k, ref, lines, out, here, inputs):
    """(context or None, at-line, cleanup) of a disturbance."""
    kind = op["kind"]
    r = Rng("p15-op", op["key"])
    undo = []
    ctx = None
    if kind == "fsize":
        sizes = ref["sizes"]
        ctx = F.fsize(int(r.pick(sizes) * op["frac"]))
    elif kind == "open-w":
        ctx = F.OpenFault(os.path.join(here, "results"), "w", int(op["frac"] * max(1, ref["opened"])), r.pick([28, 5, 24]))
    elif kind in ("devfull", "isdir"):
        p = os.path.join(out, r.pick(ref["names"]))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.lexists(p):
            os.unlink(p)
        if kind == "devfull":
            os.symlink("/dev/full", p)
            undo.append(lambda: os.path.islink(p) and os.unlink(p))
        else:
            os.mkdir(p)
            undo.append(lambda: os.path.isdir(p) and shutil.rmtree(p))
    elif kind == "missing":
        p = r.pick(inputs)
        os.rename(p, p + ".away")
        undo.append(lambda: os.rename(p + ".away", p))
    return ctx, undo


def life(w, plan, ops, first, here, ref, lines):
    """Attempts in one process -> the index of the attempt it died in, or None."""
    out = os.path.join(here, "results", "run")
    with Surroundings(here):
        for k, op in enumerate(ops):
            kind = op["kind"]
            c = plan["other"] if kind == "other" else plan["cfg"]
            config, inputs, _y = prepare(plan, c, here, "other" if kind == "other" else "experiment")
            inputs = inputs + [config]
            if kind:
                w.arm(kind)
            ctx, undo = disturbed(op, k, ref, lines, out, here, inputs)
            hook = None
            if kind in ("kill", "kill-wide", "interrupt"):
                # right after something changed on the disk, or at any place of the code, however often it is executed
                n = lines["wide" if kind == "kill-wide" else "lib"]
                r = Rng("p15-at", op["key"])
                if n["moves"] and r.chance(0.5):
                    at = n["moves"][min(len(n["moves"]) - 1, int(op["frac"] * len(n["moves"])))]
                else:
                    at = r.pick(n["places"][min(len(n["places"]) - 1, int(op["frac"] * len(n["places"])))])

                def strike(j, at=at, kind=kind, k=k):
                    if j != at:
                        return
                    w.fired(kind)
                    if kind == "interrupt":
                        raise KeyboardInterrupt
                    w.mark(plan["driver"], kind, "died", int(10 * op["frac"]))
                    w.log("died", first + k, kind)
                    fresh.leave(fresh.pack(w, first + k))

                hook = Lines(strike, kind == "kill-wide")
            err = None
            try:
                try:
                    if ctx is not None:
                        with ctx:
                            run_driver(plan, config)
                    elif hook is not None:
                        with hook:
                            run_driver(plan, config)
                    else:
                        run_driver(plan, config)
                finally:
                    for f in undo:
                        f()
            except HarnessError:
                raise
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                if kind in (None, "other"):
                    raise Violation("retry-failed", f"attempt {first + k} of {DRIVERS[plan['driver']][0]} ({'other configuration' if kind else 'undisturbed'}) failed: {type(e).__name__}: {str(e)[:600]}")
                err = type(e).__name__
            w.step()
            if kind and (err or kind == "other"):
                w.fired(kind)
            w.log("attempt", first + k, kind, "failed" if err else "ok")
            w.mark(plan["driver"], kind, "failed" if err else "ok", int(10 * op["frac"]) if kind else None)
            if err or kind == "other" or kind in ("devfull", "isdir"):
                continue
            got = results(out)
            for n, want in ref["results"].items():
                w.check(n in got, "file-missing", lambda: f"attempt {first + k} ({kind or 'undisturbed'}) of {DRIVERS[plan['driver']][0]} was accepted without writing {n}")
                w.check(got[n] == want, "differs-from-first", lambda: f"attempt {first + k} ({kind or 'undisturbed'}) of {DRIVERS[plan['driver']][0]}: {n} is not that of a first attempt in an empty folder ({got[n][:60]})")
    return None


def execute(plan, w):
    # both folders have the same name length: some files name their folder
    base = os.path.join(w.scratch, "a"), os.path.join(w.scratch, "b"), os.path.join(w.scratch, "c")
    for b in base:
        os.makedirs(b, exist_ok=True)
    ref = fresh.call(reference, plan, base[0])
    w.log(ref["results"], ref["facts"])
    for f in ref["facts"]:
        w.mark(plan["driver"], "facts", f)
    w.evals += len(ref["facts"])
    kinds = {op["kind"] for op in plan["ops"]}
    lines = {}
    if kinds & {"kill", "interrupt"}:
        lines["lib"] = fresh.call(count_lines, plan, base[2], False)
    if "kill-wide" in kinds:
        shutil.rmtree(base[2], ignore_errors=True)
        lines["wide"] = fresh.call(count_lines, plan, base[2], True)
    k = 0
    while k < len(plan["ops"]):
        end = k + 1
        while end < len(plan["ops"]) and not plan["ops"][end]["new"]:
            end += 1
        died = fresh.run_in(w, life, plan, plan["ops"][k:end], k, base[1], ref, lines)
        k = end if died is None else died + 1
