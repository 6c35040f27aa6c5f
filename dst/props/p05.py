"""P05: an export either fails or leaves a complete, exact file, and damages nothing else."""

import os
import pathlib
import shutil

import numpy as np

from .. import faults as F
from .. import meshgen as M
from ..core import Rng, Violation, arr_digest

LEVEL = "fault_enumeration"
RUNS = {"quick": 8000, "thorough": 100000}
RULE = (
    "one run = one prepared geometry (generated mesh file or rectangle) and a seeded history of 2-6 exports with seeded "
    "solution arrays, names, targets, disk faults, damaged grid files, wrong shapes and process deaths at an executed line, "
    "ending in a healthy export; non-trivial when a fault fired; distinct by digest of the recorded history"
)
MEASURE = "distinct (geometry, target, fault kind, crash decile, columns, data type, outcome) situations"
REAL = ["fastvpinns.Geometry.geometry_2d", "gmsh", "meshio", "numpy.savetxt", "kernel file system in a scratch folder"]
STUB = ["process death (forked child, os._exit at a chosen line)", "disk capacity", "open() errors"]
ASSUME = ["field names are single words", "a failed attempt to overwrite the domain's own grid file may lose it; the domain is prepared again then",
          "damage of the grid file is damage of its structure (missing tail), not a changed digit"]


def setup():
    import fastvpinns.Geometry.geometry_2d  # noqa: F401


FAULTS = ["interrupt", "memory", "crash", "crash", "crash-wide", "crash-wide", "fsize", "fsize", "devfull", "nofolder", "isdir", "open-w", "open-r",
          "template-cut", "template-gone", "names", "rows", "oned", "badname"]
SPECIAL = [0.0, -0.0, 1e-300, 5e-324, -1.7976931348623157e308, 1.0 / 3.0, 1e22, 123456789.123456789, float("inf"), float("-inf"), float("nan"), 0.1 + 0.2]


def generate(rng, i, tier):
    kind = rng.pick(["external", "external", "internal"])
    p = {"kind": kind, "shared": rng.chance(0.3)}
    if kind == "external":
        p["mesh"] = M.gen_mesh(rng.sub("m"), 24, loose=True)
    else:
        p["rect"] = {"x": [0, rng.real(0.3, 2, 3)], "y": [rng.real(-2, 0, 3), 1], "t": [rng.randint(1, 6), rng.randint(1, 6)]}
    ops = []
    for _ in range(rng.randint(2, 6)):
        nc = rng.wpick([(6, rng.randint(1, 5)), (1, 12)])
        names = rng.sample(["Sol", "Exact", "Error", "u", "v_x", "p2", "a-b", "POINT", "epsilon", "residual.1", "CELLS", "float", "Temperature", "q", "data1", "pointwise_error_of_the_velocity_x", "pointwise_error_of_the_velocity_y",
                            "pointwise_error_of_the_velocity" + "_long" * rng.randint(1, 8), "7", "Sol_1", "sol", "SCALARS", "T-T0", "ünï", "%d", "1e5"], nc)
        op = {"names": names, "seed": rng.randrange(1 << 30), "dtype": rng.pick(["f8", "f8", "f8", "f4", "i8"]), "order": rng.pick(["C", "F", "strided"]),
              "target": rng.wpick([(4, "out.vtk"), (2, "prediction_%d.vtk" % rng.randint(1, 3)), (1, "self"), (1, "sub/out.vtk"), (1, "internal_2.vtk"), (1, "a b.vtk")]),
              "names_as": rng.pick(["list", "list", "tuple"]), "path_as": rng.pick(["str", "str", "Path"]), "fault": None}
        if rng.chance(0.5):
            op["fault"] = {"kind": rng.pick(FAULTS), "frac": rng.random(), "which": rng.randrange(3)}
        ops.append(op)
    ops[-1]["fault"] = None
    p["ops"] = ops
    return p


def values(op, n):
    r = np.random.RandomState(op["seed"] % (1 << 32))
    nc = len(op["names"])
    a = r.standard_normal((n, nc)) * 10.0 ** r.randint(-12, 12, size=(n, nc))
    q = Rng(op["seed"])
    for _ in range(q.randrange(4)):
        a[q.randrange(n), q.randrange(nc)] = q.pick(SPECIAL)
    if op["dtype"] == "i8":
        a = np.nan_to_num(np.clip(a, -1e9, 1e9)).astype(np.int64)
    elif op["dtype"] == "f4":
        with np.errstate(all="ignore"):
            a = a.astype(np.float32)
    if op["order"] == "F":
        a = np.asfortranarray(a)
    elif op["order"] == "strided":
        b = np.zeros((2 * n, nc + 1), a.dtype)
        b[::2, :nc] = a
        a = b[::2, :nc]
    return a


def prepare(plan, s, folder):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    if plan["kind"] == "external":
        path = os.path.join(s, "in.mesh")
        with open(path, "w") as fh:
            fh.write(M.mesh_text(plan["mesh"]))
        g = Geometry_2D("quadrilateral", "external", 4, 4, folder)
        g.read_mesh(path, 1, "uniform", 0)
        return g, os.path.join(folder, "external.vtk")
    r = plan["rect"]
    g = Geometry_2D("quadrilateral", "internal", r["t"][0], r["t"][1], folder)
    g.generate_quad_mesh_internal(tuple(r["x"]), tuple(r["y"]), 1, 2, 8)
    return g, os.path.join(folder, "internal.vtk")


def check_file(w, path, grid, names, sol, fault):
    try:
        v = M.parse_vtk(F.read_bytes(path))
    except (ValueError, OSError) as e:
        raise Violation("export-incomplete", f"the export succeeded but the file is unusable ({e}); fault {fault}")
    w.check(np.array_equal(v["points"], grid["points"]) and v["cells"] == grid["cells"] and v["types"] == grid["types"],
            "wrong-grid", "the exported grid is not the grid of the domain")
    w.check(v["npd"] == len(grid["points"]), "export-incomplete", f"POINT_DATA {v['npd']} for {len(grid['points'])} points")
    got = [(n, loc) for loc, n, _t, _v in v["scalars"]]
    w.check(got == [(n, "point") for n in names], "wrong-names", f"{got} for {names}")
    for c, (_loc, n, _ty, vals) in enumerate(v["scalars"]):
        want = np.asarray(sol[:, c]).astype(np.float64)
        w.check(len(vals) == len(want) and np.array_equal(vals, want, equal_nan=True), "wrong-values",
                lambda: f"field {n}: {[(a, b) for a, b in zip(vals.tolist(), want.tolist()) if a != b and not (a != a and b != b)][:3]} (read, given)")


def execute(plan, w):
    from .p04 import reset_gmsh

    reset_gmsh()
    s = w.scratch
    folder = os.path.join(s, "dom")
    outdir = folder if plan["shared"] else os.path.join(s, "out")
    os.makedirs(folder)
    g, tmpl = prepare(plan, s, folder)
    good = F.read_bytes(tmpl)
    grid = M.parse_vtk(good)
    n = len(grid["points"])
    tp0 = np.array(g.get_test_points())
    for k, op in enumerate(plan["ops"]):
        fault = op["fault"]
        kind = fault["kind"] if fault else None
        os.makedirs(os.path.join(outdir, "sub"), exist_ok=True)
        if op["target"] == "self":
            d, name = folder, os.path.basename(tmpl)
        else:
            d, name = outdir, op["target"]
        target = os.path.join(d, name)
        selfish = os.path.realpath(target) == os.path.realpath(tmpl)
        if os.path.islink(target):
            os.unlink(target)
        elif os.path.isdir(target):
            os.rmdir(target)
        # the domain's grid file as prepared (or as last exported over on purpose)
        if not os.path.isfile(tmpl):
            with open(tmpl, "wb") as fh:
                fh.write(good)
        sol = values(op, n)
        names = list(op["names"])
        cur = F.read_bytes(tmpl)
        ctx = None
        must_fail = None
        if kind:
            w.arm(kind)
        if kind == "template-cut":
            upto = cur.find(b"POINT_DATA")
            with open(tmpl, "wb") as fh:
                fh.write(cur[: int(fault["frac"] * upto)])
        elif kind == "template-gone":
            os.unlink(tmpl)
        elif kind == "names":
            names = names[:-1] if fault["which"] == 0 and len(names) > 1 else names + ["extra"]
            must_fail = "more or fewer names than columns"
        elif kind == "rows":
            m = max(1, int(fault["frac"] * 2 * n))
            if m == n:
                m = n + 1
            sol = values(op, m)
            must_fail = "another number of rows than grid points"
        elif kind == "oned":
            sol = sol[:, 0]
            must_fail = "a one-dimensional solution for several names" if len(names) > 1 else None
        elif kind == "badname":
            names[int(fault["frac"] * len(names))] = None
        elif kind == "devfull" and not selfish:
            F.devfull(target)
        elif kind == "nofolder":
            d = os.path.join(outdir, "gone")
        elif kind == "isdir" and not selfish:
            if os.path.exists(target):
                os.unlink(target)
            os.mkdir(target)
            must_fail = "the target is a directory"
        elif kind == "open-w":
            ctx = F.OpenFault(os.path.basename(name), "w", 0, 28)
        elif kind == "open-r":
            ctx = F.OpenFault(os.path.basename(tmpl), "r", 0, 5)
        elif kind == "fsize":
            ctx = F.fsize(int(fault["frac"] * (len(good) + sol.size * 26)))
        before = F.tree(s)
        given = np.array(sol)
        dd = pathlib.Path(d) if op["path_as"] == "Path" else d
        nn = tuple(names) if op["names_as"] == "tuple" else list(names)

        def act():
            g.write_vtk(sol, dd, name, nn)

        err = None
        if kind in ("crash", "crash-wide", "interrupt", "memory"):
            wide = kind == "crash-wide"
            rehearsal = os.path.join(s, "rehearse")
            os.makedirs(rehearsal)
            shutil.copyfile(tmpl, os.path.join(rehearsal, os.path.basename(tmpl)))

            def dry():
                g.output_folder = rehearsal
                g.write_vtk(sol, rehearsal, "x.vtk", nn)

            st, res, times = F.in_child(dry, wide=wide, places=True)
            shutil.rmtree(rehearsal)
            w.check(st == "ok", "unexpected-exception", f"export on a healthy disk: {st} {res}")
            nl = 1 + max(max(v) for v in times)
            at = F.moment(times, fault["frac"], op["seed"])
            if kind in ("interrupt", "memory"):
                try:
                    with F.RaiseAt(at, KeyboardInterrupt() if kind == "interrupt" else MemoryError("injected")):
                        act()
                except (KeyboardInterrupt, MemoryError) as e:
                    err = type(e).__name__
                w.log("export", k, op["target"], kind, at, err)
                w.mark(plan["kind"], op["target"], kind, int(10 * at / nl), err)
        if kind in ("crash", "crash-wide"):
            st, res, _ = F.in_child(act, crash_at=at, wide=wide)
            w.log("crash", k, kind, at, nl, st)
            w.mark(plan["kind"], op["target"], kind, int(10 * at / nl), st)
            if st == "crashed":
                w.fired(kind)
                err = "killed"
            elif st != "ok":
                raise Violation("unexpected-exception", f"{st} {res}")
        elif kind not in ("interrupt", "memory"):
            try:
                if ctx is not None:
                    with ctx:
                        act()
                else:
                    act()
            except (Exception, SystemExit) as e:
                err = f"{type(e).__name__}: {e}"
            w.log("export", k, op["target"], kind, names, arr_digest(given), err.split(":")[0] if err else "ok")
            w.mark(plan["kind"], op["target"], kind, len(names), op["dtype"], op["order"], "failed" if err else "ok")
        w.step()
        w.check(np.array_equal(np.asarray(sol), given, equal_nan=True) and list(nn) == names, "input-changed", "the export changed the arrays or names it was given")
        if kind and err and err != "killed":
            w.fired(kind)
        if err is None:
            w.check(must_fail is None, "not-refused", lambda: f"accepted: {must_fail}")
            # (a bad name, a missing folder or grid file may be refused or coped with)
            check_file(w, os.path.join(d, name), grid, [str(x) for x in names], given.reshape(len(given), -1), kind)
        else:
            w.check(kind is not None, "retry-failed", lambda: f"export {k} on a healthy disk failed: {err}")
        # nothing else was touched
        after = F.tree(s)
        rel = os.path.relpath(target, s)
        for f in set(before) | set(after):
            if f == rel and not (err is not None and kind in ("names", "rows", "oned", "template-gone", "template-cut", "open-r")):
                continue
            if f == rel:
                w.check(before.get(f) == after.get(f), "target-touched", f"a refused export ({kind}) changed the existing file")
                continue
            if err in ("killed", "KeyboardInterrupt", "MemoryError") and f not in before:
                continue  # a temporary file of a killed or interrupted attempt
            w.check(before.get(f) == after.get(f), "foreign-file", f"{f} was changed by an export to {rel}")
        # mend what the fault broke
        if os.path.islink(target):
            os.unlink(target)
        if kind in ("template-cut", "template-gone"):
            with open(tmpl, "wb") as fh:
                fh.write(cur)
        if err is not None and selfish:
            with open(tmpl, "wb") as fh:
                fh.write(good)
        if plan["kind"] == "external" or err is None:
            tp = np.asarray(g.get_test_points())
            w.check(tp.shape == tp0.shape and np.array_equal(tp, tp0), "test-points", "the test points changed after an export")
    reset_gmsh()
