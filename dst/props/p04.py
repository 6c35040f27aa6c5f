"""P04: preparing a rectangular mesh gives the full grid or an error, and attempts that failed
or were killed leave nothing behind that changes the next one."""

import os

import numpy as np

from .. import faults as F
from .. import meshgen as M
from ..core import HarnessError, Violation, arr_digest

LEVEL = "fault_enumeration"
RUNS = {"quick": 1600, "thorough": 20000}
RULE = (
    "one run = one seeded history of 2-5 mesh preparations by one or two geometry objects in one process (or forked "
    "children), with seeded leftovers, disk faults, failures inside gmsh, bad arguments and process deaths at an executed "
    "library line, always ending in a healthy attempt; non-trivial when a fault fired or leftovers were present; distinct "
    "by digest of the recorded history"
)
MEASURE = "distinct (fault kind, crash position decile, leftovers, process kind, grid file on/off, outcome) situations"
REAL = ["fastvpinns.Geometry.geometry_2d", "gmsh", "meshio", "pyDOE", "numpy", "kernel file system in a scratch folder"]
STUB = ["process death (forked child, os._exit at a chosen line)", "disk capacity", "open() errors", "failures of gmsh calls"]
ASSUME = ["a death loses unwritten buffers and memory and keeps completed write() calls in order", "rectangles have positive width and height"]


def setup():
    import fastvpinns.Geometry.geometry_2d  # noqa: F401


FAULTS = ["crash", "crash", "crash-wide", "crash-wide", "gmsh", "gmsh", "fsize", "devfull-vtk", "nofolder", "isdir-vtk",
          "isdir-msh", "open-w", "open-r", "badarg", "interrupt", "interrupt-line", "interrupt-line", "memory"]
LEFT = ["internal.msh", "internal.vtk", "external.vtk", "other.txt"]


def generate(rng, i, tier):
    cfgs = []
    for _ in range(rng.randint(1, 3)):
        x0, y0 = rng.pick([0.0, rng.real(-5, 5, 3)]), rng.pick([0.0, rng.real(-5, 5, 3)])
        w, h = rng.wpick([(3, 1.0), (4, rng.real(0.2, 4, 3)), (1, rng.real(20, 200, 1)), (1, rng.real(0.001, 0.01, 5))]), rng.real(0.2, 4, 3)
        if w < 0.05 or w > 10:
            h = round(w * rng.real(0.3, 3), 6)
        big = rng.chance(0.05)
        cfgs.append({
            "x": [x0, round(x0 + w, 6)], "y": [y0, round(y0 + h, 6)],
            "n": [rng.randint(1, 12), rng.randint(1, 12)] if big else [rng.randint(1, 4), rng.randint(1, 4)],
            "t": cfgs[0]["t"] if cfgs and rng.chance(0.6) else [rng.randint(12, 30), rng.randint(12, 30)] if big else [rng.randint(1, 8), rng.randint(1, 8)],
            "nb": rng.pick([4, 5, 17, 40, 80, rng.randint(4, 60)]), "opt": cfgs[0]["opt"] if cfgs and rng.chance(0.6) else rng.chance(0.2), "ints": rng.chance(0.1),
        })
        if cfgs[-1]["ints"]:
            a, b = rng.randint(-3, 3), rng.randint(-3, 3)
            cfgs[-1]["x"], cfgs[-1]["y"] = [a, a + rng.randint(1, 3)], [b, b + rng.randint(1, 3)]
    ops = []
    for _ in range(rng.randint(2, 5)):
        op = {"cfg": rng.randrange(len(cfgs)), "geo": rng.randrange(2), "child": rng.chance(0.2), "seed": rng.randrange(1 << 30), "age": F.gen_stamp(rng),
              "fault": None, "left": []}
        if rng.chance(0.55):
            op["fault"] = {"kind": rng.pick(FAULTS), "frac": rng.random(), "which": rng.randrange(3)}
        for name in LEFT:
            if rng.chance(0.12):
                op["left"].append([name, rng.pick(["garbage", "empty", "truncated", "other", "binary"])])
        ops.append(op)
    ops[-1]["fault"] = None
    return {"cfgs": cfgs, "ops": ops, "shared": rng.chance(0.6), "folder": rng.pick(["out", "out put", "a/b.c", "ünï"])}


def shrink(plan):
    import json

    from ..run import generic_shrink

    yield from generic_shrink(plan)
    for k, op in enumerate(plan["ops"]):
        for key, val in (("fault", None), ("left", []), ("child", False)):
            if op[key]:
                q = json.loads(json.dumps(plan))
                q["ops"][k][key] = val
                yield q


def reset_gmsh():
    import gmsh

    if gmsh.isInitialized():
        gmsh.finalize()


def observe(g, c, cells, bd, folder):
    """Everything the attempt handed out, as plain data."""
    out = {"cells": np.array(cells), "bd": {int(t): np.array(p) for t, p in bd.items()}, "tp": np.array(g.get_test_points()),
           "attr_cells": np.array(g.cell_points), "mesh_points": np.array(g.mesh.points),
           "conn": [(b.type, np.array(b.data)) for b in g.mesh.cells]}
    vtk = os.path.join(folder, "internal.vtk")
    out["vtk"] = F.read_bytes(vtk) if os.path.isfile(vtk) else None
    return out


def attempt(g, c, seed, bad=False):
    np.random.seed(seed)
    return g.generate_quad_mesh_internal(tuple(c["x"]), tuple(c["y"]), c["n"][0], c["n"][1], c["nb"])


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def check_grid(w, c, o):
    """Absolute oracle: the full grid of the rectangle."""
    nx, ny = c["n"]
    (x0, x1), (y0, y1) = c["x"], c["y"]
    W, H = x1 - x0, y1 - y0
    tol = 1e-12 * max(abs(x0), abs(x1), abs(y0), abs(y1), W, H)
    cells = o["cells"]
    w.check(cells.dtype == np.float64 and cells.shape == (nx * ny, 4, 2), "cell-count", f"{cells.dtype} {cells.shape} for {nx}x{ny} cells")
    seen = set()
    for cell in cells:
        w.check(M.area(cell) > 0, "orientation", lambda: f"not counter-clockwise: {cell.tolist()}")
        cx, cy = cell.mean(axis=0)
        i, j = int(np.floor((cx - x0) / W * nx)), int(np.floor((cy - y0) / H * ny))
        w.check(0 <= i < nx and 0 <= j < ny, "outside", lambda: f"cell outside the rectangle: {cell.tolist()}")
        seen.add((i, j))
        xa, xb, ya, yb = x0 + W * i / nx, x0 + W * (i + 1) / nx, y0 + H * j / ny, y0 + H * (j + 1) / ny
        want = np.array([[xa, ya], [xb, ya], [xb, yb], [xa, yb]])
        ok = any(np.abs(np.roll(cell, r, axis=0) - want).max() <= tol * 8 for r in range(4))
        w.check(ok, "wrong-cell", lambda: f"cell ({i},{j}) of {nx}x{ny}: {cell.tolist()} expected {want.tolist()}")
    w.check(len(seen) == nx * ny, "missing-cell", f"{len(seen)} different cells of {nx * ny}")
    w.check(np.array_equal(cells, o["attr_cells"]), "cell-points", "cell_points differs from the returned cells")
    # the mesh object describes the same cells
    w.check([t for t, _ in o["conn"]] == ["quad"], "mesh-object", lambda: f"{[t for t, _ in o['conn']]}")
    conn = o["conn"][0][1]
    w.check(conn.dtype.kind in "iu" and conn.shape == (nx * ny, 4) and conn.min() >= 0 and conn.max() < len(o["mesh_points"]),
            "mesh-object", "invalid connectivity")
    w.check(np.abs(o["mesh_points"][conn][:, :, :2] - cells).max() <= tol * 8, "mesh-object", "the mesh object holds other cells")
    # boundary: four sides, on their sides (the details are P02's)
    w.check(set(o["bd"]) == {1000, 1001, 1002, 1003}, "boundary-tags", lambda: f"{sorted(o['bd'])}")
    # test points
    tx, ty = np.linspace(x0, x1, c["t"][0]), np.linspace(y0, y1, c["t"][1])
    gx, gy = np.meshgrid(tx, ty)
    want = np.stack([gx.ravel(), gy.ravel()], axis=1)
    w.check(o["tp"].shape == want.shape and np.abs(o["tp"] - want).max() <= tol * 8, "test-points", "test points are not the uniform grid")


def check_vtk(w, c, data):
    (x0, x1), (y0, y1) = c["x"], c["y"]
    W, H = x1 - x0, y1 - y0
    try:
        v = M.parse_vtk(data)
    except ValueError as e:
        raise Violation("vtk-incomplete", f"the attempt succeeded but internal.vtk is unusable ({e})")
    P = v["points"]
    tol = 1e-9 * max(W, H, abs(x0), abs(x1), abs(y0), abs(y1))
    w.check(P[:, 0].min() >= x0 - tol and P[:, 0].max() <= x1 + tol and P[:, 1].min() >= y0 - tol and P[:, 1].max() <= y1 + tol,
            "vtk-outside", lambda: f"grid points outside the rectangle {c['x']} {c['y']}: {P.min(axis=0)} {P.max(axis=0)}")
    total = 0.0
    for cell, t in zip(v["cells"], v["types"]):
        w.check(all(0 <= q < len(P) for q in cell), "vtk-cells", "cell with an unknown point")
        if t in (5, 9):
            total += abs(M.area(P[cell][:, :2]))
    w.check(abs(total - W * H) <= 1e-6 * W * H, "vtk-area", f"the grid covers {total}, the rectangle is {W * H}")
    w.check(v["npd"] in (None, len(P)), "vtk-points", "POINT_DATA count differs from the number of points")


class Geo:
    """Keeps geometry objects by (slot, configuration)."""


def run_fault(kind, fault, op, c, g, folder, counts):
    """Context and post-condition of an in-process fault."""
    import gmsh
    import meshio

    if kind == "gmsh":
        return F.GmshFault(int(fault["frac"] * max(1, counts["gmsh"])))
    if kind == "interrupt":
        return F.GmshFault(int(fault["frac"] * max(1, counts["gmsh"])), KeyboardInterrupt)
    if kind in ("interrupt-line", "memory"):
        return F.RaiseAt(F.moment(counts["times"], fault["frac"], op["seed"]), KeyboardInterrupt() if kind == "interrupt-line" else MemoryError("injected"))
    if kind == "fsize":
        return F.fsize(int(fault["frac"] * counts["size"]))
    if kind == "open-w":
        return F.OpenFault("internal.vtk", "w", 0, 28)
    if kind == "open-r":
        return F.OpenFault("internal.msh", "r", fault["which"] % 2, 5)
    return None


def execute(plan, w):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    reset_gmsh()
    s = w.scratch
    objs = {}
    folders = [os.path.join(s, plan["folder"]), os.path.join(s, plan["folder"] if plan["shared"] else plan["folder"] + "2")]
    cfgs = plan["cfgs"]

    def ref(c, seed):
        """The first attempt in an empty folder, in a process of its own."""
        f = os.path.join(s, "ref")
        os.makedirs(f, exist_ok=True)
        for n in os.listdir(f):
            os.unlink(os.path.join(f, n))

        def go():
            g = Geometry_2D("quadrilateral", "internal", c["t"][0], c["t"][1], f, c["opt"])
            with F.GmshFault() as gf:
                cells, bd = attempt(g, c, seed)
            o = observe(g, c, cells, bd, f)
            sizes = [os.path.getsize(os.path.join(f, n)) for n in os.listdir(f)]
            return o, gf.seen, max(sizes, default=0)

        st, res, _n = F.in_child(go, want_result=True)
        if st == "raised":
            raise Violation("unexpected-exception", f"a first attempt in an empty folder failed: {res}")
        if st == "died":
            raise Violation("process-died", f"a first attempt in an empty folder: {res}")
        return res

    refs = {}
    for k, op in enumerate(plan["ops"]):
        c = cfgs[op["cfg"] % len(cfgs)]
        folder = folders[op["geo"]]
        # one object serves all rectangles with its test grid
        key = (op["geo"], tuple(c["t"]), c["opt"])
        fault = op["fault"]
        kind = fault["kind"] if fault else None
        os.makedirs(folder, exist_ok=True)
        for n in ("internal.msh", "internal.vtk"):
            p = os.path.join(folder, n)
            if os.path.islink(p):
                os.unlink(p)
            elif os.path.isdir(p):
                os.rmdir(p)
        rk = (op["cfg"] % len(cfgs), op["seed"])
        if rk not in refs:
            refs[rk] = ref(c, op["seed"])
        want, ngmsh, size = refs[rk]
        check_grid(w, c, want)
        if not c["opt"]:
            w.check(want["vtk"] is not None, "vtk-missing", "no grid file was written")
            check_vtk(w, c, want["vtk"])
        left = {}
        for name, how in op["left"]:
            data = {"garbage": b"garbage\nPOINTS 3\n", "empty": b"", "binary": bytes(range(256)) * 20,
                    "truncated": (want["vtk"] or b"# vtk DataFile Version 4.2\n")[:300],
                    "other": b"# vtk DataFile Version 4.2\nx\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 1 double\n7 7 7\nCELLS 1 2\n1 0\nCELL_TYPES 1\n1\n"}[how]
            with open(os.path.join(folder, name), "wb") as fh:
                fh.write(data)
            F.stamp(os.path.join(folder, name), op["age"])
            left[name] = data
            w.fired("leftover")
        cc = dict(c)
        target_folder = folder
        if kind:
            w.arm(kind)
        if kind == "badarg":
            cc = dict(c, t=[0, c["t"][1]] if fault["which"] else [c["t"][0], 0])
        if kind == "nofolder":
            target_folder = os.path.join(folder, "gone")
        for n in ("vtk", "msh"):
            if kind == "devfull-" + n:
                F.devfull(os.path.join(folder, "internal." + n))
            if kind == "isdir-" + n:
                p = os.path.join(folder, "internal." + n)
                if os.path.exists(p):
                    os.unlink(p)
                os.mkdir(p)
        g = objs.get(key)
        if g is None or kind in ("badarg", "nofolder"):
            g = Geometry_2D("quadrilateral", "internal", cc["t"][0], cc["t"][1], target_folder, c["opt"])
            if kind not in ("badarg", "nofolder"):
                objs[key] = g
        before = F.tree(folder)
        err = o = None
        if kind in ("crash", "crash-wide"):
            wide = kind == "crash-wide"
            # how many lines the attempt executes (nothing of it survives)
            f2 = os.path.join(s, "count")
            os.makedirs(f2, exist_ok=True)
            st, _r, times = F.in_child(lambda: attempt(Geometry_2D("quadrilateral", "internal", c["t"][0], c["t"][1], f2, c["opt"]), c, op["seed"]), wide=wide, places=True)
            if st != "ok":
                raise Violation("unexpected-exception", f"{st} {_r}")
            frac = fault["frac"] if fault["which"] else 1 - fault["frac"] ** 3 * 0.3
            n = 1 + max(max(v) for v in times)
            at = F.moment(times, frac, op["seed"])
            st, res, _n = F.in_child(lambda: attempt(g, c, op["seed"]), crash_at=at, wide=wide)
            w.log("crash", k, kind, at, n, st)
            w.mark(kind, int(10 * at / n), bool(left), c["opt"], st)
            if st == "died":
                raise Violation("process-died", res)
            if st == "crashed":
                w.fired(kind)
            objs.pop(key, None)  # the object died with its process
            w.step()
            continue
        counts = {"gmsh": ngmsh, "size": size}
        if kind in ("interrupt-line", "memory"):
            f2 = os.path.join(s, "count")
            os.makedirs(f2, exist_ok=True)
            st, _r, counts["times"] = F.in_child(lambda: attempt(Geometry_2D("quadrilateral", "internal", c["t"][0], c["t"][1], f2, c["opt"]), c, op["seed"]), places=True)
            w.check(st == "ok", "unexpected-exception", lambda: f"a first attempt in an empty folder: {st} {_r}")
        ctx = run_fault(kind, fault, op, c, g, folder, counts)

        def act():
            if ctx is not None:
                with ctx:
                    cells, bd = attempt(g, cc, op["seed"])
            else:
                cells, bd = attempt(g, cc, op["seed"])
            return observe(g, cc, cells, bd, target_folder)

        if op["child"]:
            st, res, _n = F.in_child(act, want_result=True)
            if st == "died":
                raise Violation("process-died", res)
            if st == "ok":
                o = res
            else:
                err = res
            objs.pop(key, None)
        else:
            try:
                o = act()
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                err = f"{type(e).__name__}: {e}"
        w.step()
        w.log("attempt", k, op["cfg"], op["geo"], op["child"], kind, err.split(":")[0] if err else "ok")
        w.mark(kind, bool(left), op["child"], c["opt"], "failed" if err else "ok")
        if kind and err:
            w.fired(kind)
        if err is not None:
            w.check(kind is not None, "retry-failed", lambda: f"attempt {k} on a healthy disk failed: {err}")
            continue
        # accepted: then it is what a first attempt in an empty folder gives, whatever was injected
        if kind == "badarg":
            # no grid file can be built from it, but a switched-off one may succeed
            w.check(c["opt"], "bad-argument-accepted", "a test point number of 0 was accepted")
            continue
        if c["opt"]:
            after = F.tree(folder)
            w.check(op["child"] or after == before, "wrote-files", "the grid file is switched off, but files were written")
            o["vtk"] = None
        else:
            w.check(o["vtk"] is not None, "vtk-missing", f"no grid file after a successful attempt (fault {kind})")
            check_vtk(w, c, o["vtk"])
        check_grid(w, c, o)
        for part in want:
            if part == "vtk" and o["vtk"] is not None:
                a, b = M.parse_vtk(o["vtk"]), M.parse_vtk(want["vtk"])
                w.check(same(a["points"], b["points"]) and a["cells"] == b["cells"], "differs-from-first", f"attempt {k}: the grid file is not the one of a first attempt")
            elif part != "vtk":
                w.check(same(o[part], want[part]), "differs-from-first", lambda: f"attempt {k}: {part} differs from a first attempt in an empty folder")
        for name in ("external.vtk", "other.txt"):
            if name in left:
                w.check(F.read_bytes(os.path.join(folder, name)) == left[name], "foreign-file", f"{name} was changed")
        w.log("state", arr_digest(o["cells"]), arr_digest(o["tp"]))
    reset_gmsh()
