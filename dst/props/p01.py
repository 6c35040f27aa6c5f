"""P01: reading an external mesh gives exactly the mesh of the file, or an error; failures
leave nothing behind that a later read could see."""

import os
import pathlib

import numpy as np

from .. import faults as F
from .. import meshgen as M
from ..core import SimCrash, Violation, np_seed

LEVEL = "fault_enumeration"
RUNS = {"quick": 4000, "thorough": 24000}
RULE = (
    "one run = one seeded history of 2-6 mesh reads (1-3 generated quadrilateral meshes) by one or two "
    "geometry objects sharing or not sharing an output folder, with seeded file and disk faults; non-trivial "
    "when a fault fired or more than one mesh was read in the history; distinct by digest of the recorded history"
)
MEASURE = "distinct (section order, sampling method, refinement, fault kind, outcome) situations"
REAL = ["fastvpinns.Geometry.geometry_2d", "meshio", "pyDOE", "numpy", "kernel file system in a scratch folder"]
STUB = ["random source (seeded per operation)", "modification times of mesh files (seeded: past, equal, future)", "disk capacity (RLIMIT_FSIZE, /dev/full)", "open() errors"]
ASSUME = [
    "generated meshes are valid: convex quadrilaterals in the plane z=0, each tagged edge listed once; some files have vertices of no cell and tagged inner edges",
    "a file whose sections are complete but whose trailing End keyword is missing may be accepted",
]


def setup():
    import fastvpinns.Geometry.geometry_2d  # noqa: F401


FILE_FAULTS = ["truncate", "missing", "empty", "garbage", "nosection", "open-EIO", "isdir", "digit"]
DISK_FAULTS = ["fsize", "devfull", "nofolder", "open-w", "interrupt", "interrupt", "memory"]


def generate(rng, i, tier):
    meshes = [M.gen_mesh(rng.sub("m", k), 24 if tier == "quick" else 60, loose=True) for k in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(2, 6)):
        op = {
            "mesh": rng.randrange(len(meshes)), "geo": rng.randrange(2), "how": rng.pick(["uniform", "uniform", "lhs"]),
            "level": rng.wpick([(8, rng.randint(0, 4)), (1, rng.randint(5, 7))]), "ref": rng.randint(0, 2), "fault": None, "seed": rng.randrange(1 << 30), "age": F.gen_stamp(rng),
        }
        if rng.chance(0.45):
            k = rng.pick(FILE_FAULTS + DISK_FAULTS)
            op["fault"] = {"kind": k, "frac": rng.random(), "which": rng.randrange(3)}
        ops.append(op)
    ops[-1]["fault"] = None  # the last attempt always meets a healthy disk
    names = [rng.pick(["in%d.mesh", "a mesh %d.mesh", "géom%d.mesh", "v1.2-%d.mesh"]) % k for k in range(len(meshes))]
    return {"meshes": meshes, "ops": ops, "shared": rng.chance(0.5), "names": names,
            "path": rng.pick(["abs", "abs", "rel", "pathlib"])}


def shrink(plan):
    import json

    from ..run import generic_shrink

    yield from generic_shrink(plan)
    for k, op in enumerate(plan["ops"]):
        if op["fault"]:
            q = json.loads(json.dumps(plan))
            q["ops"][k]["fault"] = None
            yield q


def check_read(w, m, op, cells, bd, data):
    """Oracle: what was returned against an independent reading of the same bytes."""
    V = m["verts"]
    if op["v32"]:
        V = V.astype(np.float32).astype(float)
    span = float(np.max(V) - np.min(V)) or 1.0
    tol = (1e-5 if op["v32"] else 1e-10) * max(span, float(np.abs(V).max()))
    cells = np.asarray(cells)
    w.check(cells.shape == (len(m["cells"]), 4, 2), "cell-count", f"shape {cells.shape} for {len(m['cells'])} cells")
    for k, c in enumerate(m["cells"]):
        want = V[c]
        got = cells[k].astype(float)
        # the same polygon, in either rotation, counter-clockwise
        if M.area(want) < 0:
            want = want[::-1]
        ok = any(np.allclose(np.roll(got, r, axis=0), want, rtol=0, atol=tol) for r in range(4))
        w.check(ok, "wrong-cell", lambda: f"cell {k}: file {want.tolist()} got {got.tolist()}")
        w.check(M.area(got) > 0, "orientation", lambda: f"cell {k} is not counter-clockwise: {got.tolist()}")
    tags = {}
    for e, t in zip(m["edges"], m["etags"]):
        tags.setdefault(int(t), []).append(e)
    w.check({int(t) for t in bd} == set(tags) and len(bd) == len(tags), "tags", lambda: f"{sorted(map(int, bd))} vs {sorted(tags)}")
    n = 2 ** op["level"] + 1
    for t, pts in bd.items():
        pts = np.asarray(pts, float)
        w.check(pts.ndim == 2 and pts.shape[1] >= 2 and np.isfinite(pts).all(), "boundary-shape", f"{pts.shape}")
        if pts.shape[1] > 2:
            w.check(np.abs(pts[:, 2:]).max() <= tol, "boundary-z", "non-zero z")
        pts = pts[:, :2]
        es = tags[int(t)]
        if op["how"] == "uniform":
            want = np.concatenate([np.linspace(V[a], V[b], n) for a, b in es])
            d = np.sqrt(((pts[:, None, :] - want[None, :, :]) ** 2).sum(-1))
            w.check(d.min(axis=1).max() <= tol, "boundary-point", lambda: f"tag {t}: a point off the refined edges ({d.min(axis=1).max()})")
            w.check(d.min(axis=0).max() <= tol, "boundary-gap", lambda: f"tag {t}: a refinement point is missing ({d.min(axis=0).max()})")
            w.check(len(pts) <= len(want), "boundary-duplicates", f"tag {t}: {len(pts)} points")
        else:
            used = np.zeros(len(es), int)
            cand = []
            for p in pts:
                on = []
                for k, (a, b) in enumerate(es):
                    L = float(np.linalg.norm(V[b] - V[a]))
                    if M.on_segment(p, V[a], V[b], max(tol, 1e-9 * L))[0]:
                        on.append(k)
                w.check(bool(on), "boundary-point", lambda: f"tag {t}: {p.tolist()} lies on none of its edges")
                cand.append(on)
                if len(on) == 1:
                    used[on[0]] += 1
            amb = sum(len(c) > 1 for c in cand)
            w.check(len(pts) <= n * len(es) and len(pts) >= n * len(es) - 2, "boundary-count", f"tag {t}: {len(pts)} samples for {len(es)} edges of {n}")
            w.check(used.max() <= n and (used >= n - amb - 2).all(), "boundary-count", f"tag {t}: samples per edge {used.tolist()}, expected {n}")


def execute(plan, w):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    s = w.scratch
    geos, folders, last = [], [], [None, None]
    for g in range(2):
        f = os.path.join(s, "out0" if plan["shared"] else f"out{g}")
        os.makedirs(f, exist_ok=True)
        folders.append(f)
        geos.append(Geometry_2D("quadrilateral", "external", 4, 4, f))
    if len({op["mesh"] for op in plan["ops"]}) > 1:
        w.nontrivial = True
    for k, op in enumerate(plan["ops"]):
        m = plan["meshes"][op["mesh"] % len(plan["meshes"])]
        op = dict(op, v32=m["version"] == 1)
        g, folder = geos[op["geo"]], folders[op["geo"]]
        path = os.path.join(s, plan["names"][op["mesh"] % len(plan["names"])])
        arg = {"abs": path, "rel": os.path.basename(path), "pathlib": pathlib.Path(path)}[plan["path"]]
        vtk = os.path.join(folder, "external.vtk")
        data = M.mesh_text(m).encode()
        fault = op["fault"]
        kind = fault["kind"] if fault else None
        ctx = []
        for p in (path, vtk):
            if os.path.islink(p):
                os.unlink(p)
        if os.path.isdir(path):
            os.rmdir(path)
        if not os.path.isdir(folder):
            os.makedirs(folder)
        if kind == "truncate":
            data = data[: int(fault["frac"] * len(data))]
        elif kind == "empty":
            data = b""
        elif kind == "garbage":
            q = int(fault["frac"] * len(data))
            data = data[:q] + b"x" + data[q + 1 :]
        elif kind == "nosection":
            m2 = dict(m, order=m["order"].replace("VEQ"[fault["which"]], ""))
            data = M.mesh_text(m2).encode()
        elif kind == "digit":
            m2 = dict(m, verts=[list(v) for v in m["verts"]])
            j = int(fault["frac"] * len(m["cells"]))
            v = m["cells"][j][fault["which"]]
            # nudge one vertex: still a valid mesh, but a different one
            c = np.mean([m["verts"][z] for z in m["cells"][j]], axis=0)
            m2["verts"][v] = [float(f"{a + 0.01 * (b - a):.9g}") for a, b in zip(m["verts"][v], c)]
            data = M.mesh_text(m2).encode()
        with open(path, "wb") as fh:
            fh.write(data)
        F.stamp(path, op["age"])
        if kind in ("missing", "isdir"):
            os.unlink(path)
            if kind == "isdir":
                os.mkdir(path)
        elif kind == "open-EIO":
            ctx.append(F.OpenFault(os.path.basename(path), "r", fault["which"] % 2))
        elif kind == "open-w":
            ctx.append(F.OpenFault("external.vtk", "w", 0, 28))
        elif kind == "fsize":
            size = len(data) * 2
            ctx.append(F.fsize(int(fault["frac"] * size)))
        elif kind == "devfull":
            F.devfull(vtk)
        elif kind == "nofolder":
            for n in os.listdir(folder):
                os.unlink(os.path.join(folder, n))
            os.rmdir(folder)
        elif kind in ("interrupt", "memory"):
            aside = os.path.join(s, "aside")
            os.makedirs(aside, exist_ok=True)
            st, r, times = F.in_child(lambda: Geometry_2D("quadrilateral", "external", 4, 4, aside).read_mesh(arg, op["level"], op["how"], op["ref"]), places=True)
            w.check(st == "ok", "unexpected-exception", lambda: f"reading a healthy mesh file: {st} {r}")
            ctx.append(F.RaiseAt(F.moment(times, fault["frac"], fault["which"]), KeyboardInterrupt() if kind == "interrupt" else MemoryError("injected")))
        want = M.parse_mesh(data) if kind not in ("missing", "isdir") else None
        if kind:
            w.arm(kind)
        np.random.seed(op["seed"] % (1 << 32))
        err = res = None
        try:
            if ctx:
                with ctx[0]:
                    res = g.read_mesh(arg, op["level"], op["how"], op["ref"])
            else:
                res = g.read_mesh(arg, op["level"], op["how"], op["ref"])
        except (Exception, SystemExit, KeyboardInterrupt) as e:  # meshio reports unreadable files by SystemExit
            err = e
        w.step()
        name = type(err).__name__ if err else "ok"
        w.log("read", k, op["mesh"], op["geo"], op["how"], op["level"], kind, name)
        w.mark(m["order"], op["how"], op["level"], kind, name)
        if kind and (err is not None or kind == "digit"):
            w.fired(kind)
        if not plan["shared"] and last[1 - op["geo"]] is not None:
            # the other object, which has its own folder, is not affected by this read
            o, V, tol = last[1 - op["geo"]]
            tp = np.asarray(o.get_test_points())
            w.check(tp.shape == V.shape and np.abs(tp - V).max() <= tol, "cross-talk", "reading one mesh changed the test points of another geometry")
        last[op["geo"]] = None
        if err is not None:
            w.check(kind is not None, "unexpected-exception", lambda: f"reading a healthy mesh file failed: {name}: {err}")
            continue
        # the read was accepted: then it must be right, whatever was injected
        w.check(want is not None, "damaged-file-accepted", lambda: f"fault {kind}: the file is not a complete mesh, but it was read")
        w.check(isinstance(res, tuple) and len(res) == 2, "result", "not a pair")
        cells, bd = res
        check_read(w, want, op, cells, bd, data)
        # the visualisation file and the test points are those of this mesh
        V = want["verts"]
        try:
            grid = M.parse_vtk(F.read_bytes(vtk))
        except (ValueError, OSError) as e:
            raise Violation("vtk-incomplete", f"read_mesh succeeded but external.vtk is unusable ({e}); fault {kind}")
        tol = 1e-6 * max(1.0, float(np.abs(V).max())) if op["v32"] else 1e-10 * max(1.0, float(np.abs(V).max()))
        w.check(grid["points"].shape[0] == len(V) and np.abs(grid["points"][:, :2] - V).max() <= tol, "vtk-points", "external.vtk does not hold the mesh vertices")
        quads = sorted(tuple(c) for c, t in zip(grid["cells"], grid["types"]) if t == 9)
        w.check(quads == sorted(map(tuple, want["cells"])), "vtk-cells", "external.vtk does not hold the mesh cells")
        tp = np.asarray(g.get_test_points())
        w.check(tp.shape == (len(V), 2) and np.abs(tp - V).max() <= tol, "test-points", "test points are not the mesh vertices")
        last[op["geo"]] = (g, V, tol)
        w.log("state", np.asarray(cells), [(int(t), np.asarray(p)) for t, p in bd.items()])
