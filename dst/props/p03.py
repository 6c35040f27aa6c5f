"""P03: every sensor observation stays with its own location."""

import os

import numpy as np

from .. import faults as F
from .. import meshgen as M
from ..core import Rng, arr_digest
from ..draws import Draws, gen_draws

LEVEL = "fault_enumeration"
RUNS = {"quick": 1000, "thorough": 12000}
RULE = (
    "one run = one space and data handler on a rectangle or generated mesh file, 1-2 generated tables, and a seeded history "
    "of 2-6 sensor requests (sampled or from a table, at space or tensor level) under seeded or extreme draws, with damaged "
    "tables, disk faults and failing exact solutions; non-trivial when a fault fired or extreme draws were used; distinct by "
    "digest of the recorded history"
)
MEASURE = "distinct (geometry, request, draw mode, fault kind, table shape, precision, outcome) situations"
REAL = ["fastvpinns.FE (all)", "fastvpinns.data.datahandler2d", "fastvpinns.Geometry.geometry_2d", "pandas", "pyDOE", "matplotlib", "tensorflow", "numpy"]
STUB = ["random source (seeded, or extreme draws patched onto numpy.random)", "disk capacity", "open() errors", "exact solutions (generated, may fail)"]
ASSUME = ["at least two sensors are requested", "a table cut at the end of a line is a valid, shorter table",
          "a row can be selected: decided by 60 draws per row (false alarm probability below 1e-20 per table)"]


def setup():
    import fastvpinns.data.datahandler2d  # noqa: F401


TABLE_FAULTS = ["missing", "empty", "headeronly", "twocols", "open-r", "isdir", "words", "cutlines", "interrupt", "memory"]
PLOT_FAULTS = ["fsize", "devfull", "isdir", "solution", "interrupt", "memory"]


def gen_table(rng):
    n = rng.wpick([(8, rng.randint(1, 6)), (4, rng.randint(7, 40)), (2, 200), (1, rng.randint(1000, 6000))])
    kind = rng.pick(["float", "float", "float", "int", "dup", "tiny"])
    rows = []
    for _ in range(n):
        if kind == "int":
            rows.append([rng.randint(-50, 50) for _ in range(3)])
        elif kind == "tiny":
            rows.append([rng.real(-1, 1, 9) * 1e-8 for _ in range(3)])
        else:
            rows.append([rng.real(-100, 100, 6) for _ in range(3)])
    if kind == "dup" and n > 1:
        rows[-1] = list(rows[0])
    extra = rng.pick([0, 0, 1, 3])
    for r in rows:
        r += [rng.real(-9, 9, 2) for _ in range(extra)]
    style = rng.pick(["plain", "plain", "gaps", "text"])
    for r in rows if extra and n <= 200 else ():
        # (what stands in the further columns is not the library's business)
        if style == "gaps" and rng.chance(0.3):
            r[3 + rng.randrange(extra)] = rng.pick(["", "nan", "NA"])
        elif style == "text":
            r[3] = rng.pick(["p1", "bad #3", "#", "a,b", "0x1", "ünï"])
    head = rng.pick([["x", "y", "u"], ["y", "x", "sol"], ["a b", "c,d", "e"], ["u", "y", "x"], ["#x", "y", "u"], ["0", "1", "2"]])
    return {"head": head + [f"z{k}" for k in range(extra)], "rows": rows, "eol": rng.pick(["\n", "\n", "\r\n"]), "last": rng.chance(0.8)}


def table_text(t, rows=None, cols=None):
    def cell(v):
        return '"%s"' % v if isinstance(v, str) and "," in v else (v if isinstance(v, str) else repr(v))

    lines = [",".join(cell(v) for v in r[:cols]) for r in [t["head"]] + (t["rows"] if rows is None else rows)]
    return t["eol"].join(lines) + (t["eol"] if t["last"] else "")


def generate(rng, i, tier):
    p = {"kind": rng.pick(["internal", "external"]), "dtype": rng.pick(["f4", "f8"]), "tables": [gen_table(rng.sub("t", k)) for k in range(rng.randint(1, 2))]}
    if p["kind"] == "external":
        p["mesh"] = M.gen_mesh(rng.sub("m"), 9)
    else:
        x0, y0 = rng.wpick([(8, rng.real(-4, 4, 3)), (1, rng.real(-9000, 9000, 3))]), rng.real(-4, 4, 3)
        p["x"], p["y"] = [x0, round(x0 + rng.real(0.05, 6, 3), 4)], [y0, round(y0 + rng.real(0.05, 6, 3), 4)]
        p["n"] = [rng.randint(1, 3), rng.randint(1, 3)]
    p["co"] = [rng.real(-3, 3, 3) for _ in range(4)]
    ops = []
    for _ in range(rng.randint(2, 6)):
        op = {"req": rng.wpick([(3, "table"), (1, "cover"), (2, "sample")]), "level": rng.pick(["space", "tensor", "tensor"]), "draws": gen_draws(rng),
              "num": rng.wpick([(4, rng.randint(2, 30)), (2, rng.randint(30, 200)), (1, 500)]), "table": rng.randrange(len(p["tables"])), "fault": None,
              "shape": rng.pick(["flat", "flat", "col"]), "age": F.gen_stamp(rng)}
        if rng.chance(0.35) and op["req"] != "cover":
            op["fault"] = {"kind": rng.pick(TABLE_FAULTS if op["req"] == "table" else PLOT_FAULTS), "frac": rng.random()}
        ops.append(op)
    p["ops"] = ops
    return p


def execute(plan, w):
    import matplotlib.pyplot as plt
    import tensorflow as tf
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    plt.close("all")
    s = w.scratch
    out = os.path.join(s, "out")
    os.makedirs(out)
    np.random.seed(7)
    if plan["kind"] == "external":
        path = os.path.join(s, "in.mesh")
        with open(path, "w") as fh:
            fh.write(M.mesh_text(dict(plan["mesh"], version=2)))
        g = Geometry_2D("quadrilateral", "external", 4, 4, out)
        cells, bd = g.read_mesh(path, 1, "uniform", 0)
        V = np.array(plan["mesh"]["verts"], float)
        box = V[:, 0].min(), V[:, 0].max(), V[:, 1].min(), V[:, 1].max()
    else:
        g = Geometry_2D("quadrilateral", "internal", 4, 4, out, True)
        cells, bd = g.generate_quad_mesh_internal(tuple(plan["x"]), tuple(plan["y"]), plan["n"][0], plan["n"][1], 8)
        box = (*plan["x"], *plan["y"])
    sp = Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3,
                   quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict={t: (lambda x, y: 0.0) for t in bd},
                   bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=lambda x, y: x + y, output_path=out)
    tfd = {"f4": tf.float32, "f8": tf.float64}[plan["dtype"]]
    dh = DataHandler2D(sp, g, tfd)
    a, b, c, d = plan["co"]

    def truth(x, y):
        return a + b * x + c * y + d * x * y

    x0, x1, y0, y1 = box
    span = max(map(abs, box)) + max(x1 - x0, y1 - y0)
    pic = os.path.join(s, "sensor_points.png")
    for k, op in enumerate(plan["ops"]):
        fault = op["fault"]
        kind = fault["kind"] if fault else None
        t = plan["tables"][op["table"] % len(plan["tables"])]
        csvp = os.path.join(s, f"sensors{op['table']}.csv")
        rows = t["rows"]
        data = table_text(t)
        ctx = None
        must_fail = False
        for p in (pic, csvp):
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
            elif os.path.isdir(p):
                os.rmdir(p)
        if kind:
            w.arm(kind)
        num = op["num"]
        if op["req"] == "sample":
            calls = []

            def exact(x, y):
                calls.append(1)
                if kind == "solution":
                    raise ArithmeticError("injected failure of the exact solution")
                v = truth(x, y)
                return v.reshape(-1, 1) if op["shape"] == "col" else v

            if kind == "fsize":
                ctx = F.fsize(int(fault["frac"] * 8000))
                must_fail = True
            elif kind == "devfull":
                F.devfull(pic)
                must_fail = True
            elif kind == "isdir":
                os.mkdir(pic)
                must_fail = True
            elif kind == "solution":
                must_fail = True
        else:
            if kind == "cutlines":
                rows = rows[: max(1, int(fault["frac"] * len(rows)))]
                data = table_text(t, rows)
            elif kind == "empty":
                data, must_fail = "", True
            elif kind == "headeronly":
                data, must_fail = table_text(t, []), True
            elif kind == "twocols":
                data, must_fail = table_text(t, cols=2), True
            elif kind == "words":
                q = int(fault["frac"] * len(rows))
                rows = [list(r) for r in rows]
                rows[q][q % 3] = "n.a.x"
                data = table_text(t, rows)
                rows = [r for j, r in enumerate(rows) if j != q]  # may fail, or return other rows
            if kind == "isdir":
                os.mkdir(csvp)
                must_fail = True
            elif kind == "missing":
                must_fail = True
            else:
                with open(csvp, "w", newline="") as fh:
                    fh.write(data)
                F.stamp(csvp, op["age"])
            if kind == "open-r":
                ctx = F.OpenFault(os.path.basename(csvp), "r", 0, 5)
            if op["req"] == "cover":
                num = 60 * len(rows) if len(rows) <= 40 else num
        if kind in ("interrupt", "memory"):
            ctx = F.RaiseAt(int(fault["frac"] * (45 if op["req"] == "sample" else 20)), KeyboardInterrupt() if kind == "interrupt" else MemoryError("injected"))
        given = F.read_bytes(csvp) if os.path.isfile(csvp) else None

        def act():
            if op["req"] == "sample":
                if op["level"] == "space":
                    return sp.get_sensor_data(exact, num)
                return dh.get_sensor_data(exact, num, "internal")
            if op["level"] == "space":
                return sp.get_sensor_data_external(truth, num, csvp)
            return dh.get_sensor_data(truth, num, "external", csvp)

        err = None
        mode = "seeded" if op["req"] == "cover" else op["draws"]["mode"]
        if mode != "seeded":
            w.nontrivial = True
        try:
            with Draws(mode, op["draws"]["seed"]):
                if ctx is not None:
                    with ctx:
                        pts, vals = act()
                else:
                    pts, vals = act()
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            err = f"{type(e).__name__}: {e}"
        if err and kind:
            plt.close("all")  # a failed save may leave its figure; that is P06's business
        w.step()
        w.log(op["req"], k, op["level"], kind, err.split(":")[0] if err else "ok")
        w.mark(plan["kind"], op["req"], op["level"], mode, kind, len(rows) == 1, plan["dtype"], "failed" if err else "ok")
        if err is not None:
            w.check(kind is not None, "unexpected-exception", lambda: f"request {k}: {err}")
            w.fired(kind)
            continue
        if kind == "cutlines":
            w.fired(kind)
        w.check(not must_fail, "failure-swallowed", f"{op['req']} with fault {kind} returned data")
        if kind == "words" and op["level"] == "space":
            continue
        eps = 1e-12
        if op["level"] == "tensor":
            w.check(pts.dtype == tfd and vals.dtype == tfd, "dtype", f"{pts.dtype} {vals.dtype}")
            w.check(len(pts.shape) == 2 and pts.shape[1] == 2 and tuple(vals.shape) == (pts.shape[0], 1), "shape", f"{pts.shape} {vals.shape}")
            pts, vals = pts.numpy(), vals.numpy()
            if plan["dtype"] == "f4":
                eps = 3e-6
        pts, vals = np.asarray(pts, float), np.asarray(vals, float).reshape(-1)
        w.log(pts, vals)
        if op["req"] == "sample":
            n = int(num * 0.9)
            w.check(pts.shape == (n, 2) and vals.shape == (n,), "count", f"{pts.shape} sensors for {num} requested")
            tol = eps * span * 4
            w.check(pts[:, 0].min() >= x0 - tol and pts[:, 0].max() <= x1 + tol and pts[:, 1].min() >= y0 - tol and pts[:, 1].max() <= y1 + tol,
                    "outside", lambda: f"sensors outside {box}: {pts.min(axis=0)} {pts.max(axis=0)}")
            for ax, (lo, hi) in enumerate(((x0, x1), (y0, y1))):
                q = np.sort(pts[:, ax])
                j = np.arange(n)
                ok = (q >= lo + (hi - lo) * j / n - 2 * tol) & (q <= lo + (hi - lo) * (j + 1) / n + 2 * tol)
                w.check(ok.all(), "not-stratified", f"axis {ax}: {q.tolist()[:6]} in [{lo}, {hi}] with {n} strata")
            want = truth(pts[:, 0], pts[:, 1])
            size = (abs(a) + abs(b) * span + abs(c) * span + abs(d) * span * span) or 1.0
            bad = np.abs(vals - want) > eps * size * 8
            w.check(not bad.any(), "wrong-pair", lambda: f"sensor at {pts[bad][0].tolist()} has {vals[bad][0]}, the exact solution there is {want[bad][0]}")
        else:
            w.check(pts.shape == (num, 2) and vals.shape == (num,), "count", f"{pts.shape} sensors for {num} requested")
            w.check(bool(rows), "failure-swallowed", "a table without a readable row returned data")
            T = np.array([r[:3] for r in rows], float)
            G = np.column_stack([pts, vals])
            size = np.abs(T).max() or 1.0
            dist = np.abs(G[:, None, :] - T[None]).max(axis=2)
            near = dist.argmin(axis=1)
            bad = dist.min(axis=1) > eps * size
            w.check(not bad.any(), "wrong-pair", lambda: f"{G[bad][0].tolist()} is not a row of the table")
            if op["req"] == "cover" and len(rows) <= 40:
                hit = set()
                for q in set(near.tolist()):
                    hit.update(np.flatnonzero(np.abs(T - T[q]).max(axis=1) <= 2 * eps * size).tolist())
                w.check(len(hit) == len(rows), "row-never-selected", lambda: f"rows {sorted(set(range(len(rows))) - hit)} of {len(rows)} are never selected in {num} draws")
            w.check(given is None or F.read_bytes(csvp) == given, "table-changed", "the table was modified")
