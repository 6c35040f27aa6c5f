"""P06: a saved figure shows exactly the data it was given, whatever was plotted or failed before."""

import os

import numpy as np

from .. import faults as F
from .. import meshgen as M
from ..core import Rng, Violation, arr_digest
from ..draws import Draws

LEVEL = "fault_enumeration"
RUNS = {"quick": 420, "thorough": 10000}
RULE = (
    "one run = one seeded history of 3-8 plotting calls (all helpers, generated data, labels and file names), user figures "
    "left open, and failing saves (disk faults), judged on the artists handed to matplotlib at the moment of saving, on the "
    "decoded image file and on the register of open figures; non-trivial when a fault fired or a user figure was open; "
    "distinct by digest of the recorded history"
)
MEASURE = "distinct (helper, preceding helper, fault kind, user figures open, outcome) situations"
REAL = ["fastvpinns.utils.plot_utils", "fastvpinns.FE.fespace2d", "fastvpinns.Geometry.geometry_2d", "matplotlib (Agg, SVG)", "PIL"]
STUB = ["resolution of the saved image (lowered to keep runs short)", "disk capacity", "open() errors"]
ASSUME = ["matplotlib draws the artists of a figure faithfully", "a save that fails may leave its own figure open"]


def setup():
    import fastvpinns.data.datahandler2d  # noqa: F401
    import fastvpinns.utils.plot_utils  # noqa: F401


KINDS = ["loss", "array", "multi", "invtest", "test", "testtime", "contour", "inverse", "mesh", "adaptive", "adaptive", "sensor", "userfig"]
FAULTS = ["fsize", "fsize", "devfull", "nofolder", "isdir", "open-w", "interrupt", "interrupt", "memory"]
NAMES = ["fig", "final", "prediction_10", "a b", "v1.5", "x", "png", "warp.png", "signal", "plotting", "run.v2.", "A" * 60, "ü", "-l", "a%d", "{0}", "loss_function"]
TITLES = ["Loss Function", "a title", "t1", r"$\epsilon$ error", "ünï", "", "50% of {0}", "T" * 90]


def generate(rng, i, tier):
    ops = []
    for _ in range(rng.randint(3, 8)):
        k = rng.pick(KINDS)
        op = {"kind": k, "seed": rng.randrange(1 << 30), "n": rng.wpick([(10, rng.randint(2, 12)), (2, 1), (2, 300), (1, rng.randint(1001, 6000))]), "as": rng.pick(["list", "array"]),
              "name": rng.pick(NAMES), "title": rng.pick(TITLES), "flag": rng.randrange(4), "fault": None}
        if rng.chance(0.25) and k != "userfig":
            op["fault"] = {"kind": rng.pick(FAULTS), "frac": rng.random(), "which": rng.randrange(2)}
        ops.append(op)
    return {"ops": ops, "mesh": M.gen_mesh(rng.sub("m"), 9), "nx": rng.randint(1, 3), "ny": rng.randint(1, 3),
            "nb": rng.wpick([(6, 12), (1, 4 * rng.randint(1, 12)), (1, 4 * rng.randint(200, 900))])}


class Recorder:
    """What every figure showed when it was saved."""

    def __init__(self):
        self.saves = []
        self.contours = {}

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.figure

        self.F, self.A = matplotlib.figure.Figure, matplotlib.axes.Axes
        self.save, self.contourf = self.F.savefig, self.A.contourf
        me = self

        def savefig(fig, fname, *a, **k):
            k["dpi"] = 30
            me.saves.append((str(fname), snapshot(fig, me)))
            return me.save(fig, fname, *a, **k)

        def contourf(ax, *a, **k):
            cs = me.contourf(ax, *a, **k)
            me.contours[id(cs)] = (cs, [np.array(z, dtype=float) for z in a])
            return cs

        self.F.savefig, self.A.contourf = savefig, contourf
        return self

    def __exit__(self, *e):
        self.F.savefig, self.A.contourf = self.save, self.contourf
        return False


def snapshot(fig, rec=None):
    import matplotlib.collections as mc
    import matplotlib.contour as mct

    out = []
    for ax in fig.axes:
        d = {"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "xscale": ax.get_xscale(), "yscale": ax.get_yscale(), "ylim": ax.get_ylim(),
             "lines": [], "scatter": [], "segments": [], "fills": [], "contours": [], "legend": None, "bar": ax.get_label() == "<colorbar>"}
        for ln in ax.lines:
            if ln.get_visible():
                d["lines"].append((np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float), ln.get_label()))
        for c in ax.collections:
            if not c.get_visible():
                continue
            if isinstance(c, mct.ContourSet):
                d["contours"].append((c, rec.contours.get(id(c), (None, None))[1] if rec else None))
            elif isinstance(c, mc.PathCollection):
                d["scatter"].append((np.array(c.get_offsets(), float), c.get_label()))
            elif isinstance(c, mc.LineCollection):
                d["segments"].append(([np.array(q, float) for q in c.get_segments()], c.get_label()))
        for p in ax.patches:
            d["fills"].append((np.array(p.get_xy(), float) if hasattr(p, "get_xy") else None, tuple(p.get_facecolor())))
        if ax.get_legend() is not None:
            d["legend"] = [t.get_text() for t in ax.get_legend().get_texts()]
        out.append(d)
    return out


def decode(path):
    if path.endswith(".svg"):
        t = F.read_bytes(path).decode("utf-8")
        return t.lstrip().startswith("<?xml") and t.rstrip().endswith("</svg>")
    from PIL import Image

    with Image.open(path) as im:
        im.load()
        return im.size[0] > 10 and im.size[1] > 10


def curve(w, what, ax, data, title, xl, yl, ys, xs="linear", x=None, labels=None, legend=None):
    """One or more plain curves and nothing else."""
    w.check(ax["title"] == title and ax["xlabel"] == xl and ax["ylabel"] == yl, "wrong-labels",
            lambda: f"{what}: {ax['title']!r} {ax['xlabel']!r} {ax['ylabel']!r}, expected {title!r} {xl!r} {yl!r}")
    w.check(ax["yscale"] == ys and ax["xscale"] == xs, "wrong-scale", f"{what}: x {ax['xscale']} y {ax['yscale']}, expected {xs}, {ys}")
    w.check(len(ax["lines"]) == len(data), "wrong-curves", f"{what}: {len(ax['lines'])} curves, expected {len(data)}")
    for k, (lx, ly, lab) in enumerate(ax["lines"]):
        want = np.asarray(data[k], float).ravel()
        wx = np.arange(len(want), dtype=float) if x is None else np.asarray(x, float).ravel()
        w.check(ly.shape == want.shape and np.array_equal(ly, want, equal_nan=True), "wrong-data", lambda: f"{what}: curve {k} shows {ly.tolist()[:5]}, given {want.tolist()[:5]}")
        w.check(np.array_equal(lx, wx), "wrong-data", lambda: f"{what}: abscissae {lx.tolist()[:5]}")
        if labels:
            w.check(lab == labels[k], "wrong-labels", f"{what}: curve {k} is labelled {lab!r}, expected {labels[k]!r}")
    if legend:
        w.check(ax["legend"] == legend, "wrong-labels", f"{what}: legend {ax['legend']}, expected {legend}")


def rows(a):
    return {tuple(np.round(r, 12)) for r in np.asarray(a, float)}


def execute(plan, w):
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.utils import plot_utils as pu

    plt.close("all")
    s = w.scratch
    out = os.path.join(s, "out dir")
    os.makedirs(out)
    np.random.seed(3)
    path = os.path.join(s, "in.mesh")
    with open(path, "w") as fh:
        fh.write(M.mesh_text(dict(plan["mesh"], version=2)))
    geos = {}
    g = Geometry_2D("quadrilateral", "external", 4, 4, out)
    geos["external"] = (g, *g.read_mesh(path, 1, "uniform", 0))
    g2 = Geometry_2D("quadrilateral", "internal", 4, 4, out, True)
    geos["internal"] = (g2, *g2.generate_quad_mesh_internal((0, 2), (-1, 1), plan["nx"], plan["ny"], plan.get("nb", 12)))
    spaces = {}

    def space(which, plot=False, where=out):
        g, cells, bd = geos[which]
        return Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3,
                         quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict={t: (lambda x, y: 0.0) for t in bd},
                         bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=lambda x, y: x + y, output_path=where, generate_mesh_plot=plot)

    for k in geos:
        spaces[k] = space(k)
    user = {}  # figure number -> (figure, digest)
    prev = None
    for k, op in enumerate(plan["ops"]):
        q = Rng(op["seed"])
        r = np.random.RandomState(op["seed"] % (1 << 32))
        fault = op["fault"]
        fk = fault["kind"] if fault else None
        kind = op["kind"]
        if kind == "userfig":
            fig = plt.figure()
            plt.plot([k, k + 1, k + 2], label="mine")
            plt.title("user figure")
            user[fig.number] = (fig, udigest(fig))
            w.nontrivial = True
            continue
        n = op["n"]
        data = 10.0 ** r.uniform(-8, 3, size=n)
        if q.chance(0.1):
            data[0] = 0.0
        arr = data.tolist() if op["as"] == "list" else data
        name, title = f"{k}_{op['name']}" if op["flag"] < 2 else f"{op['name']}_{k}" if op["flag"] == 2 else op["name"], op["title"]
        where = out
        which = q.pick(["internal", "external"])
        g, cells, bd = geos[which]
        extra = {}
        if kind == "loss":
            files, act = ["loss_function.png"], lambda: pu.plot_loss_function(arr, where)
        elif kind == "array":
            xl, yl = (q.pick(["Epochs", "t"]), q.pick(["Loss", "val"])) if op["flag"] else ("Epochs", "Loss")
            extra = {"x_label": xl, "y_label": yl} if op["flag"] else {}
            files, act = [name + ".png"], lambda: pu.plot_array(arr, where, name, title, **extra)
        elif kind == "multi":
            m = q.randint(1, 4)
            many = [10.0 ** r.uniform(-3, 1, size=q.randint(2, 9)) for _ in range(m)]
            labels = [f"c{z}_{q.randrange(99)}" if q.chance(0.7) else "c" for z in range(m)]
            files, act = [name + ".png"], lambda: pu.plot_multiple_loss_function(many, where, name, labels, "yy", title)
        elif kind == "invtest":
            files, act = ["test_inverse_loss_function.png"], lambda: pu.plot_inverse_test_loss_function(arr, where)
        elif kind == "test":
            if op["flag"] % 2:
                files, act = [name + "_test_loss_function.png"], lambda: pu.plot_test_loss_function(arr, where, name)
            else:
                files, act = ["test_loss_function.png"], lambda: pu.plot_test_loss_function(arr, where)
        elif kind == "testtime":
            times = np.cumsum(r.uniform(0.01, 2, size=n))
            files, act = ["test_time_loss_function.png"], lambda: pu.plot_test_time_loss_function(times, arr, where)
        elif kind == "contour":
            a, b = q.randint(2, 8), q.randint(2, 8)
            X, Y = np.meshgrid(np.linspace(-1, q.real(0, 3), a), np.linspace(0, 2, b))
            Z = r.standard_normal(X.shape) * 10.0 ** q.randint(-3, 4)
            files, act = [name + ".png"], lambda: pu.plot_contour(X, Y, Z, where, name, title)
        elif kind == "inverse":
            actual = q.real(-3, 3, 3)
            pred = r.uniform(-3, 3, size=n)
            parg = pred.tolist() if op["as"] == "list" and False else pred
            files, act = [name + ".png", name + "_absolute_error.png"], lambda: pu.plot_inverse_param_function(parg, "eps", actual, where, name)
        elif kind == "mesh":
            if op["flag"] % 2:
                files, act = ["mesh.png", "mesh.svg"], lambda: spaces[which].generate_plot(where)
            else:
                files, act = ["mesh.png", "mesh.svg"], lambda: space(which, True, where)
        elif kind == "adaptive":
            vals = 10.0 ** r.uniform(-6, 2, size=len(cells))
            if q.chance(0.1):
                vals[:] = vals[0]
            elif q.chance(0.25):
                vals[q.randrange(len(vals))] = 0.0
            varg = vals.tolist() if op["as"] == "list" else vals
            epoch = q.randrange(5000)
            pre = name if op["flag"] else "cell_residual"
            extra = {"filename": name} if op["flag"] else {}
            files, act = [f"{pre}_{epoch}.png"], lambda: g.plot_adaptive_mesh(cells, varg, epoch, **extra)
        else:
            where = s
            got = {}

            def act():
                with Draws("seeded", op["seed"]):
                    got["pts"], _ = spaces[which].get_sensor_data(lambda x, y: x, max(2, n))

            files = ["sensor_points.png"]
        paths = [os.path.join(where, f) for f in files]
        ctx = None
        must_fail = False
        for p in paths:
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
            elif os.path.isdir(p):
                os.rmdir(p)
        if fk:
            w.arm(fk)
            victim = paths[fault["which"] % len(paths)]
            if fk == "fsize":
                ctx = F.fsize(int(fault["frac"] * 900))
            elif fk == "devfull":
                F.devfull(victim)
            elif fk == "isdir":
                os.mkdir(victim)
            elif fk == "open-w":
                ctx = F.OpenFault(os.path.basename(victim), "w", 0, 28)
            elif fk == "nofolder":
                if kind in ("sensor", "adaptive"):
                    fk = None
                else:
                    where = os.path.join(s, "gone")
            elif fk in ("interrupt", "memory"):
                n_lines = {"mesh": 90 + 14 * len(cells), "adaptive": 20 + 10 * len(cells), "sensor": 45, "inverse": 40}.get(kind, 18)
                ctx = F.RaiseAt(int(fault["frac"] * n_lines), KeyboardInterrupt() if fk == "interrupt" else MemoryError("injected"))
            must_fail = fk is not None
        open_before = set(plt.get_fignums())
        style = rcdict()
        given = {v: [np.array(z, float) for z in z_] for v, z_ in handed(locals()).items()}
        err = None
        with Recorder() as rec:
            try:
                if ctx:
                    with ctx:
                        act()
                else:
                    act()
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                err = f"{type(e).__name__}: {e}"
        w.step()
        w.log(kind, k, files, fk, err.split(":")[0] if err else "ok", len(rec.saves))
        w.mark(kind, prev, fk, bool(user), "failed" if err else "ok")
        prev = kind if err is None else kind + "!"
        for num, (fig, dg) in user.items():
            w.check(plt.fignum_exists(num) and plt.figure(num) is fig and udigest(fig) == dg, "user-figure", f"{kind} changed or closed a figure of the user")
        w.check(rcdict() == style, "style-changed", lambda: f"{kind} changed the drawing defaults {sorted(z for z, v in rcdict().items() if style.get(z) != v)[:4]}")
        now = handed(locals())
        w.check(all(len(now[v]) == len(z) and all(np.array_equal(np.array(a, float), b) for a, b in zip(now[v], z)) for v, z in given.items()), "input-changed",
                f"{kind} changed the values it was given")
        if err is not None:
            w.check(must_fail, "unexpected-exception", lambda: f"{kind}: {err}")
            w.fired(fk)
            continue
        if fk in ("interrupt", "memory"):
            must_fail = False  # it may strike after the last line, and what was accepted must be right
        w.check(not must_fail, "failure-swallowed", f"{kind}: the picture could not be written ({fk}), but the call succeeded")
        w.check(set(plt.get_fignums()) == open_before, "figure-left-open", f"{kind}: open figures {sorted(open_before)} before, {sorted(plt.get_fignums())} after")
        by = {}
        for f, snap in rec.saves:
            by[os.path.normpath(os.path.join(s, f))] = snap
        for p in paths:
            w.check(os.path.isfile(p), "missing-file", f"{kind}: {os.path.basename(p)} was not written")
            try:
                ok = decode(p)
            except Exception as e:
                raise Violation("unreadable-image", f"{kind}: {os.path.basename(p)}: {e}")
            w.check(ok, "unreadable-image", p)
            w.check(p in by, "missing-file", f"{kind}: saved {sorted(by)}")
        axs = [a for a in by[paths[0]] if not a["bar"]]
        bars = [a for a in by[paths[0]] if a["bar"]]
        w.check(len(axs) == 1, "wrong-axes", f"{kind}: {len(axs)} axes")
        ax = axs[0]
        w.log([(lx, ly, lab) for lx, ly, lab in ax["lines"]][:3], ax["title"])
        if kind == "loss" or kind == "invtest" or kind == "test":
            curve(w, kind, ax, [data], "Loss Function", "Epochs", "Loss", "log")
        elif kind == "array":
            curve(w, kind, ax, [data], title, extra.get("x_label", "Epochs"), extra.get("y_label", "Loss"), "log")
        elif kind == "multi":
            curve(w, kind, ax, many, title, "Epochs", "yy", "log", labels=labels, legend=labels)
        elif kind == "testtime":
            curve(w, kind, ax, [data], "Loss Function", "Time [s]", "MAE Loss", "log", "log", x=times)
        elif kind == "contour":
            w.check(ax["title"] == title, "wrong-labels", f"contour title {ax['title']!r}")
            w.check(len(ax["contours"]) == 1 and len(bars) == 1, "wrong-curves", f"{len(ax['contours'])} contour sets, {len(bars)} colour bars")
            cs, args = ax["contours"][0]
            ref = matplotlib.figure.Figure().subplots().contourf(X, Y, Z, levels=100, cmap="jet")
            w.check(args is not None and all(np.array_equal(u, v) for u, v in zip(args[:3], (X, Y, Z))), "wrong-data", "the contour shows other arrays")
            w.check(np.array_equal(cs.levels, ref.levels) and cs.norm.vmin == ref.norm.vmin and cs.norm.vmax == ref.norm.vmax and cs.cmap.name == ref.cmap.name,
                    "wrong-scale", lambda: f"levels {cs.levels[[0, -1]]}, expected {ref.levels[[0, -1]]}")
        elif kind == "inverse":
            w.check(len(ax["lines"]) == 1 and np.array_equal(ax["lines"][0][1], pred) and np.array_equal(ax["lines"][0][0], np.arange(n)), "wrong-data", "prediction curve")
            w.check(ax["ylabel"] == "eps" and ax["xlabel"] == "Epochs" and ax["yscale"] == "linear", "wrong-labels", f"{ax['ylabel']!r} {ax['yscale']}")
            w.check(len(ax["segments"]) == 1 and all(abs(seg[:, 1] - actual).max() <= 1e-12 for seg in ax["segments"][0][0]), "wrong-data", "line of the actual value")
            w.check(ax["legend"] == ["Predicted eps", "Actual eps"], "wrong-labels", f"{ax['legend']}")
            a2 = by[paths[1]]
            w.check(len(a2) == 1, "wrong-axes", "")
            curve(w, kind, a2[0], [np.abs(actual - pred)], "Absolute Error of eps", "Epochs", "Absolute Error", "log")
        elif kind == "mesh":
            for p in paths:
                ax = [a for a in by[p] if not a["bar"]][0]
                want = sorted(sorted(rows(c)) for c in cells)
                got_ = sorted(sorted(rows(np.column_stack(ln[:2]))) for ln in ax["lines"])
                w.check(got_ == want and all(np.array_equal(np.array(ln[:2])[:, 0], np.array(ln[:2])[:, -1]) for ln in ax["lines"]), "wrong-data", "mesh picture: the outlines are not the cells")
                quad = set()
                for c in range(len(cells)):
                    quad |= rows(spaces[which].get_quadrature_actual_coordinates(c))
                shown = set()
                labelled = {}
                for off, lab in ax["scatter"]:
                    if lab.startswith("Bd-id"):
                        labelled[lab] = rows(off)
                    else:
                        shown |= rows(off)
                w.check(shown == quad, "wrong-data", f"mesh picture: {len(shown ^ quad)} quadrature points missing or extra")
                want = {f"Bd-id : {t}": rows(P[:, :2]) for t, P in bd.items()}
                w.check(labelled == want, "wrong-data", f"mesh picture: boundary points of {sorted(t for t in set(labelled) | set(want) if labelled.get(t) != want.get(t))}")
                w.check(ax["legend"] is not None and {*want} <= set(ax["legend"]), "wrong-labels", f"{ax['legend']}")
        elif kind == "adaptive":
            import matplotlib.colors as mcol

            w.check(ax["title"] == "Cell Residual", "wrong-labels", ax["title"])
            norm = mcol.Normalize(vals.min(), vals.max())
            w.check(len(ax["fills"]) == len(cells), "wrong-data", f"{len(ax['fills'])} filled cells of {len(cells)}")
            fills = {tuple(sorted(rows(xy))): col for xy, col in ax["fills"]}
            for c, v in zip(cells, vals):
                want = plt.cm.jet(norm(v))[:3]
                col = fills.get(tuple(sorted(rows(c))))
                w.check(col is not None, "wrong-data", "a cell is not shown")
                w.check(np.allclose(col[:3], want, atol=1e-9), "wrong-colour", lambda: f"cell with residual {v} is coloured {col}, expected {want}")
            w.check(len(bars) == 1, "wrong-axes", "no colour bar")
            lo, hi = bars[0]["ylim"]
            w.check(vals.min() == vals.max() or max(abs(lo - vals.min()), abs(hi - vals.max())) <= 1e-9 * vals.max(), "wrong-scale",
                    lambda: f"colour bar from {lo} to {hi}, residuals from {vals.min()} to {vals.max()}")
        else:
            w.check(len(ax["scatter"]) == 1 and np.array_equal(ax["scatter"][0][0], got["pts"]), "wrong-data", "sensor picture: other points than the sensors returned")
            w.check(ax["title"] == "Sensor Points", "wrong-labels", ax["title"])
    plt.close("all")


def rcdict():
    import matplotlib

    return {k: repr(v) for k, v in matplotlib.rcParams.items()}


def handed(v):
    """The arrays a plotting call was given, by name."""
    out = {k: [v[k]] for k in ("arr", "data", "times", "X", "Y", "Z", "pred", "vals", "varg") if k in v}
    if "many" in v:
        out["many"] = list(v["many"])
    return out


def udigest(fig):
    return [(a.get_title(), len(a.lines), len(a.collections), len(a.patches), [arr_digest(np.asarray(ln.get_ydata(), float)) for ln in a.lines], a.get_yscale()) for a in fig.axes]
