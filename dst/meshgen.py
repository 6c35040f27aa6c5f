"""Seeded quadrilateral meshes in the MEDIT .mesh format, and independent readers for the
files the library reads and writes (.mesh, legacy ASCII .vtk).  Nothing here uses meshio."""

import math

import numpy as np


# ------------------------------------------------------------------ generation


def gen_mesh(rng, max_cells=24, min_cells=1, loose=False):
    """A JSON-able mesh: vertices, quads (valid, convex, any orientation), tagged boundary edges."""
    if rng.chance(0.06) and max_cells >= 24:
        max_cells = 260
        nx, ny = rng.randint(6, 16), rng.randint(6, 16)
    else:
        nx = rng.randint(1, 5)
        ny = rng.randint(1, 5)
    while nx * ny > max_cells:
        nx, ny = max(1, nx - 1), max(1, ny - 1)
    x0, y0 = rng.real(-3, 3, 3), rng.real(-3, 3, 3)
    if loose and rng.chance(0.06):
        x0, y0 = rng.real(-90000, 90000, 1), rng.real(-3, 3, 3)
    w, h = rng.wpick([(4, rng.real(0.5, 4, 3)), (1, rng.real(1e-3, 1e-2, 5)), (1, rng.real(50, 900, 2))]), rng.real(0.5, 3, 3)
    scale = w
    digits = 10
    if abs(x0) > 10:
        digits, w = 14, max(w, 0.5)
        scale = w
    shape = rng.wpick([(3, "rot"), (2, "axis"), (2, "annulus"), (2, "skew"), (1, "lshape")])
    if shape == "lshape":
        nx, ny = max(2, nx), max(2, ny)
    ang = rng.real(0.1, 6.1, 4)
    hole = None
    if shape == "lshape":
        hole = (rng.randint(1, nx - 1), rng.randint(1, ny - 1))
    jit = rng.pick([0.0, 0.0, 0.12, 0.22])

    def pos(i, j):
        u, v = i / nx, j / ny
        du = dv = 0.0
        if 0 < i < nx and 0 < j < ny:
            du, dv = (rng.random() - 0.5) * jit * 2 / nx, (rng.random() - 0.5) * jit * 2 / ny
        u, v = u + du, v + dv
        if shape == "annulus":
            r, t = 1 + v, ang + u * 2.2
            X, Y = r * math.cos(t), r * math.sin(t)
        elif shape == "skew":
            X, Y = u + 0.45 * v + 0.2 * u * v, h * v + 0.3 * u
        else:
            X, Y = u, h * v
            if shape == "rot":
                X, Y = math.cos(ang) * X - math.sin(ang) * Y, math.sin(ang) * X + math.cos(ang) * Y
        return [float(f"{x0 + scale * X:.{digits}g}"), float(f"{y0 + scale * Y:.{digits}g}")]

    grid = {}
    verts = []
    for i in range(nx + 1):
        for j in range(ny + 1):
            grid[i, j] = len(verts)
            verts.append(pos(i, j))
    cells = []
    for i in range(nx):
        for j in range(ny):
            if hole and i >= hole[0] and j >= hole[1]:
                continue
            cells.append([grid[i, j], grid[i + 1, j], grid[i + 1, j + 1], grid[i, j + 1]])
    if not all(_convex([verts[v] for v in c]) for c in cells):
        return gen_mesh(rng, max_cells, min_cells, loose)
    # boundary edges: the ones that belong to one cell
    count = {}
    for c in cells:
        for k in range(4):
            e = (c[k], c[(k + 1) % 4])
            count.setdefault(tuple(sorted(e)), []).append(e)
    bedges = [v[0] for v in count.values() if len(v) == 1]
    used = sorted({v for c in cells for v in c})
    remap = {v: k for k, v in enumerate(used)}
    verts = [verts[v] for v in used]
    cells = [[remap[v] for v in c] for c in cells]
    bedges = [[remap[v] for v in e] for e in bedges]
    if loose and rng.chance(0.2):
        # vertices of no cell (an arc's centre, a geometry point), as mesh generators write them
        for _ in range(rng.randint(1, 3)):
            verts.append([float(f"{x0 + scale * rng.real(-1, 2, 3):.10g}"), float(f"{y0 + scale * rng.real(-1, 2, 3):.10g}")])
    if loose and rng.chance(0.15):
        # some inner edges carry a tag too
        inner = [v[0] for v in count.values() if len(v) == 2]
        rng.shuffle(inner)
        bedges += [[remap[v] for v in e] for e in inner[: rng.randint(1, 4)]]
    # shuffle everything the format leaves free
    perm = list(range(len(verts)))
    rng.shuffle(perm)
    inv = {p: k for k, p in enumerate(perm)}
    verts = [verts[p] for p in perm]
    cells = [[inv[v] for v in c] for c in cells]
    bedges = [[inv[v] for v in e] for e in bedges]
    for c in cells:
        k = rng.randrange(4)
        c[:] = c[k:] + c[:k]
        if rng.chance(0.4):
            c.reverse()
    for e in bedges:
        if rng.chance(0.5):
            e.reverse()
    rng.shuffle(cells)
    rng.shuffle(bedges)
    ntags = rng.randint(1, min(4 if rng.chance(0.85) else 24, len(bedges)))
    tags = rng.sample([1000, 1001, 1002, 1003, 7, 3, 12, 999999, 2, 31, 0, -5] + list(range(40, 60)), ntags)
    etags = [tags[k] if k < ntags else rng.pick(tags) for k in range(len(bedges))]
    rng.shuffle(etags)
    ctags = [rng.pick([0, 1, 5, 1000]) for _ in cells]
    return {
        "shape": shape, "verts": verts, "cells": cells, "edges": bedges, "etags": etags, "ctags": ctags,
        "order": rng.wpick([(4, "VEQ"), (2, "VQE"), (1, "EVQ"), (1, "QVE")]),
        "dim": 3, "extra": rng.chance(0.25), "fmt": rng.pick(["repr", "exp"]), "version": 2 if digits > 10 and rng.pick([1, 2]) else rng.pick([1, 2]),
    }


def _convex(q):
    """Convex with a margin (so that small nudges of one vertex keep it convex)."""
    a = []
    for k in range(4):
        (x0, y0), (x1, y1), (x2, y2) = q[k - 1], q[k], q[(k + 1) % 4]
        a.append((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1))
    m = max(map(abs, a))
    return m > 0 and (all(z > 0.08 * m for z in a) or all(z < -0.08 * m for z in a))


def mesh_text(m):
    num = (lambda x: repr(float(x))) if m["fmt"] == "repr" else (lambda x: f"{x:.16e}")
    out = ["MeshVersionFormatted %d" % m["version"], "", "Dimension", "3", ""]
    if m["extra"]:
        out += ["# generated", ""]

    def V():
        out.extend(["Vertices", str(len(m["verts"]))])
        out.extend(f"{num(x)} {num(y)} {num(0.0)} 0" for x, y in m["verts"])
        out.append("")

    def E():
        out.extend(["Edges", str(len(m["edges"]))])
        out.extend(f"{a + 1} {b + 1} {t}" for (a, b), t in zip(m["edges"], m["etags"]))
        out.append("")

    def Q():
        out.extend(["Quadrilaterals", str(len(m["cells"]))])
        out.extend(" ".join(str(v + 1) for v in c) + f" {t}" for c, t in zip(m["cells"], m["ctags"]))
        out.append("")

    for s in m["order"]:
        {"V": V, "E": E, "Q": Q}[s]()
    out += ["End", ""]
    return "\n".join(out)


# ------------------------------------------------------------------ independent readers


def parse_mesh(data):
    """What a .mesh file says; None where it is not a complete file."""
    try:
        text = data.decode("ascii")
    except UnicodeDecodeError:
        return None
    lines = [ln.split("#")[0] for ln in text.split("\n")]
    toks = " ".join(lines).split()
    pos = 0
    sec = {}
    width = {"Vertices": 4, "Edges": 3, "Quadrilaterals": 5}
    ended = False
    try:
        while pos < len(toks):
            t = toks[pos]
            if t == "MeshVersionFormatted":
                pos += 2
            elif t == "Dimension":
                if toks[pos + 1] != "3":
                    return None
                pos += 2
            elif t in width:
                n = int(toks[pos + 1])
                w = width[t]
                body = toks[pos + 2 : pos + 2 + n * w]
                if len(body) != n * w or t in sec:
                    return None
                conv = float if t == "Vertices" else int
                sec[t] = [[conv(z) for z in body[k * w : (k + 1) * w]] for k in range(n)]
                pos += 2 + n * w
            elif t == "End":
                ended = True
                break
            else:
                return None
    except (ValueError, IndexError):
        return None
    if set(sec) != set(width):
        return None
    nv = len(sec["Vertices"])
    for r in sec["Edges"]:
        if not all(1 <= v <= nv for v in r[:2]):
            return None
    for r in sec["Quadrilaterals"]:
        if not all(1 <= v <= nv for v in r[:4]):
            return None
    return {
        "verts": np.array([r[:2] for r in sec["Vertices"]], float).reshape(-1, 2),
        "edges": [[r[0] - 1, r[1] - 1] for r in sec["Edges"]],
        "etags": [r[2] for r in sec["Edges"]],
        "cells": [[v - 1 for v in r[:4]] for r in sec["Quadrilaterals"]],
        "ended": ended,
    }


def parse_vtk(data):
    """A legacy ASCII .vtk unstructured grid -> points, cells, types, point scalars; raises ValueError."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise ValueError(str(e))
    lines = text.split("\n")
    if not lines or not lines[0].startswith("# vtk DataFile"):
        raise ValueError("no vtk header")
    i = 2
    if i >= len(lines) or lines[i].strip() != "ASCII":
        raise ValueError("not ASCII")
    toks = []  # (token, line number)
    for k in range(3, len(lines)):
        for t in lines[k].split():
            toks.append(t)
    p = 0
    out = {"points": None, "cells": None, "types": None, "scalars": [], "npd": None, "fields": {}}

    def take(n):
        nonlocal p
        if p + n > len(toks):
            raise ValueError("file ends early")
        r = toks[p : p + n]
        p += n
        return r

    loc = None
    while p < len(toks):
        t = take(1)[0]
        if t == "DATASET":
            if take(1)[0] != "UNSTRUCTURED_GRID":
                raise ValueError("dataset")
        elif t == "POINTS":
            n = int(take(1)[0])
            take(1)
            out["points"] = np.array([float(z) for z in take(3 * n)]).reshape(-1, 3)
        elif t == "CELLS":
            n, tot = int(take(1)[0]), int(take(1)[0])
            raw = [int(z) for z in take(tot)]
            cells, q = [], 0
            for _ in range(n):
                k = raw[q]
                cells.append(raw[q + 1 : q + 1 + k])
                if len(cells[-1]) != k:
                    raise ValueError("cells")
                q += 1 + k
            if q != tot:
                raise ValueError("cells")
            out["cells"] = cells
        elif t == "CELL_TYPES":
            n = int(take(1)[0])
            out["types"] = [int(z) for z in take(n)]
        elif t == "POINT_DATA":
            out["npd"] = int(take(1)[0])
            loc = "point"
            cnt = out["npd"]
        elif t == "CELL_DATA":
            cnt = int(take(1)[0])
            loc = "cell"
        elif t == "FIELD":
            take(1)
            for _ in range(int(take(1)[0])):
                nm, nc, nt, _ty = take(4)
                vals = [float(z) for z in take(int(nc) * int(nt))]
                out["fields"][(loc, nm)] = vals
        elif t == "SCALARS":
            nm = take(1)[0]
            ty = take(1)[0]
            nxt = take(1)[0]
            if nxt != "LOOKUP_TABLE":
                if nxt != "1":
                    raise ValueError("components")
                nxt = take(1)[0]
            if nxt != "LOOKUP_TABLE":
                raise ValueError("lookup table expected")
            take(1)
            out["scalars"].append((loc, nm, ty, np.array([float(z) for z in take(cnt)])))
        else:
            raise ValueError(f"unexpected token {t!r}")
    if out["points"] is None or out["cells"] is None or out["types"] is None:
        raise ValueError("incomplete grid")
    if len(out["types"]) != len(out["cells"]):
        raise ValueError("cell types do not match the cells")
    return out


# ------------------------------------------------------------------ geometry helpers


def on_segment(p, a, b, tol):
    d = b - a
    L2 = float(d @ d)
    t = float((p - a) @ d) / L2
    off = p - (a + t * d)
    return math.sqrt(float(off @ off)) <= tol and -1e-9 <= t <= 1 + 1e-9, t


def area(poly):
    x, y = poly[:, 0], poly[:, 1]
    return 0.5 * float(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
