"""P08: problems living in one process do not influence each other."""

import json
import os
import random

import numpy as np

from .. import fresh, problem as PB
from ..core import HarnessError, Rng
from ..sched import Sched, gen_gaps, gen_hot

LEVEL = "seeded_exploration"
RUNS = {"quick": 340, "thorough": 9000}
RULE = (
    "one run = 2-4 generated problems (often near twins, some sharing input objects or a whole data handler) whose operations are interleaved in "
    "one process, either operation by operation or on threads that may lose the baton at any line of the library, with handed-out arrays "
    "overwritten and failing operations mixed in; each problem is also executed alone in a pristine process and must observe the same bits; "
    "non-trivial when problems were really interleaved; distinct by digest of schedule and observations"
)
MEASURE = "distinct (problem pair, what they share, schedule mode, hostile acts) situations and (file, function) preemption points"
REAL = ["fastvpinns.Geometry", "fastvpinns.FE (all)", "fastvpinns.data", "fastvpinns.model (all four)", "fastvpinns.physics", "tensorflow", "threads (real, one at a time)"]
STUB = ["thread scheduler (seeded, switches at library lines)", "random source (one stream per problem)", "failures of user functions"]
ASSUME = ["matplotlib's and gmsh's process-wide state is not driven from several threads", "within a TensorFlow graph execution no switch happens"]


def setup():
    PB.imports()


def generate(rng, i, tier):
    if rng.chance(0.5):
        return light_plan(rng)
    n = rng.wpick([(5, 2), (3, 3), (1, 4)])
    first = PB.gen(rng.sub("c0"), cells=4, f8=0.6)
    probs = []
    for k in range(n):
        r = rng.sub("p", k)
        c = first if k == 0 else PB.gen(r.sub("c"), cells=4, f8=0.6)
        p = {"cfg": c, "share": {}, "of": None}
        if k and r.chance(0.65):
            from .p07 import near

            p["cfg"] = near(r, first, c)
        if k and r.chance(0.3):
            # another model on the same data
            o = r.randrange(k)
            o = o if probs[o]["of"] is None else probs[o]["of"]
            p["of"] = o
            p["cfg"] = json.loads(json.dumps(probs[o]["cfg"]))
            for key in ("seed", "layers", "lr", "act", "hard"):
                if r.chance(0.5):
                    p["cfg"][key] = c[key]
            if r.chance(0.5) and c["kind"] in ("dense", "hard") and p["cfg"]["kind"] in ("dense", "hard"):
                p["cfg"]["kind"] = c["kind"]
        elif k:
            for key in ("lr", "inv"):
                if r.chance(0.5):
                    p["cfg"] = json.loads(json.dumps(p["cfg"]))
                    p["cfg"][key] = probs[0]["cfg"][key]
                    p["share"][key] = 0
        p["steps"] = r.randint(1, 6)
        p["mutate"] = r.sample(MUTATIONS, r.randint(0, 3)) if r.chance(0.6) else []
        p["bad"] = r.pick(BAD) if r.chance(0.35) else None
        p["setw"] = r.chance(0.9)
        p["twin_steps"] = r.chance(0.5)
        probs.append(p)
    how = rng.pick(["ops", "ops", "threads", "threads"])
    plan = {"tasks": probs, "how": how, "mode": rng.wpick([(1, "graph"), (8, "eager")])}
    if how == "ops":
        plan["preempt"] = [rng.randrange(12) for _ in range(rng.randint(10, 80))]
    else:
        plan["preempt"] = gen_gaps(rng.sub("g"))
        plan["hot"] = gen_hot(rng.sub("h"))
    return plan


def light_plan(rng):
    """Assembly only, of problems that differ in little, on threads that meet often."""
    r = rng.sub("light")
    first = PB.gen(r.sub("c0"), cells=3, f8=0.6)
    probs = []
    for k in range(r.wpick([(5, 2), (1, 3)])):
        c = json.loads(json.dumps(first))
        if k:
            other = PB.gen(r.sub("c", k), cells=3, f8=0.6)
            for key in r.sample(["geo", "geo", "co", "bdco", "seed", "fe"], r.randint(1, 2)):
                c[key] = other[key]
        probs.append({"cfg": c, "share": {}, "of": None, "steps": 0, "mutate": [], "bad": None, "setw": True, "twin_steps": False, "light": True})
    return {"tasks": probs, "how": "threads", "mode": "eager", "preempt": gen_gaps(r.sub("g")), "hot": gen_hot(r.sub("h"), 0.9)}


MUTATIONS = ["val", "gradx", "grady", "gradxr", "gradyr", "quad", "weights", "forcing", "dirichlet", "forcing-late", "dirichlet-values", "dirichlet-values", "dirichlet-order"]
BAD = ["badbd", "badfe", "badloss", "badforce", "badmesh"]


def steps_of(p):
    """The arguments of the steps, from the configuration alone."""
    return [PB.gen_step(Rng("p08", 0 if p["twin_steps"] else p["cfg"]["seed"], k)) if k % 2 else None for k in range(p["steps"])]


def script(p, pb, base, hostile):
    """The operations of a problem as (name, callable); base: the problem whose data is used."""
    ops = []
    c = p["cfg"]
    if base is None:
        ops += [("seed", lambda: seed(pb)), ("geo", pb.geo), ("space", pb.space)]
        if hostile and p["bad"]:
            ops.append(("bad", lambda: bad(p["bad"], pb)))
        if hostile:
            for m in p["mutate"]:
                if m != "forcing-late":
                    ops.append(("mutate", lambda m=m: mutate(m, pb)))
        ops.append(("data", pb.data))
        if hostile and "forcing-late" in p["mutate"]:
            ops.append(("mutate", lambda: mutate("forcing", pb)))
    else:
        def adopt():
            seed(pb)
            for k in ("geom", "cells", "bd", "sp", "dh", "dirx", "diry", "pars", "inv", "sensors"):
                setattr(pb, k, getattr(base, k))

        ops.append(("adopt", adopt))
    if p.get("light"):
        return ops + [("late", lambda: late(pb))]

    def model():
        pb.m = pb.new_model()
        if p["setw"]:
            pb.setw()
            pb.rec("model", pb.m.get_weights())
        else:
            pb.rec("model", [w.shape for w in pb.m.get_weights()])
            pb.setw(3)

    ops.append(("model", model))
    for st in steps_of(p):
        ops.append(("step", lambda st=st: pb.step(st)))
    ops.append(("predict", pb.predict))
    ops.append(("state", lambda: pb.rec("state", *[list(x) for x in pb.state()])))
    if base is None:
        ops.append(("late", lambda: late(pb)))
    if base is None and hostile and p["mutate"]:
        # and once more at some later time
        q = Rng("p08m", c["seed"], p["steps"])
        start = 1 + [name for name, _ in ops].index("data")
        m = q.pick([z for z in MUTATIONS if z != "forcing-late"])
        ops.insert(q.randint(start, len(ops) - 1), ("mutate", lambda: mutate(m, pb)))
    return ops


def seed(pb):
    random.seed(pb.cfg["seed"])
    np.random.seed(pb.cfg["seed"])


def late(pb):
    """The space once more, at the end."""
    n = len(pb.cells)
    pb.rec("late", [pb.sp.get_shape_function_val(k) for k in range(n)], [pb.sp.get_shape_function_grad_x(k) for k in range(n)], [pb.sp.get_shape_function_grad_y(k) for k in range(n)],
           [pb.sp.get_quadrature_actual_coordinates(k) for k in range(n)], [pb.sp.get_quadrature_weights(k) for k in range(n)], [pb.sp.get_forcing_function_values(k) for k in range(n)],
           list(pb.sp.generate_dirichlet_boundary_data()))


def mutate(what, pb):
    sp = pb.sp
    n = len(pb.cells)
    if what.startswith("dirichlet-"):
        x, y = sp.generate_dirichlet_boundary_data()
        if what == "dirichlet-order":
            y.reverse()
        else:
            for a in list(x) + list(y):
                a *= -2.0
                a += 5.0
        return
    if what == "dirichlet":
        for lst in sp.generate_dirichlet_boundary_data():
            for a in lst:
                a[...] = 77.0
            lst.clear()
        return
    get = {"val": sp.get_shape_function_val, "gradx": sp.get_shape_function_grad_x, "grady": sp.get_shape_function_grad_y, "gradxr": sp.get_shape_function_grad_x_ref,
           "gradyr": sp.get_shape_function_grad_y_ref, "quad": sp.get_quadrature_actual_coordinates, "weights": sp.get_quadrature_weights, "forcing": sp.get_forcing_function_values}[what]
    for k in range(n):
        a = get(k)
        if a.flags.writeable:
            a *= -3.0
            a += 1.0


def bad(what, pb):
    """Failing work of the same user next to the problem; its failure is expected."""
    import tensorflow as tf

    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D

    st = np.random.get_state(), random.getstate()
    calls = []

    def fn(x, y):
        calls.append(1)
        if len(calls) > 2:
            raise ArithmeticError("injected")
        return 1.0

    try:
        if what == "badmesh":
            p = os.path.join(pb.folder, "bad.mesh")
            with open(p, "w") as fh:
                fh.write("MeshVersionFormatted 1\nDimension 3\nVertices\n3\n0 0 0 1\n")
            Geometry_2D("quadrilateral", "external", 3, 3, pb.folder).read_mesh(p, 1, "uniform", 0)
        elif what == "badloss":
            pb2 = PB.Problem(pb.cfg, pb.folder + "-bad")

            def loss(**kw):
                raise ArithmeticError("injected")

            for k in ("geom", "cells", "bd", "sp"):
                setattr(pb2, k, getattr(pb, k))
            pb2.data()
            pb2.model(loss)
            pb2.step()
        else:
            c = pb.cfg["fe"]
            sp = Fespace2D(mesh=pb.geom.mesh, cells=pb.cells, boundary_points=pb.bd, cell_type="quadrilateral", fe_order=c["order"], fe_type="none" if what == "badfe" else c["type"],
                           quad_order=c["qorder"], quad_type=c["qtype"], fe_transformation_type=c["trans"], bound_function_dict={t: (fn if what == "badbd" else lambda x, y: 2.0) for t in pb.bd},
                           bound_condition_dict={t: "dirichlet" for t in pb.bd}, forcing_function=fn, output_path=pb.folder)
            for k in range(len(pb.cells)):
                sp.get_forcing_function_values(k)
    except Exception:
        pb.failed = True
    np.random.set_state(st[0])
    random.setstate(st[1])


def alone(plan, k, folder):
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    p = plan["tasks"][k]
    base = None
    if p["of"] is not None:
        q = plan["tasks"][p["of"]]
        base = PB.Problem(q["cfg"], os.path.join(folder, "base"))
        for name, op in script(q, base, None, False):
            op()
            if name == "data":
                break
    pb = PB.Problem(p["cfg"], os.path.join(folder, "p"))
    for name, op in script(p, pb, base, False):
        op()
    return json.loads(json.dumps(pb.out))


def together(w, plan):
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    pbs, scripts = [], []
    ready = []
    shared = {}
    for k, p in enumerate(plan["tasks"]):
        sh = {}
        for key in ("lr", "inv"):
            if key in p["share"] or k == 0:
                shared.setdefault(key, dict(p["cfg"]["lr"]) if key == "lr" else {"eps": p["cfg"]["inv"]})
                sh[key] = shared[key]
        pb = PB.Problem(p["cfg"], os.path.join(w.scratch, f"t{k}"), sh)
        pb.failed = False
        pbs.append(pb)
        base = None if p["of"] is None else pbs[p["of"]]
        scripts.append(script(p, pb, base, True))
        ready.append((lambda b: lambda: b is None or hasattr(b, "sensors"))(base))
    trail = []
    if plan["how"] == "ops":
        streams = [None] * len(pbs)
        done = [0] * len(pbs)
        n = 0
        while True:
            cand = [k for k in range(len(pbs)) if done[k] < len(scripts[k]) and (done[k] or ready[k]())]
            if not cand:
                break
            k = cand[plan["preempt"][n % len(plan["preempt"])] % len(cand)] if plan["preempt"] else cand[0]
            n += 1
            if streams[k]:
                random.setstate(streams[k][0])
                np.random.set_state(streams[k][1])
            name, op = scripts[k][done[k]]
            op()
            streams[k] = random.getstate(), np.random.get_state()
            done[k] += 1
            trail.append((k, name))
        w.step(n)
        switches = sum(a[0] != b[0] for a, b in zip(trail, trail[1:]))
        if sum(map(len, scripts)) != n:
            raise HarnessError("some problem never became ready")
    else:
        from .. import run as R

        s = Sched(plan["preempt"], os.path.join(R.REPO, "fastvpinns"), hot=plan.get("hot"))

        def task(sc):
            for name, op in sc:
                s.point()
                op()

        for k, sc in enumerate(scripts):
            s.spawn(f"t{k}", (lambda sc: lambda: task(sc))(sc), ready[k])
        for e in s.run():
            if e is not None:
                raise e
        trail = s.trail
        switches = s.switches
        for f, fn in s.where:
            w.mark("preempted", f, fn)
        w.step(s.points)
        if s.stalls:
            w.mark("stalled")
    w.log("schedule", plan["how"], [list(t) for t in trail][:400])
    if switches >= 2:
        w.nontrivial = True
    for k, (p, pb) in enumerate(zip(plan["tasks"], pbs)):
        bad_inputs = pb.modified()
        w.check(not bad_inputs, "input-modified", f"problem {k} ({p['cfg']['kind']}): the library modified {bad_inputs}")
        if p["bad"]:
            w.arm(p["bad"])
            if pb.failed:
                w.fired(p["bad"])
        for m in p["mutate"]:
            w.fired("overwrite-" + m)
    return [json.loads(json.dumps(pb.out)) for pb in pbs]


def execute(plan, w):
    outs = fresh.run_in(w, together, plan)
    c0 = plan["tasks"][0]["cfg"]
    for k, p in enumerate(plan["tasks"]):
        same = [key for key in ("fe", "geo", "kind", "layers", "dtype") if p["cfg"][key] == c0[key]] if k else []
        w.mark(plan["how"], plan["mode"], p["cfg"]["kind"], ",".join(same), p["of"] is not None, ",".join(sorted(p["share"])), p["bad"])
        want = fresh.call(alone, plan, k, os.path.join(w.scratch, f"alone{k}"))
        got = outs[k]
        w.check(len(got) == len(want), "interference", f"problem {k}: {len(got)} observations, alone {len(want)}")
        for j, (x, y) in enumerate(zip(got, want)):
            w.check(x == y, "interference", lambda: f"problem {k} ({p['cfg']['kind']}), observation {j} ({x[0]}): {json.dumps(x)[:250]}; alone {json.dumps(y)[:250]}")
            w.log(k, x)


def shrink(plan):
    from ..run import generic_shrink

    n = len(plan["tasks"])
    for k in range(n - 1, 0, -1):
        if all(t["of"] != k for t in plan["tasks"]) and n > 1:
            q = json.loads(json.dumps(plan))
            del q["tasks"][k]
            for t in q["tasks"]:
                if t["of"] is not None and t["of"] > k:
                    t["of"] -= 1
            yield q
    for k in range(n):
        for key, v in (("mutate", []), ("bad", None), ("steps", 1)):
            if plan["tasks"][k][key] != v:
                q = json.loads(json.dumps(plan))
                q["tasks"][k][key] = v
                yield q
    for q in generic_shrink(dict(plan, tasks=[])):
        yield dict(q, tasks=plan["tasks"])
