"""P11: training resumes exactly from a saved state."""

import json
import os

import numpy as np

from .. import faults as F
from .. import fresh, problem as PB
from ..core import Rng

LEVEL = "fault_enumeration"
RUNS = {"quick": 150, "thorough": 8000}
RULE = (
    "one run = one generated problem trained without interruption in a pristine process, and again over 2-5 lives: each life builds a new model (in a "
    "new process, or beside the discarded one), loads a saved state, trains, saves by different methods (some saves fail on a full disk), takes steps that are lost, "
    "and dies; after every load and step the state and losses must be bit for bit those of the uninterrupted run at that step; non-trivial when a "
    "state was loaded; distinct by digest of the recorded history"
)
MEASURE = "distinct (model, save method, restart kind, step 0 or later, schedule, precision, mode) situations"
REAL = ["fastvpinns.model (all four)", "fastvpinns.physics", "fastvpinns.data", "fastvpinns.FE", "tensorflow checkpoints on a real file system", "keras Adam and ExponentialDecay"]
STUB = ["process death (only files survive a life)", "disk capacity"]
ASSUME = ["states are saved in the TensorFlow format (weights in HDF5 hold no optimiser state)", "the problem itself is set up again from the same inputs"]

METHODS = ["weights", "weights", "ckpt", "ckptopt", "manager"]


def setup():
    PB.imports()


def generate(rng, i, tier):
    c = PB.gen(rng.sub("cfg"), cells=4, f8=0.6)
    lives = []
    for k in range(rng.randint(2, 5)):
        r = rng.sub("l", k)
        ops = []
        for _ in range(r.randint(1, 5)):
            ops.append(r.wpick([(5, {"op": "train", "n": r.randint(1, 4)}), (4, {"op": "save", "how": r.pick(METHODS)}),
                                (1, {"op": "failsave", "how": r.pick(["weights", "ckpt"]), "limit": r.pick([0, 100, 700, 3000])}), (1, {"op": "predict"})]))
        if k == 0:
            ops.insert(r.randint(0, len(ops)), {"op": "save", "how": r.pick(METHODS)})
        lives.append({"ops": ops, "same": k > 0 and r.chance(0.35), "pick": r.wpick([(4, 0), (1, r.randint(0, 5))]), "discard": r.randint(0, 2),
                      "beside": r.randint(0, 2), "warm": r.chance(0.3)})
    return {"cfg": c, "mode": rng.wpick([(1, "graph"), (5, "eager")]), "lives": lives, "vary": rng.chance(0.5)}


def step_args(plan, t):
    return PB.gen_step(Rng("p11", plan["cfg"]["seed"], t if plan["vary"] else 0))


def total(plan):
    return sum(op["n"] for l in plan["lives"] for op in l["ops"] if op["op"] == "train") + 4


def build(plan, folder, salt):
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    pb = PB.Problem(plan["cfg"], folder)
    pb.seed()
    pb.geo()
    pb.space()
    pb.data()
    tf.keras.utils.set_random_seed(salt)
    pb.model()
    return pb


def observe(pb):
    return [PB.digest([list(x) for x in pb.state()])]


def reference(plan, folder, n):
    """Observation after t steps, for t = 0..n: (losses of step t, state, prediction)."""
    pb = build(plan, folder, 5)
    pb.setw()
    out = [(None, observe(pb), PB.digest(pb.predict()))]
    for t in range(n):
        res = pb.step(step_args(plan, t))
        out.append((sorted((k, PB.digest(v)) for k, v in res.items()), observe(pb), PB.digest(pb.predict())))
    return json.loads(json.dumps(out))


def save(pb, how, path):
    import tensorflow as tf

    if how == "weights":
        pb.m.save_weights(path)
        return path
    if how == "ckpt":
        return tf.train.Checkpoint(model=pb.m).write(path)
    if how == "ckptopt":
        return tf.train.Checkpoint(net=pb.m, opt=pb.m.optimizer).save(path)
    m = tf.train.CheckpointManager(tf.train.Checkpoint(model=pb.m), path + ".d", max_to_keep=2)
    return m.save()


def load(pb, how, path):
    import tensorflow as tf

    if how == "weights":
        pb.m.load_weights(path)
    elif how == "ckptopt":
        tf.train.Checkpoint(net=pb.m, opt=pb.m.optimizer).restore(path)
    else:
        tf.train.Checkpoint(model=pb.m).restore(path)


def check_at(w, pb, ref, t, what):
    w.check(observe(pb) == ref[t][1], "state-differs", lambda: f"{what}: the training state is not that of the uninterrupted run after {t} steps")
    w.check(PB.digest(pb.predict()) == ref[t][2], "prediction-differs", f"{what}: predictions differ from the uninterrupted run after {t} steps")


def lives(w, plan, group, saves, ref, scratch, first):
    """A chain of lives in one process -> list of saved states [(t, how, path)]."""
    c = plan["cfg"]
    n = len(ref) - 1
    old = None
    for j, life in group:
        pb = build(plan, os.path.join(scratch, f"life{j}"), 100 + j)
        t = 0
        if j == 0:
            pb.setw()
        else:
            if life["warm"]:
                # the new model is not untouched when the state is loaded
                pb.step(step_args(plan, 50 + j))
            t, how, path = saves[-1 - (life["pick"] % len(saves))]
            if old is not None:
                for _ in range(life["beside"]):
                    old.step(step_args(plan, 90))
            load(pb, how, path)
            w.nontrivial = True
            w.fired("restart-same-process" if old is not None else "restart-new-process")
            w.mark(c["kind"], how, old is not None, life["warm"], t == 0, c["lr"]["use_lr_scheduler"], c["lr"]["staircase"], c["dtype"], plan["mode"])
            w.log("load", j, t, how)
            check_at(w, pb, ref, t, f"life {j}, {how} loaded ({c['kind']}, {plan['mode']})")
        for op in life["ops"]:
            w.step()
            if op["op"] == "train":
                for _ in range(op["n"]):
                    if t >= n:
                        break
                    res = pb.step(step_args(plan, t))
                    got = json.loads(json.dumps(sorted((k, PB.digest(v)) for k, v in res.items())))
                    t += 1
                    w.log("step", t, got)
                    w.check(got == ref[t][0], "losses-differ", lambda: f"life {j}, step {t} ({c['kind']}, {plan['mode']}): {got}, uninterrupted {ref[t][0]}")
                    w.check(observe(pb) == ref[t][1], "state-differs", f"life {j}, step {t} ({c['kind']}): the training state is not that of the uninterrupted run")
                    if old is not None and life["beside"]:
                        old.step(step_args(plan, 91))
            elif op["op"] == "predict":
                w.check(PB.digest(pb.predict()) == ref[t][2], "prediction-differs", f"life {j} after {t} steps")
            elif op["op"] == "save":
                path = save(pb, op["how"], os.path.join(scratch, f"s{j}-{len(saves)}"))
                saves.append([t, op["how"], path])
                w.log("save", j, t, op["how"])
            else:
                w.arm("disk-full")
                try:
                    with F.fsize(op["limit"]):
                        save(pb, op["how"], os.path.join(scratch, f"f{j}-{len(saves)}-{t}"))
                    w.log("save fitted", j)
                except Exception as e:
                    w.fired("disk-full")
                    w.log("save failed", j, type(e).__name__)
                w.check(observe(pb) == ref[t][1], "state-differs", f"life {j}: the training state changed when saving failed")
        for k in range(life["discard"]):
            w.fired("steps-lost")
            pb.step(step_args(plan, 70 + k))
        old = pb
    return saves


def execute(plan, w):
    n = total(plan)
    ref = fresh.call(reference, plan, os.path.join(w.scratch, "ref"), n)
    for x in ref:
        w.log(x)
    saves = []
    groups = []
    for j, life in enumerate(plan["lives"]):
        if life["same"] and groups:
            groups[-1].append((j, life))
        else:
            groups.append([(j, life)])
    for g in groups:
        saves = fresh.run_in(w, lives, plan, g, saves, ref, w.scratch, g is groups[0])


def shrink(plan):
    for k in range(len(plan["lives"]) - 1, 0, -1):
        q = json.loads(json.dumps(plan))
        del q["lives"][k]
        yield q
    for k, l in enumerate(plan["lives"]):
        for j in range(len(l["ops"])):
            q = json.loads(json.dumps(plan))
            del q["lives"][k]["ops"][j]
            if k or any(o["op"] == "save" for o in q["lives"][0]["ops"]):
                yield q
        for key in ("discard", "beside", "warm"):
            if l[key]:
                q = json.loads(json.dumps(plan))
                q["lives"][k][key] = 0
                yield q
