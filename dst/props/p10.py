"""P10: a failed training step changes nothing."""

import json
import os

import numpy as np

from .. import fresh, problem as PB

LEVEL = "fault_enumeration"
RUNS = {"quick": 280, "thorough": 9000}
RULE = (
    "one run = one generated problem whose user code (residual, hard constraint, activation) or step arguments fail at seeded steps and places, "
    "at tracing or at run time, any number of times; after each failure every trainable value and optimiser variable is compared with that before "
    "it, and the whole history with that of a fault-free twin in a pristine process; non-trivial when a failure fired; distinct by digest of the "
    "recorded history"
)
MEASURE = "distinct (model, execution mode, fault kind, place, first step or later, schedule, exception) situations"
REAL = ["fastvpinns.model (all four)", "fastvpinns.physics", "fastvpinns.data", "fastvpinns.FE", "tensorflow", "keras Adam and ExponentialDecay"]
STUB = ["user residual, hard constraint and activation (the real ones, wrapped to fail on command)"]
ASSUME = ["an interrupt delivered inside TensorFlow's own update kernels is out of scope"]


def setup():
    PB.imports()


def gen_fault(r, c, mode):
    kinds = [(3, "loss-before"), (3, "loss-after"), (2, "loss-shape"), (1, "loss-none"), (2, "param-missing"), (1, "param-none"), (2, "param-text"), (4, "activation")]
    if c["kind"] == "hard":
        kinds.append((5, "hard"))
    else:
        kinds += [(2, "beta-text"), (2, "beta-none")]
    if mode == "runtime":
        kinds = [(1, "runtime")]
    f = {"kind": r.wpick(kinds), "exc": r.pick(["ArithmeticError", "KeyError", "MemoryError", "KeyboardInterrupt", "StopIteration"]), "nth": r.wpick([(2, 0), (3, r.randint(1, 8))])}
    if mode == "runtime":
        f["exc"] = "ArithmeticError"
    if mode != "eager" and f["exc"] in ("StopIteration", "KeyboardInterrupt"):
        f["exc"] = "ArithmeticError"
    return f


def generate(rng, i, tier):
    c = PB.gen(rng.sub("cfg"), cells=4, f8=0.6)
    mode = rng.wpick([(6, "eager"), (1, "graph"), (2, "runtime")])
    n = rng.randint(2, 8)
    ops = []
    first = rng.chance(0.5)
    for k in range(n):
        r = rng.sub("s", k)
        st = PB.gen_step(r)
        while r.chance(0.85 if k == 0 and first else 0.25):
            if mode == "graph" and any(o["fault"] for o in ops) and r.chance(0.6):
                break
            ops.append({"fault": gen_fault(r, c, mode), "st": PB.gen_step(r) if r.chance(0.5) else st})
        ops.append({"fault": None, "st": st})
    if not any(o["fault"] for o in ops):
        k = rng.randint(0, len(ops))
        ops.insert(k, {"fault": gen_fault(rng.sub("f"), c, mode), "st": PB.gen_step(rng.sub("fs"))})
        ops.append({"fault": None, "st": PB.gen_step(rng.sub("fe"))})
    return {"cfg": c, "mode": mode, "ops": ops}


EXC = {"ArithmeticError": ArithmeticError, "KeyError": KeyError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration}


class User:
    """The user's functions; `armed` is the fault of the step in progress."""

    def __init__(self, pb, runtime):
        import tensorflow as tf

        self.armed, self.calls, self.fired = None, 0, 0
        real_loss = pb.loss_function()
        real_hard = PB.hard_fn(pb.cfg["hard"], None) or (lambda x, y: y)
        real_act = {"tanh": tf.tanh, "sigmoid": tf.sigmoid, "swish": lambda z: z * tf.sigmoid(z), "elu": tf.nn.elu}[pb.cfg["act"]]
        me = self

        def boom():
            me.fired += 1
            raise EXC[me.armed["exc"]]("injected failure of user code")

        def is_(kind):
            return me.armed is not None and me.armed["kind"] == kind

        def probe(x):
            if is_("runtime"):
                boom()
            return x

        def loss(**kw):
            if is_("loss-before"):
                boom()
            res = real_loss(**kw)
            if is_("loss-after"):
                boom()
            if is_("loss-shape"):
                me.fired += 1
                return tf.zeros([2], tf.int32)
            if is_("loss-none"):
                me.fired += 1
                return None
            if runtime:
                res = tf.reshape(res * tf.py_function(probe, [tf.ones([], res.dtype)], res.dtype), [-1])
            return res

        def hard(x, y):
            if is_("hard"):
                boom()
            return real_hard(x, y)

        def act(z):
            if is_("activation"):
                me.calls += 1
                if me.calls > me.armed["nth"]:
                    boom()
            return real_act(z)

        dc = tf.autograph.experimental.do_not_convert
        self.loss, self.hard, self.act = dc(loss), dc(hard), dc(act)


def bad_args(pb, st, fault):
    args = pb.args(st)
    k = fault["kind"]
    c = pb.cfg
    # a coefficient the residual of this problem reads
    key = "b_x" if c["kind"] in ("domain", "inverse") else "eps"
    if k == "param-missing":
        del args["bilinear_params_dict"][key]
    elif k == "param-none":
        args["bilinear_params_dict"] = None
    elif k == "param-text":
        args["bilinear_params_dict"][key] = "1.0x"
    elif k == "beta-text":
        args["beta"] = "ten"
    elif k == "beta-none":
        args["beta"] = None
    return args


def applicable(c, fault):
    # the inverse Poisson residual reads no coefficient at all
    if fault["kind"].startswith("param") and c["kind"] == "inverse" and c["eq"] == "poisson":
        return False
    return True


def same_state(a, b):
    """b is a, except for optimiser variables created meanwhile (all zero)."""
    for x, y in zip(a, b):
        if len(y) < len(x) or any(p.shape != q.shape or p.tobytes() != q.tobytes() for p, q in zip(x, y)):
            return False
        if any(np.any(q) for q in y[len(x):]):
            return False
    return len(a[0]) == len(b[0])


def difference(a, b):
    out = []
    for name, x, y in zip(("trainable value", "optimiser variable"), a, b):
        for k, (p, q) in enumerate(zip(x, y)):
            if p.shape != q.shape or p.tobytes() != q.tobytes():
                out.append(f"{name} {k}: {p.reshape(-1)[:3]} -> {q.reshape(-1)[:3]}")
        if len(x) != len(y):
            out.append(f"{len(x)} -> {len(y)} {name}s")
    return "; ".join(out)[:500]


def train(w, plan, folder, faults):
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    c = plan["cfg"]
    pb = PB.Problem(c, folder)
    pb.seed()
    pb.geo()
    pb.space()
    pb.data()
    u = User(pb, plan["mode"] == "runtime")
    pb.model(u.loss, u.hard, u.act)
    pb.setw()
    done = 0
    pb.out.clear()
    for op in plan["ops"]:
        if op["fault"] is None:
            pb.step(op["st"])
            pb.rec("state", *[list(x) for x in pb.state()])
            done += 1
            continue
        if not faults or not applicable(c, op["fault"]):
            continue
        f = op["fault"]
        before = pb.state()
        u.armed, u.calls, u.fired = f, 0, 0
        args = bad_args(pb, op["st"], f)
        if plan["mode"] == "graph" and f["kind"] not in ("beta-text", "beta-none"):
            # a new value in Python makes the step be traced again
            args["beta"] = float(op["st"]["beta"]) + 0.0625 * (1 + len(pb.out))
        err = None
        keep = len(pb.out)
        try:
            pb.m.train_step(**args)
        except (Exception, KeyboardInterrupt) as e:
            err = e
        u.armed = None
        name = f["kind"]
        w.arm(name)
        if err is None and name == "activation" and not u.fired:
            # fewer evaluations in the step than the place asked for: an ordinary step was taken; the run ends here
            w.log("place not reached")
            return None
        at = f"after {done} steps ({c['kind']}, {plan['mode']}), {name}"
        w.check(err is not None, "failure-swallowed", f"{at}: the step reported success")
        w.fired(name)
        w.step()
        after = pb.state()
        w.mark(c["kind"], plan["mode"], name, f["nth"] if name == "activation" else "", done == 0, c["lr"]["use_lr_scheduler"], type(err).__name__ if plan["mode"] == "eager" else "")
        w.log("failed", done, name, type(err).__name__)
        w.check(same_state(before, after), "state-changed", lambda: f"{at}: {difference(before, after)}")
        del pb.out[keep:]
    pb.predict()
    return json.loads(json.dumps(pb.out))


def twin(plan, folder):
    from ..core import World

    return train(World(plan), plan, folder, False)


def execute(plan, w):
    got = fresh.run_in(w, train, plan, os.path.join(w.scratch, "a"), True)
    if got is None:
        return
    want = fresh.call(twin, plan, os.path.join(w.scratch, "b"))
    w.check(len(got) == len(want), "different-path", f"{len(got)} observations, fault-free {len(want)}")
    for j, (x, y) in enumerate(zip(got, want)):
        w.log(x)
        w.check(x == y, "different-path", lambda: f"observation {j} ({x[0]}): {json.dumps(x)[:250]}; without the failed steps {json.dumps(y)[:250]}")
