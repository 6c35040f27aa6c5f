"""A simulated machine for the hyperparameter tuner: a stand-in for optuna with durable
studies and a worker pool on the cooperative scheduler, simulated accelerators, the
user's `sin_cos` module with injected failures, and kills at any scheduler point."""

import json
import math
import os
import random
import re
import sys
import threading
import types

import numpy as np

from . import fresh, problem as PB, ref as RF
from .core import HarnessError, Rng
from .sched import Sched

CPUS = 5  # what the machine reports for n_jobs=-1
LIMIT = 14  # trials after which a study that does not stop is stopped


class Injected(RuntimeError):
    pass


# ------------------------------------------------------------------ the user's module


def truth(co):
    """The user's problem: exact solution, right hand side, boundary values."""
    a, b, eps, lift = co

    def exact(x, y):
        return -np.sin(a * np.pi * x) * np.sin(b * np.pi * y) + lift * (x + 2 * y)

    def rhs(x, y):
        return -eps * (np.pi**2) * (a * a + b * b) * np.sin(a * np.pi * x) * np.sin(b * np.pi * y)

    return exact, rhs


class Machine:
    def __init__(self, cw, plan, ses):
        self.w, self.plan, self.ses = cw, plan, ses
        self.tl = threading.local()
        self.running = {}
        self.most = 0
        self.obs = {}  # trial number -> what was observed
        self.started = []
        self.sched = None
        self.placed = []
        self.notes = []
        self.calls = {}

    # --- what the running thread is doing

    @property
    def trial(self):
        return getattr(self.tl, "number", None)

    def stack(self):
        if not hasattr(self.tl, "stack"):
            self.tl.stack = []
        return self.tl.stack

    def device(self):
        s = self.stack()
        for d in reversed(s):
            if d is not None:
                return d
        return "GPU:0" if self.ses["gpus"] else "CPU:0"

    def see(self, what):
        """Note the device the current trial runs on."""
        if self.trial is not None and self.trial in self.obs:
            d = self.device()
            o = self.obs[self.trial]["devices"]
            if d not in o:
                o.append(d)

    def point(self):
        self.see("point")
        if self.sched:
            self.sched.point()

    def user(self, name):
        """A call of the user's code; may fail."""
        self.see(name)
        n = self.trial
        f = self.ses.get("fail", {}).get(str(n))
        if f and f[0] == name:
            c = self.calls[(n, name)] = self.calls.get((n, name), 0) + 1
            if c == f[1]:
                self.w.fired("trial fails in " + name)
                self.obs[n]["failed"] = True
                raise Injected(f"trial {n}: {name}")
        self.point()

    # --- modules

    def sin_cos(self):
        import tensorflow as tf

        mod = types.ModuleType("sin_cos")
        exact, rhs = truth(self.plan["co"])

        def bc(x, y):
            self.user("boundary")
            return exact(x, y)

        def f(x, y):
            self.user("rhs")
            return rhs(x, y)

        def sol(x, y):
            self.user("exact")
            return exact(x, y)

        def conds():
            self.user("conditions")
            return {k: "dirichlet" for k in range(1000, 1004)}

        mod.np, mod.tf = np, tf
        mod.rhs, mod.exact_solution = f, sol
        mod.get_boundary_function_dict = lambda: {k: bc for k in range(1000, 1004)}
        mod.get_bound_cond_dict = conds
        mod.get_bilinear_params_dict = lambda: {"eps": self.plan["co"][2]}
        return mod

    def devices(self):
        import tensorflow as tf
        from tensorflow.python.eager.context import LogicalDevice, PhysicalDevice

        n = self.ses["gpus"]
        phys = [PhysicalDevice(f"/physical_device:GPU:{k}", "GPU") for k in range(n)]
        logi = [LogicalDevice(f"/device:GPU:{k}", "GPU") for k in range(n)]
        if n and self.plan["real_devices"]:
            cpu = tf.config.list_physical_devices("CPU")[0]
            tf.config.set_logical_device_configuration(cpu, [tf.config.LogicalDeviceConfiguration()] * (n + 1))

        def ours():
            g = sys._getframe(2).f_globals.get("__name__", "")
            return g.startswith("fastvpinns") or g.startswith("dst")

        def listing(real, mine):
            def f(device_type=None):
                if not ours():
                    return real(device_type)
                if device_type == "GPU":
                    return list(mine)
                return real(device_type) + (list(mine) if device_type is None else [])

            return f

        lp = listing(tf.config.list_physical_devices, phys)
        tf.config.list_physical_devices = lp
        tf.config.experimental.list_physical_devices = lp
        tf.config.list_logical_devices = listing(tf.config.list_logical_devices, logi)
        tf.config.get_visible_devices = listing(tf.config.get_visible_devices, phys)
        growth = tf.config.experimental.set_memory_growth

        def set_growth(dev, on):
            if dev not in phys:
                return growth(dev, on)
            self.w.fired("memory growth refused")
            raise RuntimeError("Physical devices cannot be modified after being initialized")

        tf.config.experimental.set_memory_growth = set_growth
        real = tf.device
        m = self

        class Scope:
            def __init__(self, name):
                name = getattr(name, "name", name)
                self.name, self.inner = name, None
                g = re.search(r"GPU:(\d+)", str(name), re.I)
                c = re.search(r"CPU:(\d+)", str(name), re.I)
                self.tag = None
                if g:
                    k = int(g.group(1))
                    self.tag = f"GPU:{k}"
                    if k < n and m.plan["real_devices"]:
                        self.inner = f"/device:CPU:{k + 1}"
                elif c:
                    self.tag = f"CPU:{c.group(1)}"
                    self.inner = name
                elif name and re.search("GPU", str(name), re.I):
                    self.tag = "GPU:0"
                elif name is not None:
                    self.inner = name

            def __enter__(self):
                m.stack().append(self.tag)
                self.scope = real(self.inner) if self.inner else None
                if self.scope:
                    self.scope.__enter__()
                m.see("scope")

            def __exit__(self, *a):
                if self.scope:
                    self.scope.__exit__(*a)
                s = m.stack()
                if s:
                    s.pop()

        # only the code under test sees the simulated accelerators
        def device(name):
            g = sys._getframe(1).f_globals.get("__name__", "")
            return Scope(name) if g.startswith(("fastvpinns", "dst")) else real(name)

        tf.device = device

    def light(self, trial, num_epochs, *a, **k):
        """Stands in for the objective where only the tuner itself is under check."""
        import tensorflow as tf

        o = self.obs[trial.number]
        o["epochs"] = num_epochs
        r = Rng("light", self.plan["seed"], trial.number)
        for q in range(r.randint(1, 4)):
            trial.suggest_int(f"p{q}", 0, 100)
            self.user("exact")
            if self.plan["real_devices"]:
                d = (tf.constant(1.0) + 1.0).device
                o["placed"].append(int(d.rsplit(":", 1)[1]))
        self.user("rhs")
        v = r.wpick([(8, r.real(0, 3)), (2, 0.5), (1, math.nan), (1, math.inf), (1, -1.5), (1, 0.0)])
        o["returned"] = v
        return v

    def spy(self):
        """Record what is handed to the models of a trial and what they do."""
        import inspect

        from fastvpinns.model.model import DenseModel

        init, step = DenseModel.__init__, DenseModel.train_step
        sig = inspect.signature(init)
        m = self

        def __init__(self, *a, **k):
            init(self, *a, **k)
            if m.trial is not None:
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                m.obs[m.trial]["models"].append({"m": self, "a": b.arguments, "steps": 0, "first": None})

        def train_step(self, *a, **k):
            rec = next((r for r in m.obs[m.trial]["models"] if r["m"] is self), None) if m.trial is not None else None
            if rec is None:
                return step.__get__(self, DenseModel)(*a, **k)
            W = [np.array(v) for v in self.trainable_variables]
            res = step.__get__(self, DenseModel)(*a, **k)
            rec["steps"] += 1
            rec["last"] = W, PB.losses(res)
            if rec["first"] is None:
                rec["first"] = rec["last"]
            return res

        DenseModel.__init__, DenseModel.train_step = __init__, train_step

    # --- trials

    def begin(self, trial):
        n = trial.number
        if n in self.obs:
            raise HarnessError("trial number twice")
        self.started.append(n)
        self.obs[n] = {"devices": [], "models": [], "placed": [], "before": list(self.stack()), "value": None}
        self.running[n] = True
        self.most = max(self.most, len(self.running))
        self.tl.number = n
        random.seed(f"{self.plan['seed']}/{n}")
        np.random.seed((self.plan["seed"] * 131 + n) % (1 << 32))

    def finish(self, trial, value):
        n = trial.number
        o = self.obs[n]
        o["after"] = list(self.stack())
        o["value"] = value
        o["params"] = dict(trial.params)
        if not o["devices"]:
            o["devices"].append("GPU:0" if self.ses["gpus"] else "CPU:0")
        out = []
        for r in o["models"]:
            a = r["a"]
            W = [np.array(v) for v in r["m"].trainable_variables]
            it = int(np.asarray(r["m"].optimizer.iterations))
            out.append({"W": W, "steps": r["steps"], "iterations": it, "first": r["first"], "last": r.get("last"), "lr": dict(a["learning_rate_dict"]),
                        "sched": rates(r["m"].optimizer), "act": a["activation"], "attention": a["use_attention"],
                        "bd": [np.array(t) for t in a["input_tensors_list"][1:3]]})
            o["placed"] += [int(str(v.device).rsplit(":", 1)[1]) for v in r["m"].trainable_variables]
        o["models"] = out
        self.running.pop(n)
        self.tl.number = None

    # --- the session

    def collect(self, crashed, best=None, error=None):
        for n in list(self.obs):
            if n in self.running:
                self.obs[n]["models"] = []
        return {"obs": self.obs, "started": self.started, "most": self.most, "best": best, "error": error, "crashed": crashed, "notes": self.notes,
                "points": self.sched.points, "switches": self.sched.switches, "trail": self.sched.trail, "left": sorted(self.running)}

    def run(self):
        import tensorflow as tf

        tf.config.run_functions_eagerly(self.plan["mode"] == "eager")
        self.devices()
        install(self)
        import fastvpinns.hyperparameter_tuning.objective as OB

        if self.plan["light"]:
            OB.objective = self.light
        else:
            self.spy()
        from fastvpinns.hyperparameter_tuning.optuna_tuner import OptunaTuner

        import fastvpinns

        res = {}
        ses, plan = self.ses, self.plan
        s = self.sched = Sched(ses["gaps"], os.path.dirname(fastvpinns.__file__), plan["seed"], hot=ses["hot"])

        def main():
            t = OptunaTuner(n_trials=ses["n_trials"], study_name=ses["study"], n_jobs=ses["n_jobs"], n_epochs=plan["epochs"])
            try:
                res["best"] = t.run()
            except Exception as e:
                import traceback

                res["error"] = type(e).__name__, str(e)[:200], isinstance(e, Injected), traceback.format_exc()[-900:]
            res["stack"] = list(self.stack())

        if ses["crash"]:
            def at(n):
                if n == ses["crash"]:
                    self.w.fired("kill")
                    fresh.leave(fresh.pack(self.w, self.collect(True)))

            s.at = at
        s.spawn("main", main)
        for e in s.run():
            if e is not None:
                raise e
        for p in s.where:
            self.w.mark("preempt", *p)
        for p in s.met:
            self.w.mark("met at", p)
        out = self.collect(False, res.get("best"), res.get("error"))
        out["stack"] = res.get("stack")
        return out


def rates(opt):
    """Learning rate after some numbers of completed steps, as the optimizer's own description says."""
    import tensorflow as tf

    c = opt.get_config()["learning_rate"]
    if isinstance(c, dict):
        f = tf.keras.optimizers.schedules.deserialize(c)
        return [float(f(t)) for t in TIMES]
    return [float(c)] * len(TIMES)


TIMES = [0, 1, 500, 999, 1000, 2500, 7000, 10000, 33333]


# ------------------------------------------------------------------ optuna


class State:
    RUNNING, COMPLETE, PRUNED, FAIL, WAITING = "RUNNING", "COMPLETE", "PRUNED", "FAIL", "WAITING"


class TrialPruned(Exception):
    pass


class DuplicatedStudyError(Exception):
    pass


class Store:
    def __init__(self, url):
        self.path = None if url is None else re.sub(r"^\w+:///", "", str(url))
        self.mem = {}

    def load(self):
        if self.path is None:
            return self.mem
        if not os.path.exists(self.path):
            return {}
        with open(self.path) as fh:
            return json.load(fh)

    def save(self, d):
        if self.path is None:
            self.mem = d
            return
        with open(self.path + ".tmp", "w") as fh:
            json.dump(d, fh)
        os.replace(self.path + ".tmp", self.path)


class Frozen:
    def __init__(self, d):
        self.number, self.state, self.params = d["number"], d["state"], dict(d["params"])
        self.value = d["value"]
        self.values = None if self.value is None else [self.value]
        self.user_attrs, self.system_attrs = {}, {}


class Trial:
    def __init__(self, machine, study, number):
        self.machine, self.study, self.number = machine, study, number
        self.params = {}
        self.user_attrs, self.system_attrs = {}, {}

    @property
    def _trial_id(self):
        return self.number

    def _take(self, name, draw):
        if name not in self.params:
            self.params[name] = draw(Rng("suggest", self.machine.plan["seed"], self.number, name))
            self.study.update(self.number, params=self.params)
        self.machine.point()
        return self.params[name]

    def suggest_int(self, name, low, high, step=1, log=False):
        k = (high - low) // step
        return self._take(name, lambda r: low + step * r.wpick([(6, r.randint(0, min(2, k))), (3, r.randint(0, min(5, k))), (1, r.randint(0, k))]))

    def suggest_categorical(self, name, choices):
        return self._take(name, lambda r: r.pick(list(choices)))

    def suggest_float(self, name, low, high, step=None, log=False):
        if log:
            return self._take(name, lambda r: math.exp(r.uniform(math.log(low), math.log(high))))
        if step:
            return self._take(name, lambda r: low + step * r.randint(0, int((high - low) / step)))
        return self._take(name, lambda r: r.uniform(low, high))

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)

    def suggest_discrete_uniform(self, name, low, high, q):
        return self.suggest_float(name, low, high, step=q)

    def report(self, value, step):
        self.machine.point()

    def should_prune(self):
        return False

    def set_user_attr(self, k, v):
        self.user_attrs[k] = v

    def set_system_attr(self, k, v):
        self.system_attrs[k] = v


class Study:
    def __init__(self, machine, store, name):
        self.machine, self.store, self.study_name = machine, store, name

    def data(self):
        return self.store.load()[self.study_name]

    def update(self, number, **kw):
        d = self.store.load()
        d[self.study_name]["trials"][number].update(kw)
        self.store.save(d)

    @property
    def trials(self):
        return [Frozen(t) for t in self.data()["trials"]]

    def get_trials(self, deepcopy=True, states=None):
        return [t for t in self.trials if not states or t.state in states]

    @property
    def direction(self):
        return self.data()["direction"]

    @property
    def best_trial(self):
        ts = [t for t in self.trials if t.state == State.COMPLETE]
        if not ts:
            raise ValueError("No trials are completed yet.")
        return (max if self.direction == "maximize" else min)(ts, key=lambda t: t.value)

    @property
    def best_params(self):
        return self.best_trial.params

    @property
    def best_value(self):
        return self.best_trial.value

    def ask(self):
        d = self.store.load()
        ts = d[self.study_name]["trials"]
        ts.append({"number": len(ts), "state": State.RUNNING, "params": {}, "value": None})
        self.store.save(d)
        return Trial(self.machine, self, len(ts) - 1)

    def tell(self, trial, values=None, state=None, skip_if_finished=False):
        v = values[0] if isinstance(values, (list, tuple)) else values
        if state is None:
            state = State.FAIL
            try:
                v = float(v)
                state = State.FAIL if math.isnan(v) else State.COMPLETE
            except (TypeError, ValueError):
                pass
        self.update(trial if isinstance(trial, int) else trial.number, state=state, value=v if state == State.COMPLETE else None)

    def one(self, func, catch):
        """One trial -> the exception that ends the study, if any."""
        m = self.machine
        t = self.ask()
        m.begin(t)
        v, err, state = None, None, None
        try:
            if m.sched:
                m.sched.point()
            v = func(t)
        except TrialPruned:
            state = State.PRUNED
        except Exception as e:
            err, state = e, State.FAIL
        m.finish(t, v)
        self.tell(t, v, state)
        m.point()
        return err if err is not None and not isinstance(err, tuple(catch) if isinstance(catch, (list, tuple)) else catch) else None

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, catch=(), callbacks=None, gc_after_trial=False, show_progress_bar=False):
        m = self.machine
        if not callable(func):
            raise TypeError("objective is not callable")
        if n_jobs == -1:
            n_jobs = CPUS
        if n_jobs < 1 or int(n_jobs) != n_jobs:
            raise ValueError("max_workers must be greater than 0")
        left = [LIMIT if n_trials is None else n_trials]
        errors = []

        def work():
            while left[0] > 0 and not errors:
                left[0] -= 1
                e = self.one(func, catch)
                if e is not None:
                    errors.append(e)
                elif callbacks:
                    for c in callbacks:
                        c(self, self.trials[-1])

        if n_jobs == 1:
            work()
        else:
            ts = [m.sched.spawn(f"worker {k}", work) for k in range(min(n_jobs, max(left[0], 1)))]
            m.sched.wait_until(lambda: all(t.done for t in ts))
            for t in ts:
                if t.error:
                    raise t.error
        if errors:
            raise errors[0]


def install(m):
    """The optuna and sin_cos modules of this simulated machine."""
    stores = {}

    def create_study(*, storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
        if storage is not None and not isinstance(storage, (str, Store)):
            raise HarnessError("unknown storage")
        st = storage if isinstance(storage, Store) else stores.setdefault(storage, Store(storage)) if storage else Store(None)
        d = st.load()
        name = study_name or "no-name"
        direction = (directions[0] if directions else direction) or "minimize"
        if name in d:
            if not load_if_exists:
                raise DuplicatedStudyError(f"Another study with name '{name}' already exists.")
            m.w.mark("study resumed")
        else:
            d[name] = {"direction": str(direction).rsplit(".", 1)[-1].lower(), "trials": []}
            st.save(d)
        m.notes.append(("study", name, st.path, d[name]["direction"], len(d[name]["trials"])))
        m.point()
        return Study(m, st, name)

    def load_study(*, study_name=None, storage=None, sampler=None, pruner=None):
        st = stores.setdefault(storage, Store(storage))
        if study_name not in st.load():
            raise KeyError("Record does not exist.")
        return Study(m, st, study_name)

    def delete_study(*, study_name, storage):
        st = stores.setdefault(storage, Store(storage))
        d = st.load()
        d.pop(study_name)
        st.save(d)

    o = types.ModuleType("optuna")
    o.__path__ = []
    o.create_study, o.load_study, o.delete_study, o.Study, o.Trial, o.TrialPruned = create_study, load_study, delete_study, Study, Trial, TrialPruned

    def sub(name, **kw):
        s = types.ModuleType("optuna." + name)
        s.__dict__.update(kw)
        setattr(o, name, s)
        sys.modules["optuna." + name] = s

    class Any:
        def __init__(self, *a, **k):
            pass

    sub("trial", Trial=Trial, FrozenTrial=Frozen, TrialState=State)
    sub("study", Study=Study, create_study=create_study, StudyDirection=types.SimpleNamespace(MINIMIZE="minimize", MAXIMIZE="maximize"))
    sub("samplers", TPESampler=Any, RandomSampler=Any, CmaEsSampler=Any)
    sub("pruners", MedianPruner=Any, NopPruner=Any)
    sub("logging", set_verbosity=lambda *a: None, get_logger=lambda *a: Any(), WARNING=30, INFO=20, ERROR=40)
    sub("exceptions", DuplicatedStudyError=DuplicatedStudyError, TrialPruned=TrialPruned, OptunaError=Exception)
    sub("storages", RDBStorage=lambda url, **k: stores.setdefault(url, Store(url)), InMemoryStorage=lambda: Store(None))
    sys.modules["optuna"] = o
    sys.modules["sin_cos"] = m.sin_cos()


def session(cw, plan, k, folder):
    """Session k of a plan, in a pristine process."""
    os.makedirs(folder, exist_ok=True)
    os.chdir(folder)
    return Machine(cw, plan, plan["sessions"][k]).run()


# ------------------------------------------------------------------ oracles


def stored(folder):
    """Every study found in the durable state."""
    out = {}
    for n in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
        p = os.path.join(folder, n)
        if os.path.isfile(p) and not n.endswith(".tmp"):
            try:
                with open(p) as fh:
                    d = json.load(fh)
            except ValueError:
                continue
            if isinstance(d, dict):
                out.update({k: v for k, v in d.items() if isinstance(v, dict) and "trials" in v})
    return out


def alone(cw, plan, number, params, folder):
    """The trial once more, alone in a pristine process."""
    os.makedirs(folder, exist_ok=True)
    os.chdir(folder)
    ses = {"gpus": 0, "gaps": [], "crash": 0}
    m = Machine(cw, plan, ses)
    import tensorflow as tf

    tf.config.run_functions_eagerly(plan["mode"] == "eager")
    m.devices()
    install(m)
    m.spy()
    from fastvpinns.hyperparameter_tuning.objective import objective

    class Quiet:
        def update(self, *a, **k):
            pass

    t = Trial(m, Quiet(), number)
    t.params = dict(params)
    m.begin(t)
    v = objective(t, plan["epochs"])
    m.finish(t, v)
    return m.obs[number]


def check_trial(w, plan, n, o):
    """A completed trial against the definition of what it was to do."""
    import tensorflow as tf

    P = o["params"]
    who = f"trial {n} with {P}"
    w.check(len(o["models"]) == 1, "networks", lambda: f"{who}: {len(o['models'])} networks were created")
    M = o["models"][0]
    w.check(M["steps"] == plan["epochs"] and M["iterations"] == plan["epochs"], "epochs", lambda: f"{who}: {M['steps']} training steps ({M['iterations']} updates) for {plan['epochs']} epochs")
    dims = [2] + [P[f"layer_{i}"] for i in range(P["n_layers"])] + [1]
    ks = [v for v in M["W"] if v.ndim == 2]
    w.check([k.shape for k in ks] == list(zip(dims[:-1], dims[1:])), "architecture", lambda: f"{who}: kernels {[k.shape for k in ks]}")
    want = [P["initial_learning_rate"] * P["decay_rate"] ** np.array([t / P["decay_steps"], t // P["decay_steps"]]) for t in TIMES]
    ok = all(min(abs(g - a), abs(g - b)) <= 1e-4 * P["initial_learning_rate"] for g, (a, b) in zip(M["sched"], want))
    w.check(ok, "learning-rate", lambda: f"{who}: learning rates {M['sched']} after {TIMES} steps")
    exact, rhs = truth(plan["co"])
    bx, by = (np.asarray(t, float) for t in M["bd"])
    bx, by = bx.reshape(-1, 2), by.reshape(-1)
    nb = 4 * (P["n_boundary_points"] // 4)
    edge = np.isclose(bx, 0, atol=1e-6) | np.isclose(bx, 1, atol=1e-6)
    w.check(len(bx) == nb and edge.any(1).all() and np.abs(by - exact(bx[:, 0], bx[:, 1])).max() <= 1e-4, "boundary", lambda: f"{who}: {len(bx)} boundary points, or points off the boundary, or wrong values")
    gx, gy = (np.linspace(0, 1, P[f"n_cells_{a}"] + 1) for a in "xy")
    cells = [[[gx[i], gy[j]], [gx[i + 1], gy[j]], [gx[i + 1], gy[j + 1]], [gx[i], gy[j + 1]]] for i in range(len(gx) - 1) for j in range(len(gy) - 1)]
    sp = RF.RefSpace(cells, P["fe_order"], P["fe_type"], P["quad_order"], P["quad_type"], "bilinear", rhs)

    def pairs(W):
        W = [np.asarray(v, float) for v in W]
        return list(zip([v for v in W if v.ndim == 2], [v for v in W if v.ndim == 1]))

    for when in ("first", "last"):
        if M[when] is None:
            continue
        W, res = M[when]
        L, G, scale = RF.losses_and_gradients(sp, "dense", "poisson", pairs(W), {}, {"eps": plan["co"][2]}, 10.0, (bx, by), None, M["act"], M["attention"], None)
        for k in ("loss_pde", "loss_dirichlet"):
            if k not in res:
                continue
            ncell = sp.n_cells if k == "loss_pde" else 1
            e = 1e-4 * (scale if k == "loss_pde" else 1 + np.sqrt(L[k]))
            tol = 2 * np.sqrt(max(L[k], 0) * ncell) * e + ncell * e * e
            w.check(abs(res[k] - L[k]) <= tol, "trained-with", lambda: f"{who}: {k} of the {when} step is {res[k]}, with the suggested values it is {L[k]} (tolerance {tol:.2g})")
    lin = np.linspace(0, 1, 100)
    X, Y = np.meshgrid(lin, lin)
    pts = np.stack([X.ravel(), Y.ravel()], 1)
    u = RF.network([(tf.constant(A), tf.constant(b)) for A, b in pairs(M["W"])], tf.constant(pts), M["act"], M["attention"], None).numpy()[:, 0]
    t = exact(pts[:, 0], pts[:, 1])
    err = np.sqrt(((u - t) ** 2).sum() / (t**2).sum())
    w.check(abs(o["value"] - err) <= 1e-3 * (1 + err), "value", lambda: f"{who}: reported {o['value']}, the relative L2 error of its network is {err}")
