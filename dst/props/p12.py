"""P12: tuning trials are independent and the best one is returned."""

import os

from .. import fresh, problem as PB, tuner as T
from ..sched import gen_gaps, gen_hot

LEVEL = "seeded_exploration"
RUNS = {"quick": 260, "thorough": 6000}
RULE = (
    "one run = a history of 1-4 tuner sessions on one working folder, each in its own process, with 1-5 concurrent trials interleaved at "
    "library lines by the scheduler, failing user functions, leftovers in the shared folder, and kills at any scheduler point followed by a "
    "resume; every completed trial is compared with the definition of what it was to do and with the same trial executed alone; non-trivial "
    "when trials overlapped, failed, were killed or resumed; distinct by digest of schedule and observations"
)
MEASURE = "distinct (file, function) preemption points and (jobs, accelerators, mode, crash, failure, resume) situations"
REAL = ["fastvpinns.hyperparameter_tuning (both modules)", "fastvpinns.Geometry, FE, data, model, physics, utils.compute_utils", "tensorflow", "threads (real, one at a time)", "processes and kills (os._exit)", "files"]
STUB = ["optuna (not installed): studies with durable storage, worker pool, suggestions", "the sin_cos module of the user", "accelerators", "thread scheduler", "random source (one stream per trial)"]
ASSUME = ["optuna stores a trial atomically and hands out consecutive trial numbers", "the losses without the constant penalty weight decide which hyperparameters a network was trained with"]


def setup():
    PB.imports()
    import fastvpinns.utils.compute_utils  # noqa: F401


def gen_sessions(rng, light):
    n = rng.wpick([(4, 1), (4, 2), (2, 3), (1, 4)]) if light else rng.wpick([(5, 1), (4, 2)])
    names = ["a"] if rng.chance(0.8) else ["a", "b"]
    gpus = rng.pick([0, 0, 1, 2, 3])
    left = 3
    num = {}
    out = []
    for k in range(n):
        r = rng.sub("s", k)
        nt = r.randint(1, 6) if light else min(left, r.pick([1, 2, 2, 3]))
        left -= nt
        st = r.pick(names)
        first = num.get(st, 0)
        num[st] = first + nt
        s = {"study": st, "n_trials": nt, "n_jobs": r.pick([-1, 1, 2, 2, 3, 4]), "gpus": gpus if r.chance(0.7) else r.pick([0, 1, 2]), "crash": 0, "fail": {}}
        s["gaps"] = gen_gaps(r.sub("g"))
        s["hot"] = gen_hot(r.sub("h"), 0.7)
        if r.chance(0.3 if n == 1 else 0.45):
            s["crash"] = int(10 ** r.uniform(0, 2.0 if light else 3.9))
        if r.chance(0.3):
            s["fail"][str(first + r.randrange(nt))] = [r.pick(["exact", "rhs"]) if light else r.pick(["exact", "rhs", "boundary", "conditions"]), 1 if light else r.pick([1, 1, 2, 3])]
        s["before"] = r.wpick([(6, None), (1, "folder"), (1, "file"), (1, "no folder"), (1, "filled")])
        out.append(s)
        if left <= 0 and not light:
            break
    return out


def generate(rng, i, tier):
    light = rng.chance(0.4)
    return {"light": light, "real_devices": False, "seed": rng.randrange(1 << 20), "epochs": rng.randint(0, 3) if rng.chance(0.8) else rng.randint(4, 6),
            "mode": rng.wpick([(1, "graph"), (5, "eager")]), "co": [rng.pick([0.5, 1, 2, 1.5]), rng.pick([0.5, 1, 2]), rng.pick([1.0, 0.3, 2.5]), rng.pick([0, 0.4])],
            "sessions": gen_sessions(rng.sub("ses"), light)}


def prepare(what, work):
    p = os.path.join(work, "output_temp")
    if os.path.isfile(p):
        os.unlink(p)
    if what == "file":
        if os.path.isdir(p):
            for n in os.listdir(p):
                os.unlink(os.path.join(p, n))
            os.rmdir(p)
        open(p, "w").close()
    elif what in ("folder", "filled"):
        os.makedirs(p, exist_ok=True)
        if what == "filled":
            for n in ("internal.vtk", "internal.msh"):
                with open(os.path.join(p, n), "w") as fh:
                    fh.write("left behind\n")
    elif what == "no folder" and os.path.isdir(p):
        for n in os.listdir(p):
            os.unlink(os.path.join(p, n))
        os.rmdir(p)


def verify(cw, plan, trials):
    """Completed trials against the definition (in a pristine process)."""
    for n, o in trials:
        T.check_trial(cw, plan, n, o)


def execute(plan, w):
    work = os.path.join(w.scratch, "work")
    os.makedirs(work, exist_ok=True)
    for k, ses in enumerate(plan["sessions"]):
        before = T.stored(work)
        prepare(ses["before"], work)
        out = fresh.run_in(w, T.session, plan, k, work)
        after = T.stored(work)
        name = ses["study"]
        obs = out["obs"]
        failed = any(o.get("failed") for o in obs.values()) or (ses["before"] == "file" and not plan["light"])
        at = f"session {k} ({'killed' if out['crashed'] else 'not killed'}, n_jobs={ses['n_jobs']}, {ses['gpus']} accelerators)"
        old = before.get(name, {"trials": []})["trials"]
        made = out["notes"] or after.get(name)
        if made or not out["crashed"]:
            w.check(name in after, "not-durable", lambda: f"{at}: study {name} is not in the storage, which holds {sorted(after)}")
        new = after.get(name, {"trials": []})["trials"]
        for other, d in before.items():
            w.check(other in after, "history-lost", f"{at}: study {other} has disappeared")
            for a, b in zip(d["trials"], after[other]["trials"] + [None] * 99):
                w.check(b is not None and (a == b or other == name and a["state"] in ("RUNNING", "WAITING")), "history-lost", f"{at}: trial {a} of study {other} became {b}")
            w.check(other == name or len(after[other]["trials"]) == len(d["trials"]), "wrong-study", f"{at}: trials were added to study {other}")
        if name in after:
            w.check(after[name]["direction"] == "minimize", "direction", f"{at}: the study is to be {after[name]['direction']}d")
        added = new[len(old):]
        err = out["error"]
        if not out["crashed"]:
            if not failed and any(t["state"] == "COMPLETE" for t in new):
                w.check(err is None, "unexpected-exception", lambda: f"{at}: {err}")
            if failed and err is not None:
                w.check(err[2] or ses["before"] == "file" or not any(t["state"] == "COMPLETE" for t in new), "unexpected-exception", lambda: f"{at}: {err}")
            if not failed:
                w.check(len(added) == ses["n_trials"], "number-of-trials", f"{at}: {len(added)} trials were run, {ses['n_trials']} requested")
        w.check(len(added) <= ses["n_trials"], "number-of-trials", f"{at}: {len(added)} trials were run, {ses['n_trials']} requested")
        done = []
        for t in added:
            o = obs.get(t["number"])
            if o is None:
                continue
            if t["state"] == "COMPLETE":
                w.check(not o.get("failed"), "failed-complete", f"{at}: trial {t['number']} failed and is stored as complete with value {t['value']}")
                if plan["light"]:
                    w.check(o.get("epochs") == plan["epochs"], "epochs", f"{at}: trial {t['number']} was given {o.get('epochs')} epochs instead of {plan['epochs']}")
                    w.check(t["value"] == o.get("returned"), "value", f"{at}: trial {t['number']} is stored with {t['value']}, its objective returned {o.get('returned')}")
                else:
                    done.append((t["number"], o))
            elif t["state"] == "FAIL" and not plan["light"]:
                v = o["value"]
                w.check(failed or (v is not None and v != v), "trial-lost", f"{at}: trial {t['number']} failed although nothing went wrong (value {v})")
        if done:
            fresh.run_in(w, verify, plan, done)
            for n, o in done[:2]:
                ref = fresh.run_in(w, T.alone, plan, n, o["params"], os.path.join(w.scratch, f"alone{k}.{n}"))
                w.check(ref["value"] == o["value"], "not-independent", lambda: f"{at}: trial {n} with {o['params']} reported {o['value']!r}, alone it reports {ref['value']!r}")
                w.check(PB.digest(ref["models"][0]["W"]) == PB.digest(o["models"][0]["W"]), "not-independent", f"{at}: trial {n} ended with another network than alone")
        if not out["crashed"] and err is None:
            comp = [t for t in new if t["state"] == "COMPLETE"]
            w.check(bool(comp), "best", f"{at}: parameters returned without any completed trial")
            m = min(t["value"] for t in comp)
            best = [t["params"] for t in comp if t["value"] == m]
            w.check(out["best"] in best, "best", lambda: f"{at}: returned {out['best']}, the best trial has {best} (value {m})")
        w.step(out["points"])
        if out["most"] > 1 or out["crashed"] or failed or old:
            w.nontrivial = True
        w.mark(ses["n_jobs"], ses["gpus"], plan["light"], plan["mode"], "crash" if out["crashed"] else "", "fail" if failed else "", "resume" if old else "", out["most"])
        if out["most"] > 1:
            w.arm("concurrent trials")
        w.log("session", k, out["started"], out["most"], out["crashed"], out["trail"][:200], err and err[0], [[t["state"], t["value"]] for t in added])


def shrink(plan):
    from ..run import generic_shrink

    yield from generic_shrink(plan)
