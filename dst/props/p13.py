"""P13: trials are placed on devices that exist, evenly."""

import os

from .. import fresh, problem as PB, tuner as T
from . import p12

LEVEL = "seeded_exploration"
RUNS = {"quick": 700, "thorough": 20000}
RULE = (
    "one run = a history of 1-4 tuner sessions on a simulated machine with 0-5 accelerators, trials interleaved on worker threads by the "
    "scheduler, failing trials, kills and resumes (also on another machine); the device scope of every trial is watched at every scheduler "
    "point and, in half of the runs, where TensorFlow really put the values (accelerators mapped to logical CPU devices); non-trivial when "
    "there are accelerators and several trials, or failures, kills, resumes; distinct by digest of schedule and observations"
)
MEASURE = "distinct (accelerators, jobs, workers at once, mode, crash, failure, resume) situations and preemption points"
REAL = ["fastvpinns.hyperparameter_tuning.optuna_tuner", "fastvpinns.hyperparameter_tuning.objective and everything below it (a fifth of the runs)", "tensorflow device placement (logical devices)", "threads (real, one at a time)", "processes and kills"]
STUB = ["optuna (not installed)", "physical accelerators", "the objective (four fifths of the runs)", "thread scheduler"]
ASSUME = ["optuna runs at most n_jobs trials at once, one per processor for -1, and numbers trials consecutively", "a trial outside any device scope runs on the first accelerator, as TensorFlow does"]


setup = p12.setup


def generate(rng, i, tier):
    light = rng.chance(0.8)
    ss = p12.gen_sessions(rng.sub("ses"), light)
    g = rng.randint(0, 5)
    for k, s in enumerate(ss):
        r = rng.sub("dev", k)
        s["gpus"] = g if r.chance(0.8) else r.randint(0, 5)
        s["n_jobs"] = r.pick([-1, -1, 1, 2, 3, 4, 5, 6])
        if light:
            s["n_trials"] = r.randint(1, 8)
        s["before"] = None
    return {"light": light, "real_devices": rng.chance(0.5) if light else True, "seed": rng.randrange(1 << 20), "epochs": rng.randint(1, 2), "mode": "graph" if rng.chance(0.3) else "eager",
            "co": [1, 1, 1.0, 0.4], "sessions": ss}


def execute(plan, w):
    work = os.path.join(w.scratch, "work")
    os.makedirs(work, exist_ok=True)
    seen = {}
    for k, ses in enumerate(plan["sessions"]):
        old = T.stored(work).get(ses["study"], {"trials": []})["trials"]
        out = fresh.run_in(w, T.session, plan, k, work)
        g, nj = ses["gpus"], ses["n_jobs"]
        at = f"session {k} ({g} accelerators, n_jobs={nj})"
        obs = out["obs"]
        failed = any(o.get("failed") for o in obs.values())
        if out["error"] is not None:
            done = any(t["state"] == "COMPLETE" for t in T.stored(work).get(ses["study"], {"trials": []})["trials"])
            w.check(failed or not done, "unexpected-exception", lambda: f"{at}: {out['error']}")
        allowed = T.CPUS if nj == -1 else nj
        cap = min(g, allowed) if g else allowed
        w.check(out["most"] <= cap, "too-many-at-once", f"{at}: {out['most']} trials ran at once")
        place = {}
        for n, o in sorted(obs.items()):
            d = o["devices"]
            if not d:
                continue  # killed before it did anything
            w.check(len(d) == 1, "several-devices", f"{at}: trial {n} ran on {d}")
            name, num = d[0].split(":")
            w.check((name == "GPU" and int(num) < g) if g else d[0] == "CPU:0", "device", f"{at}: trial {n} ran on {d[0]}")
            place[n] = int(num)
            if plan["real_devices"] and o["placed"]:
                ok = {int(num) + 1} | ({0} if num == "0" else set()) if g else {0}
                w.check(set(o["placed"]) <= ok, "placement", f"{at}: values of trial {n} on {d[0]} were put on devices {sorted(set(o['placed']))}")
            w.check(o["before"] == [] and o.get("after", []) == [], "leak", f"{at}: trial {n} started within device scopes {o['before']} and left {o.get('after')}")
        w.check(out.get("stack") in (None, []), "leak", f"{at}: the caller is left with device scopes {out.get('stack')}")
        if g:
            for n, d in place.items():
                for m, e in ((n - 1, place.get(n - 1)), (n - 1, seen.get((ses["study"], g, n - 1)))):
                    if e is not None:
                        w.check(d == (e + 1) % g, "not-in-turn", f"{at}: trial {m} ran on {e}, trial {n} on {d}")
            for n, d in place.items():
                seen[ses["study"], g, n] = d
        w.step(out["points"])
        if (g and len(place) > 1) or failed or out["crashed"] or old:
            w.nontrivial = True
        w.mark(g, nj, out["most"], plan["light"], plan["real_devices"], "crash" if out["crashed"] else "", "fail" if failed else "", "resume" if old else "")
        if out["most"] > 1:
            w.arm("concurrent trials")
        w.log("session", k, out["started"], out["most"], out["crashed"], out["trail"][:200], out["error"] and out["error"][0], sorted(place.items()))


shrink = p12.shrink
