"""Driver: seeded search, replay, minimisation, evidence.

  python -m dst.run check  P01 [--tier quick|thorough]
  python -m dst.run replay FILE
  python -m dst.run worker ...          (internal)
"""

import argparse
import contextlib
import importlib
import io
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"

FCAP = 1 << 30  # no file of a run may grow beyond this, whatever happens

PINNED = {
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "-1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TF_NUM_INTRAOP_THREADS": "1",
    "TF_NUM_INTEROP_THREADS": "1",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "TF_DETERMINISTIC_OPS": "1",
    "COLUMNS": "100",
    "TZ": "UTC",
}


def prop_module(pid):
    return importlib.import_module("dst.props." + pid.lower())


def run_env(hashseed="0"):
    env = dict(os.environ)
    env.update(PINNED)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONPATH"] = VERIF + os.pathsep + REPO
    env.pop("PYTHONSTARTUP", None)
    return env


# ----------------------------------------------------------------- one run


class RunTimeout(BaseException):
    pass


def execute(mod, plan, limit=240):
    """Run one plan; returns a JSON-able record."""
    from .core import HarnessError, SimCrash, Violation, World

    w = World(plan)
    rec = {"violation": None, "error": None}
    t0 = time.monotonic()

    def on_alarm(*_):
        raise RunTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="dst-")
    try:
        os.chdir(scratch)
        w.scratch = scratch
        mod.execute(plan, w)
    except Violation as v:
        rec["violation"] = {"kind": v.kind, "detail": v.detail}
    except RunTimeout:
        rec["violation"] = {
            "kind": "no-progress",
            "detail": f"the run did not finish within {limit} s (a run normally takes seconds)",
        }
    except HarnessError:
        rec["error"] = traceback.format_exc()
    except (Exception, SimCrash, SystemExit):
        tb = traceback.format_exc()
        if library_raised(sys.exc_info()[2]):
            # the code under test raised where nothing had been injected
            last = tb.strip().splitlines()[-1]
            rec["violation"] = {"kind": "unexpected-exception", "detail": last[:300] + "\n" + tb[-1200:]}
        elif isinstance(sys.exc_info()[1], (MemoryError, BlockingIOError, ImportError)):
            rec["error"] = tb
        else:
            # an oracle could not even read what the code under test handed out
            rec["violation"] = {"kind": "malformed-result", "detail": tb.strip().splitlines()[-1][:300] + "\n" + tb[-1200:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_FSIZE, (FCAP, resource.RLIM_INFINITY))
        os.chdir(cwd)
        rmtree(scratch)
    rec.update(
        digest=w.digest(), faults=w.faults, armed=w.armed, marks=sorted(w.marks), steps=w.steps,
        evals=w.evals, nontrivial=w.nontrivial, wall=round(time.monotonic() - t0, 3), events=w.events,
    )
    return rec


def library_raised(tb):
    """True if the innermost frame of ours-or-theirs is in the code under test."""
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.path.join(REPO, "fastvpinns")) or "__autograph_generated_file" in f:
            last = "lib"
        elif f.startswith(os.path.join(VERIF, "dst")) and not f.endswith("/core.py"):
            # a callback of ours called from the library still counts as ours
            last = "dst"
        tb = tb.tb_next
    return last == "lib"


def rmtree(path):
    import shutil

    assert path.startswith(tempfile.gettempdir() + os.sep + "dst-"), path
    shutil.rmtree(path, ignore_errors=True)


def quiet_fds():
    """Send this process's stdout/stderr to /dev/null; returns a stream to the old stdout."""
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.fdopen(os.dup(1), "w")
    err = os.fdopen(os.dup(2), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("DST_VERBOSE"):
        os.dup2(dn, 2)
    os.close(dn)
    return keep, err


def worker(a):
    keep, err = quiet_fds()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (FCAP, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, resource.RLIM_INFINITY))
    mod = prop_module(a.prop)
    if hasattr(mod, "setup"):
        mod.setup()
    out = open(a.out, "a")
    if a.plan:
        items = [(0, json.load(open(a.plan)))]
    else:
        items = [(i, None) for i in map(int, a.indices.split(","))]
    from .core import Rng

    for i, plan in items:
        if plan is None:
            plan = json.loads(json.dumps(mod.generate(Rng(a.seed, a.prop, i), i, a.tier)))
        out.write(json.dumps({"start": i, "plan": plan}) + "\n")
        out.flush()
        rec = execute(mod, plan)
        rec["index"] = i
        out.write(json.dumps(rec) + "\n")
        out.flush()
    out.write(json.dumps({"done": True}) + "\n")
    out.flush()
    os._exit(0)


# ----------------------------------------------------------------- parent


def spawn(pid, tier, seed, indices, tmp, name, hashseed="0", plan=None):
    out = os.path.join(tmp, name + ".jsonl")
    cmd = [PY, "-m", "dst.run", "worker", pid, "--tier", tier, "--seed", str(seed), "--out", out]
    if plan is not None:
        p = os.path.join(tmp, name + ".plan.json")
        json.dump(plan, open(p, "w"))
        cmd += ["--plan", p]
    else:
        cmd += ["--indices", ",".join(map(str, indices))]
    errf = open(os.path.join(tmp, name + ".err"), "w")
    env = run_env(hashseed)
    env["TMPDIR"] = tmp  # scratch folders of a killed worker go with the check's own
    pr = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=errf, stderr=errf, start_new_session=True)
    pr.out = out
    pr.errfile = errf.name
    return pr


def collect(pr, timeout):
    """Records of a finished worker; a run during which the process died is a record too."""
    try:
        rc = pr.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pr.pid, signal.SIGKILL)
        pr.wait()
        rc = "timeout"
    recs, open_run, done = [], None, False
    if os.path.exists(pr.out):
        for line in open(pr.out):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "start" in r:
                open_run = r
            elif "done" in r:
                done = True
            else:
                r["plan"] = open_run["plan"]
                open_run = None
                recs.append(r)
    died = None
    if not done:
        died = {"rc": rc, "run": open_run, "stderr": open(pr.errfile).read()[-1500:]}
    return recs, died


def run_plan(pid, plan, tmp, name, timeout=300):
    """Execute one plan in a fresh process."""
    pr = spawn(pid, "quick", 0, [], tmp, name, plan=plan)
    recs, died = collect(pr, timeout)
    if died:
        if died["run"] is None:
            return {"violation": None, "error": f"worker failed to start: {died}"}
        return {"violation": death(died), "error": None, "digest": "died"}
    return recs[0]


def death(died):
    rc = died["rc"]
    if rc == "timeout":
        return {"kind": "no-progress", "detail": "the run never finished"}
    return {"kind": "process-died", "detail": f"exit status {rc} during a run; {died['stderr'][-500:]}"}


def minimise(pid, mod, plan, kind, tmp, budget):
    """Greedy: keep a smaller plan while it still shows the same kind of violation."""
    t_end = time.monotonic() + budget
    tries = 0
    cur = plan
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        cands = list(mod.shrink(cur)) if hasattr(mod, "shrink") else list(generic_shrink(cur))
        # several candidates at a time
        k = 0
        while k < len(cands) and time.monotonic() < t_end:
            batch = cands[k : k + 6]
            prs = [spawn(pid, "quick", 0, [], tmp, f"min{tries + j}", plan=c) for j, c in enumerate(batch)]
            hit = None
            for c, pr in zip(batch, prs):
                recs, died = collect(pr, 120)
                v = death(died) if died and died["run"] else (recs[0]["violation"] if recs else None)
                if v and v["kind"] == kind and hit is None:
                    hit = c
            tries += len(batch)
            if hit is not None:
                cur = hit
                progress = True
                break
            k += len(batch)
    return cur, tries


def generic_shrink(plan):
    """Drop list elements (operations, faults, preemptions) one chunk at a time."""
    for key in ("faults", "ops", "preempt", "tasks"):
        xs = plan.get(key)
        if not isinstance(xs, list) or not xs:
            continue
        n = len(xs)
        size = n // 2
        while size >= 1:
            for lo in range(0, n, size):
                q = json.loads(json.dumps(plan))
                q[key] = xs[:lo] + xs[lo + size :]
                if key in ("ops", "tasks") and not q[key]:
                    continue
                yield q
            size //= 2


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def check(a):
    t0 = time.monotonic()
    pid = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.seed is not None:
        seed = a.seed
    mod = prop_module(pid)
    n = a.runs or mod.RUNS[tier]
    nproc = a.procs or min(8, os.cpu_count() or 8)
    cap = mod.CAP[tier] if hasattr(mod, "CAP") else {"quick": 600, "thorough": 6 * 3600}[tier]
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        return _check(a, t0, pid, tier, seed, mod, n, nproc, cap, tmp)
    finally:
        rmtree(tmp)


def _check(a, t0, pid, tier, seed, mod, n, nproc, cap, tmp):
    idx = list(range(n))
    # the first runs are executed twice, in different processes under different hash seeds
    twice = idx[: max(2, min(n, getattr(mod, "TWICE", {"quick": 8, "thorough": 40})[tier]))]
    shares = [idx[i::nproc] for i in range(nproc)]
    shares = [s for s in shares if s]
    extra = [[] for _ in shares]
    for k, i in enumerate(twice):
        extra[(k + 1) % len(shares)].append(i)
    prs = []
    for j, s in enumerate(shares):
        # re-executions go last, so that they also follow a different in-process history
        prs.append(spawn(pid, tier, seed, s + extra[j], tmp, f"w{j}", hashseed=str(j * 7919 + 1)))
    first, again, errors = {}, {}, []
    fails = []
    for j, pr in enumerate(prs):
        recs, died = collect(pr, cap - (time.monotonic() - t0))
        for r in recs:
            if r["index"] in first or (r["index"] not in shares[j]):
                again[r["index"]] = r
            else:
                first[r["index"]] = r
            if r["error"]:
                errors.append((r["index"], r["error"]))
            if r["violation"]:
                fails.append(r)
        if died:
            if died["run"] is None:
                errors.append((-1, f"worker {j}: {died}"))
            elif died["rc"] == "timeout" and died["run"] is not None and time.monotonic() - t0 >= cap - 1:
                errors.append((died["run"]["start"], f"worker {j} ran out of the check's time ({cap} s)"))
            else:
                fails.append(
                    {"index": died["run"]["start"], "plan": died["run"]["plan"], "violation": death(died),
                     "digest": "died"}
                )
    mism = [i for i in again if i in first and again[i]["digest"] != first[i]["digest"]]
    if mism and getattr(mod, "DETERMINISM_IS_PROPERTY", False):
        for i in mism:
            fails.append({"index": i, "plan": first[i]["plan"], "digest": first[i]["digest"],
                          "violation": {"kind": "irreproducible",
                                        "detail": f"run {i} gave different results in two processes"}})
    # ---- violations
    fails.sort(key=lambda r: r["index"])
    known = [f for f in known_findings() if f.get("property") == pid and not f.get("fixed")]
    reported, known_hit = [], []
    seen = set()
    for r in fails:
        kf = next((f for f in known if f["kind"] == r["violation"]["kind"] and f["match"] in r["violation"]["detail"]), None)
        if kf:
            known_hit.append(kf)
            continue
        if r["violation"]["kind"] in seen:
            continue
        seen.add(r["violation"]["kind"])
        reported.append(r)
    rdir = os.path.join(VERIF, "replays")
    lines = []
    for r in reported[:3]:
        os.makedirs(rdir, exist_ok=True)
        kind = r["violation"]["kind"]
        plan, tries = r["plan"], 0
        final = r
        conf = run_plan(pid, plan, tmp, f"conf{r['index']}")
        if conf["violation"] and conf["violation"]["kind"] == kind:
            final = conf
            if not lines:
                left = min(150, cap - (time.monotonic() - t0) - 60)
                if left > 10:
                    plan, tries = minimise(pid, mod, plan, kind, tmp, left)
                    again_ = run_plan(pid, plan, tmp, "final")
                    if again_["violation"]:
                        final = again_
        path = os.path.join(rdir, f"{pid}-{seed}-{r['index']}.json")
        json.dump(
            {"property": pid, "seed": seed, "index": r["index"], "tier": tier, "violation": final["violation"],
             "digest": final.get("digest"), "plan": plan, "original_plan": r["plan"], "minimise_runs": tries,
             "events": final.get("events", [])[-60:],
             "how": f"{PY} -m dst.run replay {os.path.relpath(path, VERIF)}  (in /verif, via bin/replay)"},
            open(path, "w"), indent=1)
        lines.append((path, final["violation"]))
    for kf in {json.dumps(k, sort_keys=True): k for k in known_hit}.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    wall = time.monotonic() - t0
    evidence(pid, tier, seed, mod, n, first, again, mism, fails, reported, errors, wall, nproc)
    ok = [r for r in first.values() if not r["error"]]
    print(f"{pid} {tier} seed={seed}: {len(first)}/{n} runs, {sum(r['evals'] for r in ok)} oracle evaluations, "
          f"{len({r['digest'] for r in ok})} distinct histories, {len(again)} re-executed ({len(mism)} differ), "
          f"{len(fails)} failing, {len(errors)} harness errors, {wall:.1f} s")
    for path, v in lines:
        print(f"  {v['kind']}: {v['detail'].splitlines()[0] if v['detail'] else ''}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
    if lines:
        return 1
    if errors:
        for i, e in errors[:3]:
            print(f"HARNESS ERROR in run {i}:\n{e}")
        return 2
    return 0


def evidence(pid, tier, seed, mod, n, first, again, mism, fails, reported, errors, wall, nproc):
    recs = [r for r in first.values() if not r["error"]]
    faults, armed, marks = {}, {}, set()
    for r in recs:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["armed"].items():
            armed[k] = armed.get(k, 0) + v
        marks.update(r["marks"])
    nontriv = [r for r in recs if r["nontrivial"]]
    samples = []
    for r in sorted(nontriv or recs, key=lambda r: r["index"])[:3]:
        samples.append({"run": r["index"], "plan": r["plan"], "digest": r["digest"], "history_head": r["events"][:6]})
    s = json.dumps(samples)
    if len(s) > 20000:
        samples = [{"run": x["run"], "digest": x["digest"], "plan": json.dumps(x["plan"])[:3000]} for x in samples]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len({r["digest"] for r in nontriv}),
            "rule": mod.RULE,
            "samples": samples,
            "oracle_evaluations": sum(r["evals"] for r in recs),
            "simulated_runs_per_hour": int(len(recs) / max(wall, 1e-3) * 3600),
            "seeds_per_hour": int(len(recs) / max(wall, 1e-3) * 3600),
            "simulated_time_logical_steps": sum(r["steps"] for r in recs),
            "faults_fired": dict(sorted(faults.items())),
            "faults_armed": dict(sorted(armed.items())),
            "distinct_states": len(marks),
            "distinct_states_measure": getattr(mod, "MEASURE", "distinct situation labels reached"),
            "states_sample": sorted(marks)[:40],
            "distinct_histories": len({r["digest"] for r in recs}),
            "reexecuted_in_another_process": len(again),
            "reexecutions_that_differed": len(mism),
            "real_code": mod.REAL, "stubbed": mod.STUB, "worker_processes": nproc,
            "harness_errors": len(errors),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def replay(a):
    d = json.load(open(a.file))
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        r = run_plan(d["property"], d["plan"], tmp, "replay")
    finally:
        rmtree(tmp)
    if r.get("error"):
        print("HARNESS ERROR:\n" + r["error"])
        return 2
    v = r["violation"]
    if not v:
        print("no violation: the property held on this plan")
        return 0
    same = v["kind"] == d["violation"]["kind"] and r.get("digest") == d.get("digest")
    print(f"{v['kind']}: {v['detail']}")
    print("history identical to the recorded one" if same else "history differs from the recorded one")
    print(f"VIOLATION property={d['property']} replay={a.file}")
    return 1


def main():
    p = argparse.ArgumentParser()
    sp = p.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--runs", type=int)
    c.add_argument("--procs", type=int)
    c.add_argument("--seed", type=int)
    wk = sp.add_parser("worker")
    wk.add_argument("prop")
    wk.add_argument("--tier")
    wk.add_argument("--seed")
    wk.add_argument("--indices", default="")
    wk.add_argument("--plan")
    wk.add_argument("--out")
    r = sp.add_parser("replay")
    r.add_argument("file")
    a = p.parse_args()
    if a.cmd == "worker":
        worker(a)
    sys.exit({"check": check, "replay": replay}[a.cmd](a))


if __name__ == "__main__":
    main()
