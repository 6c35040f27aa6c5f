"""Writes MANIFEST.json from the property modules that exist (run by hand; output is committed)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {
 "P20": "quadrature rules are pure functions of (family, order): no schedule, time, I/O or fault to simulate; only an input enumeration would decide it (the rules actually used in training are compared with independent ones inside P09's reference model)",
 "P21": "pure functions of (family, order, point) with nothing to schedule or fail; first derivatives that reach training are compared with independent ones inside P09",
 "P22": "pure functions of the cell geometry with nothing to schedule or fail; the mappings that reach training are compared with independent ones inside P09",
 "P23": "pure functions of two arrays with nothing to schedule or fail",
 "P24": "pure argument checks with nothing to schedule or fail",
 "P25": "a statistical statement about optimisation that depends on no schedule or fault and has no decidable oracle; P09 decides each step instead",
}
LEVELS = {}
T = "deterministic simulation: seeded search over "
TECH = {
 "P01": T + "mesh-reading histories with injected file and disk faults, against an independent reader",
 "P02": T + "sampling and data request histories with a controlled (also adversarial) random source",
 "P03": T + "sensor request histories with a controlled random source, table and disk faults",
 "P04": T + "mesh preparation histories with crashes at every line, disk faults, leftovers and retries",
 "P05": T + "export histories with crashes, disk faults and retries, against an independent vtk reader",
 "P06": T + "plotting histories with disk faults, checked on the recorded figure contents",
 "P07": T + "preceding histories and process environments; same seed must give the same run",
 "P08": T + "op- and line-level interleavings of several live problems under a cooperative thread scheduler, refinement against solo runs",
 "P09": T + "training histories (configurations and step arguments), step-by-step refinement against an independent reference implementation",
 "P10": T + "training histories with injected step failures, refinement against the fault-free twin",
 "P11": T + "training histories with crash and resume at any step, refinement against the uninterrupted run",
 "P12": T + "line-level interleavings of concurrent tuning trials with failures, crash and resume, against solo trials",
 "P13": T + "simulated machines, line-level interleavings and failing trials, with a device recorder",
 "P15": T + "histories of killed, interrupted, failed and foreign attempts at the shipped experiments, refinement against a first run in an empty folder",
 "P14": T + "histories of requests (some failing) between training steps, refinement against the undisturbed twin",
}
NOTE = {
 "P01": "Sampled, not exhaustive: thousands of seeded histories per run; trusts the generator's notion of a valid mesh and the independent .mesh/.vtk readers in dst/meshgen.py.",
 "P02": "Sampled: thousands of seeded histories including the extremes of the random source; trusts the independent geometry oracle.",
 "P03": "Sampled histories; 'every row can be selected' is decided by repeated draws with a false alarm probability below 1e-12.",
 "P04": "Crash points are executed library lines (kernel-level reordering of completed writes is not simulated); disk faults through RLIMIT_FSIZE, /dev/full and open errors.",
 "P05": "Crash points are executed library lines; disk faults through RLIMIT_FSIZE, /dev/full and open errors; trusts the independent vtk reader.",
 "P06": "Judges the artists handed to matplotlib at the moment of saving and that the file decodes; trusts matplotlib's rasteriser.",
 "P07": "Bit-for-bit comparison on CPU with one thread per operation; sampled histories and environments.",
 "P08": "Line-level preemption covers plain Python lines of the library (lines inside tf.function graphs run once at trace time and are atomic between preemptions).",
 "P09": "Sampled configurations; trusts the reference implementation (numpy/TensorFlow float64) in dst/ref.py; tolerances 1e-6 relative for float64.",
 "P10": "Sampled failure positions in user callables and arguments; failures inside TensorFlow kernels are not injected.",
 "P11": "Uses the Keras weight and TensorFlow checkpoint formats as installed; sampled save points and configurations.",
 "P12": "optuna and the sin_cos example module are replaced by stubs (not installed); line-level preemption in tuner code.",
 "P13": "optuna and physical devices are simulated; placement is observed at tf.device.",
 "P15": "Kill points are executed lines of the library, the scripts and the file-writing libraries; the shipped configurations are scaled down (a few epochs, cells and neurons); trusts the independent vtk reader and a numpy forward pass.",
 "P14": "Sampled request histories; the training state compared is weights, parameters, optimiser variables and the tensors handed to the model.",
}
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"dst/props/{i.lower()}.py"):
        src = open(f"dst/props/{i.lower()}.py").read()
        level = src.split('LEVEL = "')[1].split('"')[0]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": level, "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import fastvpinns, sys; print(sys.version)'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (file system, random source, threads, devices, user callables, optuna) is reached from outside. Checks import the code from /repo's working tree (pure Python: nothing to build)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
