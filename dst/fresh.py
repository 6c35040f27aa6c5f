"""Pristine processes.

A worker imports the code under test and TensorFlow but never executes a TensorFlow
operation, so a fork of it is a process in which nothing has happened yet.  Every
execution whose history matters starts in such a fork."""

import io
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .core import HarnessError, SimCrash, Violation, World


class Died(Exception):
    pass


leave = None  # leave(result): end this pristine process on the spot, as a kill would


def call(fn, *args, limit=150, hashed_env=None):
    """fn(*args) in a pristine process -> its (picklable) result.

    A Violation raised there is raised here; an exception of the code under test
    outside any injected failure is a violation of kind unexpected-exception."""
    from . import run as R

    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)

            def bye(res):
                data = pickle.dumps(("ok", res))
                while data:
                    data = data[os.write(wr, data):]
                os._exit(0)

            global leave
            leave = bye
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit + 20)
            os.setpgid(0, 0)
            try:
                res = ("ok", fn(*args))
            except Violation as v:
                res = ("violation", v.kind, v.detail)
            except HarnessError:
                res = ("harness", traceback.format_exc())
            except BaseException as e:
                lib = R.library_raised(sys.exc_info()[2])
                kind = "unexpected-exception" if lib else ("harness" if isinstance(e, (MemoryError, BlockingIOError, ImportError, SimCrash)) else "malformed-result")
                tb = traceback.format_exc()
                res = ("harness", tb) if kind == "harness" else ("violation", kind, tb.strip().splitlines()[-1][:300] + "\n" + tb[-1100:])
            data = pickle.dumps(res)
            with os.fdopen(wr, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wr)
    buf = io.BytesIO()
    end = time.monotonic() + limit
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise Violation("no-progress", f"a process executing {getattr(fn, '__name__', fn)} did not finish within {limit} s")
            if select.select([rd], [], [], left)[0]:
                b = os.read(rd, 1 << 20)
                if not b:
                    break
                buf.write(b)
    finally:
        os.close(rd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
    if not buf.getvalue():
        raise Violation("process-died", f"a process executing {getattr(fn, '__name__', fn)} died with wait status {st}")
    res = pickle.loads(buf.getvalue())
    if res[0] == "ok":
        return res[1]
    if res[0] == "violation":
        raise Violation(res[1], res[2])
    raise HarnessError(res[1])


def pack(cw, out, vio=None):
    return out, vio, cw.raw, cw.faults, cw.armed, sorted(cw.marks), cw.steps, cw.evals, cw.nontrivial


def run_in(w, fn, *args, limit=150):
    """fn(cw, *args) in a pristine process with a recorder cw; the recording is appended
    to w whatever the outcome."""
    def body():
        cw = World(w.plan)
        cw.raw = []
        cw.scratch = w.scratch
        out = None
        vio = None
        try:
            out = fn(cw, *args)
        except Violation as v:
            vio = (v.kind, v.detail)
        return pack(cw, out, vio)

    body.__name__ = getattr(fn, "__name__", "fn")
    out, vio, raw, faults, armed, marks, steps, evals, nontrivial = call(body, limit=limit)
    for s in raw:
        w.log_raw(s)
    for k, n in faults.items():
        w.faults[k] = w.faults.get(k, 0) + n
    for k, n in armed.items():
        w.armed[k] = w.armed.get(k, 0) + n
    w.marks.update(marks)
    w.steps += steps
    w.evals += evals
    w.nontrivial = w.nontrivial or nontrivial
    if vio:
        raise Violation(*vio)
    return out
