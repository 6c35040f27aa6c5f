"""Fault injection seams.  All of them act from outside the code under test:

fsize     - RLIMIT_FSIZE: the disk takes only the first L bytes of any file (EFBIG from
            the kernel, also for C/C++ writers such as gmsh and numpy.tofile)
devfull   - the target path is a symlink to /dev/full (ENOSPC at the first flush)
open      - the n-th open() of a path raises OSError (EIO, ENOSPC, EMFILE, ...)
missing / isfile / isdir - the folder is gone, is a file; the target is a directory
crash     - the process dies at the k-th line executed in the library: a forked child
            runs the operation and leaves with os._exit, so that unflushed buffers and
            everything in memory are lost and only what reached the disk survives
raise     - an exception at the k-th executed library line (in-process failure)
"""

import builtins
import contextlib
import errno
import io
import os
import pickle
import resource
import sys

from .core import HarnessError, SimCrash

REPO = os.environ.get("DST_REPO", "/repo")
LIB = os.path.join(REPO, "fastvpinns") + os.sep

INF = resource.RLIM_INFINITY
FCAP = 1 << 30
_SITE = os.path.join(sys.prefix, "lib", "python%d.%d" % sys.version_info[:2], "site-packages") + os.sep
WIDE = tuple(_SITE + x for x in ("meshio" + os.sep, "numpy/lib/npyio.py", "pandas/io"))


@contextlib.contextmanager
def fsize(limit):
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(limit), INF))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (FCAP, INF))


class OpenFault:
    """builtins.open / io.open raise for the n-th matching open."""

    def __init__(self, match, mode_class, nth=0, err=errno.EIO):
        self.match, self.cls, self.nth, self.err = match, mode_class, nth, err
        self.seen = 0
        self.fired = 0

    def __enter__(self):
        self.real = builtins.open
        real = self.real

        def fake(file, mode="r", *a, **k):
            if isinstance(file, (str, os.PathLike)):
                name = os.fspath(file)
                wr = any(c in mode for c in "wax+")
                if isinstance(name, str) and self.match in name and wr == (self.cls == "w"):
                    n = self.seen
                    self.seen += 1
                    if n == self.nth:
                        self.fired += 1
                        raise OSError(self.err, os.strerror(self.err), name)
            return real(file, mode, *a, **k)

        builtins.open = fake
        io.open = fake
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        io.open = self.real
        return False


class LineHook:
    """Counts line events in the library and calls `at(k)` on each (current thread only)."""

    def __init__(self, at=None, wide=False, places=None):
        self.n = 0
        self.at = at
        self.places = places  # a dict: (file, line) -> the counts at which it was executed (first and last few)
        self.prefixes = (LIB,) + (WIDE if wide else ())

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line":
                k = self.n
                self.n += 1
                if self.places is not None:
                    v = self.places.setdefault((frame.f_code.co_filename, frame.f_lineno), [])
                    if len(v) < 4:
                        v.append(k)
                    else:
                        v[3] = k
                if self.at is not None:
                    self.at(k)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefixes):
                return local
            return None

        self.old = sys.gettrace()
        sys.settrace(glob)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        return False


def in_child(fn, crash_at=None, want_result=False, wide=False, places=False):
    """Run fn in a forked child.  -> ('ok', result) | ('raised', name) | ('crashed', None) | ('lines', n)

    With crash_at=k the child dies (os._exit) just before the k-th library line (wide: lines
    of meshio, numpy.savetxt and the like count too).  The third element is the line count, or with
    places the counts at which each line of the code was executed.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)

            def at(k):
                if crash_at is not None and k == crash_at:
                    os._exit(71)

            seen = {} if places else None
            hook = LineHook(at, wide, seen)
            try:
                with hook:
                    res = fn()
                msg = ("ok", res if want_result else None)
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                msg = ("raised", f"{type(e).__name__}: {e}"[:300])
            msg += (sorted(seen.values()) if places else hook.n,)
            data = pickle.dumps(msg)
            resource.setrlimit(resource.RLIMIT_FSIZE, (FCAP, INF))
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        _, st = os.waitpid(pid, 0)
    except BaseException:
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, 9)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    if os.WIFSIGNALED(st):
        return ("died", f"signal {os.WTERMSIG(st)}", None)
    code = os.WEXITSTATUS(st)
    if code == 71:
        return ("crashed", None, None)
    if code != 0:
        raise HarnessError(f"child exit {code}")
    return pickle.loads(b"".join(chunks))


def moment(times, frac, which):
    """An executed line: any place of the code is as likely as any other, however often it is executed."""
    v = times[min(len(times) - 1, int(frac * len(times)))]
    return v[which % len(v)]


class RaiseAt:
    """Raise exc at the k-th library line of the block."""

    def __init__(self, k, exc=None):
        self.k = k
        self.exc = exc or SimCrash("injected")
        self.fired = 0

    def __enter__(self):
        def at(k):
            if k == self.k and not self.fired:
                self.fired += 1
                raise self.exc

        self.hook = LineHook(at)
        self.hook.__enter__()
        return self

    def __exit__(self, *exc):
        self.hook.__exit__()
        return False


def devfull(path):
    if os.path.lexists(path):
        os.unlink(path)
    os.symlink("/dev/full", path)


def stamp(path, age):
    """Set the modification time of a file: the simulated clock of the disk (0: leave it)."""
    if age:
        os.utime(path, (age, age))


def gen_stamp(rng):
    return rng.pick([0, 10**9, 10**9, 10**9 + 1, 2 * 10**9])


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def tree(folder):
    """{relative path: bytes} of a scratch folder."""
    out = {}
    for base, _dirs, files in os.walk(folder):
        for n in files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, folder)] = b"-> " + os.readlink(p).encode()
            else:
                out[os.path.relpath(p, folder)] = read_bytes(p)
    return out


class GmshFault:
    """The n-th call into the gmsh library fails the way gmsh calls fail (an Exception)."""

    SAFE = ("gmshInitialize", "gmshFinalize", "gmshFree", "gmshIsInitialized", "gmshLogger", "gmshClear")

    def __init__(self, nth=None, exc=None):
        self.nth, self.seen, self.fired = nth, 0, 0
        self.exc = exc or Exception

    def __enter__(self):
        import gmsh

        self.gmsh, self.real = gmsh, gmsh.lib
        me, real = self, gmsh.lib

        class Proxy:
            def __getattr__(self, name):
                f = getattr(real, name)
                if not name.startswith("gmsh") or name.startswith(GmshFault.SAFE):
                    return f

                def call(*a):
                    n = me.seen
                    me.seen += 1
                    if n == me.nth:
                        me.fired += 1
                        raise me.exc("injected failure in " + name)
                    return f(*a)

                return call

        gmsh.lib = Proxy()
        return self

    def __exit__(self, *exc):
        self.gmsh.lib = self.real
        return False


class CallFault:
    """The n-th call of module.attr raises."""

    def __init__(self, obj, attr, nth=0, exc=None):
        self.obj, self.attr, self.nth, self.exc = obj, attr, nth, exc or OSError(5, "injected")
        self.seen = self.fired = 0

    def __enter__(self):
        self.real = getattr(self.obj, self.attr)

        def fake(*a, **k):
            n = self.seen
            self.seen += 1
            if n == self.nth:
                self.fired += 1
                raise self.exc
            return self.real(*a, **k)

        setattr(self.obj, self.attr, fake)
        return self

    def __exit__(self, *exc):
        setattr(self.obj, self.attr, self.real)
        return False
