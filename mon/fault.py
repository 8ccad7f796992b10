"""Fault injection: the interposed library (shim.c) in a forked child, and exceptions raised at traced lines."""
import ctypes
import os
import pickle
import signal
import subprocess
import sys

from .core import Inconclusive

HERE = os.path.dirname(os.path.abspath(__file__))
COUNT, KILL, FAIL_ONCE, FAIL_STICKY = 0, 1, 2, 3
ENOSPC, EIO = 28, 5
ERRORS = [ENOSPC, EIO, ENOSPC, EIO, 13, 1, 30, 122, 24]  # also EACCES, EPERM, EROFS, EDQUOT, EMFILE


def prepare(scratch):
    so = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
    return {"LD_PRELOAD": so, "MON_SHIM": so}


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["MON_SHIM"])
        _lib.shim_trace.restype = ctypes.c_char_p
        _lib.shim_seen.restype = ctypes.c_long
        _lib.shim_fired.restype = ctypes.c_long
        _lib.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    return _lib


def inject(prefix, before, action, after, n=0, mode=COUNT, frac=0, err=ENOSPC):
    """Fork; in the child run before(), then action(state) with the fault armed, then after(state, error).
    Returns dict(killed, error, seen, fired, trace, after) as observed."""
    so = lib()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # progress bars do not go through the limited or failing files
            signal.alarm(60)
            state = before()
            exc = None
            so.shim_arm(os.path.realpath(prefix).encode(), n, mode, frac, err)
            try:
                action(state)
            except BaseException as e:
                exc = e
            so.shim_disarm()
            out = dict(error=None if exc is None else f"{type(exc).__name__}: {exc}"[:300], seen=so.shim_seen(), fired=so.shim_fired(),
                       trace=so.shim_trace().decode("utf-8", "replace").split("\n")[:-1])
            try:
                out["after"] = after(state, exc) if after else None
            except BaseException as e:
                out["after_error"] = f"{type(e).__name__}: {e}"[:300]
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        raise Inconclusive("a fault child did not end in 60 s")
    if os.WIFSIGNALED(st):
        return dict(killed=os.WTERMSIG(st), error=None, fired=n)
    if not data:
        raise RuntimeError(f"fault child ended with status {st} without a report")
    return dict(pickle.loads(data), killed=None)


def trace_raise(fn, root, n, exc):
    """Run fn(); raise exc at the n-th line executed below root (n=0: count only). Returns (lines, error)."""
    seen = [0]
    root = os.path.realpath(root)

    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == n:
                raise exc
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None

    err = None
    sys.settrace(glob)
    try:
        fn()
    except BaseException as e:
        err = e
    finally:
        sys.settrace(None)
    return seen[0], err
