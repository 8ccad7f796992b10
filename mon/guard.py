"""Arrays between inaccessible pages: a compiled read or write outside them, or any write into them, kills the process (which the supervisor reports)."""
import ctypes
import mmap

import numpy as np

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
NONE, READ, RW = 0, 1, 3


class Guard:
    def __init__(self):
        self.maps = []

    def array(self, a, at_end=True, writable=False):
        a = np.ascontiguousarray(a)
        body = max(PAGE, (a.nbytes + PAGE - 1) // PAGE * PAGE)
        m = mmap.mmap(-1, body + 2 * PAGE)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        off = PAGE + (body - a.nbytes if at_end else 0)
        out = np.frombuffer(m, dtype=a.dtype, count=a.size, offset=off) if a.size else np.empty(0, a.dtype)
        if a.size:
            out[...] = a
        for addr, n, prot in ((base, PAGE, NONE), (base + PAGE + body, PAGE, NONE), (base + PAGE, body, RW if writable else READ)):
            if _libc.mprotect(addr, n, prot):
                raise OSError(ctypes.get_errno(), "mprotect")
        self.maps.append((m, base, body, out))
        return out

    def release(self):
        for m, base, body, out in self.maps:
            _libc.mprotect(base, body + 2 * PAGE, RW)
        self.maps = []
