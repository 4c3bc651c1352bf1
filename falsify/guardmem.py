"""numpy arrays placed against an inaccessible page, so that touching memory before / after them ends the process"""
import mmap, ctypes
import numpy as np
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PG = mmap.PAGESIZE


class _Own:
    def __init__(self, addr, total):
        self.addr, self.total = addr, total

    def __del__(self):
        _libc.munmap(self.addr, self.total)


def guard(a, before=False):
    a = np.ascontiguousarray(a)
    n = max(1, -(-a.nbytes // PG)) * PG
    total = n + 2 * PG
    addr = _libc.mmap(None, total, 3, 0x22, -1, 0)
    assert addr not in (None, 2**64 - 1)
    assert _libc.mprotect(addr, PG, 0) == 0 and _libc.mprotect(addr + PG + n, PG, 0) == 0
    start = addr + PG if before else addr + PG + n - a.nbytes
    buf = (ctypes.c_char * a.nbytes).from_address(start)
    buf._own = _Own(addr, total)
    out = np.frombuffer(buf, dtype=a.dtype, count=a.size).reshape(a.shape)
    out[...] = a
    return out
