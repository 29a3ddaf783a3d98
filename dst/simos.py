"""Python side of the preloaded simulated OS (simos.c)."""
import ctypes
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

F_EINTR, F_SHORT, F_EIO, F_ENOSPC, F_CRASH, F_EACCES, F_CRASH_AFTER = range(1, 8)
FAULT_NAMES = {F_EINTR: "EINTR", F_SHORT: "short", F_EIO: "EIO", F_ENOSPC: "ENOSPC",
               F_CRASH: "crash_before", F_EACCES: "EACCES", F_CRASH_AFTER: "crash_after"}
OP_NAMES = {1: "open", 2: "read", 3: "write", 4: "close", 5: "rename", 6: "unlink",
            7: "truncate", 8: "fsync"}

ENT_REAL, ENT_STREAM, ENT_ZEROS, ENT_ONES, ENT_FAIL, ENT_SHORT = range(6)


def build(out_dir):
    """Compile the shim; returns its path."""
    os.makedirs(out_dir, exist_ok=True)
    src = os.path.join(HERE, "simos.c")
    out = os.path.join(out_dir, "simos.so")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    fd, tmp = tempfile.mkstemp(dir=out_dir, suffix=".so")
    os.close(fd)
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
    os.replace(tmp, out)
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        L.sim_clock.restype = None
        L.sim_clock_reads.restype = ctypes.c_uint64
        L.sim_mono_reads.restype = ctypes.c_uint64
        L.sim_entropy.argtypes = [ctypes.c_int, ctypes.c_uint64]
        L.sim_entropy.restype = None
        L.sim_entropy_reads.restype = ctypes.c_uint64
        L.sim_entropy_faults.restype = ctypes.c_uint64
        L.sim_disk.argtypes = [ctypes.c_int, ctypes.c_char_p]
        L.sim_disk.restype = None
        L.sim_disk_fault.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int]
        L.sim_disk_calls.restype = ctypes.c_int64
        L.sim_disk_fired.argtypes = [ctypes.c_int]
        L.sim_disk_fault_path.argtypes = [ctypes.c_int]
        L.sim_disk_fault_path.restype = ctypes.c_char_p
        L.sim_disk_log.argtypes = [ctypes.c_int, ctypes.c_int]
        L.sim_disk_log.restype = ctypes.c_int32
        _lib = L
    return _lib


def clock(sec, nsec=0):
    lib().sim_clock(1, sec, nsec)


def clock_off():
    lib().sim_clock(0, 0, 0)


def entropy(mode, seed=0):
    lib().sim_entropy(mode, seed & (2 ** 64 - 1))
