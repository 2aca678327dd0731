"""The file-system monitor and fault injector (shim.c): building, loading, arming, reading its log"""
import ctypes
import errno
import os
import subprocess
import sys
import tempfile

from vf.core import VERIF

LOG, KILL, TORN, FAIL, FAILALL, KILLAFTER = 0, 1, 2, 3, 4, 5
NAMES = {KILL: "killed before", TORN: "killed in the middle of", FAIL: "error at", FAILALL: "error from",
         KILLAFTER: "killed after"}
ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES}


def restart():
    d = tempfile.mkdtemp(prefix="vf-shim-")
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "vf", "shim.c"), "-ldl"],
                   check=True)
    env = dict(os.environ, VF_SHIM=so, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "vf.runner"] + sys.argv[1:], env)


def lib():
    return ctypes.CDLL(None)


def arm(prefix, log=None, mode=LOG, at=0, err=0, seed=1, delay=0):
    os.environ.pop("LD_PRELOAD", None)  # not for the children
    lib().vfs_arm(prefix.encode(), (log or "").encode(), mode, ctypes.c_long(at), err, ctypes.c_uint(seed),
                  ctypes.c_uint(delay))


def off():
    lib().vfs_off()


def events(log):
    """[(time, pid, kind, path, path2)]"""
    out = []
    if os.path.exists(log):
        with open(log) as f:
            for line in f:
                t, pid, kind, a, b = line.rstrip("\n").split("\t")
                out.append((float(t), int(pid), kind, a, b))
    return out
