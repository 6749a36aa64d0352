"""Observers of the process: file system audit events and global interpreter state."""
from __future__ import annotations

import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

_local = threading.local()
_installed = False
EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.link", "os.symlink", "os.utime", "shutil.rmtree", "os.chdir",
          "os.putenv", "os.unsetenv", "subprocess.Popen", "os.system", "socket.connect", "tempfile.mkstemp", "tempfile.mkdtemp"}


def _hook(event, args):
    log = getattr(_local, "log", None)
    if log is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int):
            return
        writing = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if writing:
            log.append(("open-write", str(path)))
        elif getattr(_local, "reads", False):
            log.append(("open-read", str(path)))
    elif event in EVENTS:
        log.append((event, *map(str, args[:2])))


class recording:
    """with recording() as events: file-changing audit events of this thread."""

    def __init__(self, reads=False):
        self.reads = reads

    def __enter__(self):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.events = []
        _local.reads = self.reads
        _local.log = self.events
        return self.events

    def __exit__(self, *a):
        _local.log = None


def global_state():
    return {
        "cwd": os.getcwd(),
        "environ": dict(os.environ),
        "sys.path": list(sys.path),
        "warnings.filters": [tuple(map(str, f)) for f in warnings.filters],
        "random": hash(random.getstate()),
        "np.random": hash(np.random.get_state()[1].tobytes()),
        "recursionlimit": sys.getrecursionlimit(),
        "umask": _umask(),
        "sigint": signal.getsignal(signal.SIGINT),
        "stdout": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "locale": locale.setlocale(locale.LC_ALL),
        "threads": threading.active_count(),
        "hooks": (id(sys.excepthook), id(sys.displayhook), sys.gettrace(), sys.getprofile()),
    }


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def state_diff(a, b):
    return [k for k in a if a[k] != b[k]]
