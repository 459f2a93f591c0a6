"""Process-wide settings: how to change each, how to take a snapshot of all, and the import probe (no kalmankit import here)."""
import atexit
import builtins
import contextlib
import copy
import copyreg
import decimal
import faulthandler
import functools
import gc
import hashlib
import itertools
import json
import locale
import logging
import math
import numbers
import operator
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np


# ---------------------------------------------------------------- settings
@contextlib.contextmanager
def _np(**kw):
    with np.errstate(**kw):
        yield


@contextlib.contextmanager
def _print():
    with np.printoptions(precision=1, suppress=True, threshold=3, nanstr="-"):
        yield


@contextlib.contextmanager
def _warn(action):
    with warnings.catch_warnings():
        warnings.resetwarnings()
        warnings.simplefilter(action)
        yield


@contextlib.contextmanager
def _seed(n):
    a, b = random.getstate(), np.random.get_state()
    random.seed(n)
    np.random.seed(n)
    try:
        yield
    finally:
        random.setstate(a)
        np.random.set_state(b)


@contextlib.contextmanager
def _decimal():
    with decimal.localcontext() as c:
        c.prec = 3
        c.rounding = decimal.ROUND_UP
        yield


@contextlib.contextmanager
def _env():
    old = dict(os.environ)
    os.environ.clear()
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


@contextlib.contextmanager
def _cwd():
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="kkmc27") as d:
        g = os.path.join(d, "gone")
        os.mkdir(g)
        os.chdir(g)
        os.rmdir(g)
        try:
            yield
        finally:
            os.chdir(old)


@contextlib.contextmanager
def _set(get, put, val):
    old = get()
    put(val)
    try:
        yield
    finally:
        put(old)


@contextlib.contextmanager
def _log():
    root = logging.getLogger()
    old = root.level
    root.setLevel(1)
    try:
        yield
    finally:
        root.setLevel(old)


@contextlib.contextmanager
def _thread():
    """Marker: the operation is run in another thread."""
    yield


@contextlib.contextmanager
def _npcall():
    with np.errstate(all="call", call=lambda *a: None):
        yield


def _tracer(frame, event, arg):
    return None


def _mine(*a, **k):
    return None


@contextlib.contextmanager
def _signals():
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    sigs = (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGFPE, signal.SIGALRM)
    old = [signal.signal(s, _mine) for s in sigs]
    try:
        yield
    finally:
        for s, o in zip(sigs, old):
            signal.signal(s, o)


@contextlib.contextmanager
def _hooks():
    """Everything a program may have installed of its own."""
    with contextlib.ExitStack() as es:
        for mod, name in ((sys, "excepthook"), (sys, "displayhook"), (threading, "excepthook"), (warnings, "showwarning"), (sys, "unraisablehook")):
            es.enter_context(_set(functools.partial(getattr, mod, name), functools.partial(setattr, mod, name), _mine))
        es.enter_context(_set(sys.getprofile, sys.setprofile, _tracer))
        es.enter_context(_set(lambda: logging.root.manager.disable, logging.disable, 5))
        es.enter_context(_set(sys.get_int_max_str_digits, sys.set_int_max_str_digits, 700))
        es.enter_context(_set(umask, os.umask, 0o77))
        es.enter_context(_set(socket.getdefaulttimeout, socket.setdefaulttimeout, 7.0))
        es.enter_context(_set(stack, threading.stack_size, 1 << 20))
        yield


SETTINGS = {
    "signals": _signals, "hooks": _hooks,
    "np-raise": lambda: _np(all="raise"), "np-ignore": lambda: _np(all="ignore"), "np-warn": lambda: _np(all="warn"),
    "print": _print, "warn-error": lambda: _warn("error"), "warn-always": lambda: _warn("always"),
    "seed0": lambda: _seed(0), "seed7": lambda: _seed(7), "decimal": _decimal, "env": _env, "cwd-gone": _cwd,
    "no-gc": lambda: _set(gc.isenabled, lambda v: gc.enable() if v else gc.disable(), False),
    "gc-often": lambda: _set(lambda: gc.get_threshold(), lambda v: gc.set_threshold(*v), (1, 1, 1)),
    "shallow": lambda: _set(sys.getrecursionlimit, sys.setrecursionlimit, depth() + 150),
    "log": _log, "thread": _thread,
    "np-call": _npcall, "np-buffer": lambda: _set(np.getbufsize, np.setbufsize, 16),
    "switch": lambda: _set(sys.getswitchinterval, sys.setswitchinterval, 1e-6), "trace": lambda: _set(sys.gettrace, sys.settrace, _tracer),
    "argv": lambda: _set(lambda: sys.argv, lambda v: setattr(sys, "argv", v), []), "no-stdin": lambda: _set(lambda: sys.stdin, lambda v: setattr(sys, "stdin", v), None),
}


def depth():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


def snapshot():
    c = decimal.getcontext()
    st = np.random.get_state()
    return {"numpy error handling": np.geterr(), "numpy error callback": repr(np.geterrcall()), "numpy print options": repr(np.get_printoptions()),
            "warning filters": list(warnings.filters), "warnings.showwarning": id(warnings.showwarning), "random state": hash(random.getstate()),
            "numpy random state": (st[0], hashlib.sha1(st[1].tobytes()).hexdigest(), st[2:]), "decimal context": (c.prec, c.rounding, repr(c.traps)), "environment": dict(os.environ),
            "working directory": cwd(), "garbage collection": (gc.isenabled(), gc.get_threshold()), "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(), "module path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
            "trace": (sys.gettrace(), sys.getprofile()), "excepthook": (id(sys.excepthook), id(threading.excepthook)), "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "signals": tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGFPE, signal.SIGALRM)), "threads": threading.active_count(),
            "int digits": sys.get_int_max_str_digits(), "builtins": names(builtins), "numpy functions": names(np), "numpy.linalg functions": names(np.linalg),
            "exit handlers": atexit._ncallbacks(), "import hooks": (len(sys.meta_path), len(sys.path_hooks)), "display hook": id(sys.displayhook),
            "socket timeout": socket.getdefaulttimeout(), "umask": umask(), "time zone": (time.tzname, time.timezone), "limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CORE)),
            "priority": os.getpriority(os.PRIO_PROCESS, 0), "stack size": stack(), "bytecode": sys.dont_write_bytecode,
            "timers": tuple(signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)), "all signals": tuple(repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())),
            "signal mask": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))), "all limits": tuple(resource.getrlimit(r) for r in range(10)), "affinity": tuple(sorted(os.sched_getaffinity(0))),
            "warnings default": (warnings.defaultaction, len(warnings.onceregistry)), "collector": (len(gc.callbacks), gc.get_freeze_count(), gc.get_debug()), "diagnosis": (faulthandler.is_enabled(), tracemalloc.is_tracing()),
            "open files": len(os.listdir("/proc/self/fd")), "pickling": tuple(sorted(map(str, copyreg.dispatch_table))), "profiling hooks": (id(threading.gettrace()), id(threading.getprofile())),
            "standard library": tuple(names(m) for m in (math, random, copy, json, functools, itertools, operator, numbers)), "numpy internals": (tuple(names(m) for m in (np.random, np.lib, np.fft, np.ma)), np.get_printoptions()["legacy"]),
            "process": (os.getpgrp(), os.getsid(0), os.getuid(), os.getgid()), "monitoring": tuple(sys.monitoring.get_tool(i) for i in range(6)),
            "tracebacks": (getattr(sys, "tracebacklimit", None), sys.get_coroutine_origin_tracking_depth(), id(sys.breakpointhook), id(builtins.__import__), sys.get_asyncgen_hooks()),
            "logging class": (id(logging.getLoggerClass()), id(logging.lastResort), len(warnings.filters))}


def names(mod):
    return hashlib.sha1(repr(sorted((k, id(v)) for k, v in vars(mod).items() if k not in ("__warningregistry__", "_") and not isinstance(v, type(os)))).encode()).hexdigest()


def stack():
    v = threading.stack_size()      # asking resets it
    threading.stack_size(v)
    return v


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


IMPORTS = {"package": "import kalmankit", "standard": "import kalmankit.standard", "extended": "from kalmankit.extended import ExtendedKalmanFilter", "utils": "import kalmankit.utils",
           "version": "import kalmankit._version", "star": "from kalmankit import *", "versions": "import kalmankit._version as v\nfor _ in range(3): v.get_versions()",
           "reload": "import importlib, kalmankit.utils, kalmankit.standard, kalmankit.extended, kalmankit._version\nfor m in (kalmankit.utils, kalmankit.standard, kalmankit.extended, kalmankit._version, kalmankit): importlib.reload(m)",
           "thread": "import threading\ndef go():\n    import kalmankit, kalmankit._version\n    kalmankit._version.get_versions()\nt = threading.Thread(target=go); t.start(); t.join()"}
IMPORT_ENV = {"GIT_DIR": "/nonexistent/git", "GIT_WORK_TREE": "/", "GIT_INDEX_FILE": "/nonexistent/index", "PYTHONWARNINGS": "", "OMP_NUM_THREADS": "3", "MKL_NUM_THREADS": "2", "TZ": "Asia/Kolkata", "LANG": "C"}


def import_main(how, setting):
    """Run in a fresh interpreter that has not imported the package: importing it (and asking for the version) must leave
    every process-wide setting as it was, under unusual settings too."""
    import subprocess as _warm      # the modules the package imports may initialise themselves beforehand
    import functools, re, errno, typing, importlib, concurrent.futures
    assert not any(m.split(".")[0] == "kalmankit" for m in sys.modules)
    np.linalg.solve(np.eye(2), np.eye(2))
    subprocess.run(["true"])
    out = {}
    code = compile(IMPORTS[how], "<import>", "exec")
    with contextlib.ExitStack() as es:
        if setting:
            es.enter_context(SETTINGS[setting]())
        before = snapshot()
        try:
            exec(code, {"__name__": "probe"})
        except BaseException as e:
            out["error"] = f"{type(e).__name__}: {e}"
        after = snapshot()
    out["changed"] = {k: [str(before[k])[:300], str(after[k])[:300]] for k in before if before[k] != after[k]}
    print("RESULT" + json.dumps(out))
