"""Controlled scheduler for real threads running kalmankit code.

Every line (or every bytecode) executed in a kalmankit file is a scheduling point (sys.monitoring events on
every code object of the package). Exactly one thread runs at a time; a schedule is a list of legs (thread,
number of points). A thread that cannot proceed because of a real lock falls back to running freely after a
timeout, so a lock in the code under test slows the exploration down but never deadlocks it.
"""
import _thread
import sys
import types

from . import kal

STALL_MIN = 0.02
_stall = [0.5]
TOOL = 4
MON = sys.monitoring
IDLE = 30.0


class Baton:
    """A binary semaphore on a raw lock (threading.Semaphore is ten times slower)."""

    def __init__(self):
        self.l = _thread.allocate_lock()
        self.l.acquire()

    def acquire(self, timeout=-1):
        return self.l.acquire(True, timeout)

    def release(self):
        try:
            self.l.release()
        except RuntimeError:     # already released (only after a stall)
            pass


# ------------------------------------------------------------------ instrumentation
def _codes():
    seen, out = set(), []

    def add(c):
        if c in seen:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    def walk(o, depth=0):
        o = getattr(o, "__wrapped__", o)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for g in (o.fget, o.fset, o.fdel):
                if g:
                    walk(g)
        if isinstance(o, types.FunctionType) and o.__module__ and o.__module__.startswith("kalmankit"):
            add(o.__code__)
        elif isinstance(o, type) and o.__module__.startswith("kalmankit") and depth < 4:
            for v in vars(o).values():
                walk(v, depth + 1)

    for name, m in list(sys.modules.items()):
        if (name == "kalmankit" or name.startswith("kalmankit.")) and m is not None and not name.endswith("_version"):
            for v in list(vars(m).values()):
                walk(v)
    return out


_mode = None
_tids = {}        # thread ident -> (tid)
_run = None


def _event(code, where):
    r = _run
    if r is not None:
        tid = _tids.get(_thread.get_ident())
        if tid is not None:
            r.point(tid)


def instrument(mode):
    """mode: "line", "bytecode" or None."""
    global _mode
    if mode == _mode:
        return
    if _mode is None and mode is not None:
        try:
            MON.use_tool_id(TOOL, "kkmc")
        except ValueError:
            pass
        MON.register_callback(TOOL, MON.events.LINE, _event)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
    ev = {None: 0, "line": MON.events.LINE, "bytecode": MON.events.INSTRUCTION}[mode]
    for c in _codes():
        MON.set_local_events(TOOL, c, ev)
    _mode = mode


# ------------------------------------------------------------------ worker threads
class Worker:
    def __init__(self, tid):
        self.tid = tid
        self.wake = Baton()
        self.job = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        _tids[_thread.get_ident()] = self.tid
        while True:
            self.wake.acquire()
            job, self.job = self.job, None
            job._body(self.tid)


_workers = []


class Run:
    def __init__(self, bodies, legs, mode="line"):
        """bodies: callables; legs: [(thread, points or None)], in order. After the last leg, every
        unfinished thread is run to completion in index order."""
        self.bodies, self.legs, self.mode = bodies, list(legs), mode
        n = len(bodies)
        self.go = [Baton() for _ in range(n)]
        self.finished = [False] * n
        self.points = [0] * n
        self.budget = 0
        self.current = None
        self.results = [None] * n
        self.errors = [None] * n
        self.main = Baton()
        self.leg = -1
        self.fallback = 0
        self.switches = 0

    # -- called in worker threads
    def point(self, tid):
        if self.current != tid:      # free-running after a stall
            return
        self.points[tid] += 1
        if self.budget is None:
            return
        self.budget -= 1
        if self.budget < 0:
            self.advance(tid)

    def advance(self, tid):
        """The current leg is over: hand over and wait for our next turn."""
        nxt = self.next_leg()
        if nxt == tid or nxt is None:
            return
        self.switches += 1
        self.go[nxt].release()
        if not self.go[tid].acquire(timeout=_stall[0]):
            self.fallback += 1       # the others are blocked (a lock we hold?): run on
            _stall[0] = max(STALL_MIN, _stall[0] / 2)       # any schedule is a legal one: waiting less loses no soundness

    def next_leg(self):
        while True:
            self.leg += 1
            if self.leg < len(self.legs):
                t, b = self.legs[self.leg]
                if self.finished[t]:
                    continue
                self.current, self.budget = t, b
                return t
            for t in range(len(self.bodies)):
                if not self.finished[t]:
                    self.current, self.budget = t, None
                    return t
            self.current = None
            return None

    def _body(self, tid):
        self.go[tid].acquire()
        try:
            self.results[tid] = self.bodies[tid]()
        except BaseException as e:
            self.errors[tid] = e
        finally:
            self.finished[tid] = True
            if self.current == tid or self.fallback:
                nxt = self.next_leg()
                if nxt is not None:
                    self.go[nxt].release()
            if all(self.finished):
                self.main.release()

    def run(self, limit=IDLE):
        global _run
        instrument(self.mode)
        while len(_workers) < len(self.bodies):
            _workers.append(Worker(len(_workers)))
        _run = self
        for i in range(len(self.bodies)):
            _workers[i].job = self
            _workers[i].wake.release()
        self.go[self.next_leg()].release()
        if not self.main.acquire(timeout=limit):
            raise TimeoutError("threads did not finish: deadlock?")
        _run = None
        if not all(self.points):
            raise SystemExit("no scheduling points were observed: instrumentation is not working")
        return self
