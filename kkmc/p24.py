"""P24: every shipped example and the quick-start code executed against the library; every estimate compared with the
exact recursion on the model the program built; Jacobians enumerated over a grid of states."""
import atexit
import doctest
import io
import contextlib
import math
import os
import runpy
import shutil
import tempfile

import numpy as np

from . import kal, ref

LEVEL = "model_checking"
CHUNK = 1
CASE_SECONDS = 200
BOUNDS = {"quick": "every example and the quick start x 2 random seeds, each filter/smooth call replayed step by step against the reference; Jacobians on a grid of 721 angles x 9 rates x controls",
          "thorough": "8 seeds; 14401 angles x 25 rates"}
ASSUMPTIONS = ["examples drawing unseeded random data are run for the listed numpy seeds only"]
EX = os.path.join(kal.REPO, "examples")
QS = os.path.join(kal.REPO, "docs", "source", "quickstart.rst")


def names():
    return sorted(f for f in os.listdir(EX) if f.endswith(".py") and not f.startswith("_"))


def cases(tier):
    seeds = range(2 if tier == "quick" else 8)
    for s in seeds:
        for nm in names():
            yield ["example", nm, s]
        yield ["doc", "quickstart", s]
    A = 24 if tier == "quick" else 480
    for nm in names():
        with open(os.path.join(EX, nm)) as f:
            src = f.read()
        if "jacobian" in src:
            for i in range(12):
                yield ["jac", nm, i, 12, A]


_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix="kkmc-p24-")
        _scratch.append((d, os.getpid()))
        os.environ["MPLCONFIGDIR"] = d
        os.environ["MPLBACKEND"] = "Agg"
    return _scratch[0][0]


def cleanup():
    for d, pid in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


@contextlib.contextmanager
def recorded(log):
    """Record (object, call kind, Z, U, result) of every filter/smooth a program makes."""
    saved = []
    depth = [0]
    for cls in (kal.KalmanFilter, kal.ExtendedKalmanFilter):
        for meth in ("filter", "smooth"):
            real = getattr(cls, meth)
            saved.append((cls, meth, real))

            def wrap(self, Z, U=None, _real=real, _m=meth):
                depth[0] += 1
                try:
                    r = _real(self, Z, U)
                finally:
                    depth[0] -= 1
                if depth[0] == 0:
                    log.append((self, _m, np.array(Z, dtype=float), None if U is None else np.array(U, dtype=float), [np.array(v) for v in r]))
                return r
            setattr(cls, meth, wrap)
    try:
        yield
    finally:
        for cls, meth, real in saved:
            setattr(cls, meth, real)


def fl(v):
    return [float(a) for a in np.asarray(v, dtype=float).ravel()]


def mat(v, r, c):
    return np.asarray(v, dtype=float).reshape(r, c)


def replay_exact(obj, meth, Z, U, what):
    """The example's own model run through the textbook recursion in double precision (Joseph form, explicit inverse)."""
    n = int(np.asarray(obj.xk).shape[0])
    x = np.array(fl(obj.xk))
    P = mat(obj.Pk, n, n)
    T = len(Z)
    ekf = isinstance(obj, kal.ExtendedKalmanFilter)
    fs, ahead = [], []
    for k in range(T):
        z = np.atleast_1d(Z[k]).ravel()
        m = len(z)
        u = None if U is None else U[k]
        if ekf:
            nanu = np.full(np.shape(Z[k]), np.nan) if U is None else u
            A = mat(obj.jacobian_A(x.copy(), nanu), n, n)
            xp = np.array(fl(obj.f(x.copy(), nanu)))
        else:
            A = mat(obj.A[k], n, n)
            xp = A @ x
            if U is not None and not np.isnan(obj.B[k]).all() and not np.isnan(u).all():
                xp = xp + np.asarray(obj.B[k]) @ np.atleast_1d(u)
        Q = np.asarray(obj.Q[k], dtype=float)
        Q = Q * np.ones((1, 1)) if n == 1 else Q.reshape(n, n)
        Pp = A @ P @ A.T + Q
        H = mat(obj.jacobian_H(xp.copy()) if ekf else obj.H[k], m, n)
        R = np.asarray(obj.R[k], dtype=float) * (np.ones((1, 1)) if m == 1 else 1)
        R = R.reshape(m, m)
        y = z - (np.array(fl(obj.h(xp.copy()))) if ekf else H @ xp)
        K = Pp @ H.T @ np.linalg.inv(H @ Pp @ H.T + R)
        x = xp + K @ y
        M = np.eye(n) - K @ H
        P = M @ Pp @ M.T + K @ R @ K.T
        fs.append((x, P))
        ahead.append((xp, Pp, A))
    if meth == "filter":
        return [a for a, _ in fs], [b for _, b in fs], fs
    xs, Ps = [None] * T, [None] * T
    if T:
        xs[-1], Ps[-1] = fs[-1]
    for k in range(T - 2, -1, -1):
        xp, Pp, A = ahead[k + 1]
        G = fs[k][1] @ A.T @ np.linalg.inv(Pp)
        xs[k] = fs[k][0] + G @ (xs[k + 1] - xp)
        Ps[k] = fs[k][1] + G @ (Ps[k + 1] - Pp) @ G.T
    return xs, Ps, fs


def judge(log, what, st, need):
    if not log:
        raise kal.Violation(f"{what} makes no estimate")
    for obj, meth, Z, U, (s, e) in log:
        n = int(np.asarray(obj.xk).shape[0])
        w = f"{what}: {type(obj).__name__}.{meth}"
        s, e = kal.shape_check(s, e, len(Z), n, w)
        if not (np.isfinite(s).all() and np.isfinite(e).all()):
            raise kal.Violation(f"{w}: estimates are not finite")
        xs, Ps, fs = replay_exact(obj, meth, Z, U, w)
        sx = max(1.0, float(np.max(np.abs(xs)))) if len(xs) else 1.0
        sp = max(float(np.max(np.abs(Ps))), 1e-12)
        kal.cmp_vec(s, np.array(xs).reshape(s.shape), sx, w + " state", 1e-6)
        kal.cmp_vec(e, np.array(Ps).reshape(e.shape), sp, w + " covariance", 1e-6)
        for k in range(len(Z)):
            if np.linalg.eigvalsh((e[k] + e[k].T) / 2).min() < -1e-9 * sp:
                raise kal.Violation(f"{w}: covariance {k} is indefinite")
            if meth == "smooth":
                d = fs[k][1] - e[k]
                if np.linalg.eigvalsh((d + d.T) / 2).min() < -1e-7 * sp:
                    raise kal.Violation(f"{w}: smoothed uncertainty exceeds filtered uncertainty at step {k}")
            st.states.add((what, meth, k, round(float(s[k][0]), 9)))
        st.transitions += len(Z)
        st.traces += 1
    for nd in need:
        if nd not in [m for _, m, *_ in log]:
            raise kal.Violation(f"{what} no longer calls {nd}")


def run_case(desc, st):
    d = scratch()
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    here = os.getcwd()
    os.chdir(d)
    try:
        if desc[0] == "example":
            _, nm, seed = desc
            np.random.seed(seed)
            log = []
            with recorded(log), contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(os.path.join(EX, nm), run_name="__main__")
            judge(log, f"examples/{nm} (seed {seed})", st, ["smooth"] if "smoothing" in nm else [])
        elif desc[0] == "doc":
            _, nm, seed = desc
            np.random.seed(seed)
            log = []
            g = {"__name__": "__main__"}
            with open(QS) as f:
                ex = doctest.DocTestParser().get_examples(f.read())
            if not ex:
                raise kal.Violation("the quick start has no code")
            with recorded(log), contextlib.redirect_stdout(io.StringIO()):
                for e in ex:
                    exec(compile(e.source, f"quickstart:{e.lineno}", "exec"), g)
            judge(log, f"quickstart (seed {seed})", st, ["filter", "smooth"])
        else:
            jac(desc, st)
    finally:
        plt.close("all")
        os.chdir(here)
        cleanup()


def jac(desc, st):
    _, nm, part, parts, A = desc
    with contextlib.redirect_stdout(io.StringIO()):
        g = runpy.run_path(os.path.join(EX, nm), run_name="kkmc_example")
    f, h, jA, jH = (g[k] for k in ("f", "h", "jacobian_A", "jacobian_H"))
    total = A * 30 + 1
    rates = [-20.0, -3.0, -1.0, -0.1, 0.0, 0.1, 1.0, 3.0, 20.0] if A < 100 else [r / 2 - 6 for r in range(25)]
    for i in range(part, total, parts):
        th = -2 * math.pi + 4 * math.pi * i / (total - 1)
        for om in rates:
            x = np.array([th, om])
            for u in ((), (None,), (np.full(1, np.nan),)):
                num = np.array([(np.atleast_1d(f(x + dv, *u)) - np.atleast_1d(f(x - dv, *u))) / 2e-5 for dv in np.eye(2) * 1e-5]).T
                kal.cmp_vec(np.asarray(jA(x, *u), dtype=float), num, 1.0, f"examples/{nm}: jacobian_A at {x.tolist()}", 1e-6)
            num = np.array([(np.atleast_1d(h(x + dv)) - np.atleast_1d(h(x - dv))) / 2e-5 for dv in np.eye(2) * 1e-5]).T
            kal.cmp_vec(np.asarray(jH(x), dtype=float), num, 1.0, f"examples/{nm}: jacobian_H at {x.tolist()}", 1e-6)
            st.states.add((nm, i, om))
            st.transitions += 4
        st.traces += 1
