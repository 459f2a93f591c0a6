"""Access to the code under test and comparison helpers."""
import os
import sys
import warnings

REPO = os.environ.get("KKMC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

if not os.environ.get("KKMC_WARN"):     # set by P27, which watches warnings at import
    warnings.simplefilter("ignore")

import kalmankit  # noqa: E402
from kalmankit import ExtendedKalmanFilter, KalmanFilter, utils  # noqa: E402,F401

assert os.path.realpath(kalmankit.__file__).startswith(os.path.realpath(SRC) + os.sep), kalmankit.__file__

from . import ref  # noqa: E402

COND_MAX = 1e5
TOL = 1e-7
TOL_MIN = 1e-11


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


def make_kf(a, **over):
    a = {**a, **over}
    kw = dict(A=a["A"], xk=a["x0"], B=a["B"], Pk=a["P0"], H=a["H"], Q=a["Q"], R=a["R"])
    if "state_size" in a:
        kw["state_size"] = a["state_size"]
    return KalmanFilter(**kw)


def shape_check(states, errors, T, n, what):
    s, e = np.asarray(states), np.asarray(errors)
    if s.shape != (T, n):
        raise Violation(f"{what}: states have shape {s.shape}, expected {(T, n)}")
    if e.shape != (T, n, n):
        raise Violation(f"{what}: covariances have shape {e.shape}, expected {(T, n, n)}")
    if s.dtype.kind not in "f" or e.dtype.kind not in "f":
        raise Violation(f"{what}: results are not floating point ({s.dtype}, {e.dtype})")
    return s, e


def cmp_vec(got, exp, scale, what, tol=TOL):
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    lim = tol * (np.asarray(scale, dtype=float) + np.abs(exp)) + 1e-290
    if got.shape != exp.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {exp.shape}")
    bad = ~(np.abs(got - exp) <= lim)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(f"{what}{list(i)} = {got[i]!r}, expected {exp[i]!r}", got=got.tolist(), expected=exp.tolist())


def cov_scale(sc):
    s = np.sqrt(np.asarray(sc, dtype=float))
    return s[..., :, None] * s[..., None, :]


def usable(nodes, T):
    """In the claimed domain: every innovation covariance regular and well conditioned."""
    return len(nodes) == T and not any(n.bad or n.cond > COND_MAX for n in nodes)


def tol_for(kap):
    """Relative tolerance: 1e-11 for benign histories, up to 1e-8 where rounding is legitimately amplified."""
    return max(TOL_MIN, min(TOL, 1e-13 * kap))


def check_filter(states, errors, nodes, what="filter"):
    tol = tol_for(nodes[-1].kap) if nodes else TOL
    T, n = len(nodes), len(nodes[0].x) if nodes else 0
    s, e = np.asarray(states), np.asarray(errors)
    exp = np.array([ref.flt(nd.x) for nd in nodes])
    expP = np.array([ref.flt(nd.P) for nd in nodes])
    sx = np.array([nd.sx for nd in nodes])
    sc = np.array([nd.sc for nd in nodes])
    cmp_vec(s, exp, sx, what + " state", tol)
    cmp_vec(e, expP, cov_scale(sc), what + " covariance", tol)


def check_smooth(states, errors, rts, what="smooth"):
    xs, Ps, cond, sx, sc, kap = rts
    tol = tol_for(kap)
    cmp_vec(states, np.array(ref.flt(xs)), np.array(sx), what + " state", tol)
    cmp_vec(errors, np.array(ref.flt(Ps)), cov_scale(np.array(sc)), what + " covariance", tol)


def check_gains(gains, nodes, what="gains"):
    tol = tol_for(nodes[-1].kap) if nodes else TOL
    if len(gains) != len(nodes):
        raise Violation(f"{what}: {len(gains)} recorded, expected {len(nodes)}")
    for k, (g, nd) in enumerate(zip(gains, nodes)):
        K = np.array(ref.flt(nd.K))
        g = np.asarray(g, dtype=float)
        lim = gain_scale(nd)
        if g.shape != K.shape:
            raise Violation(f"{what}[{k}] has shape {g.shape}, expected {K.shape}")
        cmp_vec(g, K, lim, f"{what}[{k}]", tol)


def gain_scale(nd):
    """Natural magnitude of each gain entry: sqrt(prior variance_i / innovation variance_j)."""
    sx = np.sqrt(np.array(nd.sc))
    sd = np.sqrt(np.array(nd.sd))
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(sd[None, :] > 0, sx[:, None] / sd[None, :], 0.0) * 4


def same(a, b, scale, what, tol=1e-9):
    """Two implementation runs that must agree."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shapes {a.shape} and {b.shape}")
    both_nan = np.isnan(a) & np.isnan(b)
    lim = tol * np.asarray(scale, dtype=float) + 1e-290
    bad = ~((np.abs(a - b) <= lim) | both_nan)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(f"{what}{list(i)}: {a[i]!r} versus {b[i]!r}", got=a.tolist(), expected=b.tolist())


def state_key(nd):
    """Canonical form of a reference state (30 significant digits), for counting states."""
    return hash((tuple(f"{v:.25e}" for v in nd.x), tuple(f"{v:.25e}" for r in nd.P for v in r)))
