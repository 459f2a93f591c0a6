"""P05: extended filter == standard filter on linear systems (differential, both real implementations)."""
import itertools

import numpy as np

from . import families, kal, lin, nl, ref
from .p02 import domain

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "single terms of extreme magnitude; all deviations<=1 (H of step 0 used throughout) for n,m<=3, 7 modes; <=2 for (1,1),(2,1); scalar histories to depth 6; horizons to 129, selected to 500 and 5001; sizes to 17; late and repeated deviations; surplus model and control terms; wide models over long horizons",
          "thorough": "n,m<=4, T<=4; <=2 deviations for four shapes; scalar histories to depth 9; horizons to 513; sizes to 7; unit exponents to 60"}


def cases(tier):
    q = tier == "quick"
    N = 3 if q else 4
    for d in families.extremes(2):
        if d[6][0][1] != "H" or d[4] == 1:
            yield d
    yield from families.dev0(N, N, 3)
    for d in families.dev1(N, N, 3 if q else 4):
        k, c, v = d[6][0]
        if c != "H" or k == 0:
            yield d
    yield from families.sizes(5 if q else 7)
    yield from families.units([(1, 1, 1), (2, 2, 2)], 3, [-30, 30] if q else [-60, -30, -10, 10, 30, 60])
    yield from families.horizons(16, [32, 33, 64, 65, 100, 128, 129] + ([] if q else [256, 257, 512, 513]), [(1, 1, 1), (2, 1, 1)])
    yield from families.seqs([("s_small", 2, 1), ("s_tiny", 6 if q else 9, 1)] + ([] if q else [("s_mid", 2, 3), ("s_full", 1, 3)]))
    yield from families.ints(2 if q else 3, ("gen",) if q else ("gen", "diag"))
    for d in families.masks(whens=(-1,) if q else (-1, 0, 1)):
        yield d
    for d in families.coincidences(tier):      # H of step 0 is used throughout: keep one representative per H choice of later steps
        c0 = lin.alphabet(d[1])
        if all(c0[i]["H"] == c0[d[2][0]]["H"] for i in d[2]):
            yield d
    for d in families.extended(q):
        if d[0] == "rep":
            if lin.digits(d[5], 3, 7)[lin.STEP_COMPS.index("H")] == 1:
                yield d
        elif d[0] != "dev" or d[6] == [] or d[6][0][1] != "H" or d[6][0][0] in (0, "all"):
            yield d
    yield from families.wider(q, (12, 33, 40), 3)
    yield from families.weak(2, 3, ("gen", "ti"))
    for d in families.near([(1, 1, 1), (2, 1, 1), (2, 2, 1)], 3):
        if d[6] != "H" or d[8] == -1:
            yield d
    yield from families.broad(q)
    yield from families.horizons(0, [500, 1025, 5001], [(1, 1, 1)])
    yield from families.horizons(0, [130, 150, 200, 257, 300, 500], [(2, 1, 1), (1, 1, 1), (2, 2, 1)])
    for d in families.dev2([(1, 1, 1), (2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 2)], 3):
        if not any(x[1] == "H" for x in d[6]):
            yield d


def linear_callbacks(n, p, H):
    """f, h and Jacobians whose matrices are carried by the control vector."""
    def split(u):
        u = np.asarray(u)
        return u[:n * n].reshape(n, n), u[n * n:n * n + n * p].reshape(n, p), u[n * n + n * p:]

    def f(x, u):
        A, B, w = split(u)
        return A @ x + B @ w

    return dict(f=f, h=lambda x: H @ x, jacobian_A=lambda x, u: split(u)[0], jacobian_H=lambda x: H)


def run_case(desc, st):
    c = lin.build(desc)
    h0 = c.steps[0].H
    c.steps = [lin.step(s.A, s.B, s.u, h0, s.Q, s.R, s.z, s.p) for s in c.steps]
    nodes = domain(c, st)
    if not nodes:
        st.skipped += 1
        return
    n, T = c.n, c.T
    a = c.arrays()
    kf = kal.make_kf(a)
    V = []
    for s in c.steps:
        B = np.zeros((n, s.p)) if s.B is None else s.B.np.reshape(n, s.p)
        u = np.zeros(s.p) if s.u is None or s.B is None else s.u.np
        V.append(np.concatenate([s.A.np.ravel(), B.ravel(), u]))
    cb = linear_callbacks(n, c.steps[0].p, h0.np)
    ekf = nl.make_ekf(a, cb)
    sx = np.array([nd.sx for nd in nodes])
    sc = kal.cov_scale(np.array([nd.sc for nd in nodes]))
    for what in ("filter", "smooth"):
        s1, e1 = getattr(kf, what)(Z=a["Z"], U=a["U"])
        s2, e2 = getattr(ekf, what)(Z=a["Z"], U=np.array(V))
        if what == "smooth":
            r = ref.rts(nodes)
            sx, sc = np.array(r[3]), kal.cov_scale(np.array(r[4]))
        kal.same(s2, s1, sx, f"extended versus standard {what}: state", 1e-8)
        kal.same(e2, e1, sc, f"extended versus standard {what}: covariance", 1e-8)
    if T <= 4:      # model and control series that go on beyond the observations
        more = lambda v: np.concatenate([v, v, v[::-1] * 2, v * 0.5])
        b = {k: more(v) if k in ("A", "B", "H", "Q", "R", "U") else v for k, v in a.items()}
        kf2, ekf2 = kal.make_kf(b), nl.make_ekf(b, cb)
        for what in ("filter", "smooth"):
            s1, e1 = getattr(kf2, what)(Z=a["Z"], U=b["U"])
            s2, e2 = getattr(ekf2, what)(Z=a["Z"], U=more(np.array(V)))
            if what == "filter":
                x_, c_ = np.array([nd.sx for nd in nodes]), kal.cov_scale(np.array([nd.sc for nd in nodes]))
            else:
                x_, c_ = sx, sc
            kal.same(s2, s1, x_, f"extended versus standard {what} with surplus terms: state", 1e-8)
            kal.same(e2, e1, c_, f"extended versus standard {what} with surplus terms: covariance", 1e-8)
    g1, g2 = kf.kalman_gains, ekf.kalman_gains
    if len(g1) != len(g2):
        raise kal.Violation(f"{len(g1)} gains versus {len(g2)}")
    for k, (x, y) in enumerate(zip(g1, g2)):
        kal.same(y, x, kal.gain_scale(nodes[k % T]), f"gain {k}", 1e-8)
    st.traces += 2
    st.transitions += 2 * (3 * T - 1)
    for nd in nodes:
        st.states.add(kal.state_key(nd))
