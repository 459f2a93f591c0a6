"""P12: covariances stay valid and observations never add uncertainty. Breadth-first search over the
covariances reachable on the real filters, plus the invariants along every enumerated history."""
import itertools

import numpy as np

from . import families, kal, lin, nl, ref
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 2
CASE_SECONDS = 1500
BOUNDS = {"quick": "single terms of extreme magnitude; invariants along all <=1 deviation histories n,m<=3 (7 modes), nonlinear kinds, sizes to 17, late and repeated deviations, unit exponents, horizons to 257 and 5001, <=2 deviations for two shapes, wide models over long horizons; BFS over reachable covariances: 24 actions, depth 3 for n,m<=2 and depth 2 for n,m<=3, from 4-5 initial covariances",
          "thorough": "n,m<=4, <=2 deviations for 6 shapes, horizons to 1025; BFS depth 4 for n=1,2 and depth 3 up to n=4"}


def cases(tier):
    q = tier == "quick"
    N = 3 if q else 4
    for d in families.extremes(2):
        yield ["kf", d]
    for d in families.dev0(N, N, 3):
        yield ["kf", d]
    for n, m in families.shapes(3, 3):
        for root in range(5 if n > 1 else 4):
            yield ["bfs", n, m, (3 if max(n, m) < 3 else 2) if q else (4 if n < 3 else 3), root]
    if not q:
        for n, m in families.shapes(4, 4):
            if max(n, m) == 4:
                for root in range(5 if n > 1 else 4):
                    yield ["bfs", n, m, 3, root]
    for n, m in families.shapes(N, N):
        for kind in nl.KINDS:
            yield ["ekf", ["nl", kind, n, m, families.psize(n, m), 4, "gen", []]]
    for d in families.dev1(N, N, 3):
        yield ["kf", d]
    for d in families.ints(2, limit=100 if q else 10 ** 9):
        yield ["kf", d]
    for d in families.masks("AHQRP"):
        yield ["kf", d]
    for d in nl.patterns():
        if d[0] == "nl" or d[6] in ("Q", "R", "P0"):
            yield ["ekf", d]
    for d in nl.units(("mixed",), ((1, 1, 1), (2, 2, 2), (3, 2, 1)), (-60, -30, -10, 10, 30, 60)):
        yield ["ekf", d]
    for d in families.coincidences("quick"):
        if len(d[2]) <= (2 if q else 3):
            yield ["kf", d]
    for n, m in families.shapes(N, N):
        for dv in nl.ekf_deviations(n, m, families.psize(n, m), 3):
            yield ["ekf", ["nl", "mixed", n, m, families.psize(n, m), 3, "gen", [dv]]]
    for d in families.sizes(5 if q else 7):
        yield ["kf", d]
    for d in families.units([(1, 1, 1), (2, 2, 2), (3, 2, 1)], 3, [-60, -30, -10, 10, 30, 60]):
        yield ["kf", d]
    for T in list(range(4, 41)) + [64, 65, 100, 128, 129, 256, 257] + ([] if q else [500, 512, 513, 1000, 1024, 1025]):
        yield ["kf", ["hor", 2, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 2, 1, 1, T]]
    for d in families.extended(q):
        yield ["kf", d]
    for d in nl.extended(q):
        yield ["ekf", d]
    for d in families.wider(q):
        yield ["kf", d]
    for d in nl.wider(q):
        yield ["ekf", d]
    for d in families.weak(2, 3, ("gen", "ti")):
        yield ["kf", d]
    for d in families.broad(q):
        yield ["kf", d]
    for d in nl.broad(q):
        yield ["ekf", d]
    for T in (513, 1500, 5001):
        yield ["kf", ["hor", 1, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T]]
    for d in families.dev2([(2, 1, 1), (2, 2, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 2, 2), (2, 3, 1)], 3):
        yield ["kf", d]


def valid(P, d, what, tol=1e-8):
    """Symmetric and positive semidefinite relative to the natural standard deviations d."""
    P = np.asarray(P, dtype=float)
    dd = np.where(d > 0, d, 1.0)
    E = P / dd[:, None] / dd[None, :]
    if not np.isfinite(E).all():
        raise kal.Violation(f"{what}: covariance is not finite: {P.tolist()}")
    if np.abs(E - E.T).max() > tol:
        raise kal.Violation(f"{what}: covariance is not symmetric: {P.tolist()}")
    w = np.linalg.eigvalsh((E + E.T) / 2)[0]
    if w < -tol:
        raise kal.Violation(f"{what}: covariance is not positive semidefinite (relative eigenvalue {w:.3g}): {P.tolist()}")


def below(P, Q, d, what, tol=1e-8):
    """P <= Q in every direction."""
    dd = np.where(d > 0, d, 1.0)
    E = (np.asarray(Q, dtype=float) - np.asarray(P, dtype=float)) / dd[:, None] / dd[None, :]
    w = np.linalg.eigvalsh((E + E.T) / 2)[0]
    if w < -tol:
        raise kal.Violation(f"{what}: uncertainty grows in some direction (relative eigenvalue {w:.3g})", first=np.asarray(P).tolist(), second=np.asarray(Q).tolist())


def run_case(desc, st):
    if desc[0] == "bfs":
        return bfs(*desc[1:], st)
    which, d = desc
    if which == "kf":
        c = lin.build(d)
        nodes = c.nodes()
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX:
                break
            good += 1
        c.steps, c.T = c.steps[:good], good
        nodes = nodes[:good]
        if not good:
            st.skipped += 1
            return
        a = c.arrays()
        f = kal.make_kf(a)
    else:
        c = nl.build(d)
        nodes = ndomain(c, st)
        if not nodes:
            st.skipped += 1
            return
        a = c.arrays()
        f = nl.make_ekf(a, c.callbacks())
    n, T = c.n, c.T
    s, e = f.filter(Z=a["Z"], U=a["U"])
    kal.shape_check(s, e, T, n, "filter")
    D = [np.sqrt(np.array(nd.sc)) for nd in nodes]
    x, P = a["x0"], a["P0"]
    for k in range(T):
        if which == "kf":
            xp, Pp = f.predict(Ak=a["A"][k], xk=x, Bk=a["B"][k], uk=a["U"][k], Pk=P, Qk=a["Q"][k])
        else:
            xp, Pp = f.predict(xk=x, uk=a["U"][k], Pk=P, Qk=a["Q"][k])
        valid(Pp, D[k], f"prior {k}")
        valid(e[k], D[k], f"filtered {k}")
        below(e[k], Pp, D[k], f"filtered versus prior, step {k}")
        x, P = s[k], e[k]
    try:
        r = ref.rts(nodes) if which == "kf" else ref.ekf_rts(nodes)
        ok = r[2] <= kal.COND_MAX
    except ref.Singular:
        ok = False
    if ok:
        s2, e2 = f.smooth(Z=a["Z"], U=a["U"])
        kal.shape_check(s2, e2, T, n, "smooth")
        for k in range(T):
            dk = np.sqrt(np.array(r[4][k]))
            valid(e2[k], dk, f"smoothed {k}")
            below(e2[k], e[k], dk, f"smoothed versus filtered, step {k}")
        st.traces += 1
    else:
        st.count("not_smoothable")
    st.traces += 1
    st.transitions += 2 * T
    for nd in nodes:
        st.states.add(kal.state_key(nd))


def actions(n, m):
    v = {c: dict(l) for c, l in lin.variants(n, m, 1).items()}
    base = lin.default_terms(n, m, 1, 0, "gen")
    As = [base["A"], v["A"]["neg"], v["A"]["big"], v["A"]["sing"] if n > 1 else v["A"]["zero"]]
    Qs = [base["Q"], v["Q"]["rank1"] if n > 1 else v["Q"]["zero"]]
    HR = [(base["H"], base["R"]), (v["H"]["eye"], v["R"]["tiny"]), (v["H"]["pick0"], v["R"]["mixed"] if m > 1 else v["R"]["big"])]
    return [(np.array(A), np.array(Q), np.array(H), np.array(R)) for A in As for Q in Qs for H, R in HR]


def bfs(n, m, depth, root, st):
    """All covariances reachable with the real predict/update from 5 initial ones."""
    acts = actions(n, m)
    v = {c: dict(l) for c, l in lin.variants(n, m, 1).items()}
    roots = [lin.default_init(n, "gen")[1], v["P0"]["zero"], v["P0"]["I"], v["P0"]["big"]] + ([v["P0"]["rank1"]] if n > 1 else [])
    a = lin.build_dev(n, m, 1, 2, "gen", []).arrays()
    kf = kal.make_kf(a)
    x, z = np.zeros(n), np.zeros(m)
    seen = set()
    front = []
    for P in roots[root:root + 1]:
        P = np.array(P)
        k = key(P)
        if k not in seen:
            seen.add(k)
            front.append((P, np.sqrt(np.abs(np.diag(P))), float(np.abs(P).max())))
    for d in range(depth):
        nxt = []
        for P, dP, mx in front:
            for A, Q, H, R in acts:
                _, Pp = kf.predict(Ak=A, xk=x, Bk=None, uk=None, Pk=P, Qk=Q)
                dp = np.abs(A) @ dP + np.sqrt(np.diag(Q))
                S = H @ Pp @ H.T + R
                # rounding errors are relative to the largest variances met on the way (carried with the state)
                mn = max(mx * max(1.0, float(np.abs(A).sum(axis=1).max()) ** 2), float((dp ** 2).max()))
                dp = np.sqrt(dp ** 2 + 1e-5 * mn)
                ds = np.sqrt(np.abs(np.diag(S)))
                ds = np.where(ds > 0, ds, 1)
                if not np.isfinite(S).all() or np.linalg.cond(S / np.outer(ds, ds)) > 1e4:
                    st.count("ill_conditioned_edges")
                    continue
                _, Pn = kf.update(Hk=H, xk=x, Pk=Pp, zk=z, Rk=R)
                wh = f"reachable covariance at depth {d + 1}: "
                valid(Pp, dp, wh + "prior")
                valid(Pn, dp, wh + "posterior")
                below(Pn, Pp, dp, wh + "posterior versus prior")
                st.transitions += 1
                k = key(Pn)
                if k not in seen:
                    seen.add(k)
                    nxt.append((Pn, np.sqrt(np.abs(np.diag(Pn))), mn))
        kf.kalman_gains.clear()
        front = nxt
        if len(front) > 60000:
            front = front[:60000]
            st.count("frontier_capped")
    st.count("bfs_covariances", len(seen))
    st.traces += 1
    st.states.update(("bfs", n, m, hash(k)) for k in seen)


def key(P):
    return tuple(np.char.mod("%.9e", np.asarray(P, dtype=float).ravel()).tolist())
