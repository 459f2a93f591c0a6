"""P18: exact, empty and degenerate measurements, at every step of a history, for every channel subset."""
import functools
import itertools

import numpy as np

from . import families, kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {"quick": "n<=4, m<=3; every non-empty channel subset made noise-free / uninformative (5 ways) at every step of T=3 (filter, update; both filters); 9 measured values incl. outliers; EKF: every set of state components at a zero of the observation Jacobian; every exactly singular innovation built from 9 patterns at every step; models of 6, 7 and 17 states or channels; deep inside a series of 150",
          "thorough": "n<=6, m<=4, T=4, all modes"}
VALS = [0.0, 1.0, -2.5, 2.0 ** 20, -2.0 ** 40, 2.0 ** -30]


def cases(tier):
    q = tier == "quick"
    N, Mx, T = (4, 3, 3) if q else (6, 4, 4)
    for which in ("kf", "ekf"):
        for n, m in families.shapes(N, Mx):
            for mode in (("gen", "diag", "ti") if q else lin.MODES):
                for r in range(1, m + 1):
                    for sub in itertools.combinations(range(m), r):
                        for k in range(T):
                            if len(sub) <= n:
                                yield [which, "exact", n, m, T, mode, list(sub), k]
                            for way in ("zeroH", "hugeR", "hugeR120", "hugeR300", "hugeR900") if mode == "gen" else ("zeroH", "hugeR"):
                                yield [which, way, n, m, T, mode, list(sub), k]
                for k in range(T):
                    yield [which, "known", n, m, T, mode, [], k]
        for n, m in ((7, 7), (7, 2), (2, 7), (6, 6), (17, 2), (2, 17)):      # many components: single channels, pairs, all
            for mode in ("gen", "diag", "ti"):
                for r in (1, 2, n, m - 1, m):
                    for sub in [list(s) for s in itertools.combinations(range(m), r)][::1 if r == 1 else 4] if 0 < r <= m else ():
                        for k in (0, 1):
                            for way in ("exact", "zeroH", "hugeR"):
                                if way != "exact" or len(sub) <= n:
                                    yield [which, way, n, m, 2, mode, sub, k]
                for k in (0, 1):
                    yield [which, "known", n, m, 2, mode, [], k]
            for k in (0, 1):
                for pat in SINGULAR:
                    yield [which, "singular", n, m, 2, pat, [], k]
        for k in (40, 74, 149):      # deep in a long series
            for n, m in ((1, 1), (2, 2)):
                for way in ("exact", "zeroH", "hugeR"):
                    yield [which, way, n, m, 150, "ti", [0], k]
                if k < 41:
                    yield [which, "known", n, m, 150, "ti", [], k]
                for pat in SINGULAR:
                    if pat not in ("dup", "dup2", "negdup", "sum", "diff"):
                        yield [which, "singular", n, m, 150, pat, [], k]
        for n, m in families.shapes(N, Mx):
            for r in range(1, n + 1):
                for sub in itertools.combinations(range(n), r):
                    for mode in ("gen", "diag", "ti") if q else lin.MODES:
                        yield ["ekf", "blind", n, m, T, mode, list(sub), 0]
            for k in range(T):
                for pat in SINGULAR:
                    yield [which, "singular", n, m, T, pat, [], k]


SINGULAR = ["H0R0", "P0R0", "dup", "dup2", "rowzero", "negdup", "P0dir", "sum", "diff"]


def build(which, n, m, T, mode, sub, k, way):
    c = lin.build_dev(n, m, 1, T, mode if mode in lin.MODES else "gen", [])
    a = c.arrays()
    if which == "ekf":
        a["A"][:] = a["A"][0]
        a["H"][:] = a["H"][0]
    return a


def make(which, a):
    if which == "kf":
        return kal.make_kf(a)
    # linear model whose observation matrix may differ at one step: carried by the control vector
    n, p = a["B"].shape[1:]
    T = len(a["Z"])
    cur = dict(k=-1)
    A, B, H = a["A"], a["B"], a["H"]

    def jA(x, u):
        return A[int(u[-1])]

    def f(x, u):
        cur["k"] = int(u[-1])
        return A[int(u[-1])] @ x + B[int(u[-1])] @ u[:-1]

    return nl.make_ekf(a, dict(f=f, jacobian_A=jA, h=lambda x: H[cur["k"]] @ x, jacobian_H=lambda x: H[cur["k"]]))


def controls(which, a):
    if which == "kf":
        return a["U"]
    T = len(a["Z"])
    return np.hstack([a["U"], np.arange(T, dtype=float)[:, None]])


def e_of(way):
    return int(way[5:] or 200)


def run_case(desc, st):
    which, way, n, m, T, mode, sub, k = desc
    if way == "blind":
        return blind(n, m, T, mode, sub, st)
    a = build(which, n, m, T, mode, sub, k, way)
    if way == "singular":
        return singular(which, a, n, m, T, mode, k, st)
    if way == "exact":
        R = a["R"][k]
        for i in sub:
            R[i, :] = 0
            R[:, i] = 0
        a["P0"] = a["P0"] + np.eye(n)
    elif way == "zeroH":
        for i in sub:
            a["H"][k][i] = 0
        R = a["R"][k]
        for i in sub:
            R[i, [j for j in range(m) if j != i]] = 0
            R[[j for j in range(m) if j != i], i] = 0
    elif way[:5] == "hugeR":
        R = a["R"][k]
        e = e_of(way)
        for i in sub:
            R[i, :] = 0
            R[:, i] = 0
            R[i, i] = 2.0 ** e
    elif way == "known":
        a["P0"][:] = 0
        a["Q"][:k + 1] = 0
    U = controls(which, a)
    # domain: innovation covariances well conditioned (by the reference)
    nodes = ref_nodes(a)
    if nodes is None or len(nodes) < T or any(nd.bad or nd.cond > (kal.COND_MAX if way[:5] != "hugeR" else 1e5) for nd in nodes):
        st.skipped += 1
        return
    base = None
    keep = [i for i in range(m) if i not in sub]
    for v in VALS + ([2.0 ** 55, -2.0 ** 62] if way == "hugeR120" else [2.0 ** 100, -2.0 ** 150] if way in ("hugeR", "hugeR300", "hugeR900") else []):
        Z = a["Z"].copy()
        if way == "known":
            Z[k] = v
        else:
            for q, i in enumerate(sub):
                Z[k, i] = v * (1 + q)
        b = {**a, "Z": Z}
        f = make(which, b)
        s, e = f.filter(Z=Z, U=U)
        kal.shape_check(s, e, T, n, "filter")
        st.traces += 1
        st.transitions += T
        x0 = s[k - 1] if k else a["x0"]
        P0 = e[k - 1] if k else a["P0"]
        xp, Pp = predict(which, f, a, U, k, x0, P0)
        sd = np.sqrt(np.array(nodes[k].sc))
        zsc = np.abs(Z[k]).max() + 1
        if way == "exact":
            H = a["H"][k][sub]
            got = H @ s[k]
            hs = np.abs(H) @ (np.abs(s[k]) + sd + np.array(nodes[k].sx)) + np.abs(Z[k][sub])
            kal.same(got, Z[k][sub], hs * 10 + zsc * 0.1, f"noise-free channels {sub} at step {k}: reproduced measurement", 1e-9)
            hd = np.abs(H) @ sd
            kal.same(H @ e[k] @ H.T, np.zeros((len(sub),) * 2), np.outer(hd, hd), f"noise-free channels {sub} at step {k}: remaining variance", 1e-9)
            kal.same(H @ e[k], np.zeros((len(sub), n)), np.outer(hd, sd), f"noise-free channels {sub} at step {k}: remaining covariance", 1e-9)
        else:
            # the belief at step k must be the one without these channels, whatever their value
            if way == "known" or not keep:
                ex, eP = xp, Pp
            else:
                c = {**a, "H": a["H"][:, keep], "R": a["R"][:, keep][:, :, keep], "Z": Z[:, keep]}
                g = make(which, c)
                if which == "kf":
                    ex, eP = g.update(Hk=c["H"][k], xk=xp, Pk=Pp, zk=c["Z"][k], Rk=c["R"][k])
                else:
                    predict(which, g, a, U, k, x0, P0)
                    ex, eP = g.update(xk=xp, Pk=Pp, zk=c["Z"][k], Rk=c["R"][k])
            zl = zsc
            if way[:5] == "hugeR":      # the gain of such a channel: cross covariance / noise variance
                zl = zsc * 2.0 ** (10 - e_of(way)) * 1e9
                if keep:            # an explicit inverse of a badly scaled matrix is exact to rounding only
                    zl = zl + zsc * 1e-5
            others = np.abs(Z[k][keep]).max(initial=0) + 1
            xs = np.array(nodes[k].sx) + others + (0 if way[:5] == "hugeR" else 1e-3 * zsc)
            kal.same(s[k], ex, xs + zl, f"uninformative ({way}) channels {sub} at step {k}, value {v}: state", 1e-9)
            kal.same(e[k], eP, np.outer(sd, sd) + 1e-30, f"uninformative ({way}) channels {sub} at step {k}, value {v}: covariance", 1e-9)
        # the covariances never depend on the value
        if base is None:
            base = e
        kal.same(e, base, kal.cov_scale(np.array([nd.sc for nd in nodes])), f"covariances with value {v}", 1e-9)
    st.states.add(repr(desc))


def blind(n, m, T, mode, sub, st):
    """Products of state components observed where some components are zero: channels whose Jacobian row vanishes there
    (but nowhere else) say nothing."""
    c = lin.build_dev(n, m, 1, T, mode, [])
    a = c.arrays()
    hp = nl.functions("even", n, m, 1)[1]
    x = np.array([0.0 if i in sub else 0.5 + i / 4 for i in range(n)])
    P, D = a["P0"] + np.eye(n), ref.dec
    J = np.array(hp.jac(x), dtype=float)
    keep = [i for i in range(m) if J[i].any()]
    R = a["R"][0] * 1.0
    for i in range(m):
        for j in range(m):
            if (i in keep) != (j in keep):
                R[i, j] = 0
    cb = dict(f=lambda v, u: v * 1.0, jacobian_A=lambda v, u: np.eye(n), h=lambda v: np.array(hp([float(t) for t in v])), jacobian_H=lambda v: np.array(hp.jac([float(t) for t in v]), dtype=float))
    h0 = np.array(hp(x), dtype=float)
    zk = a["Z"][0]
    if keep:
        e = ref.update(D(x.tolist()), D(P.tolist()), D(J[keep].tolist()), D(zk[keep].tolist()), D(R[np.ix_(keep, keep)].tolist()), hx=D(h0[keep].tolist()))
        if e[3] > kal.COND_MAX:
            st.skipped += 1
            return
        ex, eP = np.array(ref.flt(e[0])), np.array(ref.flt(e[1]))
    else:
        ex, eP = x, P
    sd = np.sqrt(np.diag(P))
    for rs in (1.0, 2.0 ** -30):
        if rs != 1 and keep:
            continue
        for v in VALS:
            z = zk.copy()
            for q, i in enumerate(i for i in range(m) if i not in keep):
                z[i] = h0[i] + v * (1 + q)
            f = nl.make_ekf({**a, "P0": P, "x0": x, "R": a["R"] * rs}, cb)
            s, e = f.update(xk=x.copy(), Pk=P.copy(), zk=z, Rk=R * rs)
            sc = sd * 8 + np.abs(zk).max() + (1e-4 * abs(v) if keep else 0)
            kal.same(s, ex, sc, f"Jacobian zero for all but channels {keep}, value {v}: state", 1e-9)
            kal.same(e, eP, np.outer(sd, sd), f"Jacobian zero for all but channels {keep}, value {v}: covariance", 1e-9)
            st.traces += 1
            st.transitions += 1
            if not keep and not x.any():      # a whole run at the blind spot
                Z = np.outer(1.0 + np.arange(T), z)
                for meth in ("filter", "smooth"):
                    s, e = getattr(nl.make_ekf({**a, "P0": P, "x0": x, "R": a["R"] * rs}, cb), meth)(Z=Z, U=np.zeros((T, 1)))
                    kal.shape_check(s, e, T, n, meth)
                    kal.same(s, np.zeros((T, n)), sd[None, :], f"{meth} at a point where the Jacobian vanishes, value {v}: state", 1e-9)
                    if meth == "filter":
                        kal.same(e, P + np.cumsum(a["Q"], axis=0), 10 * np.outer(sd, sd)[None], f"{meth} at a point where the Jacobian vanishes, value {v}: covariance", 1e-9)
                    st.traces += 1
                    st.transitions += T
    st.states.add(("blind", n, m, T, mode, tuple(sub)))


def predict(which, f, a, U, k, x, P):
    if which == "kf":
        return f.predict(Ak=a["A"][k], xk=x, Bk=a["B"][k], uk=U[k], Pk=P, Qk=a["Q"][k])
    return f.predict(xk=x, uk=U[k], Pk=P, Qk=a["Q"][k])


def ref_nodes(a):
    T = len(a["Z"])
    L = lambda v: v.tolist()
    steps = [lin.step(L(a["A"][k]), L(a["B"][k]), L(a["U"][k]), L(a["H"][k]), L(a["Q"][k]), L(a["R"][k]), L(a["Z"][k]), a["U"].shape[1]) for k in range(T)]
    return lin.Case(L(a["x0"]), L(a["P0"]), steps).nodes()


def singular(which, a, n, m, T, pat, k, st):
    """The innovation covariance of step k is exactly singular, in floating point too: must raise."""
    if pat in ("dup", "dup2", "negdup", "rowzero") and m < 2:
        st.skipped += 1
        return
    if pat in ("sum", "diff") and (m < 3 or n < 2):
        st.skipped += 1
        return
    if pat == "H0R0":
        a["H"][k] = 0
        a["R"][k] = 0
    elif pat == "P0R0":
        a["P0"][:] = 0
        a["Q"][:k + 1] = 0
        a["R"][k] = 0
    elif pat in ("dup", "dup2", "negdup"):
        # every number on the way to step k is a small integer, so the singularity is exact in floating point
        cfac = {"dup": 1.0, "dup2": 2.0, "negdup": -1.0}[pat]
        a["A"][:] = np.eye(n)
        a["P0"] = np.diag([1.0 + i for i in range(n)])
        a["Q"][:] = np.eye(n)
        a["H"][:k] = 0
        a["H"][k][0] = [1.0 + i % 2 for i in range(n)]
        a["H"][k][1] = cfac * a["H"][k][0]
        a["R"][k] = 0
        if m > 2:
            a["H"][k][2:] = 0
            a["R"][k][2:, 2:] = np.eye(m - 2)
    elif pat in ("sum", "diff"):      # the third channel is the sum (difference) of the first two: integers throughout
        a["A"][:] = np.eye(n)
        a["P0"] = np.eye(n)
        a["Q"][:] = np.eye(n)
        a["H"][:k] = 0
        h = a["H"][k]
        h[:] = 0
        h[0, 0] = 1
        h[1, n - 1] = 1
        h[2] = h[0] + h[1] if pat == "sum" else h[0] - h[1]
        a["R"][k] = np.diag([0.0] * 3 + [1.0] * (m - 3))
    elif pat == "rowzero":
        a["H"][k][0] = 0
        a["R"][k][0, :] = 0
        a["R"][k][:, 0] = 0
    elif pat == "P0dir":     # one state component exactly known and measured without noise
        a["A"][:] = np.eye(n)
        a["P0"] = np.diag([0.0] + [2.0] * (n - 1))
        a["Q"][:] = 0
        a["H"][k] = 0
        a["H"][k][0, 0] = 1.0
        for i in range(1, min(m, n)):
            a["H"][k][i, i] = 1.0
        R = np.eye(m)
        R[0, 0] = 0
        a["R"][k] = R
        for j in range(k):
            a["H"][j][:, 0] = 0
    U = controls(which, a)
    f = make(which, a)
    # the prediction the degenerate measurement meets, as computed
    b = {key: v[:k] if key in "ABHQRZ" else v for key, v in a.items()}
    x, P = a["x0"], a["P0"]
    if k:
        s, e = make(which, b).filter(Z=a["Z"][:k], U=U[:k])
        x, P = s[-1], e[-1]
    xp = predict(which, f, a, U, k, x, P)[0]
    for zkind in ("given", "predicted", "partly", "zero"):     # whatever was measured: also exactly the prediction
        Z = a["Z"].copy()
        if zkind == "predicted":
            Z[k] = a["H"][k] @ xp
        elif zkind == "partly":
            Z[k][0] = a["H"][k][0] @ xp
        elif zkind == "zero":
            Z[k] = 0
        for meth in ("filter", "smooth"):
            try:
                s, e = getattr(f, meth)(Z=Z, U=U)
            except Exception:
                st.count("refused")
                st.traces += 1
                st.outcomes.add(("refused", pat, n, m, k, zkind))
                continue
            raise kal.Violation(f"{meth}: the innovation covariance of step {k} is exactly singular ({pat}, measurement: {zkind}), but it returned {np.asarray(s)[k].tolist()}")
    st.transitions += 2 * (k + 1)
    st.states.add(("sing", which, pat, n, m, k))
