"""P19: steady state. Every time-invariant system of a finite set that is observable and controllable (exact rank
test), from every initial belief of a set, run to the Riccati fixed point."""
import functools
import itertools
from fractions import Fraction

import numpy as np

from . import kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {"quick": "all systems n=1 (A in 5, H in 3, Q in 3, R in 3 values), n=2 (9 transitions incl. unstable, rotating, defective x 4 observations x 3 process x 2 measurement noises), n=3 (4x3x2x1), n=4, 5 (2x2x2); 6 initial covariances, 3 initial means; T until the exact closed loop has contracted by 1e-14 (<=1200); runs of 40000 (n=1) and 15000 (n=2) and 6000 (n=3..6) steps; both filters; order of initial covariances at every step",
          "thorough": "same systems plus m=2 observations, T up to 20000"}


def systems(n, tier):
    if n == 1:
        As = [[[v]] for v in (1.0, 0.5, -0.75, 1.25, 2.0)]
        Hs = [[[v]] for v in (1.0, -2.0, 0.25)] + [[[1.0], [0.5]]]
        Qs = [[[v]] for v in (1.0, 0.0625, 16.0)]
    elif n == 2:
        As = [[[1.0, 1.0], [0.0, 1.0]], [[0.5, 0.25], [0.0, 0.75]], [[0.0, 1.0], [-1.0, 0.0]], [[1.25, 0.0], [0.5, 0.5]], [[0.5, 1.0], [0.0, 0.5]],
              [[1.0, 0.0], [0.25, 1.0]], [[0.0, 1.0], [0.25, 0.5]], [[-1.0, 0.5], [0.0, 0.5]], [[1.5, 0.25], [0.25, 0.75]]]
        Hs = [[[1.0, 0.0]], [[1.0, 1.0]], [[0.0, 1.0]], [[1.0, 0.0], [0.0, 1.0]]]
        Qs = [lin.I(2), [[0.25, 0.5], [0.5, 1.0]], lin.I(2, 0.0625)]
    elif n > 3:      # chains of n states, seen at one end or through a sum
        As = [[[0.75 if i == j else 0.5 if j == i + 1 else 0.125 if i == n - 1 and j == 0 else 0.0 for j in range(n)] for i in range(n)],
              [[(-0.5 if i % 2 else 0.5) if i == j else 0.25 if abs(i - j) == 1 else 0.0 for j in range(n)] for i in range(n)]]
        Hs = [[[1.0] + [0.0] * (n - 1)], [[1.0 if j in (0, i) else 0.0 for j in range(n)] for i in range(n // 2)]]
        Qs = [lin.I(n), [[1.0 / (1 + abs(i - j)) ** 2 if i != j else 1.5 for j in range(n)] for i in range(n)]]
    else:
        As = [[[1.0, 1.0, 0.5], [0.0, 1.0, 1.0], [0.0, 0.0, 1.0]], [[0.5, 0.25, 0.0], [0.0, 0.75, 0.5], [0.25, 0.0, 0.5]], [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.5, 0.0, 0.0]],
              [[1.25, 0.0, 0.0], [1.0, 0.5, 0.0], [0.0, 1.0, -0.5]]]
        Hs = [[[1.0, 0.0, 0.0]], [[0.0, 0.0, 1.0]], [[1.0, 0.0, 1.0], [0.0, 1.0, 0.0]]]
        Qs = [lin.I(3), [[0.25, 0.0, 0.0], [0.0, 0.0625, 0.0], [0.0, 0.0, 1.0]]]
    for A in As:
        for H in Hs:
            for Q in Qs:
                for r in (1.0, 0.0625, 16.0) if n == 1 else ((1.0, 0.0625) if n == 2 else (1.0,)):
                    yield A, H, Q, lin.I(len(H), r)


SLOW = [([[1.0]], [[1.0]], [[2.0 ** -20]], [[1.0]]), ([[1.0]], [[0.5]], [[2.0 ** -18]], [[4.0]]), ([[1.0, 0.0], [0.25, 0.75]], [[1.0, 1.0]], [[2.0 ** -16, 0.0], [0.0, 2.0 ** -16]], [[4.0]]),
        ([[1.0]], [[1.0]], [[2.0 ** -24]], [[1.0]]), ([[1.0, 1.0], [0.0, 1.0]], [[1.0, 0.0]], [[2.0 ** -30, 0.0], [0.0, 2.0 ** -36]], [[1.0]])]


def rank(M):
    M = [list(r) for r in M]
    rk, rows, cols = 0, len(M), len(M[0])
    for c in range(cols):
        piv = next((i for i in range(rk, rows) if M[i][c] != 0), None)
        if piv is None:
            continue
        M[rk], M[piv] = M[piv], M[rk]
        for i in range(rk + 1, rows):
            f = M[i][c] / M[rk][c]
            M[i] = [a - f * b for a, b in zip(M[i], M[rk])]
        rk += 1
    return rk


def cases(tier):
    for i in (0, 5, 20, 60):
        yield ["long", 1, i, 40000 if tier == "quick" else 300000]
    for i in (0, 9, 30):
        yield ["long", 2, i, 15000 if tier == "quick" else 100000]
    for n, i in ((3, 1), (3, 9), (4, 0), (4, 3), (5, 6), (6, 2)):
        yield ["long", n, i, 6000 if tier == "quick" else 40000]
    for i in range(len(SLOW)):      # slow systems: tiny gains, tens of thousands of steps to the steady state
        if tier != "quick" or i < 3:
            yield ["long", 0, i, 0]
    for n in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        for i, (A, H, Q, R) in enumerate(systems(n, tier)):
            yield [n, i, tier]


def riccati(A, H, Q, R):
    """Steady-state prior and posterior covariance by the doubling algorithm in 50-digit arithmetic."""
    n = len(A)
    At = ref.tr(A)
    G = ref.mm(ref.tr(H), ref.mm(ref.inv_spd(R)[0], H))
    a, g, h = At, G, Q
    for _ in range(60):
        W = ref.inv(ref.add(ref.eye(n), ref.mm(g, h)))
        a1 = ref.mm(a, ref.mm(W, a))
        g1 = ref.add(g, ref.mm(a, ref.mm(W, ref.mm(g, ref.tr(a)))))
        h1 = ref.add(h, ref.mm(ref.tr(a), ref.mm(h, ref.mm(W, a))))
        d = max(abs(x - y) for r, s in zip(h1, h) for x, y in zip(r, s))
        a, g, h = a1, g1, h1
        if d <= ref.D(10) ** -35:
            break
    else:
        raise ref.Singular
    Pp = h
    _, Pf, K, cond, _ = ref.update([ref.D(0)] * n, Pp, H, [ref.D(0)] * len(H), R)
    # it is a fixed point (self-check of the oracle)
    nxt = ref.add(ref.mm(A, ref.mm(Pf, At)), Q)
    if max(abs(x - y) for r, s in zip(nxt, Pp) for x, y in zip(r, s)) > ref.D(10) ** -20:
        raise AssertionError("oracle: not a Riccati fixed point")
    return Pp, Pf, K


def long_run(n, idx, T, st):
    """A very long series: at every step past the transient the covariance and gain are the steady ones, and two
    different initial beliefs give the same estimates."""
    A, H, Q, R = list(systems(n, "quick"))[idx] if n else SLOW[idx]
    slow, n = not n, len(A)
    m = len(H)
    Pp, Pf, K = (np.array(ref.flt(v)) for v in riccati(ref.dec(A), ref.dec(H), ref.dec(Q), ref.dec(R)))
    An, Hn = np.array(A), np.array(H)
    F = (np.eye(n) - K @ Hn) @ An
    rho = np.abs(np.linalg.eigvals(F)).max()
    if rho > 0.97 and not slow:
        raise AssertionError(f"pick a faster system for the long run ({rho})")
    t0 = int(40 / -np.log(max(rho, 1e-3))) + 10
    T = T or t0 + 2000
    k = np.arange(T)
    Z = np.stack([((k * (7 + 4 * i)) % 31 - 15) / 4.0 for i in range(m)], axis=1)
    TI = lambda M: np.broadcast_to(np.array(M, dtype=float), (T,) + np.shape(M))
    a = dict(A=TI(A), B=None, H=TI(H), Q=TI(Q), R=TI(R))
    cb = dict(f=lambda x, u: An @ x, h=lambda x: Hn @ x, jacobian_A=lambda x, u: An, jacobian_H=lambda x: Hn)
    sd = np.sqrt(np.diag(Pp))
    for which in ("kf", "ekf"):
        rows = []
        for x0, c in ((0.0, 1.0), (64.0, 16.0)):
            b = {**a, "x0": np.full(n, x0), "P0": np.eye(n) * c}
            f = kal.make_kf(b) if which == "kf" else nl.make_ekf(b, cb)
            s, e = kal.shape_check(*f.filter(Z=Z), T, n, "filter")
            if not (np.isfinite(s).all() and np.isfinite(e).all()):
                raise kal.Violation(f"{which}: not finite within {T} steps")
            kal.same(e[t0:], np.broadcast_to(Pf, (T - t0, n, n)), np.outer(sd, sd), f"{which}: covariance after {t0} steps versus the steady state", 1e-8)
            kal.same(np.array(f.kalman_gains[t0:]), np.broadcast_to(K, (T - t0, n, m)), 1 + np.abs(K), f"{which}: gain after {t0} steps", 1e-8)
            rows.append(s)
            st.traces += 1
            st.transitions += T
        kal.same(rows[0][t0:], rows[1][t0:], 64 + np.abs(rows[0]).max(), f"{which}: estimates from two initial beliefs after {t0} steps", 1e-8)
        # the data repeat with period 31, so do the estimates
        kal.same(rows[0][t0 + 31:], rows[0][t0:-31], 64 + np.abs(rows[0]).max(), f"{which}: estimates one data period apart", 1e-8)
    st.states.add(("long", n, idx, T))


def run_case(desc, st):
    if desc[0] == "long":
        return long_run(*desc[1:], st)
    n, idx, tier = desc
    A, H, Q, R = list(systems(n, tier))[idx]
    m = len(H)
    fA, fH, fQ = ref.frac(A), ref.frac(H), ref.frac(Q)
    O, Cm = [], []
    X, Y = fH, fQ
    for _ in range(n):
        O += X
        Cm += ref.tr(Y)
        X, Y = ref.mm(X, fA), ref.mm(fA, Y)
    if rank(O) < n or rank(Cm) < n:
        st.skipped += 1
        return
    Pp, Pf, K = (np.array(ref.flt(v)) for v in riccati(ref.dec(A), ref.dec(H), ref.dec(Q), ref.dec(R)))
    An, Hn, Qn, Rn = (np.array(v) for v in (A, H, Q, R))
    # closed loop of the estimation error
    F = (np.eye(n) - K @ Hn) @ An
    T, pw = 1, F.copy()
    lim = 1200 if tier == "quick" else 20000
    while np.abs(pw).max() > 1e-11 and T < lim:
        pw = F @ pw
        T += 1
    if T >= lim:
        st.count("too_slow")
        st.skipped += 1
        return
    growth = 1.0
    T = 2 * T + 5 if tier == "quick" else max(2 * T + 5, min(20000, 5000))
    v = {c: dict(l) for c, l in lin.variants(n, m, 0).items()}
    P0s = [lin.Zr(n, n), v["P0"]["tiny"], lin.default_init(n, "gen")[1], lin.I(n), lin.I(n, 4.0), v["P0"]["big"]]
    if n > 1:
        P0s += [v["P0"]["rank1"], v["P0"]["part"]]
    x0s = [np.zeros(n), np.array([8.0 * (-1) ** i for i in range(n)]), np.array([2.0 ** 12] * n)]
    Z = np.array([[lin.g(71, k, i) * 3 for i in range(m)] for k in range(T)])
    TI = lambda M: np.broadcast_to(np.array(M, dtype=float), (T,) + np.shape(M))
    a = dict(A=TI(A), B=None, H=TI(H), Q=TI(Q), R=TI(R), Z=Z)
    cb = dict(f=lambda x, u: An @ x, h=lambda x: Hn @ x, jacobian_A=lambda x, u: An, jacobian_H=lambda x: Hn)
    runs = {}
    sd = np.sqrt(np.diag(Pp))
    xs_inf = None
    for which in ("kf", "ekf"):
        for i, P0 in enumerate(P0s):
            for j, x0 in enumerate(x0s):
                b = {**a, "x0": x0, "P0": np.array(P0)}
                if j and i not in (0, 2, 5):
                    continue
                f = kal.make_kf(b) if which == "kf" else nl.make_ekf(b, cb)
                s, e = f.filter(Z=Z)
                s, e = kal.shape_check(s, e, T, n, "filter")
                what = f"{which}, initial covariance {i}, initial mean {j}"
                if not (np.isfinite(s).all() and np.isfinite(e).all()):
                    raise kal.Violation(f"{what}: not finite")
                # convergence of the covariance
                kal.same(e[-1], Pf, np.outer(sd, sd), f"{what}: covariance after {T} steps versus the steady state", 1e-8)
                kal.same(f.kalman_gains[-1], K, 1 + np.abs(K), f"{what}: gain after {T} steps", 1e-8)
                runs[which, i, j] = (s, e)
                st.traces += 1
                st.transitions += T
                st.states.add((n, idx, i, j, which))
        # forgetting the start
        s0 = runs[which, 0, 0][0]
        mag = np.abs(s0[-3:]).max() + 1
        for (w, i, j), (s, e) in runs.items():
            if w == which:
                kal.same(s[-1], s0[-1], mag + 2.0 ** 12 * (j == 2) + 8 * (j == 1), f"{which}: last estimate from initial belief ({i},{j}) versus (0,0)", 1e-7)
        # a larger initial covariance is never below at any step
        for i, k in itertools.product(range(len(P0s)), repeat=2):
            D = np.array(P0s[k]) - np.array(P0s[i])
            if i != k and np.linalg.eigvalsh(D)[0] >= 0:
                ei, ek = runs[which, i, 0][1], runs[which, k, 0][1]
                big = np.maximum(np.abs(P0s[k]).max(), 1) if k == 5 else 1.0
                S0 = Hn @ (An @ np.array(P0s[k]) @ An.T + Qn) @ Hn.T + Rn
                s0 = np.sqrt(np.diag(S0))
                big *= max(1.0, np.linalg.cond(S0 / np.outer(s0, s0)))
                for t in list(range(min(T, 40))) + [T - 1]:
                    scale = np.sqrt(np.maximum(np.diag(ek[t]), sd ** 2 * 1e-3))
                    E = (ek[t] - ei[t]) / np.outer(scale, scale)
                    w = np.linalg.eigvalsh((E + E.T) / 2)[0]
                    if w < -1e-8 * (1 + 1e-6 * big / scale.min() ** 2):
                        raise kal.Violation(f"{which}: initial covariance {k} >= {i}, but the covariance of step {t} is smaller in some direction ({w:.3g})")
                st.count("monotonicity_pairs")
