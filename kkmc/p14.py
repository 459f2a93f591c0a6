"""P14: equivariance. Every state/observation/control basis change of a finite set (permutations, sign flips,
shears, dense unimodular, power-of-two units), constant or alternating in time, and every common covariance factor."""
import functools
import itertools

import numpy as np

from . import families, kal, lin, nl, ref
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {"quick": "single terms of extreme magnitude; all basis changes of the set for state, observation and control separately and paired, for every mode n,m<=3 and every <=1 deviation of 6 shapes; both filters; covariance factors 2^{-300..300}; sizes to 10; late and repeated deviations; horizons to 65, 130 and 150; permutations for larger sizes; wide models; units 2^+-12, 2^+-24; models of 7 states or channels",
          "thorough": "n,m<=4; every <=1 deviation n,m<=3; <=2 deviations for (2,1); horizons to 129; covariance factors 2^{-300..300}"}


@functools.lru_cache(maxsize=None)
def changes(d):
    """[(name, T, T^-1)] exact dyadic pairs."""
    if d == 0:
        return [("id", np.zeros((0, 0)), np.zeros((0, 0)))]
    I = np.eye(d)
    out = []
    for p in itertools.permutations(range(d)):
        if list(p) != list(range(d)) and d <= 3:
            out.append((f"perm{p}", I[list(p)], I[list(p)].T))
    if d > 3:
        ps = [[(i + 1) % d for i in range(d)], list(range(d))[::-1]] + [[j if i == j + 1 else j + 1 if i == j else i for i in range(d)] for j in range(d - 1)]
        ps += [[d - 1, *range(1, d - 1), 0], sorted(range(d), key=lambda i: (i % 2, i)), sorted(range(d), key=lambda i: (i % 3, i))]
        out += [(f"perm{p}", I[p], I[p].T) for p in ps]
    for e in (-140, -60, -10, 1, 10, 60, 140):
        out.append((f"unit2^{e}", I * 2.0 ** e, I * 2.0 ** -e))
    for i in range(d):
        for e in (-30, 3, 30):
            if d > 1:
                D = np.ones(d)
                D[i] = 2.0 ** e
                out.append((f"unit[{i}]2^{e}", np.diag(D), np.diag(1 / D)))
        D = np.ones(d)
        D[i] = -1
        out.append((f"flip[{i}]", np.diag(D), np.diag(D)))
    for e in (12, 24):
        if d > 1:       # components in opposite extreme units
            D = 2.0 ** (e * (-1.0) ** np.arange(d))
            out.append((f"units+-2^{e}", np.diag(D), np.diag(1 / D)))
            out.append((f"units-+2^{e}", np.diag(1 / D), np.diag(D)))
    for i in range(d):
        for j in range(d):
            if i != j:
                E, F = I.copy(), I.copy()
                E[i, j], F[i, j] = 1, -1
                out.append((f"shear[{i},{j}]", E, F))
    if d > 1:
        T, S = I.copy(), I.copy()
        for i in range(d):
            j = (i + 1) % d
            E, F = I.copy(), I.copy()
            E[i, j], F[i, j] = (-1) ** i, -(-1) ** i
            T, S = E @ T, S @ F
        out.append(("dense", T, S))
    return out


def cases(tier):
    q = tier == "quick"
    N = 3 if q else 4
    for d in families.extremes(2, (1, 2), (-60, -30, 30, 60)):
        yield ["kf", d]
    for d in families.dev0(N, N, 3):
        if d[3] != 0:
            yield ["kf", d]
    for n, m in families.shapes(3, 3):
        for kind in nl.KINDS:
            yield ["ekf", ["nl", kind, n, m, families.psize(n, m), 3, "gen", []]]
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)) if q else families.shapes(3, 3):
        p = families.psize(n, m)
        for dv in lin.deviations(n, m, p, 3):
            yield ["kf", ["dev", n, m, p, 3, "gen", [dv]]]
        for dv in nl.ekf_deviations(n, m, p, 3):
            yield ["ekf", ["nl", "mixed", n, m, p, 3, "gen", [dv]]]
    for n, m in ((2, 2), (2, 3)):
        for code in range(2 ** (n * m)):
            yield ["ekf", ["nl", f"pH{code}", n, m, 1, 2 if q else 3, "gen", []]]
    for d in families.masks(T=2 if q else 3, whens=(-1,) if q else (-1, 1), limit=100 if q else 600):
        yield ["kf", d]
    if not q:
        for d in nl.patterns():
            yield ["ekf", d]
        for d in families.dev2([(2, 1, 1)], 3):
            yield ["kf", d]
    for d in families.extended(q):
        if d[4] == 40 and d[6][0][0] == 39 or d[4] != 40 and max(d[1:3]) <= 10:
            yield ["kf", d]
    for d in nl.extended(q):
        if d[5] == 40 and d[7][0][0] == 39 or d[5] != 40 and max(d[2:4]) <= 8:
            yield ["ekf", d]
    for d in families.wider(q, (6,), 97 if q else 11):
        # a variance falling by 2^20 in one update, in mixed extreme units, is beyond what a pivoting solver keeps exact
        if d[0] != "prod" or lin.prod_values(d[5])["P0"] != "big":
            yield ["kf", d]
    for d in nl.wider(q, ("mixed",), (6,)):
        if d[0] == "nlhor":
            yield ["ekf", d]
    for d in families.sizes(4 if q else 6):
        if max(d[1:3]) > 3:
            yield ["kf", d]
    for d in families.broad(q, 29 if q else 7):
        if (d[0] != "prod" or lin.prod_values(d[5])["P0"] != "big") and (d[0] != "dev" or max(d[1:4]) <= 7):
            yield ["kf", d]
    for d in nl.broad(q, 29 if q else 7):
        if d[0] != "nl" or max(d[2:5]) <= 7:
            yield ["ekf", d]
    for n, m in ((7, 2), (2, 7), (7, 7)):
        for mode in ("gen", "ti", "diag"):
            yield ["kf", ["dev", n, m, 1, 2, mode, []]]
            yield ["ekf", ["nl", "mixed", n, m, 1, 2, mode, []]]
    for T in (8, 16, 33, 64, 65, 130, 150) + (() if q else (100, 128, 129, 257)):
        yield ["kf", ["hor", 2, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 2, 1, 1, T]]


def run_case(desc, st):
    which, d = desc
    if which == "kf":
        c = lin.build(d)
        nodes = c.nodes()
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX / 100:
                break
            good += 1
        c.steps, c.T = c.steps[:good], good
        nodes = nodes[:good]
    else:
        c = nl.build(d)
        nodes = ndomain(c, st)
    if not nodes:
        st.skipped += 1
        return
    a = c.arrays()
    n, T, m, p = c.n, c.T, a["Z"].shape[1], a["U"].shape[1]
    try:
        r = ref.rts(nodes) if which == "kf" else ref.ekf_rts(nodes)
        smooth = r[2] <= kal.COND_MAX / 100
    except ref.Singular:
        smooth = False
    fs = (np.array([nd.sx for nd in nodes]), np.sqrt(np.array([nd.sc for nd in nodes])))
    scales = [fs] + ([(np.array(r[3]), np.sqrt(np.array(r[4])))] if smooth else [])
    base_cb = c.callbacks() if which == "ekf" else None

    def run(b, cb):
        f = kal.make_kf(b) if which == "kf" else nl.make_ekf(b, cb)
        out = [f.filter(Z=b["Z"], U=b["U"])]
        if smooth:
            out.append(f.smooth(Z=b["Z"], U=b["U"]))
        st.traces += len(out)
        st.transitions += T * len(out)
        return out, [np.array(g) for g in f.kalman_gains]

    base, gains = run(a, base_cb)

    def compare(out, g, Tk, Vi, cf, what):
        for w, (s, e) in enumerate(out):
            name = ("filter", "smooth")[w]
            kal.shape_check(s, e, T, n, name)
            for k in range(T):
                Tm, aT = Tk[k], np.abs(Tk[k])
                kal.same(s[k], Tm @ base[w][0][k], aT @ scales[w][0][k], f"{what}: {name} state, step {k}", 1e-8)
                sd = aT @ scales[w][1][k]
                kal.same(e[k], cf * (Tm @ base[w][1][k] @ Tm.T), cf * np.outer(sd, sd), f"{what}: {name} covariance, step {k}", 1e-8)
        for k, x in enumerate(g):
            kk = k % T
            kal.same(x, Tk[kk] @ gains[k] @ Vi, np.abs(Tk[kk]) @ kal.gain_scale(nodes[kk]) @ np.abs(Vi), f"{what}: gain {k}", 1e-8)
        if len(g) != len(gains):
            raise kal.Violation(f"{what}: {len(g)} gains versus {len(gains)}")
        st.states.add((repr(d), what))

    def transformed(Ts, V, W, what):
        """Ts: function step (-1..T-1) -> (T, Tinv)."""
        Vm, Vi = V
        Wm, Wi = W
        T0 = Ts(-1)[0]
        b = dict(a)
        b["x0"] = T0 @ a["x0"]
        b["P0"] = T0 @ a["P0"] @ T0.T
        b["Z"] = np.array([Vm @ z for z in a["Z"]])
        b["U"] = np.array([Wm @ u for u in a["U"]]).reshape(T, p)
        b["Q"] = np.array([Ts(k)[0] @ a["Q"][k] @ Ts(k)[0].T for k in range(T)])
        b["R"] = np.array([Vm @ R @ Vm.T for R in a["R"]])
        cb = None
        if which == "kf":
            b["A"] = np.array([Ts(k)[0] @ a["A"][k] @ Ts(k - 1)[1] for k in range(T)])
            b["B"] = np.array([Ts(k)[0] @ a["B"][k] @ Wi for k in range(T)]).reshape(T, n, p)
            b["H"] = np.array([Vm @ a["H"][k] @ Ts(k)[1] for k in range(T)])
        else:
            t, ti = Ts(0)
            o = base_cb
            cb = dict(f=lambda x, u: t @ o["f"](ti @ x, Wi @ u), h=lambda x: Vm @ o["h"](ti @ x),
                      jacobian_A=lambda x, u: t @ o["jacobian_A"](ti @ x, Wi @ u) @ ti, jacobian_H=lambda x: Vm @ o["jacobian_H"](ti @ x) @ ti)
        out, g = run(b, cb)
        compare(out, g, [Ts(k)[0] for k in range(T)], Vi, 1.0, what)

    I_n, I_m, I_p = (np.eye(n),) * 2, (np.eye(m),) * 2, (np.eye(p),) * 2
    small = T <= 8
    xs, zs, us = changes(n), changes(m), changes(p)
    if not small:
        xs, zs, us = xs[-3:], zs[-2:], us[-2:]
    for nm, t, ti in xs:
        transformed(lambda k: (t, ti), I_m, I_p, f"state {nm}")
        if which == "kf":
            transformed(lambda k: (t, ti) if k % 2 else I_n, I_m, I_p, f"state alternating {nm}")
    for nm, v, vi in zs:
        transformed(lambda k: I_n, (v, vi), I_p, f"observation {nm}")
    if p:
        for nm, w, wi in us:
            transformed(lambda k: I_n, I_m, (w, wi), f"control {nm}")
    for i, (nm, t, ti) in enumerate(xs):
        zn, v, vi = zs[i % len(zs)]
        un, w, wi = us[i % len(us)]
        transformed(lambda k: (t, ti), (v, vi), (w, wi), f"state {nm}, observation {zn}, control {un}")
    for e in (-300, -120, -60, -1, 1, 60, 120, 300) if small else (-1, 1):
        cf = 2.0 ** e
        b = {**a, "P0": a["P0"] * cf, "Q": a["Q"] * cf, "R": a["R"] * cf}
        out, g = run(b, base_cb)
        compare(out, g, [np.eye(n)] * T, np.eye(m), cf, f"covariances times 2^{e}")
