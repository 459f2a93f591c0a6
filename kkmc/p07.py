"""P07: stop/resume and online driving. Every composition of the series into parts, every part either a
batch run of a fresh object, or predict/update by hand; compared with one uninterrupted run."""
import itertools

import numpy as np

from . import families, kal, lin, nl
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {"quick": "single terms of extreme magnitude; all compositions of T=5 x {batch, online} per part for n,m<=3, all modes/kinds; all compositions of T=3 for every <=1 deviation of 3 shapes; every single cut and every fixed part length for horizons to 64, wide models over long horizons",
          "thorough": "all compositions of T=7 for n,m<=2 and of T=6 for n,m<=4; T=4 for every <=1 deviation of n,m<=3; every cut of horizons to 257"}


def cases(tier):
    q = tier == "quick"
    for T, N in [(5, 3)] if q else [(5, 4), (6, 3), (7, 2)]:
        for n, m in families.shapes(N, N):
            for mode in lin.MODES:
                yield ["kf", ["dev", n, m, families.psize(n, m), T, mode, []], "all"]
            for kind in nl.KINDS:
                yield ["ekf", ["nl", kind, n, m, families.psize(n, m), T, "gen", []], "all"]
    for shp in [(1, 1, 1), (2, 1, 1), (2, 2, 2)] if q else [(n, m, 2) for n, m in families.shapes(3, 3)]:
        T = 3 if q else 4
        for d in lin.deviations(*shp, T):
            yield ["kf", ["dev", *shp, T, "gen", [d]], "all"]
        for d in nl.ekf_deviations(*shp, T):
            yield ["ekf", ["nl", "mixed", *shp, T, "gen", [d]], "all"]
    for T in list(range(6, 34)) + [50, 64, 65, 100, 128, 129] + ([] if q else [200, 256, 257]):
        yield ["kf", ["hor", 2, 1, 1, T], "cuts"]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T], "cuts"]
        if T < (24 if q else 130):
            yield ["ekf", ["nlhor", "mixed", 2, 1, 1, T], "cuts"]
            yield ["ekf", ["nlhor", "lin", 2, 2, 1, T], "cuts"]
            yield ["kf", ["hor", 3, 2, 1, T], "cuts"]
    for d in families.dev2([(1, 1, 1), (2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 2)], 2 if q else 3):
        yield ["kf", d, "cuts"]
    for shp in ((1, 1, 1), (2, 1, 1)) if q else ((1, 1, 1), (2, 1, 1), (2, 2, 1)):
        ds = nl.ekf_deviations(*shp, 2)
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                if ds[i][:2] != ds[j][:2]:
                    yield ["ekf", ["nl", "mixed", *shp, 2, "gen", [ds[i], ds[j]]], "cuts"]
    for d in families.extremes(2, (2, 3)):
        yield ["kf", d, "cuts"]
    for d in families.near([(2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 2)], 3, exps=(-18,)):
        yield ["kf", d, "cuts"]
    for d in families.extended(q):
        if d[4] != 40 or d[6][0][0] == 39:
            yield ["kf", d, "cuts"]
    for d in nl.extended(q):
        if d[5] != 40 or d[7][0][0] == 39:
            yield ["ekf", d, "cuts"]
    for d in families.broad(q, 2 if q else 1):
        yield ["kf", d, "cuts"]
    for d in nl.broad(q, 2 if q else 1):
        yield ["ekf", d, "cuts"]
    for d in families.wider(q, (9, 17), 11):
        yield ["kf", d, "cuts"]
    for d in nl.wider(q, ("quad", "mixed"), (9, 17)):
        yield ["ekf", d, "cuts"]
    for d in families.coincidences("quick"):
        if len(d[2]) == 2 or (not q and len(d[2]) == 3):
            yield ["kf", d, "cuts"]


def plans(T, how):
    if how == "all":
        for cuts in itertools.product((0, 1), repeat=T - 1):
            parts, start = [], 0
            for k, c in enumerate(cuts):
                if c:
                    parts.append((start, k + 1))
                    start = k + 1
            parts.append((start, T))
            for modes in itertools.product("BO", repeat=len(parts)):
                yield [(a, b, md) for (a, b), md in zip(parts, modes)]
    else:
        for k in range(1, T):
            yield [(0, k, "B"), (k, T, "B")]
        for L in range(1, T):
            cuts = list(range(0, T, L)) + [T]
            yield [(a, b, "BO"[i % 2]) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))]
            yield [(a, b, "CB"[i % 2]) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))]
        yield [(0, T, "O")]
        yield [(k, k + 1, "B") for k in range(T)]
    yield [(0, T, "C")]     # C: online, every argument in an array of its own
    yield [(0, T, "F")]     # F: online, every argument in the caller's buffer for it, refilled for every call
    if T > 2:
        yield [(0, T // 2, "F"), (T // 2, T - 1, "C"), (T - 1, T, "F")]


class Buffers:
    """One buffer per argument, refilled for every call."""

    def __init__(self):
        self.b = {}

    def __call__(self, v, name):
        b = self.b.get(name)
        if b is None or np.shape(b) != np.shape(v) or b.dtype != np.asarray(v).dtype:
            b = self.b[name] = np.array(v)
        else:
            b[...] = v
        return b


def gap_plans(T):
    """Online driving in which the steps i..j-1 are only predicted (their observations never arrived)."""
    for i in range(T if T <= 12 else 3):
        for j in sorted({i + 1, i + 2, i + 3, T}):
            if j <= T:
                yield i, j


def gap_run(which, a, T, i, j, obj, fresh, tail):
    """Drive by hand, predicting only for k in [i, j). obj(): the object each call is made on. tail "B": what follows the gap
    is a batch run of a fresh object."""
    x, P, rows = a["x0"], a["P0"], []
    for k in range(T):
        if tail == "B" and k == j:
            b = {q: (v[j:T] if q in (["A", "B", "H", "Q", "R"] if which == "kf" else ["Q", "R"]) else v) for q, v in a.items()}
            b["x0"], b["P0"] = x, P
            S, E = fresh(b).filter(Z=a["Z"][j:T], U=a["U"][j:T])
            return rows + [(S[r], E[r]) for r in range(T - j)]
        if which == "kf":
            x, P = obj().predict(Ak=a["A"][k], xk=x, Bk=a["B"][k], uk=a["U"][k], Pk=P, Qk=a["Q"][k])
            if not i <= k < j:
                x, P = obj().update(Hk=a["H"][k], xk=x, Pk=P, zk=a["Z"][k], Rk=a["R"][k])
        else:
            x, P = obj().predict(xk=x, uk=a["U"][k], Pk=P, Qk=a["Q"][k])
            if not i <= k < j:
                x, P = obj().update(xk=x, Pk=P, zk=a["Z"][k], Rk=a["R"][k])
        rows.append((x, P))
    return rows


def gap_check(which, a, T, make, st):
    for i, j in gap_plans(T):
        ref = gap_run(which, a, T, i, j, lambda: make(a), make, "O")
        one = make(a)
        runs = {"by hand on one object": gap_run(which, a, T, i, j, lambda: one, make, "O")}
        if j < T:
            runs["by hand, then a batch run"] = gap_run(which, a, T, i, j, lambda: one, make, "B")
        sx = sc = 1.0
        for k in range(T):
            sx = max(sx, float(np.max(np.abs(ref[k][0]))))
            sc = max(sc, float(np.max(np.abs(ref[k][1]))))
            if not (sx < 1e9 and sc < 1e9):
                break
            for name, rows in runs.items():
                lab = f"steps {i}..{j - 1} only predicted, {name}, against a fresh object for every call, step {k}"
                kal.same(rows[k][0], ref[k][0], sx, lab + ": state", 1e-8)
                kal.same(rows[k][1], ref[k][1], sc, lab + ": covariance", 1e-8)
        st.traces += len(runs)
        st.transitions += T * len(runs)


def run_case(desc, st):
    which, d, how = desc
    if which == "kf":
        c = lin.build(d)
        nodes = c.nodes()
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX:
                break
            good += 1
        c.steps, c.T = c.steps[:good], good
        nodes = nodes[:good]
        keys = ["A", "B", "H", "Q", "R"]
    else:
        c = nl.build(d)
        nodes = ndomain(c, st)
        keys = ["Q", "R"]
    if len(nodes) < 1:
        st.skipped += 1
        return
    a = c.arrays()
    T, n = c.T, c.n
    cb = c.callbacks() if which == "ekf" else None
    make = (lambda b: kal.make_kf(b)) if which == "kf" else (lambda b: nl.make_ekf(b, cb))
    whole = make(a)
    S, E = whole.filter(Z=a["Z"], U=a["U"])
    kal.shape_check(S, E, T, n, "filter")
    sx = np.array([nd.sx for nd in nodes])
    sc = kal.cov_scale(np.array([nd.sc for nd in nodes]))
    tol = max(1e-11, kal.tol_for(nodes[-1].kap) / 10)
    for plan in plans(T, how):
        x, P = a["x0"], a["P0"]
        s, e, fill = np.empty((T, n)), np.empty((T, n, n)), Buffers()
        for i, j, md in plan:
            if md == "B":
                b = {k: (v[i:j] if k in keys else v) for k, v in a.items()}
                b["x0"], b["P0"] = x, P
                s[i:j], e[i:j] = make(b).filter(Z=a["Z"][i:j], U=a["U"][i:j])
                x, P = s[j - 1], e[j - 1]
            else:
                own = (lambda v, name: np.array(v)) if md == "C" else fill if md == "F" else lambda v, name: v
                for k in range(i, j):
                    if which == "kf":
                        xp, Pp = whole.predict(Ak=own(a["A"][k], "A"), xk=own(x, "x"), Bk=own(a["B"][k], "B"), uk=own(a["U"][k], "u"), Pk=own(P, "P"), Qk=own(a["Q"][k], "Q"))
                        x, P = whole.update(Hk=own(a["H"][k], "H"), xk=own(xp, "xp"), Pk=own(Pp, "Pp"), zk=own(a["Z"][k], "z"), Rk=own(a["R"][k], "R"))
                    else:
                        xp, Pp = whole.predict(xk=own(x, "x"), uk=own(a["U"][k], "u"), Pk=own(P, "P"), Qk=own(a["Q"][k], "Q"))
                        x, P = whole.update(xk=own(xp, "xp"), Pk=own(Pp, "Pp"), zk=own(a["Z"][k], "z"), Rk=own(a["R"][k], "R"))
                    s[k], e[k] = x, P
        kal.same(s, S, sx, f"parts {plan}: state", tol)
        kal.same(e, E, sc, f"parts {plan}: covariance", tol)
        st.traces += 1
        st.transitions += T
    if T > 1 and how == "all" or T in (2, 3, 6, 12, 33):
        gap_check(which, a, T, make, st)
    for nd in nodes:
        st.states.add(kal.state_key(nd))
