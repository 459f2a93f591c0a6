"""P10: the gain record. Reference gains over the numeric families, and a model of the record over all
operation sequences."""
import itertools

import numpy as np

from . import families, kal, lin, nl, ops, ref
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "single terms of extreme magnitude; all <=1 deviation histories n,m<=3 (7 modes) and nonlinear kinds, <=2 deviations for (1,1),(2,1), sizes to 17, late and repeated deviations, horizons to 129 and 5001; all sequences of 14 operations to depth 3 for 9 models; 6000 updates on one object; wide models over long horizons",
          "thorough": "n,m<=4, 6 shapes with <=2 deviations, horizons to 1025 and 5001; all sequences of 14 operations to depth 4 for 12 models; 140000 updates on one object"}


def cases(tier):
    q = tier == "quick"
    N = 3 if q else 4
    for d in families.extremes(2):
        yield ["kf", d]
    for d in families.dev0(N, N, 3):
        yield ["kf", d]
    for d in families.near([(1, 1, 1), (2, 1, 1), (2, 2, 1)], 3, exps=(-18,)):
        yield ["kf", d]
    for which in ("kf", "ekf"):      # updates with changing numbers of channels on one object
        for n in (1, 2, 3):
            for depth in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
                for ms in itertools.product((1, 2, 3, 4) if depth < 4 else (1, 2, 3), repeat=depth):
                    yield ["dims", which, n, list(ms)]
    for n, m in families.shapes(N, N):
        for kind in nl.KINDS:
            yield ["ekf", ["nl", kind, n, m, families.psize(n, m), 3, "gen", []]]
    for d in families.sizes(5 if q else 7):
        yield ["kf", d]
    for w in ops.worlds(tier):
        for depth in range(1, 4 if q else 5):
            for s in itertools.product(ops.OPS, repeat=depth):
                yield ["ops", list(w), list(s)]
    for d in families.dev1(N, N, 3):
        yield ["kf", d]
    for d in families.masks(T=2 if q else 3):
        yield ["kf", d]
    for d in families.coincidences("quick"):
        if len(d[2]) <= (2 if q else 3):
            yield ["kf", d]
    for d in nl.patterns(T=2 if q else 3):
        yield ["ekf", d]
    for d in nl.units(("mixed", "lin"), ((1, 1, 1), (2, 2, 2), (3, 2, 1)), (-60, -30, -10, -3, 3, 10, 30, 60)):
        yield ["ekf", d]
    for n, m in families.shapes(N, N):
        for dv in nl.ekf_deviations(n, m, families.psize(n, m), 3):
            yield ["ekf", ["nl", "mixed", n, m, families.psize(n, m), 3, "gen", [dv]]]
    for d in families.units([(1, 1, 1), (2, 2, 2), (3, 2, 1)], 3, [-60, -30, -10, 10, 30, 60]):
        yield ["kf", d]
    for d in families.dev2([(1, 1, 1), (2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 2, 2), (2, 3, 1)], 3):
        yield ["kf", d]
    for T in list(range(4, 41)) + [50, 64, 65, 100, 101, 128, 129] + ([] if q else [255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1024, 1025]):
        yield ["kf", ["hor", 2, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T]]


    for d in families.extended(q):
        yield ["kf", d]
    for d in nl.extended(q):
        yield ["ekf", d]
    for d in families.wider(q):
        yield ["kf", d]
    for d in nl.wider(q):
        yield ["ekf", d]
    for d in families.broad(q):
        yield ["kf", d]
    for d in nl.broad(q):
        yield ["ekf", d]
    for T in (1500, 5001):
        yield ["kf", ["hor", 1, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T]]
    for L in (1, 2, 100):       # a record of many thousand entries, from many short series or one long
        yield ["long", L, 6000 if q else 140000]


def long_case(L, N, st):
    """N updates on one object in series of L observations: entry i is the gain of update i (mod L)."""
    c = lin.build_hor(1, 1, 1, L)
    nodes = c.nodes()
    a = c.arrays()
    f = kal.make_kf(a)
    e = nl.make_ekf(a, dict(f=lambda x, u: a["A"][0] @ x, h=lambda x: a["H"][0] @ x, jacobian_A=lambda x, u: a["A"][0], jacobian_H=lambda x: a["H"][0]))
    for obj in (f, e):
        done = 0
        while done < N:
            obj.filter(Z=a["Z"], U=a["U"])
            done += L
            st.traces += 1
            if len(obj.kalman_gains) != done:
                raise kal.Violation(f"{len(obj.kalman_gains)} gains recorded after {done} updates")
        if obj is f:
            kal.check_gains(obj.kalman_gains[:L], nodes)
        own_arrays(obj.kalman_gains, a, f"{done} updates")
        first = [np.array(g) for g in obj.kalman_gains[:L]]
        for i, g in enumerate(obj.kalman_gains):
            if not np.array_equal(g, first[i % L]):
                raise kal.Violation(f"gain {i} of {done} is {np.asarray(g).tolist()}, that of the same update of the first series is {first[i % L].tolist()}")
        st.transitions += done
    st.states.add(("long", L, N))


def own_arrays(gains, given, what):
    """Every entry of the record is an array of its own: no other entry and no caller's array lies in the same memory."""
    spans = sorted([(*np.lib.array_utils.byte_bounds(np.asarray(g)), i) for i, g in enumerate(gains)] + [(*np.lib.array_utils.byte_bounds(v), k) for k, v in given.items() if v.size], key=lambda t: t[:2])
    for (a0, a1, i), (b0, b1, j) in zip(spans, spans[1:]):
        if b0 < a1 and (isinstance(i, int) or isinstance(j, int)):
            x, y = (gains[k] if isinstance(k, int) else given[k] for k in (i, j))
            if np.shares_memory(x, y):
                raise kal.Violation(f"{what}: recorded gain {i if isinstance(i, int) else j} shares memory with {j if isinstance(i, int) else i}")


def dims_case(which, n, ms, st):
    """One object, one series (and one single update) per number of channels: the whole record so far, after each."""
    obj, exp = None, []
    for m in ms:
        if which == "kf":
            c = lin.build(["dev", n, m, 1, 2, "gen", []])
            nodes = c.nodes()
            a = c.arrays()
            at = dict(A=a["A"], B=a["B"], H=a["H"])
        else:
            c = nl.build(["nl", "quad", n, m, 1, 2, "gen", []])
            nodes = c.nodes()
            a = c.arrays()
            at = c.callbacks()
        if not kal.usable(nodes, 2):
            st.skipped += 1
            return
        at.update(xk=a["x0"], Pk=a["P0"], Q=a["Q"], R=a["R"])
        if obj is None:
            obj = (kal.KalmanFilter if which == "kf" else kal.ExtendedKalmanFilter)(**at)
        for k, v in at.items():
            setattr(obj, k, v)
        S, E = obj.filter(a["Z"], a["U"])
        exp += nodes
        kal.check_gains(obj.kalman_gains, exp, f"gains after series with {ms} channels")
        xp, Pp = (np.array(ref.flt(v)) for v in (nodes[1].xp, nodes[1].Pp))
        obj.update(xk=xp, Pk=Pp, zk=a["Z"][1], Rk=a["R"][1], **({"Hk": a["H"][1]} if which == "kf" else {}))
        exp = exp + [nodes[1]]
        kal.check_gains(obj.kalman_gains, exp, f"gains after series and single updates with {ms} channels")
        st.transitions += 3
    st.traces += 1
    st.states.add(("dims", which, n, tuple(ms)))


def run_case(desc, st):
    which = desc[0]
    if which == "dims":
        return dims_case(*desc[1:], st)
    if which == "long":
        return long_case(desc[1], desc[2], st)
    if which == "ops":
        return ops.execute(tuple(desc[1]), desc[2], st, results=False, gains=True)
    d = desc[1]
    if which == "kf":
        c = lin.build(d)
        nodes = c.nodes()
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX:
                break
            good += 1
        c.steps, c.T = c.steps[:good], good
        nodes = nodes[:good]
        a = c.arrays() if good else None
        f = kal.make_kf(a) if good else None
    else:
        c = nl.build(d)
        nodes = ndomain(c, st)
        if nodes:
            a = c.arrays()
            f = nl.make_ekf(a, c.callbacks())
    if not nodes:
        st.skipped += 1
        return
    s, e = f.filter(Z=a["Z"], U=a["U"])
    kal.check_gains(f.kalman_gains, nodes)
    # smoothing runs one more set of updates and its backward pass records nothing; earlier entries stay
    before = [np.array(g) for g in f.kalman_gains]
    try:
        (ref.rts if which == "kf" else ref.ekf_rts)(nodes)
        ok = True
    except ref.Singular:
        ok = False
    if ok:
        f.smooth(Z=a["Z"], U=a["U"])
        kal.check_gains(f.kalman_gains, nodes + nodes, "gains after filter then smooth")
        for k, g in enumerate(before):
            if not np.array_equal(g, f.kalman_gains[k]):
                raise kal.Violation(f"smoothing altered recorded gain {k}")
    own_arrays(f.kalman_gains, {**a, "mean": s, "covariance": e}, "after filter and smooth")
    st.traces += 1
    st.transitions += 2 * c.T
    for nd in nodes:
        st.states.add(kal.state_key(nd))
