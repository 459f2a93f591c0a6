"""P17: every combination of lengths of the model sequences and the control series against the number of
observations: either an error, or every row is the estimate."""
import itertools

import numpy as np

from . import kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "standard filter: all lengths 0..T+1 of A,H,B,U,Q,R (B, U also None) for T=0..3 and <=2 sequences off for T=3; extended: all lengths of U,Q,R for T=0..4; filter and smooth; arrays and lists; single short sequences at T=5..65 and for 7 other sizes (n to 7); surplus to 1000 terms; control series with a missing (NaN) head or tail of every length; single lengths around 50..257 for series of 80, 130 and 300",
          "thorough": "all lengths for T=0..4 and T=0..8 extended; three sequences off for T=4"}
KEYS = ["A", "H", "B", "U", "Q", "R"]


def cases(tier):
    q = tier == "quick"
    for T in range(0, 5 if q else 9):
        for L in itertools.product(list(range(T + 2)), repeat=3):
            yield ["ekf", T, dict(zip(["U", "Q", "R"], L)), "array"]
            if T <= 3:
                yield ["ekf", T, dict(zip(["U", "Q", "R"], L)), "list"]
        for L in itertools.product(list(range(T + 2)), repeat=2):
            yield ["ekf", T, dict(zip(["U", "Q", "R"], (None,) + L)), "array"]
    for T in range(0, 4 if q else 5):
        opts = {k: list(range(T + 2)) + ([None] if k in "BU" else []) for k in KEYS}
        for L in itertools.product(*[opts[k] for k in KEYS]):
            yield ["kf", T, dict(zip(KEYS, L)), "array"]
            if T <= 1:
                yield ["kf", T, dict(zip(KEYS, L)), "list"]
    T = 3 if q else 4
    for ks in itertools.combinations(KEYS, 2 if q else 3):
        for L in itertools.product(list(range(T + 2)), repeat=len(ks)):
            yield ["kf", T, {**{k: T for k in KEYS}, **dict(zip(ks, L))}, "list"]
    for T in range(0, 4):       # every sequence covers the data, with any surplus
        for L in itertools.product(sorted({T, T + 1, 2 * T + 1, 2 * T + 5, 8 + T}), repeat=6 if T < 3 and not q else 3):
            LL = dict(zip(KEYS, L if len(L) == 6 else (L[0], L[1], L[0], L[2], L[1], L[2])))
            yield ["kf", T, LL, "array"]
            yield ["ekf", T, {k: LL[k] for k in "UQR"}, "array"]
    for T in (5, 8, 16, 33, 64, 65, 80, 130, 300):
        for k in KEYS:
            for l in sorted({0, 1, T // 2, T - 2, T - 1, T, T + 1, T + 7} | {x for x in (50, 63, 64, 65, 70, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257) if x < T}):
                yield ["kf", T, {**{x: T for x in KEYS}, k: l}, "array"]
                if k in "UQR":
                    yield ["ekf", T, {**{x: T for x in "UQR"}, k: l}, "array"]


    for n, m, p in ((1, 1, 1), (3, 2, 2), (4, 1, 1), (4, 4, 3), (5, 2, 1), (6, 1, 2), (7, 3, 1)):      # other sizes, one sequence off
        for T in (1, 2, 3, 5, 9):
            for k in KEYS:
                for l in sorted({0, 1, T // 2, T - 1, T, T + 1}):
                    for rep in ("array", "list"):
                        yield ["kf", T, {**{x: T for x in KEYS}, k: l}, rep, [n, m, p]]
                        if k in "UQR":
                            yield ["ekf", T, {**{x: T for x in "UQR"}, k: l}, rep, [n, m, p]]
    for T in (1, 2, 3, 4, 5, 9):      # controls missing for a stretch at the end (start) of the series given
        for l in range(1, T + 3):
            for h in range(1, l + 1):
                for tail in ("tail", "head"):
                    for size in ([2, 1, 1], [1, 1, 2], [3, 2, 2]):
                        for rep in ("array", "list"):
                            yield ["kf", T, {**{x: T for x in KEYS}, "U": l}, rep, size, [tail, h]]
                            yield ["ekf", T, {**{x: T for x in "UQR"}, "U": l}, rep, size, [tail, h]]
                            if T < 4 and l > T:
                                yield ["kf", T, {**{x: l for x in KEYS}, "U": l - 1}, rep, size, [tail, min(h, l - 1)]]
    for T in (0, 1, 2, 3, 5):      # far more model than data
        for extra in (16, 17, 40, 100, 257, 1000) + (() if q else (4096, 10000)):
            for ks in [[k] for k in KEYS] + [KEYS]:
                yield ["kf", T, {x: T + (extra if x in ks else 0) for x in KEYS}, "array"]
            for ks in [[k] for k in "UQR"] + ["UQR"]:
                yield ["ekf", T, {x: T + (extra if x in ks else 0) for x in "UQR"}, "array"]


_cache = {}


def full(which, T, size, surplus):
    """A model of T + surplus terms; the part beyond T + 8 repeats (it must not matter)."""
    key = (which, T, size, surplus)
    if key not in _cache:
        n, m, p = size
        if which == "kf":
            c = lin.build_hor(n, m, p, T + 8)
        else:
            c = nl.build(["nlhor", "quad", n, m, p, T + 8])
        a = c.arrays()
        if surplus > 8:
            a = {k: np.resize(v, (T + surplus,) + v.shape[1:]) if k in "ABHQRU" else v for k, v in a.items()}
        _cache[key] = (c, a)
    return _cache[key]


def expected(which, T, absent, size):
    """absent: the steps without control."""
    key = (which, T, absent, size, "e")
    if key not in _cache:
        n, m, p = size
        if which == "kf":
            c = lin.build_hor(n, m, p, T)
            c.steps = [lin.step(s.A, None, s.u, s.H, s.Q, s.R, s.z, s.p) if k in absent else s for k, s in enumerate(c.steps)]
            nodes = c.nodes()
            r = ref.rts(nodes)
        else:
            c = nl.build(["nlhor", "quad", n, m, p, T])
            c.us = [lin.C([0.0] * p) if k in absent else u for k, u in enumerate(c.us)]
            nodes = c.nodes()
            r = ref.ekf_rts(nodes)
        _cache[key] = (nodes, r)
    return _cache[key]


def run_case(desc, st):
    which, T, L, rep = desc[:4]
    size = tuple(desc[4]) if len(desc) > 4 else (2, 1, 1)
    c, a = full(which, T, size, max([8] + [l - T for l in L.values() if l is not None]))
    b = dict(a)
    for k, l in L.items():
        b[k] = None if l is None else (a[k][:l] if rep == "array" else [np.array(x) for x in a[k][:l]])
    Z = a["Z"][:T]
    # B=None is filled to A's length, U=None to the observations'
    eff = {k: (l if l is not None else (L["A"] if k == "B" else T)) for k, l in L.items()}
    covered = all(l >= T for l in eff.values())
    absent = frozenset(range(T) if L["U"] is None or L.get("B", 0) is None else ())
    if len(desc) > 5:
        end, h = desc[5]
        ix = range(L["U"] - h, L["U"]) if end == "tail" else range(h)
        b["U"] = a["U"][:L["U"]].copy()
        b["U"][ix] = np.nan
        if rep == "list":
            b["U"] = list(b["U"])
        absent = frozenset(k for k in ix if k < T)
    if which == "ekf" and L["U"] is None:
        # the callbacks of this model need numbers: let them treat an absent control as zero
        cb = {k: (lambda x, *u, o=o: o(x, *[np.zeros(size[2]) for _ in u])) for k, o in c.callbacks().items()}
    elif which == "ekf":
        cb = c.callbacks()
    f = kal.make_kf(b) if which == "kf" else nl.make_ekf(b, cb)
    for meth in ("filter", "smooth"):
        try:
            s, e = getattr(f, meth)(Z=Z, U=b["U"])
        except Exception as ex:
            if covered:
                raise kal.Violation(f"{meth}: lengths {L} cover all {T} observations, but it raised {type(ex).__name__}: {ex}")
            st.count("refused")
            st.outcomes.add(("refused", which, T, str(sorted((k, min(v, T)) for k, v in eff.items()))))
            st.traces += 1
            continue
        if not covered:
            raise kal.Violation(f"{meth}: lengths {L} do not cover {T} observations, but {np.shape(s)} rows were returned", rows=np.asarray(s).tolist())
        kal.shape_check(s, e, T, size[0], meth)
        if T:
            nodes, r = expected(which, T, absent, size)
            if meth == "filter":
                kal.check_filter(s, e, nodes, f"lengths {L}: filter")
            else:
                kal.check_smooth(s, e, r, f"lengths {L}: smooth")
        st.traces += 1
        st.transitions += T
    st.states.add((which, T, str(L), rep, size, str(desc[5:])))
