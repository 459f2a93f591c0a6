"""P06: causality. Every cut point, several replacements of everything after it; every truncation;
surplus model terms, also undefined ones."""
import itertools

import numpy as np

from . import families, kal, lin, nl, ref
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 32
BOUNDS = {"quick": "single terms of extreme magnitude; histories with <=1 deviation, T=4, n,m<=2 (all modes) + horizons to 40, larger sizes, products and wide models; every cut; 6 replacement tails; surplus model terms as given, NaN, infinite, zero; both filters; a gross or missing-like value late in series of 120 and 150",
          "thorough": "n,m<=3, T=5, <=2 deviations for two shapes, horizons to 130; every cut; 6 replacement tails; surplus model terms as given, NaN, infinite, zero; both filters"}
TAILS = ["trunc", "nan", "inf", "huge", "other", "zeroR", "surplus"]
SURPLUS = [None, np.nan, np.inf, 0.0]


def cases(tier):
    q = tier == "quick"
    N, T = (2, 4) if q else (3, 5)
    for d in families.extremes(2, (3,)):
        yield ["kf", d]
    for d in families.dev0(3, 3, T):
        yield ["kf", d]
    for n, m in families.shapes(3, 3):
        for kind in nl.KINDS:
            yield ["ekf", ["nl", kind, n, m, 1 + (n + m) % 2, T, "gen", []]]
    for d in families.dev1(N, N, T, lin.MODES if q else None):
        yield ["kf", d]
    for n, m in families.shapes(N, N):
        p = 1 + (n + m) % 2
        for dv in nl.ekf_deviations(n, m, p, T):
            for kind in ("mixed", "quad"):
                yield ["ekf", ["nl", kind, n, m, p, T, "gen", [dv]]]
    for shp in ((1, 1, 1), (2, 2, 1)) if q else ((1, 1, 1), (2, 1, 1), (2, 2, 1)):      # longer runs with one special term
        for d in lin.deviations(*shp, 6):
            if d[0] in ((-1, 0, 2, 5) if q else (-1, 0, 1, 2, 3, 4, 5)):
                yield ["kf", ["dev", *shp, 12, "gen", [d]]]
    for T in list(range(6, 40)) + [64, 65, 100, 128, 129] + ([] if q else list(range(40, 131)) + [256, 257, 512]):
        yield ["kf", ["hor", 2, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T]]
    for n, m in ((4, 2), (2, 4), (5, 5), (4, 1), (1, 4), (6, 3)):
        yield ["kf", ["hor", n, m, 1, 7]]
        yield ["kf", ["dev", n, m, 3, 6, "ti", []]]
        for kind in ("quad", "mixed"):
            yield ["ekf", ["nlhor", kind, n, m, 1, 7]]
    for shp in ((1, 1, 1), (2, 1, 1), (2, 2, 1)):
        for code in range(0, 648, 1 if shp[1:] == (1, 1) else 5):
            yield ["ekf", ["nl", "mixed", *shp, 4, "gen", code]]
        for d in families.products([shp], 4, 1 if shp == (1, 1, 1) else 5):
            yield ["kf", d]
    for d in families.extended(q):
        if d[4] != 40:
            yield ["kf", d]
    for d in nl.extended(q):
        if d[5] != 40:
            yield ["ekf", d]
    for d in families.wider(q, (12,), 11):
        yield ["kf", d]
    for d in nl.wider(q, ("mixed",), (12,)):
        if d[0] == "nlhor" or not q:
            yield ["ekf", d]
    for d in families.broad(q, 5 if q else 1):
        yield ["kf", d]
    for d in nl.broad(q, 5 if q else 1):
        yield ["ekf", d]
    for d in families.surprises([(1, 1, 1), (2, 1, 1)], (120, 150) if q else (120, 150, 300), ("ti",)):      # one gross value late in a long series
        yield ["kf", d]
    for k in (75, 149):
        for v in ("zero", "neg", "tiny"):
            yield ["ekf", ["nl", "mixed", 1, 1, 1, 150, "ti", [[k, "z", v]]]]
    for T in (513, 2049):
        yield ["kf", ["hor", 1, 1, 1, T]]
        yield ["ekf", ["nlhor", "quad", 1, 1, 1, T]]
    if not q:
        for d in families.dev2([(1, 1, 1), (2, 1, 1)], 4):
            yield ["kf", d]


def replace_tail(a, k, tail, keys):
    """Everything after step k replaced. Returns arrays (same length unless truncated)."""
    b = {x: v.copy() for x, v in a.items()}
    if tail == "trunc":
        b["Z"] = b["Z"][:k + 1]
        return b
    for key in keys:
        v = b[key]
        if tail == "nan":
            v[k + 1:] = np.nan if key in ("Z", "U", "H", "A") else v[k + 1:]
        elif tail == "inf":
            v[k + 1:] = np.inf if key in ("Z",) else v[k + 1:]
        elif tail == "huge":
            v[k + 1:] = v[k + 1:] * (1e8 if key in ("Z", "U", "Q") else 1)
        elif tail == "other":
            v[k + 1:] = v[k + 1:][::-1] * (-0.5 if key in ("Z", "U", "A", "H", "B") else 2.0)
        elif tail == "zeroR":
            if key in ("A", "H"):
                v[k + 1:] = 0.0
    return b


def run_case(desc, st):
    which, d = desc
    if which == "kf":
        c = lin.build(d)
        nodes = c.nodes()
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX:
                break
            good += 1
        c.steps, c.T = c.steps[:good], good
        nodes = nodes[:good]
        if not good:
            st.skipped += 1
            return
        a = c.arrays()
        keys = ["A", "B", "H", "Q", "R", "Z", "U"]
        make = lambda b: kal.make_kf(b)
    else:
        c = nl.build(d)
        nodes = ndomain(c, st)
        if not nodes:
            st.skipped += 1
            return
        a = c.arrays()
        keys = ["Q", "R", "Z", "U"]
        cb = c.callbacks()
        make = lambda b: nl.make_ekf(b, cb)
    T = c.T
    base_s, base_e = make(a).filter(Z=a["Z"], U=a["U"])
    kal.shape_check(base_s, base_e, T, c.n, "filter")
    sx = np.array([nd.sx for nd in nodes])
    sc = kal.cov_scale(np.array([nd.sc for nd in nodes]))
    cuts = range(T) if T <= 40 else [0, 1, T // 2, T - 2, T - 1]
    for k in cuts:
        for tail in TAILS[:6] if T <= 40 else ("trunc", "other", "nan", "inf", "huge"):
            b = replace_tail(a, k, tail, keys)
            try:
                s, e = make(b).filter(Z=b["Z"], U=b["U"])
            except np.linalg.LinAlgError:
                if tail == "trunc":
                    raise
                st.count("tail_refused")   # the replaced future itself is degenerate: no rows to compare
                continue
            kal.same(np.asarray(s)[:k + 1], base_s[:k + 1], sx[:k + 1], f"cut after step {k}, tail {tail}: state", 1e-10)
            kal.same(np.asarray(e)[:k + 1], base_e[:k + 1], sc[:k + 1], f"cut after step {k}, tail {tail}: covariance", 1e-10)
            if tail == "trunc":
                kal.shape_check(s, e, k + 1, c.n, f"truncation to {k + 1}")
            st.traces += 1
            st.transitions += k + 1
            st.count("tail_" + tail)
    # surplus model terms: smoothing/filtering a prefix of Z with the full model == with the cut model
    if T >= 2 and T <= 40:
        for k in range(T):
            cut = {x: (v[:k + 1] if x in keys else v) for x, v in a.items()}
            ok = True
            try:
                r = ref.rts(nodes[:k + 1]) if which == "kf" else ref.ekf_rts(nodes[:k + 1])
                ok = r[2] <= kal.COND_MAX
            except ref.Singular:
                ok = False
            c1, c2 = make(cut).filter(Z=cut["Z"], U=cut["U"])
            if ok:
                s2, e2 = make(cut).smooth(Z=cut["Z"], U=cut["U"])
            for fill in SURPLUS if T <= 12 else SURPLUS[:2]:
                # surplus terms: as in the full model, or undefined
                full = {x: v.copy() for x, v in a.items()}
                if fill is not None:
                    if k == T - 1:
                        continue
                    for x in keys:
                        if x != "Z":
                            full[x][k + 1:] = fill
                what = f"the first {k + 1} observations with surplus model terms{'' if fill is None else f' set to {fill}'}"
                f1, g1 = make(full).filter(Z=a["Z"][:k + 1], U=full["U"])
                kal.shape_check(f1, g1, k + 1, c.n, f"filter prefix {k + 1}")
                kal.same(f1, c1, sx[:k + 1], f"filtering {what}: state", 1e-10)
                kal.same(g1, c2, sc[:k + 1], f"filtering {what}: covariance", 1e-10)
                if not ok:
                    continue
                s1, e1 = make(full).smooth(Z=a["Z"][:k + 1], U=full["U"])
                kal.shape_check(s1, e1, k + 1, c.n, f"smooth prefix {k + 1}")
                kal.same(s1, s2, np.array(r[3]), f"smoothing {what}: state", 1e-9)
                kal.same(e1, e2, kal.cov_scale(np.array(r[4])), f"smoothing {what}: covariance", 1e-9)
            if not ok:
                continue
            st.traces += 1
            st.count("surplus_smooth")
    for nd in nodes:
        st.states.add(kal.state_key(nd))
