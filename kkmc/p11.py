"""P11: presence patterns of the control term. Every per-step combination of control-input state and
control-matrix state, every omission form, every element type, against the reference."""
import itertools

import numpy as np

from . import families, kal, lin, ref

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "per step {u: value, zero, first-only, NaN, tiny} x {B: value, zero, part-zero, NaN}: all patterns of T=3 for (n,m,p)=(1,1,1),(2,1,2), T=2 for (2,2,1),(3,1,3); omission forms x element types; predict with every None/NaN combination; partial NaN in every position; every mixture of values, NaN and infinities in one step's control, infinite control matrices; controls that start, stop, come in bursts or pause anywhere in series to 260; on/off patterns of 4 to 9 controls",
          "thorough": "all patterns of T=3 for five shapes (p<=3), T=4 for (1,1,1); all omission forms x element types x shapes; partial NaN in every position and step"}
US = ["val", "zero", "first", "nan", "tiny"]
BS = ["val", "zero", "part", "nan"]
ABSENT = ["None", "nan_all", "omit"]
UT = ["f64", "f32", "int64", "int32", "int8", "uint8", "bool", "listf"]
ZT = ["f64", "f32", "int64", "int32", "int8", "uint8", "bool", "list", "tuple"]


def cases(tier):
    q = tier == "quick"
    per = list(itertools.product(range(len(US)), range(len(BS))))
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3)):
        for p in (1, 2, 3):
            yield ["predict", n, m, p]
            yield ["partial", n, m, p, 3]
            yield ["infinite", n, m, p, 3]
            for zt in ZT:
                for at in ("f64", "int64", "f32", "bool", "listf"):
                    for ab in ("U", "B", "UB", "none"):
                        yield ["dtype", n, m, p, zt, at, ab]
    for T in (1, 2):
        for pat in itertools.product(per, repeat=T):
            for shp in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 3)):
                yield ["pat", *shp, [list(x) for x in pat]]
    for pat in itertools.product(per, repeat=3):
        for shp in ((1, 1, 1), (2, 1, 2)) if q else ((1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 3), (1, 2, 2)):
            yield ["pat", *shp, [list(x) for x in pat]]
    if not q:
        for pat in itertools.product(per, repeat=4):
            if all(x[0] != 4 for x in pat):
                yield ["pat", 1, 1, 1, [list(x) for x in pat]]
    for n, m, p in ((1, 1, 1), (2, 1, 2), (1, 2, 3), (2, 2, 3), (3, 1, 2)):
        for ut in UT:
            for bt in UT:
                if not (ut == bt == "bool"):      # a boolean matrix times a boolean vector is not an arithmetic product in numpy
                    for code in range(2 ** p):
                        yield ["utype", n, m, p, ut, bt, code]
    for n, m, p in ((2, 1, 4), (2, 1, 5), (1, 1, 6), (3, 2, 7), (2, 2, 9)):      # many controls
        for pat in itertools.product(per, repeat=2):
            if pat[0] <= pat[1] or pat[0][0] == 0:
                yield ["pat", n, m, p, [list(x) for x in pat]]
        for on in list(itertools.product((0, 1), repeat=p) if p < 7 else [[int(i == j) for i in range(p)] for j in range(p)] + [[int(i != j) for i in range(p)] for j in range(p)] + [[int(i >= j) for i in range(p)] for j in range(p)] + [[int(i < j) for i in range(p)] for j in range(p)]):
            yield ["onoff", n, m, p, list(on)]
    for d in families.masks("Bu"):      # every zero pattern of the control matrix, every zero/sign pattern of the control
        yield ["mask", d]
    for T in list(range(1, 21)) + [33, 64, 65, 100, 128, 129]:
        for k in sorted({0, 1, T // 2, T - 2, T - 1} & set(range(T))):
            for one in ("u", "B", "uonly", "Bonly"):
                yield ["sparse", 2, 1, 1, T, k, one]
    for T in (33, 70, 130, 260):      # controls that start or stop late, come in bursts, or pause
        for k in sorted({1, 10, 31, 32, 49, 50, 59, 60, 63, 64, 65, 99, 100, 127, 128, 129, T // 2, T - 2, T - 1} & set(range(T))):
            for off in range(1, len(US)):
                for way in ("from", "until", "burst", "pause"):
                    yield ["run", 2, 1, 1, T, k, way, off]


def uval(name, p, base):
    return {"val": base, "zero": [0.0] * p, "first": [base[0] or 1.0] + [0.0] * (p - 1), "nan": None, "tiny": [2.0 ** -40] * p}[name]


def bval(name, n, p, base):
    if name == "part":   # some rows zero
        return [[v if i == n - 1 and j == p - 1 else 0.0 for j, v in enumerate(r)] for i, r in enumerate([[x or 1.0 for x in r] for r in base])]
    return {"val": base, "zero": lin.Zr(n, p), "nan": None}[name]


def pattern_case(n, m, p, pat):
    x0, P0 = lin.default_init(n, "gen")
    st = []
    for k, (iu, ib) in enumerate(pat):
        t = lin.default_terms(n, m, p, k, "gen")
        st.append(lin.step(t["A"], bval(BS[ib], n, p, t["B"]), uval(US[iu], p, t["u"]), t["H"], t["Q"], t["R"], t["z"], p))
    return lin.Case(x0, P0, st)


def check_both(c, a, st, what, U="given", B="given"):
    nodes = c.nodes()
    if not kal.usable(nodes, c.T):
        st.skipped += 1
        return
    kw = dict(Z=a["Z"])
    if U != "omit":
        kw["U"] = a["U"]
    f = kal.make_kf(a)
    s, e = f.filter(**kw)
    kal.shape_check(s, e, c.T, c.n, what)
    kal.check_filter(s, e, nodes, what + " filter")
    r = ref.rts(nodes)
    if r[2] <= kal.COND_MAX:
        s, e = f.smooth(**kw)
        kal.check_smooth(s, e, r, what + " smooth")
    st.traces += 2
    st.transitions += 3 * c.T - 1
    for nd in nodes:
        st.states.add(kal.state_key(nd))


def run_case(desc, st):
    kind = desc[0]
    if kind == "pat":
        _, n, m, p, pat = desc
        c = pattern_case(n, m, p, pat)
        a = c.arrays()
        # a NaN row in U/B: entirely NaN
        check_both(c, a, st, "control pattern")
        if all(US[u] == "nan" for u, _ in pat):
            check_both(c, {**a, "U": None}, st, "U=None")
            check_both(c, {**a, "U": None}, st, "U omitted", U="omit")
        if all(BS[b] == "nan" for _, b in pat):
            check_both(c, {**a, "B": None}, st, "B=None")
    elif kind == "sparse":
        _, n, m, p, T, k, one = desc
        x0, P0 = lin.default_init(n, "gen")
        steps = []
        for j in range(T):
            t = lin.default_terms(n, m, p, j % 5, "gen")
            only = j == k
            B = None if (one == "B" and only) or (one == "Bonly" and not only) else t["B"]
            u = None if (one == "u" and only) or (one == "uonly" and not only) else t["u"]
            steps.append(lin.step(t["A"], B, u, t["H"], t["Q"], t["R"], t["z"], p))
        c = lin.Case(x0, P0, steps)
        check_both(c, c.arrays(), st, f"control {one} at step {k} of {T}")
    elif kind == "run":
        _, n, m, p, T, k, way, off = desc
        on = {"from": lambda j: j >= k, "until": lambda j: j < k, "burst": lambda j: k <= j < k + 3, "pause": lambda j: not k <= j < k + 3}[way]
        x0, P0 = lin.default_init(n, "gen")
        steps = []
        for j in range(T):
            t = lin.default_terms(n, m, p, j % 5, "ti")
            steps.append(lin.step(t["A"], t["B"], uval("val" if on(j) else US[off], p, t["u"]), t["H"], t["Q"], t["R"], t["z"], p))
        c = lin.Case(x0, P0, steps)
        check_both(c, c.arrays(), st, f"control {way} step {k} of {T}, otherwise {US[off]}")
    elif kind == "onoff":
        _, n, m, p, on = desc
        x0, P0 = lin.default_init(n, "gen")
        steps = []
        for k in range(3):      # the pattern, its complement, the pattern
            t = lin.default_terms(n, m, p, k, "gen")
            u = [(v or 1.0) if on[i] ^ (k == 1) else 0.0 for i, v in enumerate(t["u"])]
            steps.append(lin.step(t["A"], [[v or -0.5 for v in r] for r in t["B"]], u, t["H"], t["Q"], t["R"], t["z"], p))
        c = lin.Case(x0, P0, steps)
        check_both(c, c.arrays(), st, f"controls on {on}")
    elif kind == "mask":
        c = lin.build(desc[1])
        check_both(c, c.arrays(), st, f"pattern {desc[1]}")
    elif kind == "dtype":
        dtype_case(desc, st)
    elif kind == "utype":
        utype_case(desc, st)
    elif kind == "predict":
        predict_case(desc, st)
    elif kind == "infinite":
        infinite_case(desc, st)
    elif kind == "partial":
        partial_case(desc, st)


def conv(v, t):
    if t in ("list", "listf"):
        return [np.array(x) for x in v]
    if t == "tuple":
        return tuple(np.array(x) for x in v)
    return v.astype({"f64": np.float64, "f32": np.float32, "int64": np.int64, "int32": np.int32, "int8": np.int8, "uint8": np.uint8, "bool": np.bool_}[t])


def short(v):
    """Values of few bits: exact in float32, and so are their products."""
    return (np.round(np.array(v) * 16) / 16).tolist()


def dtype_case(desc, st):
    """Omitted U and/or B with every element type of the observations and transition matrices."""
    _, n, m, p, zt, at, ab = desc
    T = 3
    x0, P0 = lin.default_init(n, "gen")
    steps = []
    for k in range(T):
        t = lin.default_terms(n, m, p, k, "gen")
        if at == "bool":
            A = lin.I(n)
        elif at == "int64":
            A = [[float((i * 2 + j + k) % 3 - 1) for j in range(n)] for i in range(n)]
        else:
            A = t["A"]
            if at == "f32":
                A = short(A)
        if zt in ("bool",):
            z = [float((i + k) % 2) for i in range(m)]
        elif zt == "uint8":
            z = [float((7 * i + 3 * k) % 5) for i in range(m)]
        else:
            z = [float((7 * i + 3 * k) % 5 - 2) for i in range(m)]
        steps.append(lin.step(A, None if "B" in ab and ab != "none" else t["B"], None if "U" in ab else t["u"], t["H"], t["Q"], t["R"], z, p))
    c = lin.Case(x0, P0, steps)
    nodes = c.nodes()
    if not kal.usable(nodes, T):
        st.skipped += 1
        return
    a = c.arrays()
    a["Z"] = conv(a["Z"], zt)
    a["A"] = conv(a["A"], at)
    if "U" in ab:
        a["U"] = None
    if ab in ("B", "UB"):
        a["B"] = None
    check_both(c, a, st, f"Z {zt}, A {at}, omitted {ab}")


def utype_case(desc, st):
    """Every on/off pattern of the controls, in every element type of controls and control matrix, alternating with its complement."""
    _, n, m, p, ut, bt, code = desc
    T = 3
    x0, P0 = lin.default_init(n, "gen")
    big = {"bool": 1.0, "uint8": 7.0}
    steps = []
    for k in range(T):
        t = lin.default_terms(n, m, p, k, "gen")
        on = [float((code >> i & 1) ^ (k == 1)) for i in range(p)]
        u = [v * big.get(ut, -5.0 if i % 2 else 3.0) for i, v in enumerate(on)]
        B = [[float((i + j + k) % 2 or i == j) * big.get(bt, -3.0 if (i + j) % 3 == 1 else 2.0) for j in range(p)] for i in range(n)]
        steps.append(lin.step(t["A"], B, u, t["H"], t["Q"], t["R"], t["z"], p))
    c = lin.Case(x0, P0, steps)
    a = c.arrays()
    a["U"], a["B"] = conv(a["U"], ut), conv(a["B"], bt)
    check_both(c, a, st, f"controls {ut}, control matrix {bt}")
    f = kal.make_kf({**a, "B": None})
    for k in range(T):
        s = c.steps[k]
        x, P = f.predict(Ak=s.A.np, xk=np.array(x0), Bk=a["B"][k], uk=a["U"][k], Pk=np.array(P0), Qk=s.Q.np)
        ex, eP = ref.predict(ref.dec(x0), ref.dec(P0), s.A.d, s.B.d, s.u.d, s.Q.d)
        kal.cmp_vec(x, ref.flt(ex), 8, f"predict with {ut} controls, {bt} control matrix, step {k}: state", 1e-9)
        kal.cmp_vec(P, ref.flt(eP), 8, "covariance", 1e-9)
        st.transitions += 1


def predict_case(desc, st):
    _, n, m, p = desc
    t = lin.default_terms(n, m, p, 1, "gen")
    x0, P0 = lin.default_init(n, "gen")
    a = lin.build_dev(n, m, p, 2, "gen", []).arrays()
    f = kal.make_kf(a)
    B, u = np.array(t["B"]), np.array(t["u"])
    zero_rows = B.copy()
    zero_rows[0] = 0
    nB, nu = np.full((n, p), np.nan), np.full(p, np.nan)
    forms_B = dict(val=B, zero=np.zeros((n, p)), zrow=zero_rows, nan=nB, none=None, f32=np.array(short(B), dtype=np.float32), int=np.ones((n, p), dtype=int))
    forms_u = dict(val=u, zero=np.zeros(p), nan=nu, none=None, one=np.array([1.0] + [0.0] * (p - 1)), f32=np.array(short(u), dtype=np.float32), int=np.arange(1, p + 1))
    A, Q = np.array(t["A"]), np.array(t["Q"])
    for (bn, b), (un, v) in itertools.product(forms_B.items(), forms_u.items()):
        for order in (0, 1):
            g = f if order else kal.make_kf({**a, "B": None})
            x, P = g.predict(Ak=A, xk=np.array(x0), Bk=b, uk=v, Pk=np.array(P0), Qk=Q)
            absent = bn in ("nan", "none") or un in ("nan", "none")
            ex, eP = ref.predict(ref.dec(x0), ref.dec(P0), ref.dec(t["A"]), None if absent else ref.dec(b.tolist()), None if absent else ref.dec(v.tolist()), ref.dec(t["Q"]))
            kal.cmp_vec(x, ref.flt(ex), 8, f"predict with Bk={bn}, uk={un}: state", 1e-9)
            kal.cmp_vec(P, ref.flt(eP), 8, f"predict with Bk={bn}, uk={un}: covariance", 1e-9)
            st.traces += 1
            st.transitions += 1
            st.states.add((n, m, p, bn, un))


def partial_case(desc, st):
    """A partly-NaN control or control matrix: the affected estimate is NaN (or an error), never a number."""
    _, n, m, p, T = desc
    c = lin.build_dev(n, m, p, T, "gen", [])
    for k in range(T):
        spots = [("U", (k, j)) for j in range(p)] if p > 1 else []
        spots += [("B", (k, i, j)) for i in range(n) for j in range(p)] if n * p > 1 else []
        for key, ix in spots:
            for keep in (False, True):      # one element NaN / all but one NaN
                a = c.arrays()
                if keep:
                    v = a[key][ix]
                    a[key][k] = np.nan
                    a[key][ix] = v if v else 1.0
                else:
                    a[key][ix] = np.nan
                for meth in ("filter", "smooth"):
                    f = kal.make_kf(a)
                    try:
                        s, e = getattr(f, meth)(Z=a["Z"], U=a["U"])
                    except (ValueError, FloatingPointError, ArithmeticError):
                        st.count("refused")
                        continue
                    if not np.isnan(s[k]).any():
                        raise kal.Violation(f"{meth}: {key} partly NaN at {ix}: estimate of step {k} is {s[k]}, silently ignoring the missing part")
                    st.traces += 1
                    st.transitions += T
                    st.states.add((n, m, p, key, ix, keep, meth))


def infinite_case(desc, st):
    """An infinite control or control matrix is not an absent one: the step's estimate is not finite (or an error)."""
    _, n, m, p, T = desc
    c = lin.build_dev(n, m, p, T, "gen", [])
    inf, nan = np.inf, np.nan
    for k in range(T):
        subs = [("U", v) for v in itertools.product((1.5, nan, inf, -inf), repeat=p) if not np.isfinite(v).all() and not np.isnan(v).all()]
        subs += [("B", np.full((n, p), v)) for v in (inf, -inf)] + [("B", np.where(np.arange(n * p).reshape(n, p) == i, inf, 2.0)) for i in range(n * p)]
        for key, val in subs:
            a = c.arrays()
            a["B"] = np.where(a["B"] == 0, 1.0, a["B"])
            a["U"] = np.where(a["U"] == 0, 1.0, a["U"])
            a[key][k] = val
            for meth in ("filter", "smooth", "predict"):
                f = kal.make_kf(a)
                with np.errstate(all="ignore"):
                    try:
                        if meth == "predict":
                            row = f.predict(Ak=a["A"][k], xk=a["x0"], Bk=a["B"][k], uk=a["U"][k], Pk=a["P0"], Qk=a["Q"][k])[0]
                        else:
                            row = getattr(f, meth)(Z=a["Z"], U=a["U"])[0][k]
                    except (ValueError, ArithmeticError):
                        st.count("refused")
                        continue
                if np.isfinite(row).all():
                    raise kal.Violation(f"{meth}: {key} of step {k} is {np.asarray(val).tolist()}, yet the estimate is {row}: an infinite control was ignored")
                st.traces += 1
                st.transitions += T
                st.states.add((n, m, p, key, str(val), meth))
