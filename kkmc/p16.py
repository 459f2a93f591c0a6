"""P16: representation independence. Every supported form of every argument, alone and in pairs and all at
once, against the plain float64 run (itself compared with the reference)."""
import functools
import itertools
import tempfile

import numpy as np

from . import kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "9 arguments x up to 23 forms (incl. big-endian, unaligned, memory-mapped, subclass, narrow and unsigned integers, half precision): singles for 8 shapes and T=1,2,3,5,8 (data not representable in float32), all pairs for 4 shapes and T=2,3, all-at-once; both filters; series lengths 0..6; series of 70 and 150 steps, 7 states, channels or controls; element types that differ from step to step",
          "thorough": "all pairs for 8 shapes and T=2..4, all triples of arguments for (1,1,1); series lengths 0..20"}
TERMS = ["A", "B", "H", "Q", "R"]
SEQ_FORMS = ["f32", "int64", "int32", "list", "tuple", "ro", "fortran", "strided", "reversed", "inner", "bcast", "offset", "big", "bigint", "int16", "uint16", "uint64", "unaligned", "subclass", "memmap"]
ARG_FORMS = {
    **{k: SEQ_FORMS for k in ("A", "B", "H")},
    "Q": SEQ_FORMS + ["scalars", "scalarlist"], "R": SEQ_FORMS + ["scalars", "scalarlist"],
    "Z": SEQ_FORMS + ["flat", "flatlist", "listlist", "int8", "uint8", "f16", "bool01", "objlist", "mixedlist", "mixedflat"], "U": SEQ_FORMS + ["listlist", "int8", "f16", "objlist", "mixedlist"],
    "x0": ["f32", "int64", "int32", "ro", "strided", "reversed", "col", "offset", "big", "int16", "uint16", "unaligned", "subclass"],
    "P0": ["f32", "int64", "int32", "ro", "fortran", "strided", "reversed", "inner", "offset", "big", "int16", "uint16", "unaligned", "subclass"],
    "state_size": ["n", "npint"],
    "cb": ["hscalar", "h0d", "f32", "int", "ro", "fortran", "strided"],
}


DTYPES = {"int64": np.int64, "int32": np.int32, "int16": np.int16, "int8": np.int8, "uint8": np.uint8, "uint16": np.uint16, "uint64": np.uint64, "bool01": np.bool_,
          "big": ">f8", "bigint": ">i4", "f16": np.float16}


class Sub(np.ndarray):
    """A plain subclass, as data libraries define them."""


def imodel(n, m, p, T):
    """Integer-valued, time-varying, well conditioned."""
    a = dict(x0=np.array([float((i * 3) % 4 - 1) for i in range(n)]))
    a["P0"] = np.array([[4.0 if i == j else 1.0 for j in range(n)] for i in range(n)])
    A, B, H, Q, R, Z, U = ([] for _ in range(7))
    for k in range(T):
        A.append([[1.0 if i == j else float(((i + 2 * j + k) % 3 - 1)) for j in range(n)] for i in range(n)])
        B.append([[float((i + j + k) % 3 - 1) or 2.0 for j in range(p)] for i in range(n)])
        H.append([[1.0 if i % n == j else float((i + j + k) % 2) for j in range(n)] for i in range(m)])
        Q.append([[3.0 + k if i == j else 1.0 for j in range(n)] for i in range(n)])
        R.append([[2.0 + k if i == j else 1.0 for j in range(m)] for i in range(m)])
        Z.append([float((i + k) % 2) for i in range(m)])
        U.append([float((2 * i + k) % 3 - 1) or 1.0 for i in range(p)])
    a.update(A=np.array(A).reshape(T, n, n), B=np.array(B).reshape(T, n, p), H=np.array(H).reshape(T, m, n), Q=np.array(Q).reshape(T, n, n),
             R=np.array(R).reshape(T, m, m), Z=np.array(Z).reshape(T, m), U=np.array(U).reshape(T, p))
    return a


def mmodel(n, m, p, T):
    """Whole numbers first, fractions from the second step on."""
    a = imodel(n, m, p, T)
    a["A"][1:] *= 0.375
    for k in "BHQRZU":
        a[k][1:] += 0.375
    return a


def fmodel(n, m, p, T):
    c = lin.build_dev(n, m, p, T, "gen", [])
    return c.arrays()


def convert(v, form, key):
    """Another representation of the same numbers, or None if the form does not apply."""
    v = np.asarray(v)
    if form in DTYPES:
        with np.errstate(invalid="ignore"):
            w = v.astype(DTYPES[form])
        return w if np.array_equal(w.astype(float), v) else None
    if form == "f32":
        w = v.astype(np.float32)
        return w if np.array_equal(w.astype(float), v) else None
    if form == "unaligned":    # as viewed inside a packed record
        w = np.frombuffer(bytearray(b"\x01" + v.tobytes()), dtype=np.uint8)[1:].view(v.dtype).reshape(v.shape)
        return w
    if form == "subclass":
        return v.view(Sub)
    if form == "memmap":
        f = tempfile.TemporaryFile()
        f.write(v.tobytes() or b"\0")
        f.flush()
        return np.memmap(f, dtype=v.dtype, mode="r", shape=v.shape) if v.size else None
    if form == "list":
        return [np.array(x) for x in v]
    if form == "tuple":
        return tuple(np.array(x) for x in v)
    if form == "listlist":
        return v.tolist()
    if form in ("mixedarr", "mixedtuple"):      # integer arrays where the numbers are whole, floats elsewhere
        rows = [np.array(x, dtype=np.int64 if np.array_equal(x, np.round(x)) else float) for x in v]
        return rows if form == "mixedarr" else tuple(rows)
    if form == "mixedscalars":
        if v.ndim != 3 or v.shape[1:] != (1, 1):
            return None
        return [int(x) if x == int(x) else float(x) for x in v[:, 0, 0]]
    if form in ("mixedlist", "mixedflat"):      # Python ints where the numbers are whole, floats elsewhere
        if form == "mixedflat" and v.shape[1:] != (1,):
            return None
        rows = [[int(x) if x == int(x) else float(x) for x in r] for r in v.tolist()]
        return rows if form == "mixedlist" else [r[0] for r in rows]
    if form == "objlist":      # mixed element types in one list
        return [np.array(x, dtype=(np.float32 if i % 2 else np.float64)) for i, x in enumerate(v)]
    if form == "ro":
        w = v.copy()
        w.flags.writeable = False
        return w
    if form == "fortran":
        return np.asfortranarray(v)
    if form == "strided":
        w = np.full((2 * v.shape[0],) + v.shape[1:], 77.0)
        w[::2] = v
        return w[::2]
    if form == "reversed":
        return v[::-1].copy()[::-1]
    if form == "inner":        # transposed inner layout / strided last axis
        w = np.full(v.shape[:-1] + (3 * v.shape[-1] + 1,), -55.0)
        w[..., 1::3] = v
        return w[..., 1::3]
    if form == "offset":
        w = np.full(v.size + 3, 99.0)
        w[3:] = v.ravel()
        return w[3:].reshape(v.shape)
    if form == "bcast":
        return np.broadcast_to(v[0], v.shape) if v.shape[0] and all(np.array_equal(x, v[0]) for x in v) else None
    if form in ("scalars", "scalarlist"):
        if v.ndim != 3 or v.shape[1:] != (1, 1):
            return None
        return v[:, 0, 0].copy() if form == "scalars" else v[:, 0, 0].tolist()
    if form in ("flat", "flatlist"):
        if v.shape[1:] != (1,):
            return None
        return v[:, 0].copy() if form == "flat" else v[:, 0].tolist()
    if form == "col":
        return v.reshape(1, 1) if v.size == 1 else None
    raise KeyError(form)


def ekf_callbacks(n, m, p, how):
    """A nonlinear model with integer coefficients, returning its values in form `how`."""
    def out(v, vec=False):
        v = np.array(v, dtype=float)
        if how == "f32":
            return v.astype(np.float32) if np.array_equal(v.astype(np.float32).astype(float), v) else v
        if how == "int":
            return v.astype(int) if np.array_equal(v, np.round(v)) else v
        if how == "ro":
            v.flags.writeable = False
        if how == "fortran":
            return np.asfortranarray(v)
        if how == "strided":
            w = np.zeros((2 * v.shape[0],) + v.shape[1:])
            w[::2] = v
            return w[::2]
        return v

    def f(x, u):
        x, u = np.asarray(x, dtype=float).ravel(), np.asarray(u, dtype=float)
        return out([x[i] * 0.5 + 0.125 * x[(i + 1) % n] ** 2 + u.sum() for i in range(n)])

    def jA(x, u):
        x = np.asarray(x, dtype=float).ravel()
        J = np.zeros((n, n))
        for i in range(n):
            J[i, i] += 0.5
            J[i, (i + 1) % n] += 0.25 * x[(i + 1) % n]
        return out(J)

    def h(x):
        x = np.asarray(x, dtype=float).ravel()
        v = [2 * x[i % n] + x[0] for i in range(m)]
        if how == "hscalar":
            return float(v[0])
        if how == "h0d":
            return np.array(v[0])
        return out(v)

    def jH(x):
        J = np.zeros((m, n))
        for i in range(m):
            J[i, i % n] += 2
            J[i, 0] += 1
        return out(J)

    return dict(f=f, h=h, jacobian_A=jA, jacobian_H=jH)


def args(which):
    return ["A", "B", "H", "Q", "R", "Z", "U", "x0", "P0", "state_size"] if which == "kf" else ["Q", "R", "Z", "U", "x0", "P0", "cb"]


def cases(tier):
    q = tier == "quick"
    for which in ("kf", "ekf"):
        for shp in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1), (2, 1, 2), (1, 3, 3), (3, 3, 2)]:
            for T in (1, 2, 3, 5, 8) if q else (1, 2, 3, 4, 5, 8, 17, 40):
                yield [which, "len", *shp, T]
                for k in args(which):
                    for fm in ARG_FORMS[k]:
                        for mod in "if" if T == 3 else "f":
                            yield [which, mod, *shp, T, [[k, fm]]]
        for shp, T in (((2, 1, 1), 70), ((7, 2, 1), 3), ((2, 7, 3), 3), ((1, 1, 7), 3), ((1, 1, 1), 150)):      # long series, many components
            for k in args(which):
                for fm in ARG_FORMS[k]:
                    for mod in "if":
                        yield [which, mod, *shp, T, [[k, fm]]]
        for shp in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 1), (3, 1, 2)):      # element types that differ from step to step
            for T in (2, 3, 5, 70):
                for k in args(which):
                    if k in "ABHQRZU":
                        for fm in ["mixedarr", "mixedtuple"] + (["mixedlist", "mixedflat"] if k == "Z" else ["mixedlist"] if k == "U" else ["mixedscalars"] if k in "QR" else []):
                            yield [which, "m", *shp, T, [[k, fm]]]
                seqs = [k for k in args(which) if k in "ABHQRZU"]
                yield [which, "m", *shp, T, [[k, "mixedarr"] for k in seqs]]
                for k1, k2 in itertools.combinations(seqs, 2):
                    yield [which, "m", *shp, T, [[k1, "mixedarr"], [k2, "mixedarr"]]]
        for shp in [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 1, 0)]:
            for T in range(0, 7 if q else 21):
                yield [which, "len", *shp, T]
            for fm in ("f32", "int64", "list", "tuple", "ro", "fortran", "strided", "inner"):
                for mod in "if":
                    yield [which, mod, *shp, 3, [[k, fm] for k in args(which) if fm in ARG_FORMS[k]]]
    yield ["kf", "floatR"]
    yield ["ekf", "floatR"]
    for which in ("kf", "ekf"):
        for shp in [(1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 1), (3, 2, 1), (2, 1, 2), (3, 3, 1), (4, 1, 1)]:
            for T in (2, 3) if q else (2, 3, 4):
                for k1, k2 in itertools.combinations(args(which), 2):
                    for f1 in ARG_FORMS[k1]:
                        for f2 in ARG_FORMS[k2]:
                            yield [which, "i", *shp, T, [[k1, f1], [k2, f2]]]
        if not q:
            for ks in itertools.combinations(args(which), 3):
                for fs in itertools.product(*[ARG_FORMS[k][::2] for k in ks]):
                    yield [which, "i", 1, 1, 1, 3, [[k, f] for k, f in zip(ks, fs)]]


@functools.lru_cache(maxsize=64)
def plain(which, mod, n, m, p, T):
    a = {"i": imodel, "m": mmodel, "f": fmodel}[mod](n, m, p, T)
    if which == "ekf":
        a["U"] = a["U"] / 4 if mod == "f" else a["U"]
    f = make(which, a, n, m, p, "plain")
    s = f.filter(Z=a["Z"], U=a["U"]) if T else None
    g = make(which, a, n, m, p, "plain")
    r = g.smooth(Z=a["Z"], U=a["U"]) if T else None
    if which == "kf" and T:
        steps = [lin.step(a["A"][k].tolist(), a["B"][k].tolist(), a["U"][k].tolist(), a["H"][k].tolist(), a["Q"][k].tolist(), a["R"][k].tolist(), a["Z"][k].tolist(), p) for k in range(T)]
        c = lin.Case(a["x0"].tolist(), a["P0"].tolist(), steps)
        nodes = c.nodes()
        kal.shape_check(*s, T, n, "filter")
        kal.check_filter(*s, nodes, "plain run: filter")
        kal.check_smooth(*r, ref.rts(nodes), "plain run: smooth")
    return a, s, r


def make(which, a, n, m, p, how):
    if which == "kf":
        return kal.make_kf(a)
    return nl.make_ekf(a, ekf_callbacks(n, m, p, how))


def run_case(desc, st):
    which, mod = desc[0], desc[1]
    if mod == "floatR":
        return float_R(which, st)
    if mod == "len":
        return lengths(which, *desc[2:], st)
    _, _, n, m, p, T, forms = desc
    a, (s0, e0), (s1, e1) = plain(which, mod, n, m, p, T)
    b = {k: v.copy() for k, v in a.items()}
    how, f32 = "plain", 0
    for k, fm in forms:
        if fm == "bcast":      # needs a time-invariant term
            b[k] = np.array([b[k][0]] * T).reshape(b[k].shape)
    if any(fm == "bcast" for _, fm in forms):
        f = make(which, b, n, m, p, "plain")
        s0, e0 = f.filter(Z=b["Z"], U=b["U"])
        s1, e1 = f.smooth(Z=b["Z"], U=b["U"])
    changed = False
    for k, fm in forms:
        if k == "state_size":
            b[k] = n if fm == "n" else np.int64(n)
            changed = True
        elif k == "cb":
            if fm in ("hscalar", "h0d") and (m != 1 or ["Z", "listlist"] in forms or ["Z", "mixedlist"] in forms or ["Z", "f16"] in forms):
                continue
            how = fm
            changed = True
        else:
            if fm == "col" and m != 1:      # a 1x1 initial state is only documented with scalar observations
                continue
            v = convert(b[k], fm, k)
            if v is None:
                continue
            b[k] = v
            changed = True
        f32 += fm in ("f32", "objlist")
    if not changed:
        st.skipped += 1
        return
    # a single-precision argument next to other forms may legitimately make numpy compute in single precision
    tol = 1e-12 if f32 == 0 else 1e-9 if len(forms) == 1 else 2e-5
    f = make(which, b, n, m, p, how)
    s, e = f.filter(Z=b["Z"], U=b["U"])
    kal.shape_check(s, e, T, n, "filter")
    sc = 16 * (1 + np.abs(s0).max())
    kal.same(s, s0, sc, f"forms {forms}: filter state", tol)
    kal.same(e, e0, 16, f"forms {forms}: filter covariance", tol)
    s, e = f.smooth(Z=b["Z"], U=b["U"])
    kal.shape_check(s, e, T, n, "smooth")
    kal.same(s, s1, sc, f"forms {forms}: smooth state", tol)
    kal.same(e, e1, 16, f"forms {forms}: smooth covariance", tol)
    if len(f.kalman_gains) != 2 * T:
        raise kal.Violation(f"forms {forms}: {len(f.kalman_gains)} gains for {2 * T} updates")
    for g in f.kalman_gains:
        if np.shape(g) != (n, m):
            raise kal.Violation(f"forms {forms}: a recorded gain has shape {np.shape(g)}, expected {(n, m)}")
    # by hand, with the same representations
    if T and mod == "i" and len(forms) == 1:
        x, P = b["x0"], b["P0"]
        for k in range(T):
            if which == "kf":
                x, P = f.predict(Ak=b["A"][k], xk=x, Bk=b["B"][k], uk=b["U"][k], Pk=P, Qk=b["Q"][k])
                x, P = f.update(Hk=b["H"][k], xk=x, Pk=P, zk=b["Z"][k], Rk=b["R"][k])
            else:
                x, P = f.predict(xk=x, uk=b["U"][k], Pk=P, Qk=b["Q"][k])
                x, P = f.update(xk=x, Pk=P, zk=b["Z"][k], Rk=b["R"][k])
            kal.same(np.ravel(x), s0[k], sc, f"forms {forms}: by hand, state", tol)
            kal.same(P, e0[k], 16, f"forms {forms}: by hand, covariance", tol)
    st.traces += 2
    st.transitions += 2 * T
    st.states.add(repr(desc[:1] + desc[2:]))


def lengths(which, n, m, p, T, st):
    if T:
        a, s, r = plain(which, "i", n, m, p, T)
    else:
        a = imodel(n, m, p, T)
    longer = imodel(n, m, p, T + 2)
    zs = [a["Z"], [np.array(z) for z in a["Z"]], longer["Z"][:T]]
    if m == 1:
        zs += [a["Z"][:, 0], a["Z"][:, 0].tolist()]
    for model in (a, longer):
        for Z in zs:
            for U in (model["U"], None) if which == "kf" else (model["U"],):
                f = make(which, model, n, m, p, "plain")
                for meth in ("filter", "smooth"):
                    s, e = getattr(f, meth)(Z=Z, U=U)
                    kal.shape_check(s, e, T, n, f"{meth} of {T} observations")
                    if not (np.isfinite(s).all() and np.isfinite(e).all()):
                        raise kal.Violation(f"{meth} of {T} observations: not finite")
                    st.traces += 1
                    st.transitions += T
                if len(f.kalman_gains) != 2 * T:
                    raise kal.Violation(f"{len(f.kalman_gains)} gains recorded for {2 * T} updates")
    st.states.add(("len", which, n, m, p, T))


def float_R(which, st):
    """The documented scalar observation noise: R given as one float."""
    n, m, p, T = 2, 1, 1, 3
    a = imodel(n, m, p, T)
    f = make(which, {**a, "R": np.full((T, 1, 1), 0.5)}, n, m, p, "plain")
    s0, e0 = f.filter(Z=a["Z"], U=a["U"])
    try:
        g = make(which, {**a, "R": 0.5}, n, m, p, "plain")
        s, e = g.filter(Z=a["Z"], U=a["U"])
    except (TypeError, ValueError, IndexError) as x:
        raise kal.Violation(f"R given as one float is refused: {type(x).__name__}: {x}")
    kal.same(s, s0, 16, "R given as a float: state", 1e-9)
    kal.same(e, e0, 16, "R given as a float: covariance", 1e-9)
    st.traces += 1
    st.transitions += T
