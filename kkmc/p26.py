"""P26: the public attributes are the model. Every sequence of attribute replacements, in-place edits of attribute
arrays, copies (copy, deepcopy, pickle in all protocols) and calls, executed next to a model that only knows the current values."""
import copy
import functools
import itertools
import pickle

import numpy as np

from . import kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "per filter: all sequences to depth 3 of {rebind each attribute, edit each array attribute in place, copy, deepcopy, pickle, filter, smooth, update} (22 operations), then filter and smooth; every pickle protocol and implementation; 2 models of each filter; depth 4 over 9 operations; each attribute first zero, identity, diagonal, constant, one row or column, then generic, and back; records of hundreds of gains and of gains of different shapes, copied and pickled (depth 3); whole models replaced by longer, shorter, wider ones (lengths 1-40, depth 3); attributes replaced or edited by nearly equal values (depth 3); models of 7 to 17 states or channels to depth 2",
          "thorough": "the same to depth 3 for 4 models of each filter and depth 4 for one model of each; depth 6 over 9 operations"}
KA = ["A", "B", "H", "Q", "R", "xk", "Pk"]
EA = ["f", "h", "jacobian_A", "jacobian_H", "Q", "R", "xk", "Pk"]
T = 4


def alphabet(which):
    at = KA if which == "kf" else EA
    return ["=" + a for a in at] + ["~" + a for a in at if a not in EA[:4]] + ["cc", "dc", "pk", "F", "Fu", "Su", "P", "U"]


LONG = ["L", "V", "dc", "pk", "cc", "=xk", "~Pk", "Fu", "U"]      # long and ragged gain records

CORE = {"kf": ["=xk", "~Pk", "~Q", "=A", "=R", "dc", "Fu", "Su", "U"], "ekf": ["=xk", "~Pk", "~Q", "=jacobian_A", "=f", "pk", "Fu", "Su", "U"]}


class Call:
    """Picklable model callback."""

    def __init__(self, kind, n, m, p, which):
        self.a = (kind, n, m, p, which)

    def __call__(self, x, u=None):
        kind, n, m, p, which = self.a
        f, h = nl.functions(kind, n, m, p)
        x = [float(v) for v in np.ravel(x)]
        if which in ("h", "jacobian_H"):
            return np.array(h(x) if which == "h" else h.jac(x), dtype=float)
        u = [float(v) for v in np.ravel(u)]
        u = [0.0] * p if all(v != v for v in u) else u
        return np.array(f(x, u) if which == "f" else f.jac(x, u), dtype=float)


def cases(tier):
    q = tier == "quick"
    ws = {"kf": [["kf", 2, 1, 1, "gen"], ["kf", 1, 1, 1, "gen"], ["kf", 2, 2, 2, "ti"], ["kf", 3, 1, 1, "gen"]],
          "ekf": [["ekf", 2, 1, 1, "quad"], ["ekf", 1, 1, 1, "bilin"], ["ekf", 2, 2, 2, "mixed"], ["ekf", 3, 1, 1, "quad"]]}
    for depth in range(0, 4):
        for i in range(2 if q else 4):
            for which in ("kf", "ekf"):
                if q and i and depth == 3:
                    continue
                for s in itertools.product(alphabet(which), repeat=depth):
                    yield [ws[which][i], list(s)]
    for w in ((["kf", 7, 2, 1, "gen"], ["kf", 2, 7, 1, "ti"], ["kf", 1, 1, 7, "gen"], ["kf", 17, 1, 1, "gen"]), (["ekf", 7, 2, 1, "mixed"], ["ekf", 2, 7, 1, "quad"], ["ekf", 6, 6, 2, "mixed"])):
        for x in w:      # many components
            for depth in (1, 2):
                for s in itertools.product(alphabet(x[0]), repeat=depth):
                    if depth == 1 or s[0] in ("cc", "dc", "pk") or s[1] in ("Fu", "Su", "U"):
                        yield [x, list(s)]
    for which in ("kf", "ekf"):
        for way in range(len(WAYS)):
            for s in (["pk"], ["F", "pk"], ["pk", "F"], ["Su", "pk"], ["~Pk", "pk"], ["=xk", "pk"], ["F", "pk", "pk"], ["F", "pk", "dc"], ["F", "cc", "pk"], ["F", "pk", "U"]):
                yield [ws[which][0], s, way]
        for s in itertools.product(CORE[which], repeat=4):
            yield [ws[which][1], list(s)]
        for depth in (1, 2, 3) if q else (1, 2, 3, 4):
            for s in itertools.product([o for o in LONG if which == "kf" or o != "V"], repeat=depth):
                if "L" in s or "V" in s:
                    yield [ws[which][1 if depth > 2 else 0], list(s)]
    for name, ss in STRUCT.items():      # replacing a specially structured term by a generic one, and back
        for struct in ss:
            for which in ("kf", "ekf"):
                if name not in (KA if which == "kf" else EA):
                    continue
                for n, m in ((2, 1), (2, 2), (3, 1)) + (() if q else ((1, 1), (3, 2), (4, 3))):
                    w = [which, n, m, 1, "gen" if which == "kf" else "mixed", f"{name}:{struct}"]
                    for depth in (0, 1, 2) if q else (0, 1, 2, 3):
                        for s in itertools.product(["=" + name, "~" + name, "F", "Su", "U", "P", "dc", "pk", "cc"], repeat=depth):
                            yield [w, list(s)]
    for which in ("kf", "ekf"):      # the whole model replaced by a longer or shorter one, or one with other channels
        for n in (1, 2) if q else (1, 2, 3):
            sizes = [[L, m, p] for L in (1, 2, 3, 5, 8) for m, p in ((1, 1), (2, 1), (1, 2))] + [[L, 1, 1] for L in (17, 40)]
            for depth in (1, 2, 3) if q else (1, 2, 3, 4):
                al = sizes if depth < 3 else [[1, 1, 1], [3, 1, 1], [8, 1, 1], [5, 2, 1], [2, 1, 2], [17, 1, 1]][:6 if depth == 3 else 4]
                for s in itertools.product(al, repeat=depth):
                    for end in ("", "dc", "pk", "cc") if depth == 2 else ("",):
                        for half in (False, True) if depth < 3 else (False,):
                            yield [["resize", which, n, end, half], [list(x) for x in s]]
    for which in ("kf", "ekf"):      # nearly the same value
        for i in (0, 1):
            for a in KA if which == "kf" else EA[4:]:
                for depth in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                    for s in itertools.product([">" + a, "^" + a, "Fu", "Su", "U", "P", "dc", "cc"], repeat=depth):
                        if any(o[0] in ">^" for o in s):
                            yield [ws[which][i], list(s)]
    for which in ("kf", "ekf"):      # model sequences given as lists or tuples of matrices
        for form in ("lists", "tuples"):
            w = ws[which][0] + [form]
            al = ["~" + a for a in (KA if which == "kf" else EA[4:])] + ["=Q", "=R", "cc", "dc", "pk", "Fu", "Su", "U"]
            for depth in (1, 2, 3) if q else (1, 2, 3, 4):
                for s in itertools.product(al, repeat=depth):
                    if depth < 3 or s[0][0] != "F" and ("dc" in s or "pk" in s):
                        yield [w, list(s)]
    if not q:
        for which in ("kf", "ekf"):
            for s in itertools.product(CORE[which], repeat=6):
                yield [ws[which][1], list(s)]
            for s in itertools.product(alphabet(which), repeat=4):
                yield [ws[which][0], list(s)]


STRUCT = {"A": ["zero", "eye", "diag", "same", "lower", "col0"], "B": ["zero", "none", "same", "row0"], "H": ["zero", "col0", "same", "row0"],
          "Q": ["zero", "diag", "same", "row0", "eye"], "R": ["diag", "same", "eye"], "xk": ["zero", "row0"], "Pk": ["zero", "diag", "eye"]}


def structured(v, struct):
    v = v.copy()
    if struct == "zero":
        v[...] = 0
    elif struct == "none":
        v[...] = np.nan
    elif struct == "same":
        v[...] = v[0]
    elif struct == "eye":
        v[...] = np.eye(v.shape[-1])
    elif struct == "diag":
        v = v * np.eye(v.shape[-1])
    elif struct == "lower":
        v = np.tril(v)
    elif struct == "col0":
        v[..., 1:] = 0
    elif struct == "row0":      # the last component alone is left
        if v.ndim == 1:
            v[:-1] = 0
        else:
            v[:, :-1] = 0
            if v.shape[-1] == v.shape[-2]:
                v = v * np.eye(v.shape[-1])
    return v


class Model:
    """Current attribute values as exact doubles: each attribute has a version (0 base, 1 other) and a count of in-place edits."""

    def __init__(self, w):
        self.which, self.n, self.m, self.p, self.mode = w[:5]
        self.struct = dict([w[5].split(":")]) if len(w) > 5 and ":" in w[5] else {}
        self.form = {"lists": list, "tuples": tuple}.get(w[5]) if len(w) > 5 else None
        self.base = lin.build_dev(self.n, self.m, self.p, T, self.mode if self.which == "kf" else "gen", [])
        self.Z = [s.z.l for s in self.base.steps]
        self.U = [[v / 4 for v in s.u.l] for s in self.base.steps]
        self.names = KA if self.which == "kf" else EA

    @functools.lru_cache(maxsize=None)
    def value(self, name, ver, edits):
        st = self.base.steps
        v = {"xk": lambda: np.array(self.base.x0.l), "Pk": lambda: np.array(self.base.P0.l)}.get(name, lambda: np.array([getattr(s, name).l for s in st]))()
        if not ver and name in self.struct:
            v = structured(v, self.struct[name])
        if ver == 2:      # nearly the base value
            v = v * (1 + 2.0 ** -20)
        elif ver:
            v = {"A": lambda: v * 0.5, "B": lambda: v * -2, "H": lambda: v * 1.5, "Q": lambda: v * 3, "R": lambda: v * 2, "xk": lambda: v - 1, "Pk": lambda: v * 2}[name]()
        for i in range(edits):
            self.edit(name, v)
        return v

    @staticmethod
    def edit(name, v):
        """In place, exactly representable."""
        if name == "xk":
            v[0] += 0.5
        elif name == "Pk":
            v *= 1.5
        elif name in ("Q", "R"):
            np.multiply(v[1], 2, out=v[1])
        else:
            np.multiply(v[2], 0.5, out=v[2])

    @functools.lru_cache(maxsize=None)
    def nodes(self, key, withU):
        cur = dict(key)
        g = {k: self.value(k, *cur[k]).tolist() for k in self.names if k not in EA[:4]}
        U = self.U if withU else [None] * T
        if self.which == "kf":
            return lin.Case(g["xk"], g["Pk"], [lin.step(g["A"][k], None if g["B"][k][0][0] != g["B"][k][0][0] else g["B"][k], U[k], g["H"][k], g["Q"][k], g["R"][k], self.Z[k], self.p) for k in range(T)]).nodes()
        fn = {a: nl.functions(self.kind(cur[a][0]), self.n, self.m, self.p)[0 if a in ("f", "jacobian_A") else 1] for a in EA[:4]}
        D = ref.dec
        us = [D(u or [0.0] * self.p) for u in U]
        return ref.ekf_filter(D(g["xk"]), D(g["Pk"]), fn["f"], fn["h"], fn["jacobian_A"].jac, lambda x: fn["jacobian_H"].jac(x),
                              us, [D(z) for z in self.Z], [D(v) for v in g["Q"]], [D(v) for v in g["R"]])

    def kind(self, ver):
        return self.mode if not ver else ("mixed" if self.mode != "mixed" else "quad")

    @functools.lru_cache(maxsize=None)
    def rts(self, key, withU):
        return (ref.rts if self.which == "kf" else ref.ekf_rts)(self.nodes(key, withU))

    def attr(self, name, ver, edits=0):
        if name in EA[:4]:
            return Call(self.kind(ver), self.n, self.m, self.p, name)
        v = self.value(name, ver, edits)
        return self.form(x.copy() for x in v) if self.form and name not in ("xk", "Pk") else v.copy()


WAYS = [(f, p) for p in range(pickle.HIGHEST_PROTOCOL + 1) for f in ("C", "py")]
turn = 0


def pickled(obj):
    """A pickle round trip: with every protocol, by either implementation, in turn (from the one the case says)."""
    global turn
    turn += 1
    how, proto = WAYS[turn % len(WAYS)]
    if how == "C":
        return pickle.loads(pickle.dumps(obj, proto))
    return pickle._loads(pickle._dumps(obj, proto))


@functools.lru_cache(maxsize=None)
def model(w):
    return Model(w)


@functools.lru_cache(maxsize=None)
def sized(which, n, L, m, p, i):
    """The model of one size, its filter and smoother references (i: another initial estimate)."""
    c = lin.build_hor(n, m, p, L) if which == "kf" else nl.build(["nlhor", "quad", n, m, p, L])
    if i % 2:
        c.x0 = lin.C([v + 0.5 for v in c.x0.l])
    nodes = c.nodes()
    return c, nodes, (ref.rts if which == "kf" else ref.ekf_rts)(nodes)


def resize(which, n, end, half, sizes, st):
    """Attributes replaced one by one until the object carries a model of another size; then used.
    half: filter only."""
    obj = None
    gains = 0
    for i, (L, m, p) in enumerate(sizes):
        c, nodes, r = sized(which, n, L, m, p, i)
        a = c.arrays()
        what = f"sizes {sizes[:i + 1]} (length, channels, controls)"
        attrs = dict(xk=a["x0"], Pk=a["P0"], Q=a["Q"], R=a["R"], **(dict(A=a["A"], B=a["B"], H=a["H"]) if which == "kf" else c.callbacks()))
        if obj is None:
            obj = (kal.KalmanFilter if which == "kf" else kal.ExtendedKalmanFilter)(**attrs)
        else:
            for k, v in attrs.items():
                setattr(obj, k, v)
        if end and i == len(sizes) - 1:
            obj = copy.copy(obj) if end == "cc" else copy.deepcopy(obj) if end == "dc" else pickled(obj) if which == "kf" else obj
        for meth in ("filter", "smooth", "filter"):
            s, e = getattr(obj, meth)(a["Z"], a["U"])
            gains += L
            kal.shape_check(s, e, L, n, what)
            if meth == "filter":
                kal.check_filter(s, e, nodes, what)
            else:
                kal.check_smooth(s, e, r, what)
            if len(obj.kalman_gains) != gains:
                raise kal.Violation(f"{what}: {len(obj.kalman_gains)} gains recorded, expected {gains}")
            g = obj.kalman_gains[-L:]
            for k, nd in enumerate(nodes):
                K = np.array(ref.flt(nd.K))
                kal.cmp_vec(g[k], K, np.full(K.shape, 4.0), f"{what}: recorded gain {k} ", 1e-9)
            st.transitions += L
            if half:
                break
        st.states.add(("resize", which, n, str(sizes[:i + 1])))
    st.traces += 1


def run_case(desc, st):
    global turn
    turn = desc[2] if len(desc) > 2 and isinstance(desc[2], int) else sum(map(ord, str(desc)))
    if desc[0][0] == "resize":
        return resize(*desc[0][1:], desc[1], st)
    mo = model(tuple(desc[0]))
    seq = desc[1]
    cls = kal.KalmanFilter if mo.which == "kf" else kal.ExtendedKalmanFilter
    cur = {a: (0, 0) for a in mo.names}
    obj = cls(**{a: None if mo.struct.get(a) == "none" else mo.attr(a, 0) for a in mo.names})
    Z, U = np.array(mo.Z), np.array(mo.U)
    gains = []      # nodes whose gains must be recorded, None after a shallow copy (which may share its record)
    left = []       # objects left behind: (object, their model, their gains)
    for pos, op in enumerate(list(seq) + ["F", "Su", "left"]):
        what = f"after {seq[:pos]}: {op}"
        key = tuple(sorted(cur.items()))
        if op[0] == "=":
            a = op[1:]
            cur[a] = (0 if cur[a][0] else 1, 0)
            setattr(obj, a, mo.attr(a, cur[a][0]))
        elif op[0] in ">^":      # a slightly different value, in a new array or written into the old one
            a = op[1:]
            cur[a] = (0 if cur[a][0] == 2 else 2, 0)
            if op[0] == ">":
                setattr(obj, a, mo.attr(a, cur[a][0]))
            else:
                getattr(obj, a)[...] = mo.attr(a, cur[a][0])
        elif op[0] == "~":
            a = op[1:]
            cur[a] = (cur[a][0], cur[a][1] + 1)
            mo.edit(a, getattr(obj, a))
        elif op == "cc":
            old = obj
            obj = copy.copy(obj)
            for a in mo.names:      # the original goes its own way
                setattr(old, a, None)
            gains = None
        elif op in ("dc", "pk"):
            new = copy.deepcopy(obj) if op == "dc" else pickled(obj)
            if type(new) is not cls:
                raise kal.Violation(f"{what}: the copy is a {type(new).__name__}")
            oc = dict(cur)
            for a in mo.names:      # the original is edited in place and used; the copy must not notice
                if a not in EA[:4]:
                    oc[a] = (cur[a][0], cur[a][1] + 1)
                    mo.edit(a, getattr(obj, a))
            left.append((obj, tuple(sorted(oc.items())), None if gains is None else list(gains)))
            check_run(mo, obj, "F", True, left[-1][1], Z, U, left[-1][2], what + " (original)", st)
            obj = new
        elif op == "left":          # objects left behind still follow their own model
            for o, k, g in left:
                check_run(mo, o, "S", True, k, Z, U, g, what + " (original, at the end)", st)
        elif op == "P":
            kw = dict(xk=obj.xk, Pk=obj.Pk, uk=U[1], Qk=obj.Q[1])
            if mo.which == "kf":
                kw.update(Ak=obj.A[1], Bk=obj.B[1])
            x, P = obj.predict(**kw)
            ex, eP = expect_predict(mo, key)
            kal.cmp_vec(x, ref.flt(ex), 16, what + " prior state", 1e-9)
            kal.cmp_vec(P, ref.flt(eP), 64, what + " prior covariance", 1e-9)
        elif op == "L":
            for _ in range(40):
                obj.filter(Z, U)
            if gains is not None:
                gains += [np.array(ref.flt(nd.K)) for nd in mo.nodes(key, True)] * 40
                check_gains(obj, gains, what)
            st.transitions += 40 * T
        elif op == "V":     # an update with another number of channels
            H2, R2, z2 = wide(mo, key)
            obj.update(Hk=np.array(ref.flt(H2)), xk=obj.xk, Pk=obj.Pk, zk=np.array(ref.flt(z2)), Rk=np.array(ref.flt(R2)))
            if gains is not None:
                cur_ = dict(key)
                K = ref.update(ref.dec(mo.value("xk", *cur_["xk"]).tolist()), ref.dec(mo.value("Pk", *cur_["Pk"]).tolist()), H2, z2, R2)[2]
                gains.append(np.array(ref.flt(K)))
                check_gains(obj, gains, what)
        elif op == "U":
            kw = dict(xk=obj.xk, Pk=obj.Pk, zk=Z[1], Rk=obj.R[1])
            if mo.which == "kf":
                kw.update(Hk=obj.H[1])
            x, P = obj.update(**kw)
            ex, eP, K = expect_update(mo, key)
            kal.cmp_vec(x, ref.flt(ex), 64, what + " posterior state", 1e-9)
            kal.cmp_vec(P, ref.flt(eP), 64, what + " posterior covariance", 1e-9)
            if gains is not None:
                gains.append(np.array(ref.flt(K)))
                check_gains(obj, gains, what)
        else:
            check_run(mo, obj, op[0], op.endswith("u"), key, Z, U, gains, what, st)
        st.states.add((mo.which, mo.mode, tuple(sorted(cur.items())), len(left), None if gains is None else len(gains)))
    st.traces += 1


def wide(mo, key):
    cur = dict(key)
    H, R = (ref.dec(mo.value(a, *cur[a])[1].tolist()) for a in "HR")
    m = len(H)
    Z0 = ref.D(0)
    H2 = H + [[v * 2 for v in reversed(r)] for r in H]
    R2 = [r + [Z0] * m for r in R] + [[Z0] * m + r for r in R]
    return H2, R2, ref.dec(mo.Z[1]) + ref.dec(mo.Z[1])


def check_run(mo, obj, op, withU, key, Z, U, gains, what, st):
    nodes = mo.nodes(key, withU)
    s, e = (obj.filter if op == "F" else obj.smooth)(Z, U if withU else None)
    s, e = kal.shape_check(s, e, T, mo.n, what)
    if op == "F":
        kal.check_filter(s, e, nodes, what)
    else:
        kal.check_smooth(s, e, mo.rts(key, withU), what)
    st.transitions += T
    if gains is not None:
        gains += [np.array(ref.flt(nd.K)) for nd in nodes]
        check_gains(obj, gains, what)


def check_gains(obj, gains, what):
    if len(obj.kalman_gains) != len(gains):
        raise kal.Violation(f"{what}: {len(obj.kalman_gains)} gains recorded, expected {len(gains)}")
    for i, (g, K) in enumerate(zip(obj.kalman_gains, gains)):
        kal.cmp_vec(g, K, np.full(K.shape, 4.0), f"{what}: recorded gain {i} ", 1e-9)


@functools.lru_cache(maxsize=None)
def expect_predict(mo, key):
    cur = dict(key)
    D = ref.dec
    x, P, Q = (D(mo.value(a, *cur[a]).tolist()) for a in ("xk", "Pk", "Q"))
    u = D(mo.U[1])
    if mo.which == "kf":
        A, B = (D(mo.value(a, *cur[a])[1].tolist()) for a in ("A", "B"))
        if B[0][0] != B[0][0]:
            B = u = None
        return ref.predict(x, P, A, B, u, Q[1])
    A = nl.functions(mo.kind(cur["jacobian_A"][0]), mo.n, mo.m, mo.p)[0].jac(x, u)
    return nl.functions(mo.kind(cur["f"][0]), mo.n, mo.m, mo.p)[0](x, u), ref.add(ref.mm(A, ref.mm(P, ref.tr(A))), Q[1])


@functools.lru_cache(maxsize=None)
def expect_update(mo, key):
    cur = dict(key)
    D = ref.dec
    x, P, R = (D(mo.value(a, *cur[a]).tolist()) for a in ("xk", "Pk", "R"))
    if mo.which == "kf":
        return ref.update(x, P, D(mo.value("H", *cur["H"])[1].tolist()), D(mo.Z[1]), R[1])[:3]
    H = nl.functions(mo.kind(cur["jacobian_H"][0]), mo.n, mo.m, mo.p)[1].jac(x)
    hx = nl.functions(mo.kind(cur["h"][0]), mo.n, mo.m, mo.p)[1](x)
    return ref.update(x, P, H, D(mo.Z[1]), R[1], hx=hx)[:3]
