"""Linear cases: deterministic construction of models/histories from small JSON descriptors.

desc forms (all JSON lists):
  ["dev", n, m, p, T, mode, [[k, comp, variant], ...]]   default history with deviations (k = "all": every step)
  ["seq", name, [i0, i1, ...]]                            history over a tiny event alphabet
  ["hor", n, m, p, T]                                      horizon sweep (periodic steps)
  ["unit", n, m, p, T, mode, sx, sz, su]                   default history in other units
  ["mask", n, m, p, T, comp, base, code, when]             sparsity/sign pattern of one term (when -1: every step)
All numbers are floats (dyadic rationals), so floats, Decimals and Fractions agree exactly.
"""
import functools

import numpy as np

from . import ref


class M:
    """A constant: nested tuple of floats + its numpy and Decimal forms."""
    __slots__ = ("l", "np", "d")

    def __init__(self, l):
        self.l = l
        self.np = np.array(l, dtype=float)
        self.d = ref.dec(l)


_int = {}


def C(x):
    """Interned constant."""
    t = _tup(x)
    m = _int.get(t)
    if m is None:
        m = _int[t] = M([list(r) if isinstance(r, tuple) else r for r in t])
    return m


def _tup(x):
    if isinstance(x, M):
        return _tup(x.l)
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return tuple(_tup(v) for v in x)
    return float(x)


class Step:
    __slots__ = ("A", "B", "u", "H", "Q", "R", "z", "dec", "p", "key")

    def __init__(self, A, B, u, H, Q, R, z, p, key):
        self.A, self.B, self.u, self.H, self.Q, self.R, self.z = A, B, u, H, Q, R, z
        self.p, self.key = p, key
        self.dec = tuple(None if c is None else c.d for c in (A, B, u, H, Q, R, z))


_steps = {}


def step(A, B, u, H, Q, R, z, p):
    """Interned step. B/u None = absent (all NaN) at this step; p = control size."""
    key = tuple(None if c is None else _tup(c) for c in (A, B, u, H, Q, R, z)) + (p,)
    s = _steps.get(key)
    if s is None:
        c = [None if c is None else C(c) for c in (A, B, u, H, Q, R, z)]
        s = _steps[key] = Step(*c, p, key)
        if len(_steps) > 400000:
            clear()
            _steps[key] = s
    return s


def clear():
    _steps.clear()
    _roots.clear()


class Case:
    def __init__(self, x0, P0, steps, desc=None):
        self.x0, self.P0, self.steps, self.desc = C(x0), C(P0), steps, desc
        self.n = len(self.x0.l)
        self.T = len(steps)

    # ---- numpy inputs
    def arrays(self):
        n = self.n
        st = self.steps
        p = st[0].p
        nanB, nanu = np.full((n, p), np.nan), np.full(p, np.nan)
        return dict(
            A=np.array([s.A.np for s in st]),
            B=np.array([nanB if s.B is None else s.B.np.reshape(n, p) for s in st]),
            U=np.array([nanu if s.u is None else s.u.np for s in st]),
            H=np.array([s.H.np for s in st]),
            Q=np.array([s.Q.np for s in st]),
            R=np.array([s.R.np for s in st]),
            Z=np.array([s.z.np for s in st]),
            x0=self.x0.np.copy(), P0=self.P0.np.copy())

    def nodes(self):
        key = (id(self.x0), id(self.P0))
        root = _roots.get(key)
        if root is None:
            root = _roots[key] = ref.Node(self.x0.d, self.P0.d)
        return ref.run_filter(None, None, self.steps, root=root)


_roots = {}


# ------------------------------------------------------------------ generic numbers
def g(*ids):
    """Deterministic 'generic' number in [-1, 1], keyed by integers: zero or a multiple of 2^-44 near a multiple
    of 1/16, so that rounding any input to single precision is visible."""
    h = 0x9E3779B97F4A7C15
    for i in ids:
        h ^= (int(i) + 0x632BE59BD9B4E019 + (h << 6) + (h >> 2)) & 0xFFFFFFFFFFFFFFFF
        h = (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
    b = (h >> 11) % 33 - 16
    return b / 16 + (((h >> 25) % 65535 - 32767) * 2.0 ** -21 * (1 + 2.0 ** -23) if 0 < abs(b) < 16 else 0.0)


def gm(r, c, *ids):
    return [[g(i, j, *ids) for j in range(c)] for i in range(r)]


def gv(r, *ids):
    return [g(i, *ids) for i in range(r)]


def _mmf(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def spd(n, base, scale, *ids):
    L = [[g(i, j, *ids) / 2 if j < i else (0.5 + (g(i, j, *ids) + 1) / 4 if i == j else 0.0) for j in range(n)] for i in range(n)]
    S = _mmf(L, [list(c) for c in zip(*L)])
    return [[scale * (S[i][j] + (base if i == j else 0)) for j in range(n)] for i in range(n)]


def I(n, c=1.0):
    return [[c if i == j else 0.0 for j in range(n)] for i in range(n)]


def Zr(n, m):
    return [[0.0] * m for _ in range(n)]


MODES = ["gen", "ti", "AI", "HI", "sym", "diag", "scalarish", "still"]


@functools.lru_cache(maxsize=None)
def default_terms(n, m, p, k, mode):
    """The default terms of step k as a dict of nested lists."""
    kk = 0 if mode == "ti" else k
    t = 7 * kk + 1
    A = gm(n, n, 1, t, n)
    A = [[A[i][j] * 0.5 + (0.75 if i == j else 0) for j in range(n)] for i in range(n)]
    H = gm(m, n, 2, t, n)
    H = [[H[i][j] + (1.0 if i % n == j else 0) for j in range(n)] for i in range(m)]
    Q = spd(n, 0.0625, 0.5, 3, t)
    R = spd(m, 0.125, 1.0, 4, t)
    B = gm(n, p, 5, t, n)
    u = [v * 2 for v in gv(p, 6, 7 * k + 1)]
    z = [v * 3 for v in gv(m, 8, 7 * k + 1)]
    if mode == "AI":
        A = I(n)
    elif mode == "HI":
        H = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]
    elif mode == "sym":
        A = [[(A[i][j] + A[j][i]) / 2 for j in range(n)] for i in range(n)]
        if n == m:
            H = [[(H[i][j] + H[j][i]) / 2 for j in range(n)] for i in range(n)]
    elif mode == "diag":
        A = [[A[i][j] if i == j else 0.0 for j in range(n)] for i in range(n)]
        Q = [[Q[i][j] if i == j else 0.0 for j in range(n)] for i in range(n)]
        R = [[R[i][j] if i == j else 0.0 for j in range(m)] for i in range(m)]
    elif mode == "scalarish":
        A = I(n, 0.5)
        Q, R = I(n, 0.25), I(m, 0.5)
    elif mode == "still":       # for n == m every predicted covariance equals the initial one
        A, R = I(n), I(m)
        H = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]
        Q = I(n, 0.5) if k else Zr(n, n)
    return dict(A=A, B=B, u=u, H=H, Q=Q, R=R, z=z)


def default_init(n, mode):
    P0 = I(n) if mode == "still" else spd(n, 0.5, 1.0, 9)
    if mode in ("diag", "scalarish"):
        P0 = [[P0[i][j] if i == j else 0.0 for j in range(n)] for i in range(n)]
    return gv(n, 10), P0


def variants(n, m, p):
    """Deviation menu: component -> list of (name, value-or-None)."""
    def perm(n):
        return [[1.0 if j == (i + 1) % n else 0.0 for j in range(n)] for i in range(n)]

    def rank1(n, c=1.0):
        v = [1.0] + [0.5 * (-1) ** i for i in range(1, n)]
        return [[c * a * b for b in v] for a in v]

    v = {}
    v["A"] = [("I", I(n)), ("zero", Zr(n, n)), ("neg", I(n, -1.0)), ("big", [[4.0 * x for x in r] for r in gm(n, n, 21)]),
              ("tiny", [[x / 1024 for x in r] for r in gm(n, n, 22)])]
    if n > 1:
        v["A"] += [("perm", perm(n)), ("sing", rank1(n)), ("nil", [[1.0 if j == i + 1 else 0.0 for j in range(n)] for i in range(n)]),
                   ("skew", [[0.0 if i == j else (1.0 if i < j else -1.0) for j in range(n)] for i in range(n)])]
    v["H"] = [("zero", Zr(m, n)), ("pick0", [[1.0 if j == 0 else 0.0 for j in range(n)] for _ in range(m)]),
              ("eye", [[1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]),
              ("neg", [[-1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]),
              ("big", [[64.0 * x for x in r] for r in gm(m, n, 23)]), ("tiny", [[x / 256 for x in r] for r in gm(m, n, 24)])]
    if m > 1:
        v["H"] += [("row0", [[0.0] * n if i == 0 else gv(n, 25, i) for i in range(m)])]
    v["Q"] = [("zero", Zr(n, n)), ("I", I(n)), ("big", I(n, 1024.0)), ("tiny", I(n, 2.0 ** -20))]
    if n > 1:
        v["Q"] += [("rank1", rank1(n)), ("corr", [[1.0 if i == j else 0.5 for j in range(n)] for i in range(n)]),
                   ("part", [[1.0 if i == j == 0 else 0.0 for j in range(n)] for i in range(n)])]
    v["R"] = [("zero", Zr(m, m)), ("I", I(m)), ("big", I(m, 4096.0)), ("tiny", I(m, 2.0 ** -12))]
    if m > 1:
        v["R"] += [("corr", [[1.0 if i == j else -0.5 for j in range(m)] for i in range(m)]),
                   ("part", [[1.0 if i == j and i else 0.0 for j in range(m)] for i in range(m)]),
                   ("mixed", [[4.0 ** (3 * i) if i == j else 0.0 for j in range(m)] for i in range(m)])]
    if p:
        v["B"] = [("nan", None), ("zero", Zr(n, p)), ("big", [[32.0 * x for x in r] for r in gm(n, p, 26)])]
        v["u"] = [("nan", None), ("zero", [0.0] * p), ("ones", [1.0] * p), ("big", [v * 1024 for v in gv(p, 27)]),
                  ("tiny", [v / 4096 for v in gv(p, 28)])]
        if p > 1:
            v["u"] += [("one0", [0.0] + [1.0] * (p - 1))]
    v["z"] = [("zero", [0.0] * m), ("neg", [-2.0] * m), ("big", [4096.0 * (1 + i) for i in range(m)]), ("vast", [2.0 ** 30 * (i - 2) for i in range(m)]), ("pred", "pred"),
              ("tiny", [2.0 ** -20] * m)]
    if m > 1:
        v["z"] += [("mix", [4096.0 if i == 0 else 0.0 for i in range(m)])]
    v["x0"] = [("zero", [0.0] * n), ("big", [4096.0 * (-1) ** i for i in range(n)]), ("vast", [2.0 ** 30 * (-1) ** i for i in range(n)])]
    v["P0"] = [("zero", Zr(n, n)), ("I", I(n)), ("big", I(n, 2.0 ** 20)), ("tiny", I(n, 2.0 ** -20))]
    if n > 1:
        v["P0"] += [("rank1", rank1(n)), ("part", [[1.0 if i == j and i else 0.0 for j in range(n)] for i in range(n)])]
    return v


_variants = functools.lru_cache(maxsize=None)(variants)
STEP_COMPS = ("z", "u", "R", "Q", "H", "A", "B")


def deviations(n, m, p, T):
    """All single deviations, simplest-first: initial belief, then step 0..T-1."""
    v = _variants(n, m, p)
    out = [[-1, c, name] for c in ("x0", "P0") for name, _ in v[c]]
    for k in range(T):
        for c in STEP_COMPS:
            out += [[k, c, name] for name, _ in v.get(c, [])]
    return out


def weak(n, m, p, T):
    # all channels at once: with a single one the innovation covariance is badly scaled and rounding depends on the solver
    return [[k, "weak", "all"] for k in range(T)]


def build_dev(n, m, p, T, mode, devs):
    v = _variants(n, m, p)
    x0, P0 = default_init(n, mode)
    by = {}
    for k, c, name in devs:
        if c == "weak":     # an observation so weak that it leaves the covariance alone but moves the mean; k, all channels or one
            ix = range(m) if name == "all" else [int(name)]
            t = default_terms(n, m, p, k, mode)
            R = [[2.0 ** 70 if i == j else 0.0 for j in range(m)] if i in ix else [0.0 if j in ix else x for j, x in enumerate(r)] for i, r in enumerate(t["R"])]
            by.setdefault(k, {}).update(R=R, z=[2.0 ** 68 if i in ix else x for i, x in enumerate(t["z"])])
            continue
        if name[0] == "^":      # the usual term times a power of two
            val = {"x0": x0, "P0": P0}.get(c) if k == -1 else default_terms(n, m, p, k, mode)[c]
            val = [[w * 2.0 ** int(name[1:]) for w in r] if isinstance(r, list) else r * 2.0 ** int(name[1:]) for r in val]
        else:
            val = dict(v[c])[name]
        if c == "x0":
            x0 = val
        elif c == "P0":
            P0 = val
        elif k == "all":
            for kk in range(T):
                by.setdefault(kk, {}).setdefault(c, val)
        else:
            by.setdefault(k, {})[c] = val
    steps = []
    root_x, root_P = None, None
    for k in range(T):
        t = dict(default_terms(n, m, p, k, mode))
        o = by.get(k)
        if o:
            t.update(o)
            if t["z"] == "pred":
                t["z"] = [0.0] * m
                c = Case(x0, P0, steps + [step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p)])
                nd = c.nodes()
                if nd and len(nd) == k + 1:
                    t["z"] = [float(a) for a in ref.mv(c.steps[-1].H.d, nd[-1].xp)]
        steps.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, steps)


# ------------------------------------------------------------------ tiny alphabets
def _scalar_alpha(As, Hs, Qs, Rs, cs, zs):
    out = []
    for z in zs:
        for c in cs:
            for R in Rs:
                for Q in Qs:
                    for H in Hs:
                        for A in As:
                            B, u = ([[1.0]], [c]) if c is not None else ([[1.0]], None)
                            out.append(dict(A=[[A]], B=B, u=u, H=[[H]], Q=[[Q]], R=[[R]], z=[z]))
    return out


def _two(n, m, p, sel):
    base = default_terms(n, m, p, 0, "gen")
    v = {c: dict(l) for c, l in variants(n, m, p).items()}
    out = [dict(base)]
    for c, name in sel:
        d = dict(base)
        d[c] = v[c][name]
        out.append(d)
    return out


@functools.lru_cache(maxsize=None)
def alphabet(name):
    if name == "s_full":     # 1-D, every combination of a rich domain
        return _scalar_alpha([1.0, -0.5, 2.0, 0.0], [1.0, 0.0, -2.0], [0.0, 1.0, 0.25], [1.0, 0.25], [None, 0.0, 1.0, -3.0], [0.0, 1.0, -2.0])
    if name == "s_mid":
        return _scalar_alpha([1.0, -0.5], [1.0, -2.0], [0.0, 1.0], [1.0, 0.25], [None, 2.0], [0.0, -2.0])
    if name == "s_small":
        return _scalar_alpha([1.0, -0.5], [1.0, 2.0], [0.5], [1.0, 0.25], [1.0], [0.0, 3.0])
    if name == "s_tiny":
        return _scalar_alpha([1.0, 0.5], [1.0], [0.5], [1.0], [1.0], [0.0, 3.0])
    if name == "s_two":
        return _scalar_alpha([1.0], [1.0], [0.5], [1.0], [1.0], [0.0, 3.0])
    if name == "m21":        # 2-D state, scalar observation
        return _two(2, 1, 1, [("A", "perm"), ("A", "sing"), ("H", "pick0"), ("H", "zero"), ("Q", "zero"), ("Q", "rank1"),
                              ("R", "tiny"), ("u", "nan"), ("u", "zero"), ("z", "zero"), ("z", "big")])
    if name == "m22":
        return _two(2, 2, 2, [("A", "skew"), ("H", "eye"), ("Q", "zero"), ("R", "corr"), ("u", "nan"), ("z", "zero")])
    if name == "m12":
        return _two(1, 2, 1, [("A", "neg"), ("H", "row0"), ("Q", "zero"), ("R", "part"), ("u", "nan"), ("z", "mix")])
    if name in COIN:
        return _coin(name)
    raise KeyError(name)


def _prod(n, As, Bu, Hs, Qs, Rs, zs):
    return [dict(A=A, B=B, u=u, H=H, Q=Q, R=R, z=z) for z in zs for R in Rs for Q in Qs for H in Hs for B, u in Bu for A in As]


# Histories in which intermediate quantities (prior, posterior, innovation covariance, gain, state) repeat exactly
# between steps while the other terms change: whatever a step reuses from another step must be reused soundly.
COIN = ("c11", "c11s", "c21", "c21s", "c21t", "c22", "c22s", "c12", "c31")


def _coin(name):
    i2, sw = I(2), [[0.0, 1.0], [1.0, 0.0]]
    z0 = ([[0.0]], [0.0])
    if name == "c11":      # steady state P=1/2, prior 1, S=2 for R=1 (and for H=1/2, R=7/4)
        return _prod(1, [[[1.0]], [[-1.0]]], [z0, ([[1.0]], [1.0]), ([[1.0]], None)], [[[1.0]], [[-1.0]], [[0.5]]],
                     [[[0.5]]], [[[1.0]], [[1.75]]], [[0.0], [1.0], [-1.0]])
    if name == "c11s":
        return _prod(1, [[[1.0]], [[-1.0]]], [z0], [[[1.0]], [[-1.0]]], [[[0.5]], [[0.0]]], [[[1.0]]], [[1.0], [-1.0]])
    d10, d01, zz = [[0.5, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.5]], Zr(2, 2)
    b0 = ([[1.0], [0.0]], [0.0])
    if name == "c21":
        return _prod(2, [i2, sw], [b0], [[[1.0, 0.0]], [[0.0, 1.0]], [[1.0, 1.0]]], [zz, d10, d01], [[[1.0]], [[2.0]]], [[0.0], [1.0]])
    if name == "c21s":
        return _prod(2, [i2], [b0], [[[1.0, 0.0]], [[0.0, 1.0]]], [zz, d10, d01], [[[1.0]]], [[0.0], [1.0]])
    if name == "c21t":
        return _prod(2, [i2], [b0], [[[1.0, 0.0]], [[0.0, 1.0]]], [zz, d10, d01], [[[1.0]]], [[1.0]])
    h = [[0.5, 0.0], [0.0, 0.5]]
    hc = [[0.5, 0.25], [0.25, 0.5]]
    b2 = ([[1.0], [-1.0]], [0.0])
    if name == "c22":
        return _prod(2, [i2, sw], [b2], [i2, sw], [h, hc], [i2, [[1.0, 0.5], [0.5, 1.0]]], [[0.0, 0.0], [1.0, 0.0]])
    if name == "c22s":
        return _prod(2, [i2, sw], [b2], [i2, sw], [h], [i2], [[0.0, 0.0], [1.0, 0.0]])
    if name == "c12":
        return _prod(1, [[[1.0]], [[-1.0]]], [z0], [[[1.0], [0.0]], [[0.0], [1.0]], [[1.0], [1.0]]], [[[0.5]]],
                     [I(2), [[1.0, 0.5], [0.5, 1.0]]], [[0.0, 0.0], [1.0, 0.0]])
    if name == "c31":
        P = [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]
        return _prod(3, [I(3), P], [([[1.0], [0.0], [0.0]], [0.0])], [[[1.0, 0.0, 0.0]], [[0.0, 1.0, 0.0]], [[0.0, 0.0, 1.0]]],
                     [Zr(3, 3), [[0.5, 0, 0], [0, 0, 0], [0, 0, 0]]], [[[1.0]]], [[0.0], [1.0]])
    raise KeyError(name)


COIN_INIT = {"c11": [([1.0], [[0.5]]), ([0.0], [[0.5]])], "c21": [([0.0, 0.0], I(2)), ([1.0, 1.0], I(2))],
             "c22": [([0.0, 0.0], I(2, 0.5)), ([1.0, 0.0], I(2, 0.5))], "c12": [([0.0], [[0.5]]), ([1.0], [[0.5]])],
             "c31": [([0.0] * 3, I(3)), ([1.0] * 3, I(3))]}


INITS = {"s": [([0.0], [[1.0]]), ([1.0], [[4.0]]), ([-2.0], [[0.0]])],
         "m21": [None], "m22": [None], "m12": [None]}


def build_seq(name, idx, init=0):
    al = alphabet(name)
    if name in COIN:
        n, p = int(name[1]), 1
        x0, P0 = COIN_INIT[name[:3]][init]
    elif name[0] == "s":
        n, p = 1, 1
        x0, P0 = INITS["s"][init]
    else:
        n, p = int(name[1]), {"m21": 1, "m22": 2, "m12": 1}[name]
        x0, P0 = default_init(n, "gen")
    return Case(x0, P0, [step(p=p, **al[i]) for i in idx])


def build_hor(n, m, p, T, period=5, mode="gen"):
    x0, P0 = default_init(n, mode)
    st = []
    for k in range(T):
        t = default_terms(n, m, p, k % period, mode)
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, st)


def build_unit(n, m, p, T, mode, sx, sz, su):
    """Default history re-expressed in other units: state component i times 2**sx[i], etc."""
    x0, P0 = default_init(n, mode)
    X = [2.0 ** e for e in sx]
    Zs = [2.0 ** e for e in sz]
    Us = [2.0 ** e for e in su]
    x0 = [a * b for a, b in zip(x0, X)]
    P0 = [[P0[i][j] * X[i] * X[j] for j in range(n)] for i in range(n)]
    st = []
    for k in range(T):
        t = default_terms(n, m, p, k, mode)
        st.append(step(
            [[t["A"][i][j] * X[i] / X[j] for j in range(n)] for i in range(n)],
            [[t["B"][i][j] * X[i] / Us[j] for j in range(p)] for i in range(n)],
            [a * b for a, b in zip(t["u"], Us)],
            [[t["H"][i][j] * Zs[i] / X[j] for j in range(n)] for i in range(m)],
            [[t["Q"][i][j] * X[i] * X[j] for j in range(n)] for i in range(n)],
            [[t["R"][i][j] * Zs[i] * Zs[j] for j in range(m)] for i in range(m)],
            [a * b for a, b in zip(t["z"], Zs)], p))
    return Case(x0, P0, st)


def build_rep(n, m, p, T, code, mode="gen"):
    """Each term (z, u, R, Q, H, A, B) varies, stays constant or alternates, independently (base-3 digits)."""
    x0, P0 = default_init(n, mode)
    d = dict(zip(STEP_COMPS, digits(code, 3, len(STEP_COMPS))))
    st = []
    for k in range(T):
        t = {c: default_terms(n, m, p, (k, 1, k % 2)[d[c]], mode)[c] for c in STEP_COMPS}
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, st)


CONST = dict(A=[1.0, 0.875, -0.75], Q=[0.0, 2.0 ** -10, 2.0 ** -3, 1.0], R=[1.0, 2.0 ** -6, 64.0], z=["zero", "one", "ramp", "alt", "jump", "blip"])


def build_const(n, T, a, q, r, zk):
    """Time-invariant tracking of a constant, a ramp, an alternating, a jumping or a once disturbed signal."""
    I_ = I(n)
    A = [[(CONST["A"][a] if i == j else 0.125 if j == i + 1 else 0.0) for j in range(n)] for i in range(n)]
    H = [[1.0 if j == 0 else 0.0 for j in range(n)]]
    st = []
    for k in range(T):
        z = {"zero": 0.0, "one": 1.0, "ramp": k / 4, "alt": (-1.0) ** k, "jump": 1.0 if 2 * k < T else 5.0, "blip": 9.0 if k == T // 2 else 2.0}[CONST["z"][zk]]
        st.append(step(A, Zr(n, 1), [0.0], H, I(n, CONST["Q"][q]), I(1, CONST["R"][r]), [z], 1))
    return Case([0.5] * n, I_, st)


def build_sign(n, m, p, T, code, mag):
    """Joint sign patterns: every sign of H, z and x0 entries, A entirely positive or negative (mag < 0: accurate sensors)."""
    lo, mag = mag < 0, abs(mag)
    x0, P0 = default_init(n, "gen")
    d = [1.0 - 2 * v for v in digits(code, 2, n * m + m + n + 1)]
    h, z, x, a = d[:n * m], d[n * m:n * m + m], d[n * m + m:-1], d[-1]
    st = []
    for k in range(T):
        t = dict(default_terms(n, m, p, k, "gen"))
        t["H"] = [[(abs(v) + 0.125) * h[i * n + j] for j, v in enumerate(r)] for i, r in enumerate(t["H"])]
        t["A"] = [[(abs(v) / 2 + 0.125) * a for v in r] for r in t["A"]]
        t["z"] = [(abs(v) + 1) * mag * z[i] for i, v in enumerate(t["z"])]
        if lo:
            t["R"] = [[v / 256 for v in r] for r in t["R"]]
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case([(abs(v) + 0.25) * w for v, w in zip(x0, x)], P0, st)


PROD = dict(A=["", "I"], H=["", "eye", "pick0"], Q=["", "zero", "I"], R=["", "I"], u=["", "nan", "zero", "B0"], z=["", "zero", "pred"], x0=["", "zero"], P0=["", "I", "big", "zero"])


def prod_count():
    c = 1
    for v in PROD.values():
        c *= len(v)
    return c


def prod_values(code):
    out = {}
    for comp, vals in PROD.items():
        out[comp] = vals[code % len(vals)]
        code //= len(vals)
    return out


def build_prod(n, m, p, T, code, mode="gen"):
    """Full product of special values of every term, the same at every step."""
    devs = []
    for comp, name in prod_values(code).items():
        if name == "B0":
            devs.append(("all", "B", "zero"))
        elif name:
            devs.append((-1 if comp in ("x0", "P0") else "all", comp, name))
    return build_dev(n, m, p, T, mode, devs)


def digits(code, base, n):
    out = []
    for _ in range(n):
        out.append(code % base)
        code //= base
    return out


def mask_term(comp, val, n, m, p, base, code):
    """Sparsity / sign pattern of one term. Symmetric terms: unit-size diagonal, off-diagonal pairs 0, +, -."""
    size = {"A": (n, n), "H": (m, n), "B": (n, p)}
    if comp in size:
        r, c = size[comp]
        d = digits(code, base, r * c)
        return [[(0.0, 1.0, -1.0)[d[i * c + j]] * (val[i][j] or 0.5) for j in range(c)] for i in range(r)]
    if comp in ("Q", "R", "P0"):
        k = m if comp == "R" else n
        d = digits(code, 3, k * (k - 1) // 2)
        S = [[(1.0 + (i % 3 - 1) / 4 if i == j else 0.0) for j in range(k)] for i in range(k)]
        it = iter(d)
        for i in range(k):
            for j in range(i):
                S[i][j] = S[j][i] = (0.0, 0.25, -0.25)[next(it)]
        return S
    k = {"u": p, "z": m, "x0": n}[comp]
    return [(0.0, 1.0, -1.0, 3.0)[v] for v in digits(code, base, k)]


def mask_count(comp, n, m, p, base):
    e = {"A": n * n, "H": m * n, "B": n * p, "Q": n * (n - 1) // 2, "P0": n * (n - 1) // 2, "R": m * (m - 1) // 2, "u": p, "z": m, "x0": n}[comp]
    return (3 if comp in ("Q", "R", "P0") else base) ** e


def build_mask(n, m, p, T, comp, base, code, when):
    x0, P0 = default_init(n, "gen")
    if comp == "P0":
        P0 = mask_term(comp, None, n, m, p, base, code)
    elif comp == "x0":
        x0 = mask_term(comp, None, n, m, p, base, code)
    st = []
    for k in range(T):
        t = dict(default_terms(n, m, p, k, "gen"))
        if comp in t and when in (-1, k):
            t[comp] = mask_term(comp, t[comp], n, m, p, base, code)
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, st)


INTS = {"H": [(2, 2, (-1, 0, 1)), (2, 3, (0, 1)), (3, 2, (0, 1)), (1, 3, (-1, 0, 1)), (3, 1, (-1, 0, 1)), (3, 3, (0, 1)), (4, 2, (0, 1))],
        "A": [(2, 2, (-1, 0, 1)), (3, 3, (0, 1))], "B": [(2, 2, (-1, 0, 1)), (3, 2, (0, 1))],
        "Q": [(2, 2, (0, 1, 2)), (3, 3, (0, 1))], "R": [(2, 2, (0, 1, 2)), (3, 3, (0, 1))], "P0": [(2, 2, (0, 1, 2)), (3, 3, (0, 1))]}


@functools.lru_cache(maxsize=None)
def int_terms(comp, rows, cols, vals):
    """All matrices over a few integers; for covariances the symmetric positive semidefinite ones (off-diagonal -1, 0, 1)."""
    import itertools
    if comp in "HAB":
        return [np.array(c).reshape(rows, cols).tolist() for c in itertools.product([float(v) for v in vals], repeat=rows * cols)]
    ix = [(i, j) for i in range(rows) for j in range(i)]
    out = []
    for d in itertools.product([float(v) for v in vals], repeat=rows):
        for o in itertools.product((-1.0, 0.0, 1.0), repeat=len(ix)):
            P = np.diag(d)
            for (i, j), v in zip(ix, o):
                P[i, j] = P[j, i] = v
            if np.linalg.eigvalsh(P)[0] > -1e-9:
                out.append(P.tolist())
    return out


def build_ints(comp, i, code, T, mode):
    """One term made of small integers, at every step."""
    rows, cols, vals = INTS[comp][i]
    n, m, p = {"H": (cols, rows, 1), "A": (rows, 1, 1), "B": (rows, 1, cols), "Q": (rows, 1, 1), "R": (2, rows, 1), "P0": (rows, 1, 1)}[comp]
    val = int_terms(comp, rows, cols, vals)[code]
    x0, P0 = default_init(n, mode)
    if comp == "P0":
        P0 = val
    st = []
    for k in range(T):
        t = dict(default_terms(n, m, p, k, mode))
        if comp in t:
            t[comp] = val
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, st)


NEAR = ("A", "B", "u", "H", "Q", "R", "z", "x0", "P0")


def near_count(comp, n, m, p):
    """How many entries of a term can be nudged on their own (symmetric pairs together)."""
    tri = lambda d: d * (d + 1) // 2
    return {"A": n * n, "B": n * p, "u": p, "H": m * n, "Q": tri(n), "R": tri(m), "z": m, "x0": n, "P0": tri(n)}[comp]


def build_near(n, m, p, T, mode, comp, pos, when, e):
    """Structured terms (symmetric, diagonal, identity, constant in time, ...) with one entry very slightly off at one step
    or from one step on."""
    def nudge(val):
        if comp in ("u", "z", "x0"):
            val = list(val)
            val[pos] = val[pos] * (1 + 2.0 ** e) if val[pos] else 2.0 ** (e - 9)
            return val
        val = [list(r) for r in val]
        if comp in ("Q", "R", "P0"):
            i, j = [(i, j) for i in range(len(val)) for j in range(i + 1)][pos]
            val[i][j] = val[j][i] = val[i][j] * (1 + 2.0 ** e) if val[i][j] else 2.0 ** (e - 9)
        else:
            i, j = divmod(pos, len(val[0]))
            val[i][j] = val[i][j] * (1 + 2.0 ** e) if val[i][j] else 2.0 ** (e - 9)
        return val
    x0, P0 = default_init(n, mode)
    if comp == "x0":
        x0 = nudge(x0)
    elif comp == "P0":
        P0 = nudge(P0)
    st = []
    for k in range(T):
        t = dict(default_terms(n, m, p, k, mode))
        if mode == "ti":
            first = default_terms(n, m, p, 0, mode)
            t.update(u=first["u"], z=first["z"])
        if comp in t and (when in (-1, k) or when < -1 and k >= -when):
            t[comp] = nudge(t[comp])
        st.append(step(t["A"], t["B"], t["u"], t["H"], t["Q"], t["R"], t["z"], p))
    return Case(x0, P0, st)


def build(desc):
    k = desc[0]
    if k == "near":
        c = build_near(*desc[1:])
        c.desc = desc
        return c
    if k == "ints":
        c = build_ints(*desc[1:])
        c.desc = desc
        return c
    if k == "dev":
        c = build_dev(*desc[1:6], [tuple(d) for d in desc[6]])
    elif k == "seq":
        c = build_seq(desc[1], desc[2], desc[3] if len(desc) > 3 else 0)
    elif k == "hor":
        c = build_hor(*desc[1:])
    elif k == "mask":
        c = build_mask(*desc[1:])
    elif k == "unit":
        c = build_unit(*desc[1:])
    elif k == "rep":
        c = build_rep(*desc[1:])
    elif k == "prod":
        c = build_prod(*desc[1:])
    elif k == "const":
        c = build_const(*desc[1:])
    elif k == "sign":
        c = build_sign(*desc[1:])
    else:
        raise KeyError(desc)
    c.desc = desc
    return c
