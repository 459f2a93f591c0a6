"""Nonlinear cases: polynomial transition/observation functions with exact symbolic Jacobians.

desc: ["nl", kind, n, m, p, T, mode, [[k, comp, variant], ...]]
      ["nlseq", kind, n, m, p, [event, ...]]      event over a small (u, z, Q, R) alphabet
"""
import functools
import itertools

import numpy as np

from . import lin, ref
from .lin import C, g

KINDS = ["lin", "quad", "cubic", "bilin", "mixed", "flat", "mult", "even"]


class Poly:
    """Vector polynomial: per component a list of (coef, ((kind, index), ...)) monomials."""

    def __init__(self, comps, n, p):
        self.comps, self.n, self.p = comps, n, p
        self.dcomps = [[_diff(c, j) for j in range(n)] for c in comps]
        self._cache = {}

    def _conv(self, x):
        return x if isinstance(x, ref.D) else float(x)

    def __call__(self, x, u=()):
        return [_ev(c, x, u) for c in self.comps]

    def jac(self, x, u=()):
        return [[_ev(t, x, u) for t in row] for row in self.dcomps]


def _ev(terms, x, u):
    s = None
    dec = bool(len(x)) and isinstance(x[0], ref.D)
    for coef, vars_ in terms:
        v = ref.D(coef) if dec else coef
        for kind, i in vars_:
            v = v * (x[i] if kind == "x" else u[i])
        s = v if s is None else s + v
    if s is None:
        s = ref.D(0) if dec else 0.0
    return s


def _diff(terms, j):
    out = []
    for coef, vars_ in terms:
        k = sum(1 for v in vars_ if v == ("x", j))
        if k:
            rest = list(vars_)
            rest.remove(("x", j))
            out.append((coef * k, tuple(rest)))
    return out


@functools.lru_cache(maxsize=None)
def functions(kind, n, m, p):
    """(f, h) polynomials."""
    X = [("x", i) for i in range(n)]
    U = [("u", i) for i in range(p)]
    f, h = [], []
    for i in range(n):
        t = [((0.75 if i == j else 0.0) + g(31, i, j, n) / 4, (X[j],)) for j in range(n)]
        t += [(g(32, i, j, n) or 0.5, (U[j],)) for j in range(p)]
        if kind == "flat":
            t = [(0.5 + i, ())] + [(1.0, (U[j],)) for j in range(p)]
        if kind == "mult":      # x' = x + u * swap(x): the state can repeat while the Jacobian changes with the control
            t = [(1.0, (X[i],))] + [(1.0 - 0.5 * j, (X[(i + 1) % n], U[j])) for j in range(p)]
        if kind == "lin1":      # x' = x + u, z = x
            t = [(1.0, (X[i],))] + [(1.0, (U[j],)) for j in range(p)]
        if kind == "even":      # the observation Jacobian vanishes at the origin
            t = [(1.0, (X[i],)), (0.25, (X[i], X[i]))]
        if kind in ("quad", "mixed"):
            t += [((g(33, i, j, n) or 0.5) / 8, (X[j], X[(j + i) % n])) for j in range(n)]
        if kind in ("cubic", "mixed"):
            t += [(-1 / 32, (X[i], X[i], X[i]))]
        if kind in ("bilin", "mixed") and p:
            t += [((g(34, i, j, n) or 0.25) / 2, (X[j], U[(i + j) % p])) for j in range(n)]
        f.append(t)
    for i in range(m):
        t = [((1.0 if i % n == j else 0.0) + g(35, i, j, n) / 4, (X[j],)) for j in range(n)]
        if kind in ("quad", "mixed", "bilin", "mult"):
            t += [((g(36, i, j, n) or 0.5) / 8, (X[j], X[(j + i + 1) % n])) for j in range(n)]
        if kind in ("cubic", "mixed"):
            t += [(1 / 16, (X[i % n], X[i % n], X[(i + 1) % n])), (0.25, ())]
        if kind == "lin1":
            t = [(1.0, (X[i % n],))]
        if kind == "even":
            t = [(0.5, (X[i % n], X[(i + 1) % n]))]
        if kind == "flat":
            t = [(1.0, ()), (0.5, (X[i % n],))]
        h.append(t)
    if kind[0] == "p" and kind[1] in "AH":      # pA<code>, pH<code>: sparsity pattern of the Jacobian
        code = int(kind[2:])
        f = [[(1.0 if i == j else 0.5 - g(37, i, j) / 4, (X[j],)) for j in range(n) if kind[1] == "H" or code >> (i * n + j) & 1] for i in range(n)]
        f = [t + [(c / 8, v * 2) for c, v in t] + [(1.0, (U[j],)) for j in range(p)] for t in f]
        h = [[(1.0 if i == j else 0.5 - g(38, i, j) / 4, (X[j],)) for j in range(n) if kind[1] == "A" or code >> (i * n + j) & 1] for i in range(m)]
        h = [t + [(c / 8, v * 2) for c, v in t] for t in h]
    if kind[0] == "g":      # g<7 digits>: every combination of simple structures
        fl, fn, fc, fu, hl, hn, hc = map(int, kind[1:])
        f, h = [], []
        for i in range(n):
            t = [[(1.0, (X[i],))], [], [(0.5 - g(39, i, j) / 4, (X[j],)) for j in range(n)], [(1.0, (X[(i + 1) % n],))], [(0.5 + i / 4, (X[i],))]][fl]
            t = t + [[], [(0.125, (X[i], X[(i + 1) % n]))]][fn] + [[], [(1.0 + i, ())]][fc]
            f.append(t + [[], [(1.0 - 0.5 * j, (U[j],)) for j in range(p)], [(0.5, (X[i], U[j])) for j in range(p)]][fu])
        for i in range(m):
            t = [[(1.0, (X[i % n],))], [(0.5 + g(40, i, j) / 4, (X[j],)) for j in range(n)], []][hl]
            h.append(t + [[], [(0.25, (X[i % n], X[i % n]))], [(0.125, (X[j], X[(i + j) % n])) for j in range(n)]][hn] + [[], [(0.5 + i, ())]][hc])
    if kind[0] == "z":      # z<n digits>_<n digits>: how each state component enters f and h (linear, flat at zero, not at all)
        fd, hd = kind[1:].split("_")
        f, h = [], []
        for i in range(n):
            t = []
            for j in range(n):
                c = (0.75 if i == j else 0.5 - g(41, i, j) / 4)
                t += [[(c, (X[j],))], [(c / 4, (X[j],) * 3), (c / 8, (X[j],) * 2)], []][int(fd[j])]
            f.append([] if fd[i] == "2" else t + [(1.0, (U[j],)) for j in range(p)])
        for i in range(m):
            t = []
            for j in range(n):
                c = (1.0 if i == j else 0.5 - g(42, i, j) / 4) * (-1 if (i + j) % 3 == 1 else 1)
                t += [[(c, (X[j],))], [(c, (X[j],) * 3)], [(c / 2, (X[j],) * 3), (c / 4, (X[j],) * 2)], []][int(hd[j])]
            h.append(t)
    return Poly(f, n, p), Poly(h, n, p)


def vanishing(shapes, T=3):
    """Every way the state components can enter f and h, on trajectories through the points where the Jacobians lose columns."""
    for n, m in shapes:
        for fd in itertools.product("012", repeat=n):
            for hd in itertools.product("0123", repeat=n):
                for devs in ([[-1, "x0", "zero"], ["all", "u", "zero"]], [["all", "u", "zero"]]):
                    yield ["nl", f"z{''.join(fd)}_{''.join(hd)}", n, m, 1, T, "gen", devs]


GRAMMAR = (5, 2, 2, 3, 3, 3, 2)


def grammar(shapes, T=3, step=1):
    """Every combination of linear part, nonlinear part, drift and control of both functions, with controls given and zero."""
    for shp in shapes:
        for i, code in enumerate(itertools.product(*map(range, GRAMMAR))):
            if i % step == 0:
                for devs in ([], [["all", "u", "zero"]]):
                    yield ["nl", "g" + "".join(map(str, code)), *shp, T, "gen", devs]


def scaled(P, out, sx, su):
    """The same function in other units: out[i] * P_i(x / sx, u / su)."""
    comps = []
    for i, t in enumerate(P.comps):
        l = []
        for coef, vs in t:
            for kd, j in vs:
                coef = coef / (sx[j] if kd == "x" else su[j])
            l.append((coef * out[i], vs))
        comps.append(l)
    return Poly(comps, P.n, P.p)


class NCase:
    def __init__(self, kind, n, m, p, x0, P0, us, zs, Qs, Rs, usesu=True):
        self.kind, self.n, self.m, self.p = kind, n, m, p
        self.x0, self.P0 = C(x0), C(P0)
        self.us = [C(u) for u in us]
        self.zs, self.Qs, self.Rs = [C(z) for z in zs], [C(q) for q in Qs], [C(r) for r in Rs]
        self.T = len(zs)
        self.f, self.h = functions(kind, n, m, p)
        self.X = [1.0] * n      # state units
        self.absent = {}        # step -> control components handed over as NaN (the callbacks take NaN as no control)

    def truncate(self, T):
        self.us, self.zs, self.Qs, self.Rs, self.T = self.us[:T], self.zs[:T], self.Qs[:T], self.Rs[:T], T

    def nodes(self):
        return ref.ekf_filter(self.x0.d, self.P0.d, self.f, self.h, self.f.jac, lambda x: self.h.jac(x),
                              [u.d for u in self.us], [z.d for z in self.zs], [q.d for q in self.Qs], [r.d for r in self.Rs])

    def arrays(self):
        U = np.array([u.np for u in self.us]).reshape(self.T, self.p)
        for k, ix in self.absent.items():
            if k < self.T:
                U[k, ix] = np.nan
        return dict(U=U, Z=np.array([z.np for z in self.zs]),
                    Q=np.array([q.np for q in self.Qs]), R=np.array([r.np for r in self.Rs]),
                    x0=self.x0.np.copy(), P0=self.P0.np.copy())

    def callbacks(self):
        f, h, p = self.f, self.h, self.p

        def ctl(u):
            u = [0.0 if v != v else v for v in _list(u)]
            return u if len(u) == p or any(u) else [0.0] * p

        def cf(x, u):
            return np.array(f(_list(x), ctl(u)), dtype=float)

        def ch(x):
            return np.array(h(_list(x)), dtype=float)

        def cA(x, u):
            return np.array(f.jac(_list(x), ctl(u)), dtype=float)

        def cH(x):
            return np.array(h.jac(_list(x)), dtype=float)

        return dict(f=cf, h=ch, jacobian_A=cA, jacobian_H=cH)


def _list(v):
    return [float(a) for a in np.asarray(v, dtype=float).ravel()]


def make_ekf(a, cb, **over):
    from .kal import ExtendedKalmanFilter
    a = {**a, **over}
    return ExtendedKalmanFilter(xk=a["x0"], Pk=a["P0"], Q=a["Q"], R=a["R"], **cb)


def build(desc):
    if desc[0] == "nl":
        _, kind, n, m, p, T, mode, devs = desc
        if isinstance(devs, int):      # product of special values, the same at every step
            devs = product(devs)
        part = [d for d in devs if d[2] == "pnan"]
        lc = lin.build(["dev", n, m, p, T, mode, [d for d in devs if d[2] != "pnan"]])
        us = [[v / 2 for v in s.u.l] if s.u is not None else [0.0] * p for s in lc.steps]
        zs = [s.z.l for s in lc.steps]
        absent = {k: list(range(p)) for k, s in enumerate(lc.steps) if s.u is None and p}
        for k, _, _ in part:
            us[k][0] = 0.0
            absent[k] = [0]
        c = NCase(kind, n, m, p, lc.x0.l, lc.P0.l, us, zs, [s.Q.l for s in lc.steps], [s.R.l for s in lc.steps])
        c.absent = absent
    elif desc[0] == "nlhor":
        _, kind, n, m, p, T = desc
        lc = lin.build_hor(n, m, p, T)
        c = NCase(kind, n, m, p, lc.x0.l, lc.P0.l, [[v / 8 for v in s.u.l] for s in lc.steps], [[v / 8 for v in s.z.l] for s in lc.steps],
                  [s.Q.l for s in lc.steps], [s.R.l for s in lc.steps])
    elif desc[0] == "nlrep":    # u, z, Q, R each vary (0), stay constant (1) or alternate (2)
        _, kind, n, m, p, T, code = desc
        d = lin.digits(code, 3, 4)
        t = [lin.default_terms(n, m, p, k, "gen") for k in range(T)]
        pick = lambda c, i: [t[(k, 1, k % 2)[d[i]]][c] for k in range(T)]
        x0, P0 = lin.default_init(n, "gen")
        c = NCase(kind, n, m, p, x0, P0, [[v / 8 for v in u] for u in pick("u", 0)], [[v / 8 for v in z] for z in pick("z", 1)], pick("Q", 2), pick("R", 3))
    elif desc[0] == "nlmask":
        kind, n, m, p, T, comp, base, code, when = desc[1:]
        lc = lin.build_mask(n, m, p, T, comp, base, code, when)
        c = NCase(kind, n, m, p, lc.x0.l, lc.P0.l, [[v / 2 for v in s.u.l] for s in lc.steps], [s.z.l for s in lc.steps],
                  [s.Q.l for s in lc.steps], [s.R.l for s in lc.steps])
    elif desc[0] == "nlpred":    # short dyadic numbers, so that observations equal to their prediction are exactly so
        kind, n, m, p, T, off = desc[1:]
        lc = lin.build_dev(n, m, p, T, "gen", [])
        rnd = lambda v: round(v * 4) / 4
        us = [[rnd(v) for v in s.u.l] for s in lc.steps]
        c = NCase(kind, n, m, p, [rnd(v) or 0.5 for v in lc.x0.l], lc.P0.l, us, [s.z.l for s in lc.steps], [s.Q.l for s in lc.steps], [s.R.l for s in lc.steps])
        c.f, c.h = (Poly([[(rnd(k) or 0.25, vs) for k, vs in t] for t in P.comps], n, p) for P in (c.f, c.h))
        x, zs = c.x0.l, []
        for k in range(T):
            x = [float(v) for v in c.f(x, us[k])]
            zs.append([float(v) + (1.0 if [k, i] in off else 0.0) for i, v in enumerate(c.h(x))])
        c.zs = [C(z) for z in zs]
    elif desc[0] == "nlunit":
        kind, n, m, p, T, sx, sz, su = desc[1:]
        lc = lin.build_dev(n, m, p, T, "gen", [])
        X, Zs, Us = ([2.0 ** e for e in v] for v in (sx, sz, su))
        c = NCase(kind, n, m, p, [a * b for a, b in zip(lc.x0.l, X)], [[v * X[i] * X[j] for j, v in enumerate(r)] for i, r in enumerate(lc.P0.l)],
                  [[v / 2 * b for v, b in zip(s.u.l, Us)] for s in lc.steps], [[v * b for v, b in zip(s.z.l, Zs)] for s in lc.steps],
                  [[[v * X[i] * X[j] for j, v in enumerate(r)] for i, r in enumerate(s.Q.l)] for s in lc.steps],
                  [[[v * Zs[i] * Zs[j] for j, v in enumerate(r)] for i, r in enumerate(s.R.l)] for s in lc.steps])
        c.X = X
        c.f, c.h = scaled(c.f, X, X, Us), scaled(c.h, Zs, X, Us)
    else:
        kind, n, m, p, ev = desc[1:6]
        x0, P0 = lin.default_init(n, "gen")
        if len(desc) > 6:
            x0 = [0.0] * n if desc[6] == "zero" else [1.0] * n
            P0 = lin.I(n, 0.5)
            al = coin_events(n, m, p)
        else:
            al = events(n, m, p)
        us, zs, Qs, Rs = zip(*[al[e] for e in ev])
        c = NCase(kind, n, m, p, x0, P0, us, zs, Qs, Rs)
    c.desc = desc
    return c


@functools.lru_cache(maxsize=None)
def events(n, m, p):
    t0 = lin.default_terms(n, m, p, 0, "gen")
    t1 = lin.default_terms(n, m, p, 1, "gen")
    us = [[v / 2 for v in t0["u"]], [0.0] * p] if p else [[]]
    zs = [t0["z"], [0.0] * m, t1["z"]]
    Qs = [t0["Q"], lin.Zr(n, n)]
    Rs = [t0["R"], lin.I(m, 1 / 64)]
    return [e for e in itertools.product(us, zs, Qs, Rs)]


@functools.lru_cache(maxsize=None)
def coin_events(n, m, p):
    """Events under which the state estimate stays at a fixed point while control and noise change."""
    us = [[0.0] * p, [0.5] * p, [-0.5] * p]
    zs = [[0.0] * m, [1.0] * m]
    Qs = [lin.I(n, 0.5), lin.Zr(n, n)]
    Rs = [lin.I(m), lin.I(m, 2.0)]
    return [e for e in itertools.product(us, zs, Qs, Rs)]


def ekf_deviations(n, m, p, T):
    return [d for d in lin.deviations(n, m, p, T) if d[1] in ("x0", "P0", "Q", "R", "u", "z") and d[2] not in ("pred", "vast")]


PROD = dict(u=["", "zero", "ones"], z=["", "zero", "tiny"], Q=["", "zero", "I"], R=["", "I", "tiny"], x0=["", "zero"], P0=["", "I", "zero", "tiny"])


def product(code):
    devs = []
    for comp, vals in PROD.items():
        name = vals[code % len(vals)]
        code //= len(vals)
        if name:
            devs.append([-1 if comp in ("x0", "P0") else "all", comp, name])
    return devs


def products(kinds, shapes, T=3):
    for kind in kinds:
        for shp in shapes:
            for code in range(3 ** 4 * 8):
                yield ["nl", kind, *shp, T, "gen", code]


def patterns(kind="quad", T=3, limit=10 ** 9):
    """Every sparsity pattern of the Jacobians; every sign pattern of noise, control, data and initial mean."""
    from . import families
    for n, m in ((2, 1), (2, 2)):
        for code in range(2 ** (n * n)):
            yield ["nl", f"pA{code}", n, m, 1, T, "gen", []]
    for n, m in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1)):
        for code in range(2 ** (n * m)):
            yield ["nl", f"pH{code}", n, m, 1, T, "gen", []]
    for code in range(512):
        if limit > 512 or code % 7 == 0:
            yield ["nl", f"pA{code}", 3, 1, 1, T, "gen", []]
    for d in families.masks("QRPuzx", T, limit=limit):
        yield ["nlmask", kind] + d[1:]


def units(kinds, shapes, exps, T=3):
    for kind in kinds:
        for n, m, p in shapes:
            for e in exps:
                yield ["nlunit", kind, n, m, p, T, [e] * n, [e] * m, [e] * p]
                yield ["nlunit", kind, n, m, p, T, [e] * n, [0] * m, [0] * p]
                yield ["nlunit", kind, n, m, p, T, [0] * n, [e] * m, [0] * p]
                yield ["nlunit", kind, n, m, p, T, [0] * n, [0] * m, [e] * p]
                for i in range(n if n > 1 else 0):
                    yield ["nlunit", kind, n, m, p, T, [e if j == i else 0 for j in range(n)], [0] * m, [0] * p]
                for i in range(m if m > 1 else 0):
                    yield ["nlunit", kind, n, m, p, T, [0] * n, [e if j == i else 0 for j in range(m)], [0] * p]


def reps(kinds, shapes, T=9, base=2):
    for kind in kinds:
        for shp in shapes:
            for code in range(81):
                if max(lin.digits(code, 3, 4)) < base:
                    yield ["nlrep", kind, *shp, T, code]


def extended(q):
    """Larger sizes, terms replaced at every step, late single deviations."""
    for n, m, p in ((8, 3, 1), (3, 8, 2), (10, 10, 1), (1, 9, 1), (2, 2, 9)):
        yield ["nl", "mixed", n, m, p, 2, "gen", []]
    for shp in ((1, 1, 1), (2, 1, 1), (2, 2, 2)):
        for d in ekf_deviations(*shp, 1):
            if d[0] == 0:
                yield ["nl", "mixed", *shp, 3, "gen", [["all"] + d[1:]]]
    yield from reps(("mixed",) if q else KINDS, ((2, 1, 1),) if q else ((1, 1, 1), (2, 1, 1)))
    for shp in ((1, 1, 1), (2, 1, 1)):
        for d in ekf_deviations(*shp, 1):
            if d[0] == 0:
                for k in (30, 39) if q else (20, 30, 38, 39):
                    yield ["nl", "mixed", *shp, 40, "ti", [[k] + d[1:]]]


def big(kinds=("mixed", "quad"), T=2, step=1):
    """Large state, observation and control vectors in every mode."""
    fam = __import__("kkmc.families", fromlist=["x"])
    for i, d in enumerate(fam.big(T)):
        if i % step == 0:
            for kind in kinds:
                yield ["nl", kind, *d[1:4], T, d[5], []]


def wider(q, kinds=("quad", "mixed"), horizon=(12, 33)):
    for shp in ((3, 1, 1), (3, 3, 1), (4, 2, 1), (1, 3, 1), (2, 4, 2), (3, 2, 4), (5, 3, 3)):
        for kind in kinds if q else KINDS:
            for T in horizon if q else tuple(horizon) + (65,):
                yield ["nlhor", kind, *shp, T]
    for d in products(("mixed",) if q else KINDS, ((1, 1, 1), (2, 1, 1))):
        if not q or d[7] % 5 == 0:
            yield d
    for d in products(("mixed", "even"), ((1, 1, 1),), 14):
        if not q or d[7] % 5 == 0:
            yield d


def missing(q):
    """Missing control rows: every set of steps, whole or partial."""
    for kind in ("bilin", "mixed") if q else KINDS:
        for n, m, p, T in ((1, 1, 1, 5), (2, 1, 1, 4), (2, 2, 2, 4), (1, 2, 3, 3)):
            for names in itertools.product(("", "nan", "pnan", "zero"), repeat=T):
                if p == 1 and "pnan" in names or T > 4 and "zero" in names:
                    continue
                yield ["nl", kind, n, m, p, T, "gen", [[k, "u", v] for k, v in enumerate(names) if v]]


def consistent(kinds, shapes, T=3):
    """Observations which equal their prediction exactly: all of them, all but one, all but one channel."""
    for shp in shapes:
        for kind in kinds:
            yield ["nlpred", kind, *shp, T, []]
            for k in range(T):
                yield ["nlpred", kind, *shp, T, [[k, i] for i in range(shp[1])]]
                if shp[1] > 1:
                    for i in range(shp[1]):
                        yield ["nlpred", kind, *shp, T, [[k, i]]]


SIMPLE = KINDS + ["lin1", "g0000100", "g1111210", "g2001011", "g3011120", "g0102110", "g4100101"]
PREDSHAPES = ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 1, 2), (3, 2, 1))


def broad(q, step=1):
    """As families.broad."""
    def every():
        yield from consistent(SIMPLE, PREDSHAPES)
        yield from vanishing(((1, 1), (2, 1), (2, 2)))
        yield from grammar(((1, 1, 1), (2, 1, 1)), step=1 if not q else 2)
        yield from products(("mixed", "even"), ((2, 1, 1),))
        for kind, init in (("mixed", "one"), ("mult", "one"), ("mult", "zero"), ("lin1", "zero")):
            for ev in itertools.product(range(len(coin_events(2, 1, 1))), repeat=2):
                yield ["nlseq", kind, 2, 1, 1, list(ev), init]
    for i, d in enumerate(every()):
        if i % step == 0:
            yield d
    yield from big(("mixed",), step=1 if step == 1 or not q else 7)


def family(tier):
    q = tier == "quick"
    N = 3
    yield from missing(q)
    yield from big()
    yield from consistent(list(dict.fromkeys(SIMPLE + ["g" + "".join(map(str, c)) for c in itertools.product(*map(range, GRAMMAR))])), PREDSHAPES[:3] if q else PREDSHAPES)
    yield from consistent(SIMPLE, PREDSHAPES[3:])
    yield from grammar(((1, 1, 1), (2, 1, 1), (2, 2, 1)) if q else ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 2, 2)))
    yield from patterns()
    yield from vanishing(((1, 1), (2, 1), (2, 2), (3, 1)) if q else ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)))
    yield from reps(KINDS, ((1, 1, 1), (2, 1, 1), (2, 2, 1)) if q else ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 2, 2)), 9 if q else 14, 3)
    yield from units(("mixed",) if q else KINDS, ((1, 1, 1), (2, 2, 2), (3, 2, 1), (3, 1, 1), (4, 1, 1), (1, 3, 1), (2, 1, 2)), (-60, -30, -10, -3, 3, 10, 30, 60))
    for n, m in __import__("kkmc.families", fromlist=["x"]).shapes(N, N):
        p = 1 + (n + m) % 2
        for kind in KINDS:
            for pp in (p, 0, 3):
                yield ["nl", kind, n, m, pp, 3, "gen", []]
    for n, m in __import__("kkmc.families", fromlist=["x"]).shapes(N, N):
        p = 1 + (n + m) % 2
        for kind in KINDS:
            for mode in (["gen"] if q else ["gen", "ti", "diag", "scalarish"]):
                for d in ekf_deviations(n, m, p, 3 if q else 4):
                    yield ["nl", kind, n, m, p, 3 if q else 4, mode, [d]]
    for n, m in ((1, 1), (2, 1), (2, 2), (1, 2)):
        for d in lin.weak(n, m, 1, 3):
            for kind in ("lin", "bilin"):
                yield ["nl", kind, n, m, 1, 3, "gen", [d]]
    for n in range(1, 6 if q else 8):
        for m in range(1, 6 if q else 8):
            yield ["nl", "mixed", n, m, 2, 3, "gen", []]
    for n, m, p in ((8, 3, 1), (3, 8, 2), (10, 10, 1), (1, 9, 1), (2, 2, 9)) + (() if q else ((16, 16, 2), (20, 2, 1), (2, 20, 1))):
        for kind in ("mixed", "quad"):
            yield ["nl", kind, n, m, p, 2, "gen", []]
    for shp in ((1, 1, 1), (2, 1, 1), (2, 2, 2)) if q else ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1)):
        ds = [["all"] + d[1:] for d in ekf_deviations(*shp, 1) if d[0] == 0]
        for kind in ("mixed",) if q else KINDS:
            for d in ds:
                yield ["nl", kind, *shp, 3, "gen", [d]]
            for i in range(len(ds)):
                for j in range(i + 1, len(ds)):
                    if ds[i][1] != ds[j][1]:
                        yield ["nl", kind, *shp, 3, "gen", [ds[i], ds[j]]]
    for shp in ((1, 1, 1), (2, 1, 1)):
        for d in ekf_deviations(*shp, 1):
            if d[0] == 0:
                for T, ks in ((40, (30, 38, 39)),) if q else ((40, (30, 38, 39)), (130, (99, 128, 129))):
                    for k in ks:
                        for mode in ("gen", "ti"):
                            yield ["nl", "mixed", *shp, T, mode, [[k] + d[1:]]]
    for k in (75, 149):
        for v in ("zero", "neg", "tiny"):
            yield ["nl", "mixed", 1, 1, 1, 150, "ti", [[k, "z", v]]]
    for kind in ("quad", "cubic", "bilin", "mixed"):
        for T in list(range(4, 25)) + [32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 513, 1025] + ([] if q else list(range(25, 100)) + [500, 512, 1000, 1024, 1500]):
            yield ["nlhor", kind, 1, 1, 1, T]
            yield ["nlhor", kind, 2, 1, 1, T]
    yield from products(KINDS, ((1, 1, 1), (2, 1, 1), (2, 2, 1)), 3)
    yield from products(("mixed", "quad"), ((1, 1, 1), (2, 1, 1)), 14 if q else 30)
    yield from products(("mixed", "even"), ((3, 2, 1), (1, 2, 2)) if q else ((3, 2, 1), (1, 2, 2), (3, 3, 2), (4, 2, 1)), 4 if q else 8)
    for shp in ((3, 1, 1), (3, 3, 1), (4, 2, 1), (1, 3, 1), (2, 4, 2), (3, 2, 4), (5, 3, 3)):
        for kind in ("quad", "mixed", "bilin", "flat") if q else KINDS:
            for T in (6, 8, 9, 12, 17, 33) if q else range(4, 66):
                yield ["nlhor", kind, *shp, T]
    if q:
        for n, m in ((4, 1), (1, 4), (4, 2), (2, 4), (4, 4)):
            for d in ekf_deviations(n, m, 1, 3):
                yield ["nl", "mixed", n, m, 1, 3, "gen", [d]]
    for kind in ("mixed", "quad") if q else KINDS:
        for shp, depth in (((1, 1, 1), 3), ((2, 1, 1), 2)) if q else (((1, 1, 1), 3), ((2, 1, 1), 3), ((2, 2, 2), 2)):
            L = len(events(*shp))
            for ev in itertools.product(range(L), repeat=depth):
                yield ["nlseq", kind, *shp, list(ev)]
    for init in ("zero", "one"):
        for kind in ("mult", "even") if q else KINDS:
            for shp, depth in (((1, 1, 1), 2), ((2, 1, 1), 2), ((2, 2, 1), 2)) if q else (((1, 1, 1), 3), ((2, 1, 1), 3), ((2, 2, 1), 2), ((1, 2, 1), 2)):
                for ev in itertools.product(range(len(coin_events(*shp))), repeat=depth):
                    yield ["nlseq", kind, *shp, list(ev), init]
    for shp in ((1, 1, 1), (2, 1, 1)) if q else ((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 2)):
        ds = ekf_deviations(*shp, 3)
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                if ds[i][:2] != ds[j][:2]:
                    yield ["nl", "mixed", *shp, 3, "gen", [ds[i], ds[j]]]
