"""P28: documented names and call forms. Every split of the documented parameters into positional and named ones,
every kind of callable as model callback, every import order."""
import functools
import operator
import warnings
import itertools
import os
import re
import subprocess
import sys

import numpy as np

from . import kal, nl, ops

LEVEL = "model_checking"
CHUNK = 32
BOUNDS = {"quick": "constructors and 6 public functions of both filters and the utilities: every positional/named split x 2 orders x bound/unbound, 3 models each; 10 kinds of callables for 4 callbacks (full product, 10000) for one model; 66 callables written in C as one callback, 3 sizes; all orders of importing 4 submodules x package first/last, every name of __all__ and of the API documentation",
          "thorough": "the same for 6 models; callables for 3 models; every order of the named arguments up to 5 of them"}
KF_INIT = ["A", "xk", "B", "Pk", "H", "Q", "R", "state_size"]
EKF_INIT = ["xk", "Pk", "Q", "R", "f", "h", "jacobian_A", "jacobian_H"]
SIG = {"kf": dict(predict=["Ak", "xk", "Bk", "uk", "Pk", "Qk"], update=["Hk", "xk", "Pk", "zk", "Rk"], filter=["Z", "U"], smooth=["Z", "U"]),
       "ekf": dict(predict=["xk", "uk", "Pk", "Qk"], update=["xk", "Pk", "zk", "Rk"], filter=["Z", "U"], smooth=["Z", "U"])}
FORMS = ["def", "lambda", "partial", "method", "object", "starargs", "odd", "static", "hints", "wraps"]
MODS = ["standard", "extended", "utils", "_version"]
WK = [("kf", 2, 1, 2, "gen", False), ("kf", 1, 1, 1, "gen", False), ("kf", 3, 2, 1, "ti", False), ("kf", 2, 2, 1, "gen", False), ("kf", 1, 2, 1, "gen", False), ("kf", 4, 1, 2, "gen", False)]
WE = [("ekf", 2, 1, 2, "mixed", False), ("ekf", 1, 1, 1, "quad", False), ("ekf", 3, 2, 1, "bilin", False), ("ekf", 2, 2, 1, "cubic", False), ("ekf", 1, 2, 1, "mixed", False), ("ekf", 4, 1, 2, "quad", False)]


# callables written in C, with no signature or an unusual one; (callable, dimension it needs or None, Jacobian)
def _ones(n):
    return np.ones((1, n))


BUILTINS = {
    "h": [max, min, sum, np.positive, np.negative, np.square, np.sin, np.array, np.asarray, np.copy, np.atleast_1d, np.cumsum, np.sort, operator.pos, operator.neg,
          operator.itemgetter(0), operator.itemgetter(slice(None)), operator.itemgetter(slice(0, 1)), np.linalg.norm, np.sum, np.mean, np.ravel, np.max, np.add.reduce, np.ndarray.copy,
          np.ndarray.sum, functools.partial(np.multiply, 2.0), functools.partial(np.dot, 3.0), np.vectorize(float), float, np.float64, np.ndarray.flatten, operator.methodcaller("sum"),
          operator.methodcaller("copy"), np.array([2.0]).dot, (0.5).__mul__, (2.0).__rmul__],
    "f": [np.add, np.subtract, np.multiply, np.maximum, np.minimum, np.hypot, operator.add, operator.sub, operator.mul, np.ndarray.__add__, np.fmin, np.arctan2, np.copysign, np.ldexp,
          functools.partial(np.where, True), np.vectorize(operator.add)],
    "jacobian_A": [np.outer, np.multiply.outer, np.add.outer, np.subtract.outer],
    "jacobian_H": [np.diag, np.atleast_2d, np.diagflat, operator.itemgetter(None), operator.itemgetter((None, slice(None))), np.asmatrix, np.vander, functools.partial(np.outer, [1.0]),
                   functools.partial(np.multiply.outer, [1.0, 2.0]), np.eye(3).__mul__],
}


def builtin(cb, i, n, st):
    """The same function given as it is and behind a lambda."""
    fn = BUILTINS[cb][i]
    T, rng = 3, np.arange(1.0, n + 1)
    for m in (1, n):
        base = dict(f=lambda x, u: 0.5 * x + u, jacobian_A=lambda x, u: 0.5 * np.eye(n), h=lambda x: x[:m], jacobian_H=lambda x: np.eye(n)[:m])
        res = []
        for plain in (True, False):
            cbs = dict(base)
            cbs[cb] = fn if plain else ((lambda x, u: fn(x, u)) if cb in ("f", "jacobian_A") else (lambda x: fn(x)))
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    ek = kal.ExtendedKalmanFilter(xk=0.5 + rng, Pk=np.diag(rng), Q=np.array([np.eye(n)] * T), R=np.array([np.eye(m)] * T), **cbs)
                    r = list(ek.filter(0.25 + np.arange(T * m, dtype=float).reshape(T, m), np.ones((T, n)) * 0.5))
                    ek = kal.ExtendedKalmanFilter(0.5 + rng, np.diag(rng), np.array([np.eye(n)] * T), np.array([np.eye(m)] * T), *[cbs[k] for k in EKF_INIT[4:]])
                    r += list(ek.smooth(0.25 + np.arange(T * m, dtype=float).reshape(T, m), np.ones((T, n)) * 0.5))
                    res.append([np.array(v, dtype=float) for v in r])
                except Exception as e:
                    res.append(f"{type(e).__name__}: {e}")
        got, exp = res
        what = f"{cb} = {fn!r}, {n} states, {m} observed"
        if isinstance(exp, str) != isinstance(got, str):
            raise kal.Violation(f"{what}: {got if isinstance(got, str) else 'works'}, behind a lambda: {exp if isinstance(exp, str) else 'works'}")
        if not isinstance(exp, str):
            for g, e in zip(got, exp):
                kal.same(g, e, np.maximum(np.nanmax(np.abs(e), initial=0.0), 1.0), what, 1e-10)
            st.outcomes.add((cb, i, n, m))
        st.transitions += 2


def orders(names, tier):
    if tier != "quick" and 2 < len(names) <= 5:
        return [list(o) for o in itertools.permutations(names)]
    return [list(names)] + ([list(names[::-1])] if len(names) > 1 else [])


def cases(tier):
    q = tier == "quick"
    for i in range(3 if q else 6):
        for which, w in (("kf", WK[i]), ("ekf", WE[i])):
            init = KF_INIT if which == "kf" else EKF_INIT
            for k in range(len(init) + 1):
                for rest in orders(init[k:], tier):
                    for ss in (("n", "None", "omit") if which == "kf" else ("-",)):
                        if ss == "omit" and k == len(init):
                            continue
                        yield ["init", list(w), k, rest, ss]
            for fn, names in SIG[which].items():
                for k in range(len(names) + 1):
                    for rest in orders(names[k:], tier):
                        for bound in (True, False):
                            yield ["call", list(w), fn, k, rest, bound]
            for fn in ("filter", "smooth"):
                for form in ("pos", "named", "pos-None", "named-None"):
                    yield ["nocontrol", list(w), fn, form]
    for k in (0, 1, 2):
        yield ["util", k]
    for i in range(1 if q else 3):
        for forms in itertools.product(FORMS, repeat=4):
            yield ["forms", list(WE[i]), list(forms)]
    for cb in BUILTINS:
        for i in range(len(BUILTINS[cb])):
            for n in (1, 2, 3):
                yield ["builtin", cb, i, n]
    for perm in itertools.permutations(MODS):
        for pkg in ("first", "last"):
            yield ["import", list(perm), pkg]
    yield ["names"]


def check(w, f, fn, r, what, withU=True):
    st = "1"
    if fn == "filter":
        s, e = kal.shape_check(*r, 4, w.n, what)
        kal.check_filter(s, e, w.nodes(st, withU), what)
    elif fn == "smooth":
        s, e = kal.shape_check(*r, 4, w.n, what)
        kal.check_smooth(s, e, w.rts(st, withU), what)
    else:
        ex = w.exp_predict(True) if fn == "predict" else w.exp_update(False)
        from .ref import flt
        kal.cmp_vec(r[0], flt(ex[0]), 64, what + " mean", 1e-9)
        kal.cmp_vec(r[1], flt(ex[1]), 64, what + " covariance", 1e-9)


def init_args(w, a):
    if hasattr(w, "kind"):
        return dict(xk=a["x0"], Pk=a["P0"], Q=a["Q"], R=a["R"], **w.cb)
    return dict(A=a["A"], xk=a["x0"], B=a["B"], Pk=a["P0"], H=a["H"], Q=a["Q"], R=a["R"], state_size=w.n)


def call_args(w, a, Z, s, fn):
    if fn in ("filter", "smooth"):
        return dict(Z=Z["1"], U=a["U"])
    d = dict(xk=s["x"], Pk=s["P"])
    if fn == "predict":
        d.update(uk=a["U"][1], Qk=a["Q"][1], Ak=a["A"][1], Bk=a["B"][1])
    else:
        d.update(zk=s["z"], Rk=a["R"][1], Hk=a["H"][1])
    return d


def shapes(fn, form):
    """The same callback as another kind of callable."""
    if form == "def":
        if fn.__code__.co_argcount == 2:
            def g(state, control):
                return fn(state, control)
        else:
            def g(state):
                return fn(state)
        return g
    two = fn.__code__.co_argcount == 2
    if form == "lambda":
        return (lambda a, b: fn(a, b)) if two else (lambda a: fn(a))
    if form == "partial":
        return functools.partial(lambda k, *a: fn(*a), 0)
    if form == "starargs":
        return lambda *a: fn(*a)
    if form == "hints":     # annotated with names that mean nothing at run time
        if two:
            def g(state: "NoSuchVector", control: "also.missing[" = None) -> "Nowhere":
                return fn(state, control)
        else:
            def g(state: "NoSuchVector") -> "Nowhere":
                return fn(state)
        return g
    if form == "wraps":     # a decorator that changes what the decorated function returns
        def half(*a):
            return np.asarray(fn(*a), dtype=float) * 0.5

        @functools.wraps(half)
        def g(*a):
            return half(*a) * 2.0
        return g
    if form == "odd":       # parameters named like the other arguments of the filter, and an optional one
        return (lambda uk, xk, Pk=None: fn(uk, xk)) if two else (lambda zk, Qk=None: fn(zk))

    class K:
        __slots__ = ()

        def go(self, x, *u):
            return fn(x, *u)

        def __call__(self, x, *u):
            return fn(x, *u)

        @staticmethod
        def st(*a):
            return fn(*a)
    return {"method": K().go, "object": K(), "static": K.st}[form]


def run_case(desc, st):
    st.traces += 1
    st.states.add(hash(repr(desc)))
    kind = desc[0]
    if kind == "builtin":
        return builtin(*desc[1:], st)
    if kind in ("init", "call", "nocontrol", "forms"):
        w = ops.world(tuple(desc[1]))
        a, Z, s, _ = w.fresh()
        cls = kal.ExtendedKalmanFilter if hasattr(w, "kind") else kal.KalmanFilter
        full = init_args(w, a)
    if kind == "init":
        k, rest, ss = desc[2:]
        names = EKF_INIT if hasattr(w, "kind") else KF_INIT
        if ss == "None":
            full["state_size"] = None
        if ss == "omit":
            rest = [r for r in rest if r != "state_size"]
        f = cls(*[full[n] for n in names[:k]], **{n: full[n] for n in rest})
        for fn in ("filter", "smooth"):
            check(w, f, fn, getattr(f, fn)(Z["1"], a["U"]), f"constructor with {k} positional arguments, then {rest}: {fn}")
        if f.state_size != w.n:
            raise kal.Violation(f"state_size is {f.state_size}, expected {w.n}")
        st.transitions += 8
    elif kind == "call":
        fn, k, rest, bound = desc[2:]
        f = cls(**full)
        names = SIG["ekf" if hasattr(w, "kind") else "kf"][fn]
        args = call_args(w, a, Z, s, fn)
        pos = [args[n] for n in names[:k]]
        kw = {n: args[n] for n in rest}
        r = getattr(f, fn)(*pos, **kw) if bound else getattr(cls, fn)(f, *pos, **kw)
        check(w, f, fn, r, f"{fn} with {k} positional arguments, then {rest}")
        st.transitions += 1
    elif kind == "nocontrol":
        fn, form = desc[2:]
        f = cls(**full)
        g = getattr(f, fn)
        r = {"pos": lambda: g(Z["1"]), "named": lambda: g(Z=Z["1"]), "pos-None": lambda: g(Z["1"], None), "named-None": lambda: g(U=None, Z=Z["1"])}[form]()
        check(w, f, fn, r, f"{fn} without controls ({form})", False)
        st.transitions += 1
    elif kind == "forms":
        for n, form in zip(EKF_INIT[4:], desc[2]):
            full[n] = shapes(w.cb[n], form)
        f = cls(**full)
        check(w, f, "smooth", f.smooth(Z["1"], a["U"]), f"callbacks given as {desc[2]}")
        st.transitions += 4
    elif kind == "util":
        k = desc[1]
        u = kal.utils
        x = np.arange(3.0)
        if k == 0:
            ok = u.check_none_and_broadcast(arr=None, broad_to=x).shape == (3,) and u.check_none_and_broadcast(broad_to=None, arr=x) is x
            ok = ok and bool(u.is_nan_all(arr=x * np.nan)) and not u.is_nan_all(arr=x)
        else:
            ok = np.isnan(u.check_none_and_broadcast(None, x) if k == 2 else u.check_none_and_broadcast(None, broad_to=x)).all() and bool(u.is_nan_all(x * np.nan))
        if not ok:
            raise kal.Violation(f"utilities called with {k} positional arguments")
    elif kind == "import":
        mods = [f"kalmankit.{m}" for m in desc[1]]
        order = ["kalmankit"] + mods if desc[2] == "first" else mods + ["kalmankit"]
        code = "import sys; sys.path.insert(0, sys.argv[1])\n" + "\n".join(f"import {m}" for m in order) + \
               "\nfrom kalmankit import *\nassert KalmanFilter is kalmankit.standard.KalmanFilter and ExtendedKalmanFilter is kalmankit.extended.ExtendedKalmanFilter and utils is kalmankit.utils" \
               "\nassert isinstance(kalmankit.__version__, str) and kalmankit.__version__ == kalmankit._version.get_versions()['version']\nassert kalmankit.utils.is_nan_all and kalmankit.utils.check_none_and_broadcast\n" \
               "assert set(kalmankit.__all__) >= {'KalmanFilter', 'ExtendedKalmanFilter', 'utils'}\n" \
               "for m in (kalmankit, kalmankit.standard, kalmankit.extended, kalmankit.utils):\n    for n in m.__all__: getattr(m, n)\nfrom kalmankit.standard import *\nfrom kalmankit.extended import *\nfrom kalmankit.utils import *\n"
        probe(code)
        st.transitions += len(order)
    elif kind == "names":
        found = set()
        d = os.path.join(kal.REPO, "docs", "source")
        for root, _, files in os.walk(d):
            for fn in files:
                if fn.endswith(".rst"):
                    with open(os.path.join(root, fn)) as fh:
                        txt = fh.read()
                    found.update(re.findall(r"(?:automodule|currentmodule|autoclass|autofunction)::\s*(kalmankit[\w.]*)", txt))
                    found.update(re.findall(r"^\s+(kalmankit\.\w[\w.]*)\s*$", txt, re.M))
        if not {"kalmankit", "kalmankit.standard", "kalmankit.extended"} <= found:
            raise kal.Violation(f"the API documentation names only {sorted(found)}")
        for n in sorted(found):
            probe("import sys; sys.path.insert(0, sys.argv[1])\nimport importlib, pkgutil\npkgutil.resolve_name(%r)\n" % n)
        st.transitions += len(found)


def probe(code):
    r = subprocess.run([sys.executable, "-c", code, kal.SRC], capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise kal.Violation("a fresh interpreter failed: " + (r.stderr.strip().splitlines() or ["no message"])[-1], code=code, stderr=r.stderr[-2000:])
