"""P25: what the extended filter hands to its callbacks, and callbacks that alias/reuse their arrays."""
import functools
import itertools

import numpy as np

from . import kal, lin, nl, ref

LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {"quick": "aliasing models (identity, selection, control-return, square views) x all combinations of callback return modes {fresh, buffer, read-only, own argument, control, view, constant} for the four callbacks x 6 operation histories; full argument log of every call in all nonlinear kinds x shapes up to 3 x controls {given, scalar, none}; every kind of callable; series to 300, models of 7 to 17 states or channels",
          "thorough": "more shapes (up to 4 states) and lengths up to 6; 36 operation histories"}

X = lambda i: ("x", i)
U = lambda i: ("u", i)


class ACase(nl.NCase):
    """A nonlinear case with its own polynomials."""

    def __init__(self, name, n, m, p, T):
        lc = lin.build(["dev", n, m, p, T, "gen", []])
        half = [[v / 2 for v in s.u.l] for s in lc.steps]
        super().__init__("lin", n, m, p, lc.x0.l, lc.P0.l, half, [s.z.l for s in lc.steps], [s.Q.l for s in lc.steps], [s.R.l for s in lc.steps])
        ident = [[(1.0, (X(i),))] for i in range(n)]
        lint = [[(0.5, (X(i),)), (0.25, (X((i + 1) % n),)), (0.5, (U(0),))] for i in range(n)]
        sel = [[(1.0, (X(n - m + i),))] for i in range(m)]
        f, h = {"ident": (ident, sel), "control": ([[(1.0, (U(i),))] for i in range(n)], sel),
                "rev": ([[(1.0, (X(n - 1 - i),))] for i in range(n)], [[(1.0, (X(i),))] for i in range(m)]),
                "square": ([[(0.5, (X(0), X(0)))]], [[(0.5, (X(0), X(0)))]]),
                "norm": (lint, [[(0.5, (X(i), X(i))) for i in range(n)]])}[name]
        self.name = name
        self.f, self.h = nl.Poly(f, n, p), nl.Poly(h, n, p)


# per model: how each callback may return its result
V4 = ["fresh", "buffer", "readonly"]
MODES = {
    "ident": (V4 + ["arg", "view"], V4 + ["view"], V4 + ["const"], V4 + ["const"]),
    "control": (V4 + ["argu", "viewu"], V4 + ["view"], V4 + ["const"], V4 + ["const"]),
    "rev": (V4 + ["viewrev"], V4 + ["viewh0"], V4 + ["const"], V4 + ["const"]),
    "square": (V4, V4, V4 + ["viewx"], V4 + ["viewx"]),
    "norm": (V4, V4, V4 + ["const"], V4 + ["viewx"]),
    "nl": (V4, V4, V4, V4),
}


def ways(name, n, m, p):
    """Where the whole state is observed the observation function may return its argument itself."""
    w = MODES[name]
    return (w[0], w[1] + ["arg"], *w[2:]) if n == m and name in ("ident", "rev", "control") else w


class Callbacks:
    def __init__(self, c, modes, kind="function"):
        self.c = c
        self.log = {k: [] for k in ("f", "h", "jacobian_A", "jacobian_H")}
        self.kept = []
        self.returned = []
        n, m = c.n, c.m
        self.buf = dict(f=np.zeros(n), h=np.zeros(m), jacobian_A=np.zeros((n, n)), jacobian_H=np.zeros((m, n)))
        real = c.callbacks()
        self.const = {}
        self.fns = {}
        for name, mode in zip(self.log, modes):
            self.fns[name] = wrap_callable(self._make(name, mode, real[name]), kind, name in ("f", "jacobian_A"))

    def _make(self, name, mode, real):
        c = self.c
        nargs = 2 if name in ("f", "jacobian_A") else 1

        def call(*args):
            if len(args) != nargs:
                raise kal.Violation(f"{name} was called with {len(args)} arguments")
            x = args[0]
            if not isinstance(x, np.ndarray):
                raise kal.Violation(f"{name} was given a state of type {type(x).__name__}")
            self.log[name].append(tuple(np.array(v, dtype=float).copy() for v in args))
            for v in args:
                if isinstance(v, np.ndarray) and not any(v is b for b in self.buf.values()):
                    if not any(np.shares_memory(v, b) for b in self.buf.values()):
                        self.kept.append((name, v, v.tobytes()))
            if mode == "arg":
                return x
            if mode == "view":
                return x[c.n - c.m:] if name == "h" else x[:]
            if mode == "viewh0":
                return x[:c.m]
            if mode == "viewrev":
                return x[::-1]
            if mode == "argu":
                return args[1]
            if mode == "viewu":
                return args[1][:]
            if mode == "viewx":
                return x.reshape(1, -1)
            r = np.asarray(real(*args), dtype=float)
            if mode == "buffer":
                self.buf[name][...] = r
                return self.buf[name]
            if mode == "const":
                r = self.const.setdefault(name, r)
                return r
            if mode == "readonly":
                r.flags.writeable = False
            if len(self.returned) < 64:
                self.returned.append((name, r, r.tobytes()))
            return r
        return call


class Obj:
    def __init__(self, fn):
        self.fn = fn

    def method(self, *a):
        return self.fn(*a)


class Call(Obj):
    def __call__(self, *a):
        return self.fn(*a)


class FalsyCall(Call):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqCall(Call):
    def __eq__(self, o):
        return True
    __hash__ = None


KINDS = ["function", "method", "object", "falsy", "eq", "partial", "lambda", "default", "optional"]


def wrap_callable(fn, kind, two):
    if kind == "function":
        return fn
    if kind == "method":
        return Obj(fn).method
    if kind == "object":
        return Call(fn)
    if kind == "falsy":
        return FalsyCall(fn)
    if kind == "eq":
        return EqCall(fn)
    if kind == "partial":
        return functools.partial(lambda tag, *a: fn(*a), "tag")
    if kind == "lambda":
        return lambda *a: fn(*a)

    if kind == "optional":      # an optional positional parameter of the callback's own, which nobody may fill in
        own = object()
        if two:
            def g(state, control, scale=own, power=own):
                if scale is not own or power is not own:
                    raise kal.Violation("a callback's own optional parameters were filled in")
                return fn(state, control)
        else:
            def g(state, scale=own, power=own):
                if scale is not own or power is not own:
                    raise kal.Violation("a callback's own optional parameters were filled in")
                return fn(state)
        return g

    def with_defaults(state, *rest, scale=1.0, verbose=False):
        if scale != 1.0 or verbose is not False:
            raise kal.Violation("a callback's own keyword arguments were filled in")
        return fn(state, *rest)
    return with_defaults


@functools.lru_cache(maxsize=64)
def acase(name, n, m, p, T):
    return ACase(name, n, m, p, T)


@functools.lru_cache(maxsize=64)
def prepared(name, n, m, p, T):
    c = acase(name, n, m, p, T)
    nodes = c.nodes()
    ok = kal.usable(nodes, T)
    return c, nodes, ref.ekf_rts(nodes) if ok else None, ok


def expected_args(c, nodes, x0, withU=True):
    fs, hs = [], []
    x = np.array(ref.flt(x0))
    for k, nd in enumerate(nodes):
        fs.append((x, np.array(c.us[k].l, dtype=float)))
        hs.append((np.array(ref.flt(nd.xp)),))
        x = np.array(ref.flt(nd.x))
    return fs, hs


def match(log, exp, name, what, shape, flatu):
    """Every call has one of the expected argument tuples; every expected tuple was used."""
    used = set()
    for args in log:
        if args[0].shape != shape:
            raise kal.Violation(f"{what}: {name} was given a state of shape {args[0].shape}, expected {shape}")
        hit = None
        for i, e in enumerate(exp):
            if all(np.all(np.abs(a.ravel() - b.ravel()) <= 1e-8 * (1 + np.abs(b.ravel()))) if a.size == b.size else False for a, b in zip(args, e)):
                hit = i
                used.add(i)
        if hit is None:
            raise kal.Violation(f"{what}: {name} was called with unexpected arguments {[a.tolist() for a in args]}", expected=[[b.tolist() for b in e] for e in exp])
        if len(args) == 2:
            want = () if flatu else exp[hit][1].shape
            if args[1].shape != want:
                raise kal.Violation(f"{what}: {name} was given a control of shape {args[1].shape}, expected {want}")
    if len(used) != len(exp):
        miss = [i for i in range(len(exp)) if i not in used]
        raise kal.Violation(f"{what}: {name} was never called with the arguments of step(s) {miss}")


def check_args(cb, c, fs, hs, what, shape, flatu=False):
    for name in ("f", "jacobian_A"):
        match(cb.log[name], fs, name, what, shape, flatu)
    for name in ("h", "jacobian_H"):
        match(cb.log[name], hs, name, what, shape, flatu)


def reset(cb):
    for v in cb.log.values():
        v.clear()


def kept_unchanged(cb, what):
    for name, v, b in cb.kept:
        if v.tobytes() != b:
            raise kal.Violation(f"{what}: an array handed to {name} earlier was changed by the library")
    for name, v, b in cb.returned:
        if v.tobytes() != b:
            raise kal.Violation(f"{what}: an array returned by {name} was changed by the library")


def history(c, nodes, rts, cb, seq, st, tag, flat=False):
    a = c.arrays()
    Z, Uc = a["Z"], a["U"]
    if flat:
        Z, Uc = Z.ravel(), Uc.ravel()
    f = nl.make_ekf(a, cb.fns)
    snap = [(k, v, v.tobytes()) for k, v in a.items()]
    fs, hs = expected_args(c, nodes, c.x0.d)
    gains = []
    x1 = a["x0"] + 0.25
    P1 = a["P0"] * 1.5
    dx1, dP1 = ref.dec(x1.tolist()), ref.dec(P1.tolist())
    for pos, op in enumerate(seq):
        what = f"{tag} after {seq[:pos]}: {op}"
        reset(cb)
        if op in "FS":
            s, e = (f.filter if op == "F" else f.smooth)(Z=Z, U=Uc)
            kal.shape_check(s, e, c.T, c.n, what)
            if op == "F":
                kal.check_filter(s, e, nodes, what)
            else:
                kal.check_smooth(s, e, rts, what)
            check_args(cb, c, fs, hs, what, (c.n,), flat)
            gains += [(np.array(ref.flt(nd.K)), kal.gain_scale(nd)) for nd in nodes]
            st.transitions += c.T
        elif op == "P":
            x, P = f.predict(xk=x1, uk=Uc[1], Pk=P1, Qk=a["Q"][1])
            u = c.us[1].d
            J = c.f.jac(dx1, u)
            ex, eP = c.f(dx1, u), ref.add(ref.mm(J, ref.mm(dP1, ref.tr(J))), c.Qs[1].d)
            kal.cmp_vec(x, ref.flt(ex), 8, what + " state", 1e-9)
            kal.cmp_vec(P, ref.flt(eP), 8, what + " covariance", 1e-9)
            check_args(cb, c, [(x1, np.array(c.us[1].l, dtype=float))], [], what, (c.n,), flat)
            st.transitions += 1
        else:
            x, P = f.update(xk=x1, Pk=P1, zk=Z[1], Rk=a["R"][1])
            ex, eP, K = ref.update(dx1, dP1, c.h.jac(dx1), c.zs[1].d, c.Rs[1].d, hx=c.h(dx1))[:3]
            kal.cmp_vec(x, ref.flt(ex), 64, what + " state", 1e-9)
            kal.cmp_vec(P, ref.flt(eP), 64, what + " covariance", 1e-9)
            check_args(cb, c, [], [(x1,)], what, (c.n,), flat)
            K = np.array(ref.flt(K))
            gains.append((K, np.full(K.shape, 4.0)))
            st.transitions += 1
        if len(f.kalman_gains) != len(gains):
            raise kal.Violation(f"{what}: {len(f.kalman_gains)} gains")
        for i, (K, sc) in enumerate(gains):
            kal.cmp_vec(np.asarray(f.kalman_gains[i], dtype=float), K, sc, f"{what}: recorded gain {i} ", 1e-9)
        for k, v, b in snap:
            if v.tobytes() != b:
                raise kal.Violation(f"{what}: input {k} was modified")
        kept_unchanged(cb, what)
    st.traces += 1


HIST = {"quick": ["F", "S", "FS", "SF", "PUF", "SPUS"], "thorough": ["".join(s) for d in (1, 2) for s in itertools.product("FSPU", repeat=d)] + ["PUF", "SPUS", "FUS", "SSS", "FFF", "UPF", "USUF", "PSFP", "FPUS", "SUPF", "UUS", "PPS", "SFS", "FSF", "SUS", "FPF"]}


def cases(tier):
    q = tier == "quick"
    shapes = {"ident": [(1, 1, 1), (2, 1, 1), (2, 2, 1)], "control": [(1, 1, 1), (2, 1, 2)], "rev": [(2, 1, 1), (2, 2, 1)], "square": [(1, 1, 1)], "norm": [(2, 1, 1)]}
    if not q:
        shapes["ident"] += [(3, 2, 1), (3, 3, 2), (4, 2, 1)]
        shapes["control"] += [(3, 2, 3), (2, 2, 2)]
        shapes["rev"] += [(3, 2, 1), (4, 4, 1)]
        shapes["norm"] += [(3, 1, 2), (1, 1, 1)]
    for name, ss in shapes.items():
        for s in ss:
            for T in (3,) if q else (1, 2, 3, 6):
                for modes in itertools.product(*ways(name, *s)):
                    yield ["alias", name, *s, T, list(modes), tier]
    for n, m in itertools.product(range(1, 4 if q else 5), repeat=2):
        for p in (1, 2):
            for kind in nl.KINDS:
                for T in (1, 2, 3, 4) if q else (1, 2, 3, 4, 6, 9):
                    yield ["args", kind, n, m, p, T]
                for modes in itertools.product(*MODES["nl"]) if (n, m) in ((1, 1), (2, 1), (2, 2)) and p == 1 else []:
                    yield ["nlalias", kind, n, m, p, list(modes), tier]
    for kind in ("mixed", "quad", "cubic"):
        for shp in ((1, 1, 1), (2, 1, 1)) if kind != "quad" else ((1, 1, 1),):      # (the others amplify rounding in long runs)
            for T in (17, 33, 60, 70, 130) + ((300,) if kind == "mixed" or shp == (1, 1, 1) and kind == "cubic" else ()):
                yield ["args", kind, *shp, T]
        for shp in ((7, 2, 1), (2, 7, 1), (6, 6, 2), (17, 1, 1), (1, 9, 1)):
            yield ["args", kind, *shp, 3]
    for name in KINDS:
        for kind in ("quad", "mixed"):
            for s in ((1, 1, 1), (2, 1, 1)):
                yield ["callable", name, kind, *s]


@functools.lru_cache(maxsize=256)
def nlprep(kind, n, m, p, T):
    c = nl.build(["nl", kind, n, m, p, T, "gen" if T < 10 else "ti", []])
    nodes = c.nodes()
    ok = kal.usable(nodes, T)
    return c, nodes, ref.ekf_rts(nodes) if ok else None, ok


def run_case(desc, st):
    t = desc[0]
    if t == "alias":
        _, name, n, m, p, T, modes, tier = desc
        c, nodes, rts, ok = prepared(name, n, m, p, T)
        if not ok:
            st.skipped += 1
            return
        for seq in HIST[tier]:
            if T < 2 and ("P" in seq or "U" in seq):
                continue
            cb = Callbacks(c, modes)
            history(c, nodes, rts, cb, seq, st, f"{name} {modes}")
            st.states.add((name, n, m, p, T, tuple(modes), seq))
    elif t == "nlalias":
        _, kind, n, m, p, modes, tier = desc
        c, nodes, rts, ok = nlprep(kind, n, m, p, 3)
        if not ok:
            st.skipped += 1
            return
        for seq in HIST[tier]:
            history(c, nodes, rts, Callbacks(c, modes), seq, st, f"{kind} {modes}")
            st.states.add((kind, n, m, p, tuple(modes), seq))
    elif t == "args":
        _, kind, n, m, p, T = desc
        c, nodes, rts, ok = nlprep(kind, n, m, p, T)
        if not ok:
            st.skipped += 1
            return
        for seq in ("F", "S"):
            history(c, nodes, rts, Callbacks(c, ["fresh"] * 4), seq, st, f"{kind}")
            if p == 1 and m == 1:
                history(c, nodes, rts, Callbacks(c, ["fresh"] * 4), seq, st, f"{kind} flat", flat=True)
            st.states.add((kind, n, m, p, T, seq))
            no_control(c, kind, n, m, p, T, seq, st)
    else:
        _, name, kind, n, m, p = desc
        c, nodes, rts, ok = nlprep(kind, n, m, p, 3)
        for seq in HIST["quick"]:
            history(c, nodes, rts, Callbacks(c, ["fresh"] * 4, name), seq, st, f"{name}")
            st.states.add(("callable", name, kind, n, seq))


def no_control(c, kind, n, m, p, T, seq, st):
    """U omitted: every control the callbacks see is all NaN."""
    us = [[0.0] * p for _ in range(T)]
    c2 = nl.NCase(kind, n, m, p, c.x0.l, c.P0.l, us, [z.l for z in c.zs], [q.l for q in c.Qs], [r.l for r in c.Rs])
    nodes = c2.nodes()
    if not kal.usable(nodes, T):
        st.skipped += 1
        return
    real = c2.callbacks()
    seen = []

    def nou(fn, name):
        def call(x, u):
            v = np.asarray(u)
            if v.dtype.kind != "f" or v.size == 0 or not np.isnan(v).all():
                raise kal.Violation(f"{name} was given the control {u!r} although none was supplied")
            seen.append(name)
            return fn(x, np.zeros(p))
        return call
    log = []

    def log1(fn, name):
        def call(*a):
            log.append((name, np.array(a[0], dtype=float)))
            return fn(*a)
        return call
    cb = dict(f=nou(real["f"], "f"), jacobian_A=nou(real["jacobian_A"], "jacobian_A"), h=log1(real["h"], "h"), jacobian_H=log1(real["jacobian_H"], "jacobian_H"))
    a = c2.arrays()
    for how in (dict(), dict(U=None)):
        f = nl.make_ekf(a, cb)
        s, e = (f.filter if seq == "F" else f.smooth)(a["Z"], **how)
        if seq == "F":
            kal.check_filter(s, e, nodes, f"{kind} without controls")
        else:
            kal.check_smooth(s, e, ref.ekf_rts(nodes), f"{kind} without controls")
        if seen.count("f") < T or "jacobian_A" not in seen:
            raise kal.Violation("the transition function was not called at every step")
        seen.clear()
        st.traces += 1
