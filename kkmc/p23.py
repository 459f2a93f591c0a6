"""P23: fault enumeration: every callback call x exception type, malformed/faulty step inputs, singular steps,
interrupts at every executed line; then every follow-up operation on the same object."""
import itertools
import sys

import numpy as np

from . import kal, nl, ops, ref

LEVEL = "fault_enumeration"
CHUNK = 4
RULE = ("one evaluation = one faulty call followed by one follow-up history; an evaluation is counted as distinct by "
        "(filter, model, operation, fault site, fault index, fault kind, outcome)")
BOUNDS = {"quick": "4-step series; every call of each callback x 24 exception kinds x {filter,smooth,predict,update}; every pair of callback faults; malformed and raising inputs of every kind at every step; singular steps; an interrupt at every executed line; 3-fault sequences; each followed by every follow-up operation (6), pairs of them for two exception kinds; faults deep inside a series of 150 and in models of 7 states or channels",
          "thorough": "more models (up to 3 states, 2 channels); all follow-up triples after every callback fault, all follow-up pairs after every interrupt"}
ASSUMPTIONS = ["faults in arrays are injected through ndarray subclasses and judged only when they fired"]


def intact(e, what):
    """The exception object itself must arrive as it was raised."""
    want = getattr(e, "_kk", None)
    got = face(e)
    if want is not None and got != want:
        raise kal.Violation(f"{what}: the exception was changed on its way: {got} instead of {want}")


def face(e):
    try:
        d = {k: v for k, v in vars(e).items() if k != "_kk"}
    except TypeError:
        d = {}
    return repr((type(e), e.args, d, e.__cause__, e.__suppress_context__))


def make_exc(kind):
    e = EXC[kind]()
    e._kk = face(e)
    return e


class CustomError(Exception):
    pass


class CustomBase(BaseException):
    pass


class NoArgs(Exception):
    def __init__(self, a, b, *, c):
        super().__init__(a)


class Falsy(Exception):
    def __bool__(self):
        return False


EXC = {
    "ValueError": lambda: ValueError("x"), "IndexError": lambda: IndexError("x"), "KeyError": lambda: KeyError("x"), "TypeError": lambda: TypeError("x"),
    "AttributeError": lambda: AttributeError("x"), "ZeroDivisionError": lambda: ZeroDivisionError("x"), "FloatingPointError": lambda: FloatingPointError("x"),
    "OverflowError": lambda: OverflowError(34, "x"), "LinAlgError": lambda: np.linalg.LinAlgError("Singular matrix"), "StopIteration": lambda: StopIteration(7),
    "GeneratorExit": lambda: GeneratorExit(), "KeyboardInterrupt": lambda: KeyboardInterrupt(), "SystemExit": lambda: SystemExit(3),
    "MemoryError": lambda: MemoryError(), "OSError": lambda: OSError(2, "x"), "RuntimeError": lambda: RuntimeError("x"), "RecursionError": lambda: RecursionError("x"),
    "NotImplementedError": lambda: NotImplementedError(), "AssertionError": lambda: AssertionError(), "CustomError": lambda: CustomError("x"),
    "CustomBase": lambda: CustomBase("x"), "NoArgs": lambda: NoArgs(1, 2, c=3), "Falsy": lambda: Falsy("x"), "UserWarning": lambda: UserWarning("x"),
}
FN = ["f", "h", "jacobian_A", "jacobian_H"]
FOLLOW = ["F1", "F1u", "S1u", "F2u", "P", "U"]
OPSF = ["F1u", "S1u", "S1", "F2u", "P", "U"]


class Cb:
    """Callbacks that log their state argument and raise a chosen exception at the i-th call of one of them."""

    def __init__(self, cb):
        self.cb = cb
        self.reset()
        self.fns = {k: self._wrap(k) for k in cb}

    def reset(self, fn=None, index=None, exc=None):
        self.fn, self.index, self.exc = fn, index, exc
        self.n = dict.fromkeys(FN, 0)
        self.log = []
        self.fired = None

    def _wrap(self, name):
        real = self.cb[name]

        def call(*a):
            i = self.n[name]
            self.n[name] += 1
            x = np.array(a[0], dtype=float).ravel().copy()
            self.log.append((name, x))
            if name == self.fn and i == self.index:
                self.fired = (name, x)
                raise self.exc
            return real(*a)
        return call


def prior_states(w, zkey, withU):
    """Reference prior means per step (arguments the observation function must see)."""
    nodes = w.nodes(zkey, withU)
    return [np.array(ref.flt(nd.xp)) for nd in nodes]


def step_of(x, priors):
    d = [float(np.max(np.abs(x - p))) for p in priors]
    return int(np.argmin(d))


def begin(w):
    a, Z, steps, o = w.fresh()
    return a, Z, steps


def run_op(w, f, a, Z, steps, op):
    withU = op.endswith("u")
    if op[0] in "FS":
        U = a["U"] if withU else (None if w.__class__ is ops.KFWorld else np.zeros((len(Z[op[1]]), w.p)))
        return (f.filter if op[0] == "F" else f.smooth)(Z=Z[op[1]], U=U)
    if op == "P":
        return w.call_predict(f, a, steps, True)
    return w.call_update(f, a, steps, False)


def judge(w, op, r, what):
    """Compare a follow-up result with the reference; returns the gains it must have added."""
    withU = op.endswith("u")
    if op[0] in "FS":
        nodes = w.nodes(op[1], withU)
        s, e = kal.shape_check(*r, len(nodes), w.n, what)
        if op[0] == "F":
            kal.check_filter(s, e, nodes, what)
        else:
            kal.check_smooth(s, e, w.rts(op[1], withU), what)
        return [(np.array(ref.flt(nd.K)), kal.gain_scale(nd)) for nd in nodes]
    x, P = r
    if op == "P":
        ex, eP = w.exp_predict(True)
        K = []
    else:
        ex, eP, K = w.exp_update(False)[:3]
        K = np.array(ref.flt(K))
        K = [(K, np.full(K.shape, 4.0))]
    kal.cmp_vec(x, ref.flt(ex), 64, what + " state", 1e-9)
    kal.cmp_vec(P, ref.flt(eP), 64, what + " covariance", 1e-9)
    return K


def gains_of(w, op):
    if op[0] in "FS":
        return [(np.array(ref.flt(nd.K)), kal.gain_scale(nd)) for nd in w.nodes(op[1], op.endswith("u"))]
    if op == "U":
        K = np.array(ref.flt(w.exp_update(False)[2]))
        return [(K, np.full(K.shape, 4.0))]
    return []


def check_gains(f, exp, what):
    g = f.kalman_gains
    if len(g) != len(exp):
        raise kal.Violation(f"{what}: {len(g)} gains recorded, expected {len(exp)}")
    for i, (K, sc) in enumerate(exp):
        kal.cmp_vec(np.asarray(g[i], dtype=float), K, sc, f"{what}: recorded gain {i} ", 1e-9)


def snapshot(*ds):
    return [(k, v, v.tobytes()) for d in ds for k, v in d.items() if isinstance(v, np.ndarray)]


def unchanged(snap, what):
    for k, v, b in snap:
        if v.tobytes() != b:
            raise kal.Violation(f"{what}: input {k} was modified")


def call_expect(fn, exc, what):
    """Run fn; it must raise exactly the object exc (or anything, when exc is None). Returns the exception."""
    try:
        r = fn()
    except BaseException as e:
        if type(e).__name__ == "Hang":
            raise
        if exc is not None and e is exc:
            intact(e, what)
        if exc is not None and e is not exc:
            raise kal.Violation(f"{what}: the caller received {type(e).__name__}({e}) instead of the original {type(exc).__name__}")
        if exc is not None and e.__cause__ is not None:
            raise kal.Violation(f"{what}: the exception was given a cause")
        return e
    if exc is not None:
        raise kal.Violation(f"{what}: {type(exc).__name__} was swallowed; the call returned {type(r).__name__}")
    return None


def follow(w, f, a, Z, steps, seq, expg, what, st):
    expg = list(expg)
    for op in seq:
        r = run_op(w, f, a, Z, steps, op)
        expg += judge(w, op, r, f"{what}, then {op}")
        check_gains(f, expg, f"{what}, then {op}")
        st.transitions += 1
    return expg


def counts(w, op):
    a, Z, steps = begin(w)
    cb = Cb(w.cb)
    f = nl.make_ekf(a, cb.fns)
    run_op(w, f, a, Z, steps, op)
    return dict(cb.n)


def completed(cb, w, op, opgains):
    """Which prefix of the operation's updates had completed when the fault fired."""
    if op == "P" or op == "U":
        return 0
    pri = prior_states(w, op[1], op.endswith("u"))
    name, x = cb.fired
    if name in ("h", "jacobian_H"):
        return step_of(x, pri)
    hs = [step_of(y, pri) for nm, y in cb.log if nm in ("h", "jacobian_H")]
    return max(hs) + 1 if hs else 0


def callback_faults(w, wkey, faults, before, after_seqs, st):
    """faults: list of (op, fn, index, exc kind), executed in order on one object."""
    for seq in after_seqs:
        a, Z, steps = begin(w)
        cb = Cb(w.cb)
        f = nl.make_ekf(a, cb.fns)
        what = f"{before} "
        expg = follow(w, f, a, Z, steps, before, [], "start", st)
        snap = snapshot(a, Z, steps)
        for op, fn, i, kind in faults:
            what = what + f"{op} with {kind} in call {i} of {fn}"
            exc = make_exc(kind)
            cb.reset(fn, i, exc)
            e = call_expect(lambda: run_op(w, f, a, Z, steps, op), exc, what)
            if cb.fired is None:
                raise kal.Violation(f"{what}: the call was never made although an identical run makes it")
            expg += gains_of(w, op)[:completed(cb, w, op, None)]
            cb.reset()
            unchanged(snap, what)
            check_gains(f, expg, what)
            e.__traceback__ = None
            st.states.add((tuple(wkey), op, fn, i))
            st.outcomes.add((tuple(wkey), op, fn, i, kind, len(expg)))
            what += "; "
        follow(w, f, a, Z, steps, seq, expg, what, st)
        unchanged(snap, what)
        st.traces += 1


class Fault:
    def __init__(self):
        self.arm = None     # (name, index, n-th access)
        self.seen = {}
        self.fired = False
        self.exc = None

    def touch(self, name, k):
        c = self.seen[(name, k)] = self.seen.get((name, k), -1) + 1
        if self.arm == (name, k, c):
            self.fired = True
            raise self.exc


class FArr(np.ndarray):
    """An array whose k-th step cannot be read (raises) at the chosen access."""
    _fault = None

    def __getitem__(self, k):
        if self._fault is not None and isinstance(k, (int, np.integer)):
            self._fault[0].touch(self._fault[1], int(k))
        return np.ndarray.__getitem__(self.view(np.ndarray), k)

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]


def farr(v, fault, name):
    o = v.view(FArr)
    o._fault = (fault, name)
    return o


def access_faults(w, wkey, op, name, kinds, after, st, only=None):
    ekf = wkey[0] == "ekf"

    def build():
        a, Z, steps = begin(w)
        ft = Fault()
        names = ["Q", "R"] + ([] if ekf else ["A", "B", "H"])
        a2 = dict(a)
        for nm in names:
            a2[nm] = farr(a[nm], ft, nm)
        f = nl.make_ekf(a2, w.cb) if ekf else kal.make_kf(a2)
        a3 = dict(a)
        a3["U"] = farr(a["U"], ft, "U")
        Z2 = {k: farr(v, ft, "Z") for k, v in Z.items()}
        return a, Z, steps, ft, f, a3, Z2
    a, Z, steps, ft, f, a3, Z2 = build()
    run_op(w, f, a3, Z2, steps, op)
    acc = {k: n + 1 for (nm, k), n in ft.seen.items() if nm == name}
    T = len(w.nodes(op[1], True))
    for k in sorted(acc):
        if only is not None and k not in only:
            continue
        for c in range(acc[k]):
            for kind in kinds:
                for seq in after:
                    a, Z, steps, ft, f, a3, Z2 = build()
                    snap = snapshot(a, Z, steps)
                    ft.exc = make_exc(kind)
                    ft.arm = (name, k, c)
                    what = f"{op} with {kind} reading {name}[{k}] (access {c})"
                    try:
                        run_op(w, f, a3, Z2, steps, op)
                        got = None
                    except BaseException as e:
                        got = e
                    if not ft.fired:
                        st.skipped += 1
                        continue
                    if got is ft.exc:
                        intact(got, what)
                    if got is not ft.exc:
                        raise kal.Violation(f"{what}: the caller received {got!r}" if got is not None else f"{what}: swallowed")
                    ft.arm = None
                    got.__traceback__ = None
                    unchanged(snap, what)
                    g = gains_of(w, op)
                    n = len(f.kalman_gains)
                    if n > (T if c else k) and not (op[0] == "S"):
                        raise kal.Violation(f"{what}: {n} gains recorded")
                    check_gains(f, g[:n], what)
                    follow(w, f, a, Z, steps, seq, g[:n], what, st)
                    st.traces += 1
                    st.states.add((tuple(wkey), op, name, k, c))
                    st.outcomes.add((tuple(wkey), op, name, k, c, kind, n))


def malformed(w, wkey, name, how, st):
    """A step whose element has an impossible shape or type: some error, prefix of gains kept, object usable."""
    ekf = wkey[0] == "ekf"
    n, m, p = w.n, w.m, w.p
    bad_shape = {"Z": (m + 1,), "U": (p + 1,), "A": (n + 1, n + 1), "B": (n, p + 2), "H": (m, n + 1), "Q": (n + 1, n + 2), "R": (m + 1, m + 2)}[name]
    for k, op in itertools.product(range(4), ("F1u", "S1u")):
        for seq in [[x] for x in ("P", "U", "F2u")] + [["U", "P", "U"]]:
            a, Z, steps = begin(w)
            src = Z["1"] if name == "Z" else a[name][:4] if name == "U" else a[name]
            el = list(src)
            el[k] = {"shape": np.ones(bad_shape), "none": None, "str": "x", "object": object()}[how]
            a2, Z2 = dict(a), dict(Z)
            a2["U"] = a["U"][:4]
            (Z2 if name == "Z" else a2)["1" if name == "Z" else name] = el
            what = f"{op} with {name}[{k}] = {how}"
            made = True
            try:
                f = nl.make_ekf(a2, w.cb) if ekf else kal.make_kf(a2)
            except Exception:
                st.count("rejected_at_construction")
                made = False
            if not made:
                continue
            snap = snapshot(a, Z, steps)
            pre = follow(w, f, a, Z, steps, ["U"], [], "start", st)
            try:
                r = run_op(w, f, a2, Z2, steps, op)
            except Exception as e:
                e.__traceback__ = None
                r = None
            if r is not None:
                raise kal.Violation(f"{what}: accepted; returned {type(r).__name__}")
            unchanged(snap, what)
            g = gains_of(w, op)
            c = len(f.kalman_gains) - 1
            if c not in (0, k):
                raise kal.Violation(f"{what}: {c} gains recorded by the failed call, expected {k}")
            expg = pre + g[:c]
            check_gains(f, expg, what)
            if name not in ("Z", "U") and k < 2 and "F2u" in seq:
                seq = [x for x in seq if x != "F2u"]
            follow(w, f, a, Z, steps, seq, expg, what, st)
            st.traces += 1
            st.states.add((tuple(wkey), op, name, how, k))
            st.outcomes.add((tuple(wkey), op, name, how, k, c))


def bad_return(w, wkey, op, fn, how, st):
    """A callback returns a value of an impossible size or type at its i-th call, on an object with a history."""
    n, m = w.n, w.m
    shape = {"f": (n + 3,), "h": (m + 3,), "jacobian_A": (n + 1, n + 2), "jacobian_H": (m + 1, n + 2)}[fn]
    val = {"shape": lambda: np.ones(shape), "none": lambda: None, "str": lambda: "x", "object": object}[how]
    for i in range(counts(w, op)[fn]):
        for before in ([], ["U"], ["U", "F2u"]):
            for seq in [["U"], ["F2u"], ["S1u"], ["P", "U"]]:
                a, Z, steps = begin(w)
                left = [-1]

                def wrapped(*args):
                    left[0] -= 1
                    return val() if left[0] == -1 else w.cb[fn](*args)
                f = nl.make_ekf(a, dict(w.cb, **{fn: wrapped}))
                left[0] = -1 - 10 ** 9
                snap = snapshot(a, Z, steps)
                what = f"{before} then {op} with call {i} of {fn} returning {how}"
                pre = follow(w, f, a, Z, steps, before, [], "start", st)
                left[0] = i
                e = call_expect(lambda: run_op(w, f, a, Z, steps, op), None, what)
                if e is None:
                    raise kal.Violation(f"{what}: no error")
                e.__traceback__ = None
                left[0] = -1 - 10 ** 9
                unchanged(snap, what)
                g = f.kalman_gains
                good = gains_of(w, op)
                T = len(good)
                sure = 0 if op == "U" else T if i >= T else i       # updates completed before the bad call (forward calls first)
                c = len(g) - len(pre)
                if not 0 <= c <= sure + 1:
                    raise kal.Violation(f"{what}: {len(g)} gains recorded, {len(pre)} before the call, which completed {sure} updates")
                check_prefix = pre + good[:min(c, sure)]
                for j, (K, sc) in enumerate(check_prefix):
                    kal.cmp_vec(np.asarray(g[j], dtype=float), K, sc, f"{what}: recorded gain {j} ", 1e-9)
                if c <= sure:
                    follow(w, f, a, Z, steps, seq, check_prefix, what, st)
                else:       # the failing update had already recorded its gain
                    last = np.asarray(g[-1], dtype=float)
                    follow(w, f, a, Z, steps, seq, check_prefix + [(last, np.ones(last.shape))], what, st)
                unchanged(snap, what)
                st.traces += 1
                st.states.add((tuple(wkey), op, "return", fn, i))
                st.outcomes.add((tuple(wkey), op, "return", fn, how, i, c))


def singular(w, wkey, k, op, st):
    """Step k has an exactly singular innovation covariance (H=0, R=0)."""
    ekf = wkey[0] == "ekf"
    for seq in [["P"], ["U"], ["U", "P", "U"]] + ([["F2u"], ["F2u", "U"]] if len(w.Zv["2"]) <= k < len(w.Zv["2"]) + 2 else []):
        a, Z, steps = begin(w)
        a["R"] = a["R"].copy()
        Rk = a["R"][k].copy()
        a["R"][k] = 0
        pri = prior_states(w, op[1], True)
        if ekf:
            cb = dict(w.cb)
            real = cb["jacobian_H"]
            armed = [True]

            def jh(x):
                J = real(x)
                if armed[0] and step_of(np.asarray(x, dtype=float).ravel(), pri) == k:
                    J = np.zeros_like(J)
                return J
            cb["jacobian_H"] = jh
            f = nl.make_ekf(a, cb)
        else:
            a2 = dict(a)
            a2["H"] = a["H"].copy()
            a2["H"][k] = 0
            f = kal.make_kf(a2)
        snap = snapshot(a, Z, steps)
        what = f"{op} with a singular innovation covariance at step {k}"
        e = call_expect(lambda: run_op(w, f, a, Z, steps, op), None, what)
        if e is None:
            raise kal.Violation(f"{what}: no error")
        e.__traceback__ = None
        unchanged(snap, what)
        n = len(a["x0"])
        Z1 = np.asarray(Z[op[1]])[k]
        z0, r0 = np.zeros_like(Z1, dtype=float), np.zeros_like(a["R"][k])
        try:        # the failure of that very update, by hand
            if ekf:
                J = np.zeros_like(real(np.array(a["x0"])))
                nl.make_ekf(a, {**w.cb, "jacobian_H": lambda x: J}).update(xk=np.zeros(n), Pk=np.eye(n), zk=z0, Rk=r0)
            else:
                kal.make_kf(a).update(Hk=a2["H"][k], xk=np.zeros(n), Pk=np.eye(n), zk=z0, Rk=r0)
        except Exception as alone:
            if face(e) != face(alone):
                raise kal.Violation(f"{what}: the error {face(e)} reached the caller, the update itself fails with {face(alone)}")
            alone.__traceback__ = None
        g = gains_of(w, op)[:k]
        check_gains(f, g, what)
        if ekf:
            armed[0] = False
        a = dict(a)
        a["R"] = a["R"].copy()
        a["R"][k] = Rk
        follow(w, f, a, Z, steps, seq, g, what, st)
        st.traces += 1
        st.states.add((tuple(wkey), op, "singular", k))
        st.outcomes.add((tuple(wkey), op, "singular", k, tuple(seq)))


def short(w, wkey, name, L, op, st):
    """A sequence that covers only L of the 4 steps, on an object with a history: an error; earlier gains untouched."""
    ekf = wkey[0] == "ekf"
    reach = L >= len(w.Zv["2"]) or name == "U"
    for before in [[], ["U"], ["U", "P", "U"]] + ([["F2u"], ["U", "F2u", "U", "S2u"]] if reach else []):
        for seq in [["P"], ["U"]] + ([["F2u", "U"], ["S2u"]] if reach else []):
            a, Z, steps = begin(w)
            a2 = dict(a)
            a2[name] = a[name][:L]
            if name == "U":
                f = nl.make_ekf(a, w.cb) if ekf else kal.make_kf(a)
            else:
                f = nl.make_ekf(a2, w.cb) if ekf else kal.make_kf(a2)
            snap = snapshot(a, Z, steps)
            pre = follow(w, f, a, Z, steps, before, [], "start", st)
            what = f"{before} then {op} with {name} covering {L} of 4 steps"
            e = call_expect(lambda: run_op(w, f, a2, Z, steps, op), None, what)
            if e is None:
                raise kal.Violation(f"{what}: no error")
            e.__traceback__ = None
            unchanged(snap, what)
            c = len(f.kalman_gains) - len(pre)
            if c not in (0, L):
                raise kal.Violation(f"{what}: {len(f.kalman_gains)} gains recorded, {len(pre)} before the failing call, which completed {L} updates")
            expg = pre + gains_of(w, op)[:c]
            check_gains(f, expg, what)
            follow(w, f, a, Z, steps, seq, expg, what, st)
            unchanged(snap, what)
            st.traces += 1
            st.states.add((tuple(wkey), op, "short", name, L))
            st.outcomes.add((tuple(wkey), op, "short", name, L, tuple(before), c))


def backward(w, wkey, k, withU, st):
    """The covariance predicted for step k is exactly zero: the backward pass fails as a whole, or is complete."""
    ekf = wkey[0] == "ekf"
    op = "S1u" if withU else "S1"
    for seq in [["P"], ["U"], ["U", "P", "U"]]:
        a, Z, steps = begin(w)
        a = dict(a, Q=a["Q"].copy())
        a["Q"][k] = 0
        if ekf:
            cb = dict(w.cb)
            real = cb["jacobian_A"]

            def make():
                # the k-th forward call, and later calls at the same state, are flat
                flat = []
                calls = [0]

                def ja(x, u):
                    J = np.asarray(real(x, u))
                    x = np.array(x, dtype=float).ravel()
                    if calls[0] == k:
                        flat.append(x)
                    calls[0] += 1
                    return np.zeros_like(J) if any(np.array_equal(x, y) for y in flat) else J
                return nl.make_ekf(a, dict(cb, jacobian_A=ja))
        else:
            a["A"] = a["A"].copy()
            a["A"][k] = 0

            def make():
                return kal.make_kf(a)
        f = make()
        snap = snapshot(a, Z, steps)
        what = f"{op} with a zero predicted covariance at step {k}"
        g0 = make()
        U = a["U"] if withU else (None if not ekf else np.zeros((len(Z["1"]), w.p)))
        xf, Pf = g0.filter(Z=Z["1"], U=U)
        try:
            r = run_op(w, f, a, Z, steps, op)
        except np.linalg.LinAlgError as e:
            e.__traceback__ = None
            r = None
        st.outcomes.add((tuple(wkey), op, "backward", k, r is None))
        if r is not None:
            s, P = r
            e = np.abs(s[k - 1] - xf[k - 1]).max() + np.abs(P[k - 1] - Pf[k - 1]).max()
            if not e <= 1e-9 * (1 + np.abs(xf).max() + np.abs(Pf).max()):
                raise kal.Violation(f"{what}: step {k - 1} is not the filtered estimate")
            nxt = xf[k - 1]
            for j in range(k - 2, -1, -1):
                y = xf[j]
                if ekf:
                    J = np.asarray(w.cb["jacobian_A"](y.copy(), U[j + 1]))
                    xp = np.asarray(w.cb["f"](y.copy(), U[j + 1])).ravel()
                else:
                    J = a["A"][j + 1]
                    xp = J @ y + (a["B"][j + 1] @ U[j + 1] if withU else 0)
                Pp = J @ Pf[j] @ J.T + a["Q"][j + 1]
                nxt = y + np.linalg.solve(Pp, J @ Pf[j]).T @ (nxt - xp)
                kal.cmp_vec(s[j], nxt, 64, f"{what}: returned a partial result: state {j}", 1e-7)
        unchanged(snap, what)
        if len(f.kalman_gains) != len(xf):
            raise kal.Violation(f"{what}: {len(f.kalman_gains)} gains recorded")
        for i in range(len(xf)):
            kal.cmp_vec(np.asarray(f.kalman_gains[i], dtype=float), np.asarray(g0.kalman_gains[i], dtype=float), np.full(np.shape(g0.kalman_gains[i]), 4.0), f"{what}: recorded gain {i} ", 1e-9)
        pre = len(f.kalman_gains)
        if not ekf or seq == ["U"]:
            for o in seq:
                r2 = run_op(w, f, a, Z, steps, o)
                if o == "U":
                    judge(w, o, r2, f"{what}, then {o}")
                    pre += 1
                if len(f.kalman_gains) != pre:
                    raise kal.Violation(f"{what}, then {o}: {len(f.kalman_gains)} gains")
        st.traces += 1
        st.states.add((tuple(wkey), op, "backward", k))


TOOL = 3


def interrupts(w, wkey, op, after, st):
    """KeyboardInterrupt at the i-th executed line of library code, for every i."""
    mon = sys.monitoring
    src = kal.SRC
    ekf = wkey[0] == "ekf"
    state = dict(i=-1, at=None, exc=None)

    def on_line(code, line):
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        state["i"] += 1
        if state["i"] == state["at"]:
            raise state["exc"]

    i = 0
    total = None
    while True:
        for seq in after:
            a, Z, steps = begin(w)
            f = nl.make_ekf(a, w.cb) if ekf else kal.make_kf(a)
            snap = snapshot(a, Z, steps)
            state.update(i=-1, at=i, exc=KeyboardInterrupt())
            mon.use_tool_id(TOOL, "kkmc-int")
            mon.register_callback(TOOL, mon.events.LINE, on_line)
            mon.restart_events()
            mon.set_events(TOOL, mon.events.LINE)
            try:
                try:
                    run_op(w, f, a, Z, steps, op)
                    got = None
                except BaseException as e:
                    got = e
            finally:
                mon.set_events(TOOL, 0)
                mon.register_callback(TOOL, mon.events.LINE, None)
                mon.free_tool_id(TOOL)
            if state["i"] < i:
                total = state["i"] + 1
                break
            what = f"{op} interrupted at executed line {i}"
            if got is not state["exc"]:
                raise kal.Violation(f"{what}: the interrupt did not reach the caller ({got!r})")
            got.__traceback__ = None
            unchanged(snap, what)
            g = gains_of(w, op)
            n = len(f.kalman_gains)
            if n > len(g):
                raise kal.Violation(f"{what}: {n} gains recorded")
            check_gains(f, g[:n], what)
            follow(w, f, a, Z, steps, seq, g[:n], what, st)
            st.traces += 1
            st.states.add((tuple(wkey), op, "interrupt", i))
            st.outcomes.add((tuple(wkey), op, "interrupt", i, n))
        if total is not None:
            break
        i += 1
    if i == 0:
        raise kal.Violation(f"{op}: no library line was executed")
    st.count("interrupt_points", i)


def ekf_worlds(tier):
    w = [["ekf", 1, 1, 1, "quad", False], ["ekf", 2, 2, 1, "mixed", True]]
    if tier != "quick":
        w += [["ekf", 2, 1, 1, "mixed", False], ["ekf", 3, 2, 2, "bilin", True]]
    return w


def kf_worlds(tier):
    w = [["kf", 1, 1, 1, "gen", False], ["kf", 2, 2, 1, "ti", True]]
    if tier != "quick":
        w += [["kf", 2, 1, 1, "gen", False], ["kf", 3, 2, 1, "ti", False]]
    return w


LATE = (0, 1, 31, 32, 39, 40, 49, 50, 59, 60, 63, 64, 65, 69, 70, 75, 99, 100, 127, 128, 129, 149)
LONG = [["kf", 2, 1, 1, "ti", False, 150], ["ekf", 1, 1, 1, "mixed", False, 150]]
MANY = [["kf", 7, 2, 1, "gen", False], ["kf", 2, 7, 1, "ti", False], ["ekf", 7, 2, 1, "mixed", False], ["ekf", 2, 7, 2, "quad", False]]


def far(tier):
    """Faults deep inside a long series, and in models with many components."""
    for wk in LONG + MANY:
        T = wk[6] if len(wk) > 6 else 4
        ks = LATE if T > 4 else (0, 2, 3)
        for op in ("F1u", "S1u"):
            if wk[0] == "ekf":
                for fn in FN:
                    for i in ks:
                        for exc in ("ValueError", "LinAlgError", "KeyboardInterrupt", "CustomBase", "StopIteration"):
                            yield ["cbl", wk, op, fn, i, exc]
            for name in ("Z", "U", "Q", "R") + (() if wk[0] == "ekf" else ("A", "B", "H")):
                yield ["acc", wk, op, name, True, list(ks)]
            for k in ks:
                yield ["sing", wk, k, op]
                for name in ("U", "Q", "R") + (() if wk[0] == "ekf" else ("A", "B", "H")):
                    yield ["short", wk, name, k, op]
        for k in ks[1:]:
            yield ["back", wk, k, True]


def cases(tier):
    q = False
    yield from far(tier)
    for wk in ekf_worlds(tier):
        for op in OPSF:
            for fn in FN:
                for kind in EXC:
                    yield ["cb", wk, op, fn, kind, q]
        if tier != "quick":
            for op in ("F1u", "S1u", "P", "U"):
                for fn in FN:
                    for s in itertools.product(FOLLOW, repeat=3):
                        yield ["cbf", wk, op, fn, list(s)]
        for op in ("F1u", "S1u", "F2u", "U"):
            for fn in FN:
                for how in ("shape", "none", "str", "object"):
                    if op != "U" or fn in ("h", "jacobian_H"):
                        yield ["ret", wk, op, fn, how]
        for op, op2 in itertools.product(["F1u", "S1u", "P", "U"], repeat=2):
            for fn, fn2 in itertools.product(FN, repeat=2):
                yield ["cb2", wk, op, fn, op2, fn2, q]
    for wk in ekf_worlds(tier) + kf_worlds(tier):
        for op in ("F1u", "S1u", "F2u", "S1"):
            for name in ("Z", "U", "Q", "R", "A", "B", "H"):
                if wk[0] == "ekf" and name in "ABH":
                    continue
                if op == "S1" and name in ("U", "B"):
                    continue
                yield ["acc", wk, op, name, q]
        for k in range(4):
            for op in ("F1u", "S1u"):
                yield ["sing", wk, k, op]
        for k in (1, 2, 3):
            for u in (True, False):
                yield ["back", wk, k, u]
        for name in ("U", "Q", "R") + (() if wk[0] == "ekf" else ("A", "B", "H")):
            for L in range(4):
                for op in ("F1u", "S1u"):
                    yield ["short", wk, name, L, op]
        for op in ("F1u", "S1u", "P", "U"):
            yield ["int", wk, op, q]
            if tier != "quick":
                for s in itertools.product(FOLLOW, repeat=2):
                    yield ["intf", wk, op, list(s)]
        if wk[1] > 1 and wk[2] > 1:
            for name in ("Z", "U", "Q", "R", "A", "B", "H"):
                if wk[0] == "ekf" and name in "ABHU":
                    continue
                for how in ("shape", "none", "str", "object"):
                    if name in "UB" and how == "none":
                        continue    # None means: no control
                    yield ["bad", wk, name, how]


def run_case(desc, st):
    kind, wk = desc[0], desc[1]
    w = ops.world(tuple(wk))
    if kind == "cb":
        _, _, op, fn, exc, q = desc
        n = counts(w, op)[fn]
        for i in range(n):
            full = exc in ("ValueError", "KeyboardInterrupt", "LinAlgError", "StopIteration") or not q
            seqs = [[x] for x in FOLLOW] if full else [[FOLLOW[(i + len(exc)) % 6]]]
            if not q:
                seqs += [list(s) for s in itertools.product(FOLLOW[1:], repeat=2)] if exc in ("ValueError", "CustomBase") else []
            callback_faults(w, wk, [(op, fn, i, exc)], [], seqs, st)
            if full:
                callback_faults(w, wk, [(op, fn, i, exc)], ["S1u"], [["F1u"]], st)
    elif kind == "cbl":
        _, _, op, fn, i, exc = desc
        pri = np.array(prior_states(w, op[1], True))
        gap = min(np.abs(x - y).max() for j, x in enumerate(pri) for y in pri[:j])
        if i < counts(w, op)[fn] and gap > 1e-7:
            callback_faults(w, wk, [(op, fn, i, exc)], ["U"], [["F1u"], ["U", "S1u"]], st)
        else:
            st.skipped += 1
    elif kind == "cb2":
        _, _, op, fn, op2, fn2, q = desc
        n, n2 = counts(w, op)[fn], counts(w, op2)[fn2]
        for i, j in itertools.product(range(n), range(n2)):
            callback_faults(w, wk, [(op, fn, i, "ValueError"), (op2, fn2, j, "LinAlgError")], [], [["S1u", "U"]], st)
            if not q:
                for i3 in range(counts(w, "S1u")["h"]):
                    callback_faults(w, wk, [(op, fn, i, "KeyError"), (op2, fn2, j, "CustomError"), ("S1u", "h", i3, "OSError")], [], [["F1u", "U"]], st)
    elif kind == "acc":
        op, name, q = desc[2:5]
        kinds = ["ValueError", "KeyError", "CustomError", "OSError"] + ([] if q else ["TypeError", "MemoryError", "KeyboardInterrupt", "RuntimeError", "CustomBase"])
        access_faults(w, wk, op, name, kinds if len(desc) < 6 else kinds[:2], [["F1u"], ["U"], ["S1u"]] if q else [[x] for x in FOLLOW], st, desc[5] if len(desc) > 5 else None)
    elif kind == "cbf":
        _, _, op, fn, seq = desc
        for i in range(counts(w, op)[fn]):
            callback_faults(w, wk, [(op, fn, i, "IndexError")], [], [seq], st)
    elif kind == "intf":
        interrupts(w, wk, desc[2], [desc[3]], st)
    elif kind == "sing":
        singular(w, wk, desc[2], desc[3], st)
    elif kind == "back":
        backward(w, wk, desc[2], desc[3], st)
    elif kind == "ret":
        bad_return(w, wk, desc[2], desc[3], desc[4], st)
    elif kind == "short":
        short(w, wk, desc[2], desc[3], desc[4], st)
    elif kind == "int":
        interrupts(w, wk, desc[2], [["F1u"], ["S1u", "U"]] if desc[3] else [[x] for x in FOLLOW] + [["U", "S1u"]], st)
    else:
        malformed(w, wk, desc[2], desc[3], st)
