"""Operation sequences on one filter object, executed next to a stateless model of what each call returns.

World: two objects of the same class (main, other) over different models, data sets Z1 (4 steps; may be
overwritten in place by its owner between calls, keeping shape, sum, first and last), Z2 (2 steps),
Z3 (Z1 reversed), controls.
"""
import functools

import numpy as np

from . import kal, lin, nl, ref

OPS = ["F1", "F1u", "F2u", "F3", "S1u", "S1", "S3u", "P", "Pn", "U", "U2", "M", "W", "O", "I"]


class KFWorld:
    def __init__(self, n, m, p, mode, readonly, T=4):
        self.n, self.m, self.p = n, m, p
        c1 = lin.build_dev(n, m, p, T, mode, [])
        a = c1.arrays()
        self.a = a
        self.c = c1
        z = [[v for v in s.z.l] for s in c1.steps]
        # "1b" agrees with "1" in shape, sum, first and last; "3" is its reversal where that differs
        swap = [z[0], [x + 1 for x in z[1]], [x - 1 for x in z[2]], *z[3:]]
        rev = z[::-1] if z[::-1] != z else [[x / 2 - 1 for x in v] for v in z]
        self.Zv = {"1": z, "1b": swap, "2": [[4 * x for x in v] for v in (z[1:3] if T == 4 else z[1:-5])], "3": rev}
        self.Uv = [s.u.l for s in c1.steps]
        self.readonly = readonly

    def case(self, zkey, withU):
        st = []
        for k, z in enumerate(self.Zv[zkey]):
            s = self.c.steps[k]
            st.append(lin.step(s.A, s.B, s.u if withU else None, s.H, s.Q, s.R, z, self.p))
        return lin.Case(self.c.x0, self.c.P0, st)

    @functools.lru_cache(maxsize=None)
    def nodes(self, zkey, withU):
        return self.case(zkey, withU).nodes()

    @functools.lru_cache(maxsize=None)
    def rts(self, zkey, withU):
        return ref.rts(self.nodes(zkey, withU))

    def fresh(self):
        a = {k: v.copy() for k, v in self.a.items()}
        Z = {k: np.array(v) for k, v in self.Zv.items()}
        steps = dict(x=a["x0"] + 0.5, P=a["P0"] * 2, z=np.array(self.Zv["3"][0]), z2=np.array(self.Zv["2"][1]))
        if self.readonly:
            for d in (a, steps):
                for v in d.values():
                    v.flags.writeable = False
            for k in ("2", "3"):
                Z[k].flags.writeable = False
        o = {k: v.copy() for k, v in a.items()}
        o["A"] = o["A"] * 0.5
        o["Q"] = o["Q"] * 3
        o["x0"] = o["x0"] - 1
        return a, Z, steps, o

    def make(self, a):
        return kal.make_kf(a)

    def call_predict(self, f, a, s, withU):
        return f.predict(Ak=a["A"][1], xk=s["x"], Bk=a["B"][1], uk=a["U"][1] if withU else None, Pk=s["P"], Qk=a["Q"][1])

    def call_update(self, f, a, s, which):
        k = 2 if which else 1
        return f.update(Hk=a["H"][k], xk=s["x"], Pk=s["P"], zk=s["z2" if which else "z"], Rk=a["R"][k])

    @functools.lru_cache(maxsize=None)
    def exp_inflated(self):
        """Update of the prediction with its mean and covariance doubled."""
        x, P = self.exp_predict(True)
        x, P = [v * 2 for v in x], [[v * 2 for v in r] for r in P]
        s = self.c.steps[1]
        H, hx = self._obs(x, s)
        return ref.update(x, P, H, ref.dec(self.Zv["3"][0]), s.R.d, hx=hx)

    def _obs(self, x, s):
        return s.H.d, ref.mv(s.H.d, x)

    @functools.lru_cache(maxsize=None)
    def exp_predict(self, withU):
        s = self.c.steps[1]
        x = ref.dec((self.a["x0"] + 0.5).tolist())
        P = ref.dec((self.a["P0"] * 2).tolist())
        return ref.predict(x, P, s.A.d, s.B.d, s.u.d if withU else None, s.Q.d)

    @functools.lru_cache(maxsize=None)
    def exp_update(self, which):
        s = self.c.steps[2 if which else 1]
        x = ref.dec((self.a["x0"] + 0.5).tolist())
        P = ref.dec((self.a["P0"] * 2).tolist())
        return ref.update(x, P, s.H.d, ref.dec(self.Zv["2"][1] if which else self.Zv["3"][0]), s.R.d)


class EKFWorld(KFWorld):
    def __init__(self, n, m, p, kind, readonly, T=4):
        self.kind = kind
        super().__init__(n, m, p, "still" if kind == "still" else "ti" if T > 4 else "gen", readonly, T)
        if kind == "still":
            self.kind = kind = "lin1"
        self.f, self.h = nl.functions(kind, n, m, p)
        self.cb = self._nc("1", True).callbacks()
        # without controls the filter hands the callbacks an all-NaN vector; ours then use no control
        for name in ("f", "jacobian_A"):
            self.cb[name] = self._no_control(self.cb[name])

    def _no_control(self, fn):
        def g(x, u):
            u = np.asarray(u, dtype=float)
            return fn(x, np.zeros(self.p) if np.isnan(u).all() else u)
        return g

    def _nc(self, zkey, withU):
        T = len(self.Zv[zkey])
        st = self.c.steps
        us = [[v / 4 for v in st[k].u.l] if withU else [0.0] * self.p for k in range(T)]
        return nl.NCase(self.kind, self.n, self.m, self.p, self.c.x0.l, self.c.P0.l, us, self.Zv[zkey], [st[k].Q.l for k in range(T)], [st[k].R.l for k in range(T)])

    @functools.lru_cache(maxsize=None)
    def nodes(self, zkey, withU):
        return self._nc(zkey, withU).nodes()

    @functools.lru_cache(maxsize=None)
    def rts(self, zkey, withU):
        return ref.ekf_rts(self.nodes(zkey, withU))

    def fresh(self):
        a, Z, s, o = super().fresh()
        for d in (a, o):
            v = d["U"] / 4
            if self.readonly and d is a:
                v.flags.writeable = False
            d["U"] = v
        return a, Z, s, o

    def make(self, a):
        return nl.make_ekf(a, self.cb)

    def _obs(self, x, s):
        return self.h.jac(x), self.h(x)

    def call_predict(self, f, a, s, withU):
        return f.predict(xk=s["x"], uk=a["U"][1] if withU else np.zeros(self.p), Pk=s["P"], Qk=a["Q"][1])

    def call_update(self, f, a, s, which):
        return f.update(xk=s["x"], Pk=s["P"], zk=s["z2" if which else "z"], Rk=a["R"][2 if which else 1])

    def _xp(self):
        return ref.dec((self.a["x0"] + 0.5).tolist()), ref.dec((self.a["P0"] * 2).tolist())

    @functools.lru_cache(maxsize=None)
    def exp_predict(self, withU):
        x, P = self._xp()
        u = ref.dec([v / 4 for v in self.c.steps[1].u.l]) if withU else ref.dec([0.0] * self.p)
        A = self.f.jac(x, u)
        return self.f(x, u), ref.add(ref.mm(A, ref.mm(P, ref.tr(A))), self.c.steps[1].Q.d)

    @functools.lru_cache(maxsize=None)
    def exp_update(self, which):
        x, P = self._xp()
        s = self.c.steps[2 if which else 1]
        return ref.update(x, P, self.h.jac(x), ref.dec(self.Zv["2"][1] if which else self.Zv["3"][0]), s.R.d, hx=self.h(x))


@functools.lru_cache(maxsize=None)
def world(key):
    which, n, m, p, mode, ro = key[:6]
    return (KFWorld if which == "kf" else EKFWorld)(n, m, p, mode, ro, *key[6:])


LARGE = [("kf", 2, 1, 1, "ti", False, 70), ("ekf", 1, 1, 1, "mixed", False, 70), ("kf", 1, 1, 1, "gen", False, 130), ("kf", 7, 2, 1, "gen", False), ("kf", 2, 7, 1, "ti", False), ("kf", 7, 7, 2, "gen", True),
         ("kf", 17, 1, 1, "gen", False), ("ekf", 7, 2, 1, "mixed", False), ("ekf", 2, 7, 2, "quad", False)]      # long series, many components


def worlds(tier):
    w = [("kf", 1, 1, 1, "gen", False), ("kf", 2, 1, 1, "gen", False), ("ekf", 1, 1, 1, "quad", False), ("ekf", 2, 1, 1, "mixed", False)]
    w += [("kf", 1, 1, 1, "still", False), ("kf", 2, 2, 1, "still", False), ("ekf", 2, 2, 1, "still", False)]
    if tier != "quick":
        w += [("kf", 2, 2, 2, "gen", True), ("kf", 1, 2, 1, "gen", True), ("ekf", 2, 2, 1, "mixed", True), ("kf", 3, 2, 1, "ti", False), ("ekf", 3, 2, 2, "bilin", True)]
    else:
        w += [("kf", 2, 2, 1, "ti", True), ("ekf", 2, 2, 1, "quad", True)]
    return w


def execute(wkey, seq, st, results=True, gains=True):
    w = world(tuple(wkey))
    a, Z, steps, o = w.fresh()
    f, other = w.make(a), w.make(o)
    oz, ou = Z["3"], o["U"]
    exp_other = None
    z1 = "1"
    snap = {id(v): (nm, v, v.tobytes()) for nm, v in list(a.items()) + [("Z" + k, v) for k, v in Z.items()] + list(steps.items()) + [("other." + k, v) for k, v in o.items()]}
    handed = []         # (array, bytes) returned so far
    model_gains = []    # (expected K, scale, node) per update
    for pos, op in enumerate(seq):
        what = f"after {list(seq[:pos])}: {op}"
        ret = ()
        withU = op.endswith("u")
        if op[0] in "FS" and op != "O":
            zk = op[1]
            if zk == "1":
                zk = z1
            arr = Z[op[1]]
            nodes = w.nodes(zk, withU)
            U = a["U"] if withU else None
            if op[0] == "F":
                s, e = f.filter(Z=arr, U=U)
            else:
                s, e = f.smooth(Z=arr, U=U)
            ret = (s, e)
            if results:
                s, e = kal.shape_check(s, e, len(arr), w.n, what)
                if op[0] == "F":
                    kal.check_filter(s, e, nodes, what)
                else:
                    kal.check_smooth(s, e, w.rts(zk, withU), what)
            model_gains += [(np.array(ref.flt(nd.K)), kal.gain_scale(nd)) for nd in nodes]
            st.transitions += len(nodes)
        elif op[0] == "P":
            x, P = w.call_predict(f, a, steps, op == "P")
            ret = (x, P)
            if results:
                ex, eP = w.exp_predict(op == "P")
                kal.cmp_vec(x, ref.flt(ex), 8, what + " prior state", 1e-9)
                kal.cmp_vec(P, ref.flt(eP), 8, what + " prior covariance", 1e-9)
            st.transitions += 1
        elif op[0] == "U":
            x, P = w.call_update(f, a, steps, op == "U2")
            ret = (x, P)
            ex, eP, K = w.exp_update(op == "U2")[:3]
            if results:
                kal.cmp_vec(x, ref.flt(ex), 64, what + " posterior state", 1e-9)
                kal.cmp_vec(P, ref.flt(eP), 64, what + " posterior covariance", 1e-9)
            K = np.array(ref.flt(K))
            model_gains.append((K, np.full(K.shape, 4.0)))
            st.transitions += 1
        elif op == "I":     # the prediction is changed in place by its owner, then updated
            x, P = w.call_predict(f, a, steps, True)
            x *= 2
            P *= 2
            ret = (x, P) + tuple(w.call_update(f, a, {**steps, "x": x, "P": P}, False))
            ex, eP, K = w.exp_inflated()[:3]
            if results:
                kal.cmp_vec(ret[2], ref.flt(ex), 64, what + " posterior state", 1e-9)
                kal.cmp_vec(ret[3], ref.flt(eP), 64, what + " posterior covariance", 1e-9)
            K = np.array(ref.flt(K))
            model_gains.append((K, np.full(K.shape, 4.0)))
            st.transitions += 2
        elif op == "M":     # the caller overwrites its own data array between calls
            z1 = "1b" if z1 == "1" else "1"
            Z["1"][...] = np.array(w.Zv[z1])
            nm, v, _ = snap[id(Z["1"])]
            snap[id(Z["1"])] = (nm, v, v.tobytes())
        elif op == "W":     # the caller overwrites everything it was returned so far
            for i, (arr, _) in enumerate(handed):
                arr[...] = np.nan
                handed[i] = (arr, arr.tobytes())
        elif op == "O":     # another object runs
            r = other.smooth(Z=oz, U=ou)
            g = [np.array(v) for v in other.kalman_gains[-3:]]
            if exp_other is None:
                exp_other = [np.array(v) for v in w.make(o).smooth(Z=oz, U=ou)]
            for got, exp in zip(r, exp_other):
                kal.same(got, exp, 64, what + ": the other object's result", 1e-9)
        if results:
            for nm, v, b in snap.values():
                if v.tobytes() != b:
                    raise kal.Violation(f"{what} modified its input {nm}")
            for arr, b in handed:
                if arr.tobytes() != b:
                    raise kal.Violation(f"{what} modified an array returned earlier")
            for r in ret:
                if not isinstance(r, np.ndarray):
                    continue
                for nm, v, _ in snap.values():
                    if np.may_share_memory(r, v) and np.shares_memory(r, v):
                        raise kal.Violation(f"{what} returned an array that shares memory with input {nm}")
                for arr, _ in handed:
                    if np.may_share_memory(r, arr) and np.shares_memory(r, arr):
                        raise kal.Violation(f"{what} returned an array that shares memory with one returned earlier")
        for r in ret:
            if isinstance(r, np.ndarray) and r.flags.writeable:
                handed.append((r, r.tobytes()))
        if gains:
            g = f.kalman_gains
            if len(g) != len(model_gains):
                raise kal.Violation(f"{what}: {len(g)} gains recorded, expected {len(model_gains)}")
            for i, (K, sc) in enumerate(model_gains):
                got = np.asarray(g[i], dtype=float)
                kal.cmp_vec(got, K, sc, f"{what}: recorded gain {i} ", 1e-9)
        st.states.add((wkey[0], z1, len(model_gains), len(handed)) + tuple(sorted(seq[:pos + 1])))
    st.traces += 1
