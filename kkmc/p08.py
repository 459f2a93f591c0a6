"""P08: operation sequences. Every sequence of operations to a depth on one object (and a second one),
each call compared with the stateless model; inputs and earlier results watched."""
import itertools

import numpy as np

from . import kal, lin, ops

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "all sequences of 14 operations to depth 3 for 6 models, depth 4 over 9 operations for one model of each filter; every operation x40, every pair x18, a held early result followed by long repetition, 140 single updates watched throughout, 1200 single updates or predictions and 300 whole runs on one object; default-filled arrays overwritten, 108 sizes; every operation repeated after a slight change of every input element; depth 2 over series of 70 and 130 steps and models of up to 17 states or 7 channels",
          "thorough": "all sequences of 14 operations to depth 4 for 9 models, depth 5 over 9 operations for one model of each filter"}
SPECIAL = [np.inf, -np.inf, np.nan, -0.0, 5e-324, 1e308, -1e200, 1e-200]
CORE = ["F1", "F2u", "S1u", "S3u", "P", "U", "M", "W", "O"]


def cases(tier):
    q = tier == "quick"
    ws = ops.worlds(tier)
    for depth in range(1, 4 if q else 5):
        for w in ws:
            for s in itertools.product(ops.OPS, repeat=depth):
                yield [list(w), list(s)]
    for w in ops.LARGE:
        for depth in (1, 2) if q else (1, 2, 3):
            for s in itertools.product(ops.OPS, repeat=depth):
                yield [list(w), list(s)]
    for w in ws:
        if not w[5]:
            for key in ("A", "B", "U", "H", "Q", "R", "x0", "P0", "Z1", "Z2", "x", "P", "z"):
                if w[0] == "kf" or key not in ("A", "B", "H"):
                    yield ["special", list(w), key]
    for w in ws:        # one operation, or two in turn, over and over; earlier results are watched throughout
        for a in ops.OPS:
            yield [list(w), [a] * (40 if q else 80)]
            for b in ops.OPS:
                if b != a and (q is False or w in ws[:4]):
                    yield [list(w), [a, b] * 18]
                if b != a:      # an early result held over a long run
                    yield [list(w), [a] + [b] * 20 + [a]]
        for a in ("U", "P", "U2"):
            yield [list(w), [a] * (140 if q else 600)]
            for key in ("A", "B", "U", "H", "Q", "R", "x0", "P0", "Z1", "x", "P", "z"):
                if not w[5] and (w[0] == "kf" or key not in ("A", "B", "H")):
                    yield ["slight", list(w), key]
    for w in ws:
        if not w[5]:
            for a in ("U", "P", "F1u", "S1u"):
                yield ["many", list(w), a, (1200 if a in "UP" else 300) * (1 if q else 12)]
    for T in (1, 2, 3, 4, 5, 7, 8, 16, 33) + (() if q else (64, 100, 257)):
        for n in (1, 2, 3, 4):
            for p in (1, 2, 3):
                yield ["default", n, p, T]
    for w in (ws[0], ws[3]):
        for s in itertools.product(CORE, repeat=4 if q else 5):
            yield [list(w), list(s)]


def special(wkey, key, st):
    """Every special value at every position of one input: nothing given or returned earlier changes, whatever results."""
    w = ops.world(tuple(wkey))
    size = {**w.a, **{"Z" + k: np.array(v) for k, v in w.Zv.items()}, "x": w.a["x0"], "P": w.a["P0"], "z": np.array(w.Zv["1"][0])}[key].size
    for pos in range(size):
        for v in SPECIAL:
            for op in ("F1u", "S1u", "F2u", "S2u", "P", "U"):
                a, Z, steps, _ = w.fresh()
                d = Z if key[0] == "Z" else steps if key in steps else a
                arr = d[key[1] if key[0] == "Z" else key]
                arr.flat[pos] = v
                f = w.make(a)
                snap = [(nm, x, x.tobytes()) for nm, x in list(a.items()) + [("Z" + k, x) for k, x in Z.items()] + list(steps.items())]
                what = f"{op} with {v} at position {pos} of {key}"
                got = []
                for again in range(2):      # twice on one object: the same outcome, and the first results stay
                    with np.errstate(all="ignore"):
                        try:
                            if op[0] in "FS":
                                r = (f.filter if op[0] == "F" else f.smooth)(Z=Z[op[1]], U=a["U"])
                            elif op == "P":
                                r = w.call_predict(f, a, steps, True)
                            else:
                                r = w.call_update(f, a, steps, False)
                            r = tuple(r)
                        except (ValueError, ArithmeticError, TypeError) as e:   # LinAlgError is a ValueError
                            r = type(e)
                    for nm, x, b in snap:
                        if x.tobytes() != b:
                            raise kal.Violation(f"{what} modified its input {nm}")
                    if isinstance(r, tuple):
                        for x in r:
                            for nm, y, _ in snap:
                                if np.shares_memory(x, y):
                                    raise kal.Violation(f"{what} returned an array that shares memory with input {nm}")
                    got.append((r, tuple(x.tobytes() for x in r) if isinstance(r, tuple) else r))
                r, b = got[0]
                if isinstance(r, tuple) and tuple(x.tobytes() for x in r) != b:
                    raise kal.Violation(f"{what}: repeating the call changed the first result")
                same = isinstance(r, tuple) == isinstance(got[1][0], tuple)
                if same and isinstance(r, tuple):
                    same = all(np.array_equal(np.isnan(x), np.isnan(y)) and (not np.isfinite(x).all() or np.abs(x - y).max() <= 1e-6 * np.abs(x).max()) for x, y in zip(r, got[1][0]))
                if not same:
                    raise kal.Violation(f"{what}: repeating the call on the same object gives another result")
                st.traces += 1
                st.transitions += 2
    st.states.add(("special", tuple(wkey), key))


def many(wkey, op, count, st):
    """One operation thousands of times on one object; now and then every other operation. All give what they gave at first."""
    w = ops.world(tuple(wkey))
    a, Z, s, _ = w.fresh()
    f = w.make(a)

    def go(o):
        if o[0] in "FS":
            return (f.filter if o[0] == "F" else f.smooth)(Z=Z[o[1]], U=a["U"])
        return w.call_predict(f, a, s, True) if o == "P" else w.call_update(f, a, s, False)
    probes = ("P", "U", "F1u", "S1u", "F2u")
    first = {o: [np.array(x, dtype=float) for x in go(o)] for o in probes}
    for k in range(count):
        for o in (op,) + (probes if k % 97 == 96 or k == count - 1 else ()):
            for x, y in zip(go(o), first[o]):
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-10, atol=1e-12):
                    raise kal.Violation(f"after {k} times {op} on one object, {o} gives {x.tolist()}, at first {y.tolist()}")
            st.transitions += 1
    st.traces += 1
    st.states.add(("many", tuple(wkey), op))


def slight(wkey, key, st):
    """Calls repeated with nearly the same input: what was computed for the earlier values is never used again."""
    w = ops.world(tuple(wkey))
    size = {**w.a, "Z1": np.array(w.Zv["1"]), "x": w.a["x0"], "P": w.a["P0"], "z": np.array(w.Zv["1"][0])}[key].size

    def call(f, a, Z, steps, op):
        if op[0] in "FS":
            return (f.filter if op[0] == "F" else f.smooth)(Z=Z["1"], U=a["U"])
        return w.call_predict(f, a, steps, True) if op == "P" else w.call_update(f, a, steps, False)

    for pos in range(size):
        for how in ("edit", "copy"):
            for op in ("F1u", "S1u", "P", "U"):
                for eps in (2.0 ** -18, 2.0 ** -27):
                    a, Z, steps, _ = w.fresh()
                    f = w.make(a)
                    call(f, a, Z, steps, op)
                    d = Z if key[0] == "Z" else steps if key in steps else a
                    k = key[1] if key[0] == "Z" else key
                    if how == "copy":
                        d[k] = d[k].copy()
                    v = d[k]
                    if key in ("P0", "P", "Q", "R"):      # kept symmetric: the whole matrix
                        if pos:
                            continue
                        v *= 1 + eps
                    else:
                        v.flat[pos] += eps
                    if d is a and k != "U":
                        setattr(f, {"x0": "xk", "P0": "Pk"}.get(k, k), v)
                    with np.errstate(all="ignore"):
                        got, exp = call(f, a, Z, steps, op), call(w.make(a), a, Z, steps, op)
                    for x, y in zip(got, exp):
                        kal.same(x, y, 16 * (1 + np.abs(y).max()), f"{op} again with {key} {'changed in place' if how == 'edit' else 'replaced by an array'} different by {eps} at position {pos}, versus a new object", 1e-12)
                    st.traces += 1
                    st.transitions += 2
    st.states.add(("slight", tuple(wkey), key))


def default(n, p, T, st):
    """Terms left out are filled in per object: overwriting what one object holds reaches no other object."""
    c = lin.build(["dev", n, 1, p, T, "ti", []])
    a = c.arrays()
    del a["B"]
    Z, U = a["Z"], a["U"]

    def make():
        return kal.KalmanFilter(A=a["A"], B=None, xk=a["x0"], Pk=a["P0"], H=a["H"], Q=a["Q"], R=a["R"])

    f = make()
    base = [f.filter(Z=Z), f.filter(Z=Z, U=U), f.smooth(Z=Z)]
    other = make()
    for v in (1.0, 0.0, np.inf):
        g = make()
        g.filter(Z=Z, U=U)
        for name, arr in list(vars(g).items()):
            if name[0] != "_" and isinstance(arr, np.ndarray) and arr.flags.writeable and not any(arr is x for x in a.values()):
                if any(np.shares_memory(arr, x) for x in a.values()):
                    continue        # a view of what the caller gave
                arr[...] = v        # the object's own array
                st.count("own_arrays_overwritten")
        for what, o in (("an object built before", other), ("an object used before", f), ("a new object", make())):
            got = [o.filter(Z=Z), o.filter(Z=Z, U=U), o.smooth(Z=Z)]
            for x, y in zip(base, got):
                for s, t in zip(x, y):
                    if not np.abs(s - t).max() <= 1e-9 * np.abs(s).max():
                        raise kal.Violation(f"n={n} p={p} T={T}: overwriting the arrays one object filled in by default changed the results of {what}")
            st.traces += 3
            st.transitions += 3 * T
    st.states.add(("default", n, p, T))


def run_case(desc, st):
    if desc[0] == "default":
        return default(*desc[1:], st)
    if desc[0] == "slight":
        return slight(desc[1], desc[2], st)
    if desc[0] == "many":
        return many(*desc[1:], st)
    if desc[0] == "special":
        return special(desc[1], desc[2], st)
    ops.execute(tuple(desc[0]), desc[1], st, results=True, gains=False)
