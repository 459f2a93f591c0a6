"""P09: concurrent and nested runs. Real threads under a controlled scheduler; all schedules up to a
preemption bound at line granularity (and bytecode granularity for single calls); runs nested in callbacks
at every call of every callback."""
import itertools

import numpy as np

from . import kal, ops, ref, sched

LEVEL = "model_checking"
CHUNK = 1
BOUNDS = {"quick": "2 threads, line granularity: all schedules with <=2 preemptions for 15 operation pairs and <=1 for 36 (same object and separate objects with different models, both filters; pairs of filters of different sizes and kinds; n=3 models; models of 7 states or channels; series of 60); single calls <=4 preemptions; bytecode granularity: <=2 preemptions for single calls, <=1 for batch runs; 3 threads with <=2 preemptions; a nested call inside every callback call",
          "thorough": "2 threads, line granularity: <=2 preemptions for all 36 operation pairs, <=3 for 2-step runs; bytecode granularity: <=2 preemptions for single calls against everything, <=1 for all pairs; 3 threads with <=2 preemptions incl. batch runs; a nested call inside every callback call"}
KINDS = ["F1", "F2u", "S1u", "S2u", "S3u", "P", "U", "U2"]
SMALL = ["P", "U", "U2"]
WK = [("kf", 2, 1, 1, "gen", False), ("ekf", 2, 1, 1, "quad", False)]


OTHER = {WK[0]: ("kf", 2, 1, 1, "ti", False), WK[1]: ("ekf", 2, 1, 1, "mixed", False), ("ekf", 1, 1, 1, "mixed", False): ("ekf", 1, 1, 1, "quad", False)}
BIG = [("kf", 3, 2, 2, "gen", False), ("ekf", 3, 2, 2, "bilin", False)]
MANY = [("kf", 7, 2, 1, "gen", False), ("kf", 2, 7, 1, "gen", False), ("ekf", 7, 2, 1, "mixed", False), ("ekf", 2, 7, 1, "quad", False)]
LONGW = [("kf", 1, 1, 1, "ti", False, 60), ("ekf", 1, 1, 1, "mixed", False, 60)]
CROSS = [[WK[0], WK[1]], [BIG[0], WK[0]], [BIG[1], WK[1]], [("kf", 1, 1, 1, "gen", False), ("kf", 2, 2, 1, "gen", False)]]


def CASE_SECONDS(desc):      # a nested run is short: one that does not end is a deadlock
    return 25 if desc[1] == "nested" else 200


def keys(wkey, n, shared):
    """World of each thread: separate objects carry different models of the same sizes."""
    if not isinstance(wkey[0], str):
        return [tuple(k) for k in wkey]
    wkey = tuple(wkey)
    return [wkey if shared or i % 2 == 0 else OTHER.get(wkey, wkey) for i in range(n)]


def split(w, gran, pr, shared, bound, parts):
    for part in range(parts):
        yield [list(w), gran, list(pr), shared, bound, part, parts]


def cases(tier):
    q = tier == "quick"
    cwr = itertools.combinations_with_replacement
    combos = [(w, s) for w in WK for s in (True, False)]
    for w in [("ekf", 2, 1, 1, "quad", False), ("ekf", 1, 1, 1, "mixed", False)]:
        for outer in ("F1u", "S1u", "P", "U"):
            for inner in KINDS:
                for cbname in ("f", "h", "jacobian_A", "jacobian_H"):
                    for shared in (True, False):
                        yield [list(w), "nested", [outer, inner], shared, cbname]
    for w, s in combos:
        for pr in cwr(SMALL, 2):
            yield from split(w, "line", pr, s, 4, 1)
        for pr in cwr(KINDS, 2):
            yield from split(w, "line", pr, s, 1, 1)
    for w, s in combos:
        for pr in cwr(SMALL, 2):
            yield from split(w, "bytecode", pr, s, 2, 2)
        for pr in cwr(SMALL + ["F2u"] + ([] if q else ["S2u", "F1", "S1u"]), 2):
            yield from split(w, "bytecode", pr, s, 1, 2)
        yield from split(w, "bytecode", ("S2u", "S2u"), s, 1, 2)
    for w in MANY:      # many components
        for s in (True, False):
            for pr in cwr(SMALL, 2):
                yield from split(w, "line", pr, s, 2, 1)
                yield from split(w, "bytecode", pr, s, 1, 1)
            for pr in (("F2u", "U"), ("F2u", "P"), ("F2u", "F2u")):
                yield from split(w, "line", pr, s, 1, 1)
    for w in LONGW:     # long series
        for s in (True, False):
            for pr in (("F1u", "P"), ("F1u", "U"), ("F1u", "F2u")) + (("S1u", "U"), ("F1u", "S1u")):
                yield from split(w, "line", pr, s, 1, 12)
    for pair in CROSS:      # filters of different sizes or kinds side by side
        for pr in itertools.product(["F2u", "S2u"] + SMALL, repeat=2):
            yield from split(pair, "line", pr, False, 1 if q else 2, 1 if q else 4)
    for w in BIG:
        for s in (True, False):
            for pr in cwr(["F2u", "S2u", "F1"] + SMALL, 2):
                yield from split(w, "line", pr, s, 1 if q else 2, 1 if q else 8)
            for pr in cwr(SMALL, 2):
                yield from split(w, "bytecode", pr, s, 1, 1)
    for w in WK:
        for tr in itertools.product(SMALL + ["F2u"], repeat=3):
            if tr.count("F2u") <= 1 and list(tr) == sorted(tr):
                yield [list(w), "line3", list(tr), True, 2, 0, 1]
    for w, s in combos:
        for pr in cwr(["F2u", "S2u"] + SMALL if q else KINDS, 2):
            yield from split(w, "line", pr, s, 2, 8)
    if not q:
        for w, s in combos:
            for pr in cwr(["F2u", "U", "P"], 2):
                yield from split(w, "line", pr, s, 3, 32)
            for pr in itertools.product(SMALL, ["F2u", "S2u"]):
                yield from split(w, "bytecode", pr, s, 2, 16)
        for w in WK:
            for tr in itertools.combinations_with_replacement(["F2u", "S2u", "U"], 3):
                yield [list(w), "line3", list(tr), True, 2, 0, 1]


def expected(w, op):
    withU = op.endswith("u")
    if op[0] == "F":
        return ("filter", w.nodes(op[1], withU), None)
    if op[0] == "S":
        return ("smooth", w.nodes(op[1], withU), w.rts(op[1], withU))
    if op[0] == "P":
        return ("predict", [], w.exp_predict(True))
    return ("update", None, w.exp_update(op == "U2"))


def body(w, f, a, Z, steps, op):
    withU = op.endswith("u")

    def run():
        if op[0] in "FS":
            arr = Z[op[1]]
            U = a["U"] if withU else (np.zeros((len(arr), w.p)) if isinstance(w, ops.EKFWorld) else None)
            return f.filter(Z=arr, U=U) if op[0] == "F" else f.smooth(Z=arr, U=U)
        if op[0] == "P":
            return w.call_predict(f, a, steps, True)
        return w.call_update(f, a, steps, op == "U2")
    return run


def check_result(w, op, res, what):
    kind, nodes, exp = expected(w, op)
    if not isinstance(res, tuple) or len(res) != 2:
        raise kal.Violation(f"{what}: {op} returned {type(res)}")
    if kind == "filter":
        kal.shape_check(res[0], res[1], len(nodes), w.n, what)
        kal.check_filter(res[0], res[1], nodes, f"{what}: {op}")
    elif kind == "smooth":
        kal.shape_check(res[0], res[1], len(nodes), w.n, what)
        kal.check_smooth(res[0], res[1], exp, f"{what}: {op}")
    else:
        kal.cmp_vec(res[0], ref.flt(exp[0]), 64, f"{what}: {op} state", 1e-9)
        kal.cmp_vec(res[1], ref.flt(exp[1]), 64, f"{what}: {op} covariance", 1e-9)


def exp_gains(w, op):
    kind, nodes, exp = expected(w, op)
    if kind == "predict":
        return []
    if kind == "update":
        return [np.array(ref.flt(exp[2]))]
    return [np.array(ref.flt(nd.K)) for nd in nodes]


def close(g, K):
    g = np.asarray(g, dtype=float)
    return g.shape == K.shape and np.all(np.abs(g - K) <= 1e-8 * (1 + np.abs(K)))


def check_merge(gains, lists, what):
    """gains is an order-preserving merge of the lists."""
    tot = sum(len(x) for x in lists)
    if len(gains) != tot:
        raise kal.Violation(f"{what}: {len(gains)} gains recorded, expected {tot}")
    front = {tuple(0 for _ in lists)}
    for g in gains:
        nxt = set()
        for pos in front:
            for i, L in enumerate(lists):
                if pos[i] < len(L) and close(g, L[pos[i]]):
                    nxt.add(pos[:i] + (pos[i] + 1,) + pos[i + 1:])
        front = nxt
        if not front:
            raise kal.Violation(f"{what}: the recorded gains are not the gains of the runs, each in its own order")


def setup(wkey, opsl, shared):
    ws = [ops.world(k) for k in keys(wkey, len(opsl), shared)]
    data = [w.fresh() for w in (ws[:1] if shared else ws)]
    if shared:
        data *= len(opsl)
        fs = [ws[0].make(data[0][0])] * len(opsl)
    else:
        fs = [w.make(d[0]) for w, d in zip(ws, data)]
    return ws, data, fs


def run_one(wkey, opsl, shared, legs, opcodes, st, what):
    ws, data, fs = setup(wkey, opsl, shared)
    bodies = [body(w, f, *d[:3], op) for w, d, f, op in zip(ws, data, fs, opsl)]
    r = sched.Run(bodies, legs, "bytecode" if opcodes else "line").run()
    what = f"{what} schedule {legs}"
    for i, op in enumerate(opsl):
        if r.errors[i] is not None:
            raise kal.Violation(f"{what}: thread {i} ({op}) raised {r.errors[i]!r}")
        check_result(ws[i], op, r.results[i], f"{what} thread {i}")
    G = [exp_gains(w, op) for w, op in zip(ws, opsl)]
    if shared:
        check_merge(fs[0].kalman_gains, G, what)
    else:
        for i, f in enumerate(fs):
            check_merge(f.kalman_gains, [G[i]], f"{what} thread {i}")
    st.traces += 1
    st.transitions += sum(r.points)
    st.states.add((wkey, tuple(opsl), shared, opcodes, tuple(legs)))
    if r.fallback:
        st.count("stalled_schedules")
    return r


def run_case(desc, st):
    wkey, gran, opsl, shared = tuple(desc[0]) if isinstance(desc[0][0], str) else tuple(map(tuple, desc[0])), desc[1], desc[2], desc[3]
    what = f"{opsl} on {'one object' if shared else 'separate objects'}:"
    if gran == "nested":
        return nested(wkey, opsl, shared, desc[4], st, what)
    bound, part, parts = desc[4:]
    opcodes = gran == "bytecode"
    # number of points of each thread when it runs alone
    probe = run_one(wkey, opsl, shared, [], opcodes, st, what)
    N = list(probe.points)
    if gran == "line3":
        # three threads: t0 preempted at i, t1 preempted at j, t2 whole, then t1, t0 (and the other continuation)
        for p0, p1, p2 in itertools.permutations(range(3)):
            for i in range(N[p0]):
                for j in range(N[p1]):
                    run_one(wkey, opsl, shared, [(p0, i), (p1, j), (p2, None)], opcodes, st, what)
        return
    for s in (0, 1):
        o = 1 - s
        firsts = [i for i in range(N[s]) if i % parts == part]
        for i in firsts:
            run_one(wkey, opsl, shared, [(s, i), (o, None)], opcodes, st, what)
            if bound >= 2:
                for j in range(N[o]):
                    run_one(wkey, opsl, shared, [(s, i), (o, j), (s, None)], opcodes, st, what)
                    if bound >= 3:
                        for k in range(N[s] - i):
                            run_one(wkey, opsl, shared, [(s, i), (o, j), (s, k), (o, None)], opcodes, st, what)
                            if bound >= 4:
                                for l in range(N[o] - j):
                                    run_one(wkey, opsl, shared, [(s, i), (o, j), (s, k), (o, l), (s, None)], opcodes, st, what)
                if st.counters.get("stalled_schedules", 0) > 20:
                    st.count("abandoned_after_stalls")
                    return


def nested(wkey, opsl, shared, cbname, st, what):
    """inner op runs inside the i-th call of one callback of the outer op, for every i."""
    outer, inner = opsl
    i = 0
    while True:
        ws, data, _ = setup(wkey, [outer, inner], shared)
        w, wi, (a, Z, steps) = ws[0], ws[1], data[0][:3]
        cb = dict(w.cb)
        state = dict(calls=0, depth=0, res=None)
        orig = cb[cbname]

        def hooked(*args, orig=orig, state=state):
            if state["depth"] == 0:
                c = state["calls"]
                state["calls"] += 1
                if c == i:
                    state["depth"] = 1
                    try:
                        state["res"] = body(wi, state["f"], *data[1][:3], inner)()
                    finally:
                        state["depth"] = 0
            return orig(*args)

        cb[cbname] = hooked
        from . import nl
        f = nl.make_ekf(a, cb)
        g = f if shared else nl.make_ekf(data[1][0], wi.cb)
        state["f"] = g
        res = body(w, f, a, Z, steps, outer)()
        if state["calls"] <= i:
            break
        wh = f"{what} inside call {i} of {cbname}"
        check_result(w, outer, res, wh + " (outer)")
        check_result(wi, inner, state["res"], wh + " (inner)")
        if shared:
            check_merge(f.kalman_gains, [exp_gains(w, outer), exp_gains(wi, inner)], wh)
        else:
            check_merge(f.kalman_gains, [exp_gains(w, outer)], wh)
            check_merge(g.kalman_gains, [exp_gains(wi, inner)], wh)
        st.traces += 1
        st.transitions += state["calls"]
        st.states.add((wkey, tuple(opsl), shared, cbname, i))
        i += 1
