"""P15: composition. Every interleaving of the components of independent subsystems; every ordered partition
of independent measurements."""
import itertools

import numpy as np

from . import families, kal, lin, nl, ref
from .p03 import domain as ndomain

LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {"quick": "two subsystems n<=2,m<=2 each (7 modes, 6 nonlinear kinds, <=1 deviation in one of them) and three scalar ones: all interleavings of state and observation components (5 for more than 7 components, up to 12 subsystems), runs up to 300 steps, plus one unobserved subsystem; all ordered partitions of m<=4 measurements at every step of T=3, <=1 deviation",
          "thorough": "subsystems up to n=3,m=2; <=1 deviation for all; ordered partitions of m<=5 measurements, n<=4"}


def cases(tier):
    q = tier == "quick"
    sub = [(1, 1), (2, 1), (1, 2), (2, 2)]
    for s1, s2 in itertools.combinations_with_replacement(sub if q else sub + [(3, 1), (3, 2)], 2):
        for i, mode in enumerate(lin.MODES):
            yield ["kf", [["dev", *s1, 1, 3, mode, []], ["dev", *s2, 1, 3, lin.MODES[(i + 3) % len(lin.MODES)], []]]]
        for i, kind in enumerate(nl.KINDS):
            yield ["ekf", [["nl", kind, *s1, 1, 3, "gen", []], ["nl", nl.KINDS[(i + 2) % len(nl.KINDS)], *s2, 1, 3, "ti", []]]]
    # subsystems in very different units, with very different noise levels or observability
    for e in (-40, -20, -10, -5, 5, 10, 20, 40):
        for s1, s2 in ((1, 1), (1, 1)), ((2, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 2), (1, 1)):
            for u in ([e, e], [e, 0], [0, e]):
                yield ["kf", [["unit", *s1, 1, 3, "gen", [u[0]] * s1[0], [u[1]] * s1[1], [0]], ["dev", *s2, 1, 3, "ti", []]]]
                yield ["ekf", [["nlunit", "mixed", *s1, 1, 3, [u[0]] * s1[0], [u[1]] * s1[1], [0]], ["nl", "quad", *s2, 1, 3, "ti", []]]]
        for u in ([e, e], [e, 0], [0, e]):
            yield ["kf", [["dev", 1, 1, 1, 3, "gen", []], ["unit", 1, 1, 1, 3, "ti", [u[0]], [u[1]], [0]], ["dev", 1, 1, 1, 3, "diag", []], ["dev", 1, 1, 1, 3, "AI", []]]]
            yield ["kf", [["unit", 1, 1, 1, 3, "ti", [u[0]], [u[1]], [0]], ["unit", 1, 1, 1, 3, "gen", [-u[0]], [-u[1]], [0]], ["dev", 1, 1, 1, 3, "AI", []]]]
            yield ["ekf", [["nl", "quad", 1, 1, 1, 3, "gen", []], ["nlunit", "mixed", 1, 1, 1, 3, [u[0]], [u[1]], [0]], ["nl", "bilin", 1, 1, 1, 3, "ti", []], ["nl", "lin", 1, 1, 1, 3, "gen", []]]]
    # weak or noisy, or identical, subsystems among four and five scalar ones
    for c, v in (("H", "tiny"), ("R", "big"), ("R", "tiny"), ("Q", "big"), ("Q", "tiny"), ("P0", "tiny"), ("P0", "big"), ("H", "zero"), ("H", "big")):
        dv = [[-1, c, v]] if c == "P0" else [[k, c, v] for k in range(3)]
        yield ["kf", [["dev", 1, 1, 1, 3, "ti", dv]] + [["dev", 1, 1, 1, 3, m, []] for m in ("gen", "AI", "diag")]]
        if not q:
            yield ["kf", [["dev", 2, 1, 1, 3, "ti", dv]] + [["dev", 1, 1, 1, 3, m, []] for m in ("gen", "AI", "diag")]]
    for k in (2, 3, 4):
        yield ["kf", [["dev", 1, 1, 1, 3, "gen", []]] * k]
        yield ["kf", [["dev", 1, 1, 1, 3, "still", []]] * k]
        yield ["ekf", [["nl", "quad", 1, 1, 1, 3, "gen", []]] * k]
    yield ["kf", [["dev", 2, 2, 1, 3, "gen", []]] * 2]
    # one subsystem out of the small-alphabet, product and near families
    for i, d in enumerate(families.broad(q, 3 if q else 1)):
        T = lin.build(d).T
        if T < 9:
            yield ["kf", [d, ["dev", *((1, 1, 1) if i % 3 else (2, 1, 1)), T, "ti" if i % 2 else "gen", []]]]
    for i, d in enumerate(nl.broad(q, 3 if q else 1)):
        yield ["ekf", [d, ["nl", "quad" if i % 2 else "lin", 1, 1, 1, nl.build(d).T, "ti", []]]]
    # one subsystem in every enumerated pattern
    for d in families.masks("AHQRPuzx", T=3, whens=(-1,), limit=30 if q else 100):
        yield ["kf", [d, ["dev", 1, 1, 1, 3, "ti", []]]]
    yield ["kf", [["dev", 1, 1, 1, 3, m, []] for m in ("gen", "AI", "diag")]]
    yield ["ekf", [["nl", k, 1, 1, 1, 3, "gen", []] for k in ("quad", "cubic", "bilin")]]
    for shp in ((1, 1, 1), (2, 1, 1), (1, 2, 1)) if q else ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1)):
        for d in lin.deviations(*shp, 3):
            yield ["kf", [["dev", *shp, 3, "gen", [d]], ["dev", 1, 1, 1, 3, "ti", []]]]
    # long runs, and many subsystems
    for T in (8, 20, 40, 100, 150, 300) if q else (8, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 129, 150, 257, 300):
        for s1, s2 in ((1, 1), (1, 1)), ((2, 1), (1, 1)), ((2, 2), (1, 1)):
            yield ["kf", [["hor", *s1, 1, T], ["dev", *s2, 1, T, "ti", []]]]
            yield ["ekf", [["nlhor", "quad", *s1, 1, T], ["nl", "lin", *s2, 1, T, "ti", []]]]
    for k in (5, 6, 8, 12):
        yield ["kf", [["dev", 1, 1, 1, 3, lin.MODES[i % len(lin.MODES)], []] for i in range(k)]]
        yield ["ekf", [["nl", nl.KINDS[i % len(nl.KINDS)], 1, 1, 1, 3, "gen", []] for i in range(k)]]
        yield ["kf", [["dev", 1 + i % 3, 1 + i % 2, 1, 3, lin.MODES[i % len(lin.MODES)], []] for i in range(k)]]
    for n1, n2 in ((1, 1), (2, 1), (1, 2), (2, 2)):
        yield ["unobs", n1, n2]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for m in (2, 3, 4) if q else (2, 3, 4, 5):
            for noise in ("diag", "pair", "mixedscale"):
                for which in ("kf", "ekf"):
                    yield ["seq", which, n, m, noise, []]
    for n, m in ((1, 2), (2, 2), (2, 3)) if q else ((1, 2), (2, 2), (2, 3), (3, 3)):
        for d in lin.deviations(n, m, 1, 3):
            if d[1] != "R":
                yield ["seq", "kf", n, m, "diag", [d]]
                if d[1] in ("H", "P0", "x0", "z", "Q") and (d[0] < 1 or d[1] != "H"):
                    yield ["seq", "ekf", n, m, "diag", [d]]


def shuffles(sizes):
    """All interleavings keeping each block's own order: list of permutations of range(sum)."""
    labels = [i for i, s in enumerate(sizes) for _ in range(s)]
    offs = np.cumsum([0] + list(sizes))
    out = []
    if len(labels) > 7:     # too many: the plain order, the reversed order, round robin, and first/last swapped
        words = [labels, labels[::-1], sorted(labels, key=lambda l: (l % 2, l)), labels[-1:] + labels[1:-1] + labels[:1]]
        w3 = []
        for k in range(max(sizes)):
            w3 += [i for i, s in enumerate(sizes) if s > k]
        for w in words + [w3]:
            cnt = [0] * len(sizes)
            perm = []
            for l in w:
                perm.append(int(offs[l] + cnt[l]))
                cnt[l] += 1
            out.append(perm)
        return out
    for w in sorted(set(itertools.permutations(labels))):
        cnt = [0] * len(sizes)
        perm = []
        for l in w:
            perm.append(int(offs[l] + cnt[l]))
            cnt[l] += 1
        out.append(perm)
    return out


def blk(mats):
    r, c = sum(x.shape[0] for x in mats), sum(x.shape[1] for x in mats)
    M = np.zeros((r, c))
    i = j = 0
    for x in mats:
        M[i:i + x.shape[0], j:j + x.shape[1]] = x
        i, j = i + x.shape[0], j + x.shape[1]
    return M


def run_case(desc, st):
    if desc[0] == "seq":
        return sequential(desc, st)
    if desc[0] == "unobs":
        return unobserved(desc[1], desc[2], st)
    which, subs = desc
    cs, nds, arrs, alone, rts = [], [], [], [], []
    for d in subs:
        c = lin.build(d) if which == "kf" else nl.build(d)
        nodes = c.nodes() if which == "kf" else ndomain(c, st)
        if (which == "kf" and not kal.usable(nodes, c.T)) or not nodes:
            st.skipped += 1
            return
        cs.append(c)
        nds.append(nodes)
    T = min(c.T for c in cs)
    smooth = True
    for c, nodes in zip(cs, nds):
        if which == "kf":
            c.steps, c.T = c.steps[:T], T
        else:
            c.truncate(T)
        del nodes[T:]
        try:
            r = ref.rts(nodes) if which == "kf" else ref.ekf_rts(nodes)
            smooth = smooth and r[2] <= kal.COND_MAX
            rts.append(r)
        except ref.Singular:
            smooth = False
        a = c.arrays()
        if which == "kf":
            # an absent control inside one subsystem only cannot be expressed jointly: use a zero control
            a["B"], a["U"] = np.nan_to_num(a["B"]), np.nan_to_num(a["U"])
        f = kal.make_kf(a) if which == "kf" else nl.make_ekf(a, c.callbacks())
        res = [f.filter(Z=a["Z"], U=a["U"])]
        if smooth:
            res.append(f.smooth(Z=a["Z"], U=a["U"]))
        arrs.append(a)
        alone.append(res)
    ns, ms = [a["x0"].size for a in arrs], [a["Z"].shape[1] for a in arrs]
    cbs = [c.callbacks() for c in cs] if which == "ekf" else None
    off, ps = np.cumsum([0] + ns), np.cumsum([0] + [a["U"].shape[1] for a in arrs])
    pss, pms = shuffles(ns), shuffles(ms)
    sxs = [np.concatenate([np.array([nd.sx for nd in nodes]) for nodes in nds], axis=1)]
    scs = [np.sqrt(np.concatenate([np.array([nd.sc for nd in nodes]) for nodes in nds], axis=1))]
    if smooth:
        sxs.append(np.concatenate([np.array(r[3]) for r in rts], axis=1))
        scs.append(np.sqrt(np.concatenate([np.array(r[4]) for r in rts], axis=1)))
    for i, pi in enumerate(pss):
        for pj in pms if len(pss) * len(pms) <= 40 else [pms[i % len(pms)], pms[-1 - i % len(pms)]]:
            b = dict(x0=np.concatenate([a["x0"] for a in arrs])[pi], P0=blk([a["P0"] for a in arrs])[np.ix_(pi, pi)])
            b["Z"] = np.concatenate([a["Z"] for a in arrs], axis=1)[:, pj]
            b["U"] = np.concatenate([a["U"] for a in arrs], axis=1)
            b["Q"] = np.array([blk([a["Q"][k] for a in arrs])[np.ix_(pi, pi)] for k in range(T)])
            b["R"] = np.array([blk([a["R"][k] for a in arrs])[np.ix_(pj, pj)] for k in range(T)])
            if which == "kf":
                b["A"] = np.array([blk([a["A"][k] for a in arrs])[np.ix_(pi, pi)] for k in range(T)])
                b["B"] = np.array([blk([a["B"][k] for a in arrs])[pi] for k in range(T)])
                b["H"] = np.array([blk([a["H"][k] for a in arrs])[np.ix_(pj, pi)] for k in range(T)])
                f = kal.make_kf(b)
            else:
                inv = np.argsort(pi)

                def parts(x):
                    y = np.asarray(x)[inv]
                    return [y[off[j]:off[j + 1]] for j in range(len(ns))]

                def uparts(u):
                    return [u[ps[j]:ps[j + 1]] for j in range(len(ns))]

                f = nl.make_ekf(b, dict(
                    f=lambda x, u: np.concatenate([cb["f"](y, v) for cb, y, v in zip(cbs, parts(x), uparts(u))])[pi],
                    h=lambda x: np.concatenate([cb["h"](y) for cb, y in zip(cbs, parts(x))])[pj],
                    jacobian_A=lambda x, u: blk([cb["jacobian_A"](y, v) for cb, y, v in zip(cbs, parts(x), uparts(u))])[np.ix_(pi, pi)],
                    jacobian_H=lambda x: blk([cb["jacobian_H"](y) for cb, y in zip(cbs, parts(x))])[np.ix_(pj, pi)]))
            for w, meth in enumerate(("filter", "smooth")[:1 + smooth]):
                s, e = getattr(f, meth)(Z=b["Z"], U=b["U"])
                kal.shape_check(s, e, T, sum(ns), meth)
                exps = np.concatenate([al[w][0] for al in alone], axis=1)[:, pi]
                kal.same(s, exps, sxs[w][:, pi], f"state order {pi}, observation order {pj}: {meth} state", 1e-8)
                for k in range(T):
                    E = blk([al[w][1][k] for al in alone])[np.ix_(pi, pi)]
                    d = scs[w][k][pi]
                    kal.same(e[k], E, np.outer(d, d), f"state order {pi}, observation order {pj}: {meth} covariance (zero across subsystems), step {k}", 1e-8)
                st.traces += 1
                st.transitions += T
            st.states.add((repr(desc), tuple(pi), tuple(pj)))


def unobserved(n1, n2, st):
    """Second subsystem has no measurement: it only ever predicts."""
    T = 3
    c1 = lin.build_dev(n1, 1, 1, T, "gen", [])
    c2 = lin.build_dev(n2, 1, 1, T, "ti", [])
    a1, a2 = c1.arrays(), c2.arrays()
    s1, e1 = kal.make_kf(a1).filter(Z=a1["Z"], U=a1["U"])
    f2 = kal.make_kf(a2)
    x, P, s2, e2 = a2["x0"], a2["P0"], [], []
    for k in range(T):
        x, P = f2.predict(Ak=a2["A"][k], xk=x, Bk=a2["B"][k], uk=a2["U"][k], Pk=P, Qk=a2["Q"][k])
        s2.append(x)
        e2.append(P)
    for pi in shuffles([n1, n2]):
        b = dict(x0=np.concatenate([a1["x0"], a2["x0"]])[pi], P0=blk([a1["P0"], a2["P0"]])[np.ix_(pi, pi)], Z=a1["Z"], U=np.concatenate([a1["U"], a2["U"]], axis=1), R=a1["R"])
        b["A"] = np.array([blk([a1["A"][k], a2["A"][k]])[np.ix_(pi, pi)] for k in range(T)])
        b["Q"] = np.array([blk([a1["Q"][k], a2["Q"][k]])[np.ix_(pi, pi)] for k in range(T)])
        b["B"] = np.array([blk([a1["B"][k], a2["B"][k]])[pi] for k in range(T)])
        b["H"] = np.array([np.hstack([a1["H"][k], np.zeros((1, n2))])[:, pi] for k in range(T)])
        s, e = kal.make_kf(b).filter(Z=b["Z"], U=b["U"])
        kal.same(s, np.hstack([s1, np.array(s2)])[:, pi], 100, f"unobserved subsystem, order {pi}: state", 1e-10)
        for k in range(T):
            kal.same(e[k], blk([e1[k], e2[k]])[np.ix_(pi, pi)], 100, f"unobserved subsystem, order {pi}: covariance", 1e-10)
        st.traces += 1
        st.transitions += T
        st.states.add(("unobs", n1, n2, tuple(pi)))


def ordered_partitions(items):
    if not items:
        yield []
        return
    n = len(items)
    for mask in range(1, 1 << n):
        first = [items[i] for i in range(n) if mask >> i & 1]
        rest = [items[i] for i in range(n) if not mask >> i & 1]
        for r in ordered_partitions(rest):
            yield [first] + r


def sequential(desc, st):
    _, which, n, m, noise, devs = desc
    T = 3
    c = lin.build_dev(n, m, 1, T, "gen", [tuple(d) for d in devs])
    steps = []
    for k, s in enumerate(c.steps):
        D = [0.25 * (1 + (i + k) % 3) for i in range(m)]
        if noise == "mixedscale":
            D = [4.0 ** (3 * (i % 3) - 3) for i in range(m)]
        R = [[D[i] if i == j else 0.0 for j in range(m)] for i in range(m)]
        if noise == "pair":
            R[0][1] = R[1][0] = 0.125
        H = steps[0].H if which == "ekf" and steps else s.H
        steps.append(lin.step(s.A, s.B, s.u, H, s.Q, R, s.z, 1))
    c = lin.Case(c.x0, c.P0, steps)
    nodes = c.nodes()
    if not kal.usable(nodes, T):
        st.skipped += 1
        return
    a = c.arrays()
    atoms = [[0, 1]] + [[i] for i in range(2, m)] if noise == "pair" else [[i] for i in range(m)]
    kf = kal.make_kf(a)
    H0 = a["H"][0]
    sx = [np.array(nd.sx) for nd in nodes]
    sd = [np.sqrt(np.array(nd.sc)) for nd in nodes]

    def joint(x, P, k):
        if which == "kf":
            return kf.update(Hk=a["H"][k], xk=x, Pk=P, zk=a["Z"][k], Rk=a["R"][k])
        e = nl.make_ekf(a, lincb(H0))
        return e.update(xk=x, Pk=P, zk=a["Z"][k], Rk=a["R"][k])

    for part in ordered_partitions(atoms):
        groups = [sorted(sum(g, [])) for g in part]
        x, P = a["x0"], a["P0"]
        for k in range(T):
            xp, Pp = kf.predict(Ak=a["A"][k], xk=x, Bk=a["B"][k], uk=a["U"][k], Pk=P, Qk=a["Q"][k])
            xj, Pj = joint(xp, Pp, k)
            xs, Ps = xp, Pp
            for g in groups:
                if which == "kf":
                    xs, Ps = kf.update(Hk=a["H"][k][g], xk=xs, Pk=Ps, zk=a["Z"][k][g], Rk=a["R"][k][np.ix_(g, g)])
                else:
                    xs, Ps = nl.make_ekf(a, lincb(H0[g])).update(xk=xs, Pk=Ps, zk=a["Z"][k][g], Rk=a["R"][k][np.ix_(g, g)])
            kal.same(xs, xj, sx[k], f"measurements {groups} one after another versus jointly, step {k}: state", 1e-8)
            kal.same(Ps, Pj, np.outer(sd[k], sd[k]), f"measurements {groups} one after another versus jointly, step {k}: covariance", 1e-8)
            x, P = xs, Ps
            st.transitions += len(groups) + 1
        st.traces += 1
        st.states.add((repr(desc), repr(groups)))


def lincb(H):
    return dict(f=lambda x, u: x, h=lambda x: H @ x, jacobian_A=lambda x, u: np.eye(len(x)), jacobian_H=lambda x: H)
