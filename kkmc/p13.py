"""P13: covariances ignore the data; estimates are affine in it. Every data coordinate (observation, control,
initial mean) is excited alone and in pairs, at many magnitudes, on the real filter and smoother."""
import itertools

import numpy as np

from . import families, kal, lin, ref

LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {"quick": "single terms of extreme magnitude; for every <=1 model deviation (A,H,Q,R,B,P0) of n,m<=2 and all modes n,m<=3, T=3: every single data coordinate x magnitudes 2^{-400,-90,-40,-10,0,10,30,60,110,400}, every pair of coordinates, all sign/zero/outlier data patterns of T=3; horizons to 64, 150 and 300; sizes to 10; repeated deviations, late ones in 40-step histories; small changes around consistent data, small and gross ones in busy series to 300; wide models over long horizons",
          "thorough": "n,m<=3, T=4, 18 magnitudes 2^{-600..600}, pairs and triples of coordinates; horizons to 129"}
MAGS = {"quick": [-400, -90, -40, -10, 0, 10, 30, 60, 110, 400], "thorough": [-600, -200, -90, -60, -40, -20, -10, -3, 0, 3, 10, 20, 40, 60, 110, 200, 400, 600]}


def cases(tier):
    q = tier == "quick"
    N, T = (2, 3) if q else (3, 4)
    for d in families.extremes(2, (1, 2), (-60, -30, 30, 60)):
        if d[6][0][1] not in ("z", "u", "x0"):
            yield [tier, d]
    for d in families.dev0(3, 3, T):
        yield [tier, d]
    for d in families.dev1(N, N, T, ["gen", "ti"] if q else None):
        if d[6][0][1] not in ("z", "u", "x0"):
            yield [tier, d]
    for d in families.extended(q):
        if d[0] != "dev":
            if d[0] == "rep" or d[5] % 8 == 5:
                yield [tier, d]
        elif (d[4] == 40 and d[6][0][0] == 39 and d[5] == "ti" or d[4] != 40) and max(d[1:3]) <= 10 and (not d[6] or d[6][0][1] not in ("z", "u", "x0")):
            yield [tier, d]
    for d in families.wider(q, (6, 12), 97 if q else 11):
        if d[0] == "prod" and q and d[4] > 3 or d[0] == "hor" and max(d[1:3]) > 4 and q:
            continue
        yield [tier, d]
    for d in families.broad(q, 101 if q else 17):
        yield [tier, d]
    for Th in (8, 16, 32, 33, 64, 150, 300) + (() if q else (65, 100, 128, 129)):
        yield [tier, ["hor", 2, 1, 1, Th]]
        yield [tier, ["hor", 1, 1, 1, Th]]


def run_case(desc, st):
    tier, d = desc
    c = lin.build(d)
    nodes = c.nodes()
    good = 0
    for nd in nodes:
        if nd.bad or nd.cond > kal.COND_MAX:
            break
        good += 1
    smooth = False
    if good:
        try:
            smooth = ref.rts(nodes[:good])[2] <= kal.COND_MAX
        except ref.Singular:
            pass
    c.steps, c.T = c.steps[:good], good
    if not good:
        st.skipped += 1
        return
    nodes = nodes[:good]
    a = c.arrays()
    n, T, m, p = c.n, c.T, a["Z"].shape[1], a["U"].shape[1]
    if p:
        # a control absent at a step stays absent in every run below
        absent = [s.u is None or s.B is None for s in c.steps]
    sdev = np.sqrt(np.array([nd.sc for nd in nodes]))       # per step, per component: natural scale of covariance
    csc = kal.cov_scale(np.array([nd.sc for nd in nodes]))
    rsc = None
    if smooth:
        r = ref.rts(nodes)
        rsc = kal.cov_scale(np.array(r[4]))

    def run(x0, U, Z):
        b = {**a, "x0": x0}
        f = kal.make_kf(b)
        out = [f.filter(Z=Z, U=U)]
        if smooth:
            out.append(f.smooth(Z=Z, U=U))
        st.traces += len(out)
        st.transitions += T * len(out)
        return out, [np.array(g) for g in f.kalman_gains]

    # the data space: coordinates (kind, index)
    coords = [("x0", (i,)) for i in range(n)] + [("Z", (k, i)) for k in range(T) for i in range(m)]
    if p:
        coords += [("U", (k, i)) for k in range(T) for i in range(p) if not absent[k]]
    if T > 8:
        coords = [x for x in coords if x[0] == "x0" or x[1][0] in (0, 1, T // 2, T - 2, T - 1)]

    def data(assign):
        x0, Z = np.zeros(n), np.zeros((T, m))
        U = np.zeros((T, p)) if p else np.full((T, p), np.nan)
        if p:
            for k in range(T):
                if absent[k]:
                    U[k] = np.nan
        for (kind, ix), v in assign:
            {"x0": x0, "U": U, "Z": Z}[kind][ix] = v
        return x0, U, Z

    base, gains = run(*data([]))
    cols = {}
    colscale = {}

    def lincheck(assign, what):
        out, g = run(*data(assign))
        for w, (s, e) in enumerate(out):
            name = ("filter", "smooth")[w]
            kal.shape_check(s, e, T, n, name)
            kal.same(e, base[w][1], csc if w == 0 else rsc, f"{name}: covariance with data {what} versus with zero data", 1e-9)
            exp = sum(v * cols[c][w] for c, v in assign)
            sc = sum(abs(v) * colscale[c][w] for c, v in assign)
            kal.same(s, exp, sc, f"{name}: response to {what} versus combination of single responses", 1e-9)
        for k, (x, y) in enumerate(zip(g, gains)):
            kal.same(x, y, kal.gain_scale(nodes[k % T]), f"gain {k} with data {what}", 1e-9)

    for w, (s, e) in enumerate(base):
        if np.abs(s).max(initial=0) > 0:
            raise kal.Violation(f"{('filter', 'smooth')[w]}: zero data and zero initial mean give estimates {s.tolist()}")
    # single responses at magnitude 1 (the columns)
    for cd in coords:
        out, _ = run(*data([(cd, 1.0)]))
        cols[cd] = [s for s, _ in out]
        # rounding scale of a response: what flows in, through the gains
        colscale[cd] = [np.full((T, n), 0.0) + flow(a, nodes, cd, n, m, T, out[0][0])[:, :] for _ in out]
    if smooth:
        for cd in coords:
            G = colscale[cd][0]
            sm = G.copy()
            for k in range(T - 2, -1, -1):
                A = np.abs(a["A"][k + 1])
                gm = np.abs(smoother_gain(nodes, k))
                gm = gm + 1e-5 * np.outer(sdev[k], 1 / np.sqrt(np.diag(ref.flt(nodes[k + 1].Pp))))
                sm[k] = G[k] + gm @ (sm[k + 1] + A @ G[k] + (np.abs(a["B"][k + 1][:, cd[1][1]]) if cd[0] == "U" and cd[1][0] == k + 1 else 0))
            colscale[cd][1] = sm
    if T <= 8:      # small changes of large, self-consistent data: the innovations are only these changes
        for M in (1.0, 2.0 ** 20, 2.0 ** -20):
            x0 = np.full(n, M)
            z, x = [], x0
            for k in range(T):
                x = a["A"][k] @ x
                z.append(a["H"][k] @ x)
            at = [(("x0", (i,)), M) for i in range(n)] + [(("Z", (k, i)), z[k][i]) for k in range(T) for i in range(m)]
            big, _ = run(*data(at))
            fl = [sum(abs(v) * colscale[c][w] for c, v in at) for w in range(len(big))]
            for cd in coords:
                d_ = 2.0 ** -30 * M
                out, _ = run(*data([(c, v + d_ * (c == cd)) for c, v in at] + ([(cd, d_)] if cd[0] == "U" else [])))
                for w, (s, _) in enumerate(out):
                    kal.same(s - big[w][0], d_ * cols[cd][w], 1e-4 * d_ * colscale[cd][w] + 1e-13 * fl[w], f"{('filter', 'smooth')[w]}: response to a change of {cd} by {d_} around consistent data of size {M}", 1.0)
    if d[0] == "hor" and T >= 32 and smooth:      # changes of one coordinate, small and gross, around data that are busy everywhere
        busy = [((k * 7 + 3 * i) % 11 - 5) / 4 for k in range(T) for i in range(m)]
        x0, U, Z = data([])
        Z = np.array(busy).reshape(T, m)
        if p:
            U = np.where(np.isnan(U), U, 0.75)
        full, _ = run(x0 + 0.5, U, Z)
        for cd in coords:
            for v in (2.0 ** -10, -1.0, 2.0 ** 10, 2.0 ** 20, -2.0 ** 30):
                x1, U1, Z1 = x0 + 0.5, U.copy(), Z.copy()
                {"x0": x1, "U": U1, "Z": Z1}[cd[0]][cd[1]] += v
                out, _ = run(x1, U1, Z1)
                for w, (s, e) in enumerate(out):
                    name = ("filter", "smooth")[w]
                    kal.same(e, base[w][1], csc if w == 0 else rsc, f"{name}: covariance with {cd} changed by {v}", 1e-9)
                    kal.same(s - full[w][0], v * cols[cd][w], 1e-9 * abs(v) * colscale[cd][w] + 1e-11 * (1 + np.abs(full[w][0]).max()), f"{name}: response to a change of {cd} by {v} around busy data", 1.0)
    for cd in coords:
        for e in MAGS[tier]:
            for sg in (1.0, -1.0):
                lincheck([(cd, sg * 2.0 ** e)], f"{cd}={sg * 2.0 ** e}")
    if T <= 8:
        for c1, c2 in itertools.combinations(coords, 2):
            lincheck([(c1, 1.0), (c2, -2.0)], f"{c1},{c2}")
            lincheck([(c1, 2.0 ** 20), (c2, 1.0)], f"{c1} big,{c2}")
        if tier != "quick" and len(coords) <= 8:
            for t in itertools.combinations(coords, 3):
                lincheck([(t[0], 3.0), (t[1], -1.0), (t[2], 0.5)], str(t))
        for kind, ln in (("Z", m), ("U", p)):      # every sign/zero pattern of the components at one step
            for k in range(T):
                cs = [(kind, (k, i)) for i in range(ln) if (kind, (k, i)) in cols]
                if 1 < len(cs) <= 5:
                    for vals in itertools.product([0.0, 1.0, -1.0], repeat=len(cs)):
                        if sum(v != 0 for v in vals) > 1:
                            lincheck([(c_, v) for c_, v in zip(cs, vals) if v], f"{kind}[{k}] = {vals}")
        xc = [x for x in coords if x[0] == "x0"]
        for vals in itertools.product([0.0, 1.0, -1.0], repeat=len(xc)) if len(xc) <= 5 else []:
            if sum(v != 0 for v in vals) > 1:
                lincheck([(c_, v) for c_, v in zip(xc, vals) if v], f"initial mean {vals}")
        lincheck([(c_, 1.0) for c_ in coords], "all data one")
        zc = [x for x in coords if x[0] == "Z"]
        if len(zc) <= 4:
            for vals in itertools.product([0.0, 1.0, -1.0, 1024.0 ** 2], repeat=len(zc)):
                if sum(v != 0 for v in vals) > 1:
                    lincheck([(c_, v) for c_, v in zip(zc, vals) if v], f"observations {vals}")
    for nd in nodes:
        st.states.add(kal.state_key(nd))


def smoother_gain(nodes, k):
    A = nodes[k + 1].step.dec[0]
    G = ref.mm(ref.mm(nodes[k].P, ref.tr(A)), ref.inv_spd(nodes[k + 1].Pp)[0])
    return np.array(ref.flt(G))


def flow(a, nodes, cd, n, m, T, resp):
    """Magnitudes of the terms summed at each step for a unit excitation of coordinate cd with filter response resp."""
    kind, ix = cd
    x = np.zeros(n)
    if kind == "x0":
        x[ix[0]] = 1.0
    out = np.zeros((T, n))
    for k in range(T):
        x = np.abs(a["A"][k]) @ x
        if kind == "U" and ix[0] == k:
            x = x + np.abs(a["B"][k][:, ix[1]])
        nu = np.abs(a["H"][k]) @ x
        if kind == "Z" and ix[0] == k:
            nu[ix[1]] += 1.0
        # an exactly zero gain is only zero up to rounding of its natural magnitude
        x = x + (np.abs(np.array(ref.flt(nodes[k].K))) + 1e-5 * kal.gain_scale(nodes[k])) @ nu
        out[k] = x + (1e-5 * out[:k].max(axis=0) if k else 0)
        x = np.abs(resp[k])
    return out
