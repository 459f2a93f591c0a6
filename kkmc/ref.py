"""Exact reference models, independent of numpy and of the code under test.

Matrices are lists of lists, vectors are lists; the numbers are Decimals (50
digits) or Fractions. Nothing here looks at the implementation.
"""
from decimal import Decimal, getcontext
from fractions import Fraction

getcontext().prec = 50
D = Decimal
TINY = D(10) ** -30
CHOP = D(10) ** -40


class Singular(Exception):
    pass


# ---------------------------------------------------------------- linear algebra
def mm(a, b):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) for c in bt] for r in a]


def mv(a, v):
    return [sum(x * y for x, y in zip(r, v)) for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def add(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def sub(a, b):
    return [[x - y for x, y in zip(r, s)] for r, s in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def scal(c, a):
    return [[c * x for x in r] for r in a]


def eye(n, one=D(1)):
    return [[one if i == j else one * 0 for j in range(n)] for i in range(n)]


def mabs(a):
    return [[abs(x) for x in r] for r in a]


def inv(a):
    """Gauss-Jordan inverse with partial pivoting; Singular if (numerically) singular."""
    n = len(a)
    if n == 0:
        return []
    one = a[0][0] * 0 + 1
    w = [list(r) + [one if i == j else one * 0 for j in range(n)] for i, r in enumerate(a)]
    scale = [max(abs(x) for x in r) for r in a]
    exact = isinstance(one, Fraction)
    for c in range(n):
        piv = max(range(c, n), key=lambda i: abs(w[i][c]))
        if w[piv][c] == 0 or (not exact and abs(w[piv][c]) <= TINY * max(max(scale), 0)):
            raise Singular
        w[c], w[piv] = w[piv], w[c]
        d = w[c][c]
        rc = w[c] = [x / d for x in w[c]]
        for i in range(n):
            if i != c:
                f = w[i][c]
                if f:
                    w[i] = [x - f * y for x, y in zip(w[i], rc)]
    return [r[n:] for r in w]


def inv_spd(a):
    """Inverse of a positive definite matrix and its equilibrated condition number."""
    n = len(a)
    d = []
    for i in range(n):
        if a[i][i] <= 0:
            raise Singular
        d.append(a[i][i].sqrt())
    e = [[a[i][j] / (d[i] * d[j]) for j in range(n)] for i in range(n)]
    ei = inv(e)
    cond = float(max(sum(abs(x) for x in r) for r in e) * max(sum(abs(x) for x in r) for r in ei)) if n else 1.0
    return [[ei[i][j] / (d[i] * d[j]) for j in range(n)] for i in range(n)], cond


def dec(a):
    """floats / ints (nested) -> exact Decimals"""
    if isinstance(a, (list, tuple)):
        return [dec(x) for x in a]
    if isinstance(a, Fraction):
        return D(a.numerator) / D(a.denominator)
    return D(a)


def frac(a):
    if isinstance(a, (list, tuple)):
        return [frac(x) for x in a]
    return Fraction(a)


def flt(a):
    if isinstance(a, (list, tuple)):
        return [flt(x) for x in a]
    return float(a)


# ---------------------------------------------------------------- Kalman recursion
class Node:
    """Belief after a history prefix; children cached per step object (a trie of histories)."""
    __slots__ = ("x", "P", "xp", "Pp", "K", "cond", "scond", "sx", "sc", "kids", "bad", "info", "step", "mx", "sd", "kap")

    def __init__(self, x, P):
        self.x, self.P = x, P
        self.kids = {}
        self.bad = None
        self.K = self.xp = self.Pp = self.sx = self.sc = None
        self.cond = 1.0


def predict(x, P, A, B, u, Q):
    """B or u None (or all NaN, mapped to None by the caller): no control."""
    xp = mv(A, x)
    if B is not None and u is not None and len(u):
        xp = vadd(xp, mv(B, u))
    Pp = add(mm(A, mm(P, tr(A))), Q)
    return xp, Pp


def update(x, P, H, z, R, hx=None):
    return update_w(x, P, H, z, R, hx)[:5]


def update_w(x, P, H, z, R, hx=None):
    """Joseph-form update (deliberately not the formula of the implementation)."""
    S = add(mm(H, mm(P, tr(H))), R)
    Si, cond = inv_spd(S)
    K = mm(mm(P, tr(H)), Si)
    nu = vsub(z, mv(H, x) if hx is None else hx)
    xn = vadd(x, mv(K, nu))
    n = len(x)
    IKH = sub(eye(n), mm(K, H))
    Pn = add(mm(IKH, mm(P, tr(IKH))), mm(K, mm(R, tr(K))))
    # exact zeros (noise-free measurements) come out as 1e-50 residues: chop them
    for i in range(n):
        for j in range(n):
            if abs(Pn[i][j]) <= CHOP * abs(P[i][i] * P[j][j]).sqrt():
                Pn[i][j] = Pn[i][j] * 0
    return xn, Pn, K, cond, [float(S[i][i]) for i in range(len(S))], mv(Si, nu)


def extend(node, st):
    """One exact predict+update step; cached."""
    kid = node.kids.get(id(st))
    if kid is not None:
        return kid
    A, B, u, H, Q, R, z = st.dec
    xp, Pp = predict(node.x, node.P, A, B, u, Q)
    kid = Node(None, None)
    kid.step = st
    kid.xp, kid.Pp = xp, Pp
    try:
        kid.x, kid.P, kid.K, kid.cond, kid.sd, w = update_w(xp, Pp, H, z, R)
    except Singular:
        kid.bad = "S"
        node.kids[id(st)] = kid
        return kid
    # magnitudes of the terms each result is a sum of: what rounding errors are relative to
    ax = mv(mabs(A), [abs(v) for v in node.x])
    if B is not None and u is not None and len(u):
        ax = vadd(ax, mv(mabs(B), [abs(v) for v in u]))
    anu = vadd([abs(v) for v in z], mv(mabs(H), ax))
    sx = vadd(ax, mv(mabs(kid.K), anu))
    kid.x = [v if abs(v) > CHOP * w else v * 0 for v, w in zip(kid.x, sx)]
    kid.sx = [float(v) for v in sx]
    pp = add(mm(mabs(A), mm(mabs(node.P), tr(mabs(A)))), mabs(Q))
    kid.sc = [float(pp[i][i]) for i in range(len(xp))]
    carry(kid, node, A, H, w)
    node.kids[id(st)] = kid
    return kid


def carry(kid, prev, A, H, w):
    """Rounding errors inherited from earlier steps, relative to *their* magnitudes, matter when the
    exact values cancel: let a small part of the largest earlier scale through. An inherited covariance
    error dP also perturbs this step's gain, hence its state by (I-KH) dP H' S^-1 nu."""
    n = len(kid.sx)
    # amplification of rounding so far: conditioning of the innovation covariance times loss of uncertainty
    kap = kid.cond * max(c / p if p > 0 else 1e9 for c, p in zip(kid.sc, (float(kid.P[i][i]) for i in range(n))))
    kid.kap = max(kap, getattr(prev, "kap", 1.0) if prev is not None else 1.0)
    px, pc = getattr(prev, "mx", None) or ([0.0] * n, [0.0] * n)
    if any(pc):
        Af, Hf, Kf = ([[abs(float(v)) for v in r] for r in a] for a in (A, H, kid.K))
        r = [sum(a * c ** 0.5 for a, c in zip(row, pc)) for row in Af]
        h = [sum(a * b for a, b in zip(row, r)) for row in Hf]
        g = sum(a * abs(float(b)) for a, b in zip(h, w))
        px = [max(b, (r[i] + sum(a * c for a, c in zip(Kf[i], h))) * g) for i, b in enumerate(px)]
    # a gain computed from an ill-conditioned innovation covariance (solved or inverted) carries its condition number
    wx, wc = max(1e-5, 1e-6 * kid.cond), max(1e-6, 1e-6 * kid.cond)
    kid.mx = ([max(wx * a, b) for a, b in zip(kid.sx, px)], [max(wc * a, b) for a, b in zip(kid.sc, pc)])
    kid.sx = [s + b for s, b in zip(kid.sx, px)]
    kid.sc = [s + b for s, b in zip(kid.sc, pc)]


def run_filter(x0, P0, steps, root=None):
    node = root or Node(x0, P0)
    out = []
    for st in steps:
        node = extend(node, st)
        out.append(node)
        if node.bad:
            break
    return out


def gain_magnitude(g, sc, A, Ppi):
    """|G| plus a small part of the magnitudes its entries are computed from: a gain entry that is exactly
    zero by cancellation still carries rounding errors of that size, amplified by the correction."""
    n = len(g)
    r = [v ** 0.5 for v in sc]
    a = [[abs(float(v)) for v in row] for row in A]
    q = [[abs(float(v)) for v in row] for row in Ppi]
    ra = [sum(r[j] * a[k][j] for j in range(n)) for k in range(n)]
    w = [sum(ra[k] * q[k][j] for k in range(n)) for j in range(n)]
    return [[g[i][j] + 1e-6 * r[i] * w[j] for j in range(n)] for i in range(n)]


def rts(nodes):
    """Exact RTS pass over filter nodes. Returns (xs, Ps, worst cond, sx, sc, kap).
    Uses only the filter nodes' priors; no control needed (prior means already include it)."""
    T = len(nodes)
    xs, Ps = [None] * T, [None] * T
    sx, sc = [None] * T, [None] * T
    xs[-1], Ps[-1] = nodes[-1].x, nodes[-1].P
    sx[-1], sc[-1] = nodes[-1].sx, nodes[-1].sc
    worst = 1.0
    for k in range(T - 2, -1, -1):
        nx = nodes[k + 1]
        A = nx.step.dec[0]
        Ppi, cond = inv_spd(nx.Pp)
        worst = max(worst, cond)
        G = mm(mm(nodes[k].P, tr(A)), Ppi)
        xs[k] = vadd(nodes[k].x, mv(G, vsub(xs[k + 1], nx.xp)))
        xs[k] = [v if abs(v) > CHOP * D(w) else v * 0 for v, w in zip(xs[k], nodes[k].sx)]
        Ps[k] = add(nodes[k].P, mm(G, mm(sub(Ps[k + 1], nx.Pp), tr(G))))
        Ps[k] = [[v if abs(v) > CHOP * D((nodes[k].sc[i] * nodes[k].sc[j]) ** 0.5) else v * 0 for j, v in enumerate(r)] for i, r in enumerate(Ps[k])]
        g = [[abs(float(v)) for v in r] for r in G]
        g = gain_magnitude(g, nodes[k].sc, A, Ppi)
        sx[k] = [a + sum(gij * b for gij, b in zip(r, sx[k + 1])) for a, r in zip(nodes[k].sx, g)]
        sc[k] = [a + sum(gij * b ** 0.5 for gij, b in zip(r, sc[k + 1])) ** 2 for a, r in zip(nodes[k].sc, g)]
    return xs, Ps, worst, sx, sc, nodes[-1].kap * worst


# ---------------------------------------------------------------- exact batch conditioning
def batch_condition(x0, P0, steps, upto, target):
    """Conditional mean and covariance of x_target given z_0..z_upto, in Fractions, from the joint
    Gaussian of (x_target, z_0..z_upto); no recursion over beliefs."""
    n = len(x0)
    # every variable is an affine image of the independent sources (x0, q_0.., r_0..)
    means, maps = [], []  # of x_k over source vector (x0,q_0..q_K)
    K = max(upto, target)
    src_cov = [frac(P0)] + [frac(s.Q.l) for s in steps[: K + 1]]
    ns = n * (K + 2)
    cur_mean = frac(x0)
    cur = [[Fraction(int(i == j)) for j in range(ns)] for i in range(n)]
    for k in range(K + 1):
        s = steps[k]
        A = frac(s.A.l)
        cur_mean = mv(A, cur_mean)
        if s.B is not None and s.u is not None and len(s.u.l):
            cur_mean = vadd(cur_mean, mv(frac(s.B.l), frac(s.u.l)))
        cur = mm(A, cur)
        for i in range(n):
            cur[i][n * (k + 1) + i] += 1
        means.append(cur_mean)
        maps.append([list(r) for r in cur])

    def cov(M1, M2):
        out = [[Fraction(0)] * len(M2) for _ in M1]
        for b, C in enumerate(src_cov):
            a1 = [r[b * n:(b + 1) * n] for r in M1]
            a2 = [r[b * n:(b + 1) * n] for r in M2]
            out = add(out, mm(a1, mm(C, tr(a2))))
        return out

    zmap, zmean, zval, blocks = [], [], [], []
    for k in range(upto + 1):
        H = frac(steps[k].H.l)
        zmap += mm(H, maps[k])
        zmean += mv(H, means[k])
        zval += frac(steps[k].z.l)
        blocks.append(frac(steps[k].R.l))
    Szz = cov(zmap, zmap)
    o = 0
    for R in blocks:
        for i in range(len(R)):
            for j in range(len(R)):
                Szz[o + i][o + j] += R[i][j]
        o += len(R)
    Sxz = cov(maps[target], zmap)
    Sxx = cov(maps[target], maps[target])
    W = mm(Sxz, inv(Szz))
    mean = vadd(means[target], mv(W, vsub(zval, zmean)))
    return mean, sub(Sxx, mm(W, tr(Sxz)))


# ---------------------------------------------------------------- extended filter
def ekf_filter(x0, P0, f, h, jA, jH, us, zs, Qs, Rs):
    """f, h, jA, jH on lists of Decimals. Returns list of Node."""
    out = []
    x, P = x0, P0
    for u, z, Q, R in zip(us, zs, Qs, Rs):
        A = jA(x, u)
        kid = Node(None, None)
        kid.xp = f(x, u)
        kid.Pp = add(mm(A, mm(P, tr(A))), Q)
        H = jH(kid.xp)
        hx = h(kid.xp)
        kid.info = (A, H)
        try:
            kid.x, kid.P, kid.K, kid.cond, kid.sd, w = update_w(kid.xp, kid.Pp, H, z, R, hx=hx)
        except Singular:
            kid.bad = "S"
            out.append(kid)
            return out
        ax = [abs(a) + abs(b) for a, b in zip(kid.xp, mv(mabs(A), [abs(v) for v in x]))]
        anu = vadd([abs(a) + abs(b) for a, b in zip(z, hx)], mv(mabs(H), ax))
        sx = vadd(ax, mv(mabs(kid.K), anu))
        kid.x = [v if abs(v) > CHOP * w else v * 0 for v, w in zip(kid.x, sx)]
        kid.sx = [float(v) for v in sx]
        pp = add(mm(mabs(A), mm(mabs(P), tr(mabs(A)))), mabs(Q))
        kid.sc = [float(pp[i][i]) for i in range(len(x))]
        carry(kid, out[-1] if out else None, A, H, w)
        kid.kap = max(kid.kap, 100 * 1.5 ** min(len(out), 40))    # nonlinear dynamics amplify rounding beyond the Jacobian products
        out.append(kid)
        x, P = kid.x, kid.P
    return out


def ekf_rts(nodes):
    T = len(nodes)
    xs, Ps = [None] * T, [None] * T
    sx, sc = [None] * T, [None] * T
    xs[-1], Ps[-1] = nodes[-1].x, nodes[-1].P
    sx[-1], sc[-1] = nodes[-1].sx, nodes[-1].sc
    worst = 1.0
    for k in range(T - 2, -1, -1):
        nx = nodes[k + 1]
        A = nx.info[0]
        Ppi, cond = inv_spd(nx.Pp)
        worst = max(worst, cond)
        G = mm(mm(nodes[k].P, tr(A)), Ppi)
        xs[k] = vadd(nodes[k].x, mv(G, vsub(xs[k + 1], nx.xp)))
        xs[k] = [v if abs(v) > CHOP * D(w) else v * 0 for v, w in zip(xs[k], nodes[k].sx)]
        Ps[k] = add(nodes[k].P, mm(G, mm(sub(Ps[k + 1], nx.Pp), tr(G))))
        Ps[k] = [[v if abs(v) > CHOP * D((nodes[k].sc[i] * nodes[k].sc[j]) ** 0.5) else v * 0 for j, v in enumerate(r)] for i, r in enumerate(Ps[k])]
        g = [[abs(float(v)) for v in r] for r in G]
        g = gain_magnitude(g, nodes[k].sc, A, Ppi)
        sx[k] = [a + sum(gij * b for gij, b in zip(r, sx[k + 1])) for a, r in zip(nodes[k].sx, g)]
        sc[k] = [a + sum(gij * b ** 0.5 for gij, b in zip(r, sc[k + 1])) ** 2 for a, r in zip(nodes[k].sc, g)]
    return xs, Ps, worst, sx, sc, nodes[-1].kap * worst
