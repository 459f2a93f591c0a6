"""P02: smooth == exact conditional mean/covariance given all observations."""
import numpy as np

from . import families, kal, lin, ref

LEVEL = "model_checking"
BOUNDS = families.BOUNDS
CHUNK = 64


def cases(tier):
    yield from families.linear(tier)


def domain(c, st):
    """Longest prefix of the history inside the claimed domain, with its exact smoothing."""
    nodes = c.nodes()
    good = 0
    for nd in nodes:
        if nd.bad or nd.cond > kal.COND_MAX:
            break
        if good:
            try:
                if ref.inv_spd(nd.Pp)[1] > kal.COND_MAX:
                    break
            except ref.Singular:
                break
        good += 1
    if good < c.T:
        st.count("truncated_to_domain")
    c.steps, c.T = c.steps[:good], good
    return nodes[:good]


def run_case(desc, st):
    c = lin.build(desc)
    nodes = domain(c, st)
    if not nodes:
        st.skipped += 1
        return
    r = ref.rts(nodes)
    a = c.arrays()
    f = kal.make_kf(a)
    s, e = f.smooth(Z=a["Z"], U=a["U"])
    s, e = kal.shape_check(s, e, c.T, c.n, "smooth")
    kal.check_smooth(s, e, r)
    if a["Z"].shape[1:] == (1,) and c.T > 8:
        kal.check_smooth(*kal.make_kf(a).smooth(Z=a["Z"][:, 0], U=a["U"]), r, "smooth of a flat series")
    fs, fe = kal.make_kf(a).filter(Z=a["Z"], U=a["U"])
    kal.same(s[-1], fs[-1], nodes[-1].sx, "last smoothed versus last filtered state")
    kal.same(e[-1], fe[-1], kal.cov_scale(nodes[-1].sc), "last smoothed versus last filtered covariance")
    st.traces += 1
    st.transitions += 2 * c.T - 1
    for x, P in zip(r[0], r[1]):
        st.states.add(hash((tuple(f"{v:.25e}" for v in x), tuple(f"{v:.25e}" for q in P for v in q))))
    if desc[0] == "dev" and len(desc[6]) <= 1 and not any(d[2][0] == "^" for d in desc[6]) and c.n <= 2 and len(c.steps[0].z.l) <= 2 and c.T <= 3:
        for k in range(c.T):
            mean, cov = ref.batch_condition(c.x0.l, c.P0.l, c.steps, c.T - 1, k)
            for p, q in zip(mean, r[0][k]):
                _close(ref.dec(p), q)
            for pr, qr in zip(cov, r[1][k]):
                for p, q in zip(pr, qr):
                    _close(ref.dec(p), q)
        st.count("oracle_vs_batch_conditioning", c.T)


def _close(a, b):
    assert abs(a - b) <= ref.D("1e-25") * (1 + abs(a) + abs(b)), ("oracle disagrees with batch conditioning", a, b)
