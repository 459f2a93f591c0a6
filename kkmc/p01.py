"""P01: filter == exact conditional mean/covariance."""
import itertools

import numpy as np

from . import families, kal, lin, ref

LEVEL = "model_checking"
BOUNDS = families.BOUNDS
CHUNK = 64


def cases(tier):
    yield from families.linear(tier)


def run_case(desc, st):
    c = lin.build(desc)
    nodes = c.nodes()
    if not kal.usable(nodes, c.T):
        # outside the domain from some step on: the prefix is still decided
        good = 0
        for nd in nodes:
            if nd.bad or nd.cond > kal.COND_MAX:
                break
            good += 1
        if good == 0:
            st.skipped += 1
            return
        c.steps = c.steps[:good]
        c.T = good
        nodes = nodes[:good]
        st.count("truncated_to_domain")
    a = c.arrays()
    f = kal.make_kf(a)
    s, e = f.filter(Z=a["Z"], U=a["U"])
    s, e = kal.shape_check(s, e, c.T, c.n, "filter")
    kal.check_filter(s, e, nodes)
    if a["Z"].shape[1:] == (1,) and c.T > 8:
        s, e = kal.make_kf(a).filter(Z=a["Z"][:, 0], U=a["U"])
        kal.check_filter(s, e, nodes, "filter of a flat series")
    st.traces += 1
    st.transitions += c.T
    for nd in nodes:
        st.states.add(kal.state_key(nd))
    if desc[0] == "dev" and len(desc[6]) <= 1 and not any(d[2][0] == "^" for d in desc[6]) and c.n <= 2 and len(c.steps[0].z.l) <= 2 and c.T <= 4:
        validate_oracle(c, nodes, st)


def validate_oracle(c, nodes, st):
    """The reference recursion against exact batch Gaussian conditioning (specification)."""
    T = min(c.T, 3)
    try:
        for k in range(T):
            mean, cov = ref.batch_condition(c.x0.l, c.P0.l, c.steps, k, k)
            x, P = nodes[k].x, nodes[k].P
            for a, b in zip(mean, x):
                _close(ref.dec(a), b)
            for r, q in zip(cov, P):
                for a, b in zip(r, q):
                    _close(ref.dec(a), b)
        st.count("oracle_vs_batch_conditioning", T)
    except ref.Singular:
        st.count("oracle_batch_singular")


def _close(a, b):
    assert abs(a - b) <= ref.D("1e-30") * (1 + abs(a) + abs(b)), ("oracle disagrees with batch conditioning", a, b)
