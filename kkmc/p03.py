"""P03: extended filter == first-order recursion linearised at the documented points."""
import numpy as np

from . import kal, nl, ref

LEVEL = "model_checking"
CHUNK = 64
BOUNDS = {"quick": "polynomial models of 6 kinds, sizes n,m<=3 (<=5 for one kind), <=1 deviation for all, <=2 for two shapes, all small histories, horizons to 257, products of term kinds, every way the state components enter both functions (linear, flat at zero, not at all), every set of missing control rows (T to 5), wide models over long horizons; states, channels and controls to 40",
          "thorough": "polynomial models of 6 kinds, sizes to 7, 4 modes, <=2 deviations for four shapes, horizons to 1025"}


def cases(tier):
    yield from nl.family(tier)


def domain(c, st, smooth=False):
    nodes = c.nodes()
    good = 0
    for nd in nodes:
        if nd.bad or nd.cond > kal.COND_MAX or max(v / w for v, w in zip(nd.sx, c.X)) > 1e5 or max(v / w / w for v, w in zip(nd.sc, c.X)) > 1e9:
            break
        if smooth and good:
            try:
                if ref.inv_spd(nd.Pp)[1] > kal.COND_MAX:
                    break
            except ref.Singular:
                break
        good += 1
    if good < c.T:
        st.count("truncated_to_domain")
        c.truncate(good)
    return nodes[:good]


def run_case(desc, st):
    c = nl.build(desc)
    nodes = domain(c, st)
    if not nodes:
        st.skipped += 1
        return
    a = c.arrays()
    f = nl.make_ekf(a, c.callbacks())
    s, e = f.filter(Z=a["Z"], U=a["U"])
    s, e = kal.shape_check(s, e, c.T, c.n, "filter")
    kal.check_filter(s, e, nodes)
    if c.m == 1 and c.T > 8:
        s, e = nl.make_ekf(a, c.callbacks()).filter(Z=a["Z"][:, 0], U=a["U"])
        kal.check_filter(s, e, nodes, "filter of a flat series")
    if c.p and all(len(c.absent.get(k, ())) == c.p for k in range(c.T)):      # no control at all: as a series of NaN or as None
        s, e = nl.make_ekf(a, c.callbacks()).filter(Z=a["Z"])
        kal.check_filter(s, e, nodes, "filter without controls")
    st.traces += 1
    st.transitions += c.T
    for nd in nodes:
        st.states.add(kal.state_key(nd))
