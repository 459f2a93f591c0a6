"""P04: extended smoother == extended RTS recursion."""
import numpy as np

from . import kal, nl, ref
from .p03 import BOUNDS, cases, domain  # noqa: F401

LEVEL = "model_checking"
CHUNK = 64


def run_case(desc, st):
    c = nl.build(desc)
    nodes = domain(c, st, smooth=True)
    if not nodes:
        st.skipped += 1
        return
    r = ref.ekf_rts(nodes)
    a = c.arrays()
    cb = c.callbacks()
    s, e = nl.make_ekf(a, cb).smooth(Z=a["Z"], U=a["U"])
    s, e = kal.shape_check(s, e, c.T, c.n, "smooth")
    kal.check_smooth(s, e, r)
    if c.m == 1 and c.T > 8:
        kal.check_smooth(*nl.make_ekf(a, cb).smooth(Z=a["Z"][:, 0], U=a["U"]), r, "smooth of a flat series")
    fs, fe = nl.make_ekf(a, cb).filter(Z=a["Z"], U=a["U"])
    kal.same(s[-1], fs[-1], nodes[-1].sx, "last smoothed versus last filtered state")
    kal.same(e[-1], fe[-1], kal.cov_scale(nodes[-1].sc), "last smoothed versus last filtered covariance")
    if c.p and all(len(c.absent.get(k, ())) == c.p for k in range(c.T)):      # no control at all: as a series of NaN or as None
        s, e = nl.make_ekf(a, cb).smooth(Z=a["Z"])
        kal.check_smooth(s, e, r, "smooth without controls")
    st.traces += 1
    st.transitions += 2 * c.T - 1
    for x, P in zip(r[0], r[1]):
        st.states.add(hash((tuple(f"{v:.25e}" for v in x), tuple(f"{v:.25e}" for q in P for v in q))))
