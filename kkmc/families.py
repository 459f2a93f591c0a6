"""Enumerations of linear cases shared by the numeric checks."""
import itertools

from . import lin

BOUNDS = {
    "quick": "see cases(): <=1 deviation for all shapes n,m<=3, p<=2, T<=4 and 7 modes; <=2 deviations for 3 shapes; "
             "tiny-alphabet and repeating-quantity histories; every sparsity/sign pattern of each term; terms replaced at every step (<=2 at once); "
             "late single deviations in 40-step histories; single terms times 2^-100..2^100; all horizons 1..24 and selected up to 1500; all sizes n,m<=6 and selected up to 17; unit exponents; full products of per-term alphabets (T=3..40); <=3 deviations at (1,1,1),T=2; wide models over long horizons; repeated, constant and signed histories; structured terms with one entry off by 2^-18, 2^-10; one unusual observation in series of 150 and 300; long scalar series also as flat arrays; states, channels and controls to 40 in every mode",
    "thorough": "<=1 deviation for all shapes n,m<=4, T<=5; <=2 deviations for 6 shapes; longer tiny-alphabet and repeating-quantity histories; "
                "every sparsity/sign pattern of each term; terms replaced at every step (<=2 at once); late single deviations in 40- and 130-step histories; "
                "all horizons 1..130, selected up to 2049; all sizes n,m<=8 and selected up to 65; unit exponents; products, triples and wide models as in quick, larger; repeated, constant and signed histories; structured terms with one entry off by 2^-22..2^-6",
}


def psize(n, m):
    return 1 + (n + m) % 2


def shapes(N, Mx):
    return sorted(((n, m) for n in range(1, N + 1) for m in range(1, Mx + 1)), key=lambda s: (s[0] + s[1], s))


def dev0(N, Mx, T):
    for n, m in shapes(N, Mx):
        for p in (psize(n, m), 0, 3):
            for mode in lin.MODES:
                yield ["dev", n, m, p, T, mode, []]


def dev1(N, Mx, T, modes=None):
    for n, m in shapes(N, Mx):
        p = psize(n, m)
        for mode in modes or lin.MODES:
            for d in lin.deviations(n, m, p, T):
                yield ["dev", n, m, p, T, mode, [d]]


def dev2(shp, T, mode="gen"):
    for n, m, p in shp:
        ds = lin.deviations(n, m, p, T)
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                if ds[i][:2] != ds[j][:2]:
                    yield ["dev", n, m, p, T, mode, [ds[i], ds[j]]]


def weak(N, T, modes):
    for n, m in shapes(N, N):
        for mode in modes:
            for d in lin.weak(n, m, psize(n, m), T):
                yield ["dev", n, m, psize(n, m), T, mode, [d]]


def extremes(N, Ts=(1, 2, 3), exps=(-100, -60, -45, -30, 30, 45, 60, 100)):
    """One term of extreme magnitude, at the last step (or the initial belief of a single step)."""
    for n, m in shapes(N, N):
        for T in Ts:
            for c in ("Q", "R", "H", "A", "B", "u", "z") + (("x0", "P0") if T == 1 else ()):
                for e in exps:
                    yield ["dev", n, m, psize(n, m), T, "gen", [[-1 if c in ("x0", "P0") else T - 1, c, f"^{e}"]]]


def everywhere(shp, T, modes):
    """One or two terms replaced at every step (static states, noise-free sensors, absent control, ...)."""
    for n, m, p in shp:
        ds = [["all"] + d[1:] for d in lin.deviations(n, m, p, 1) if d[0] == 0 and d[2] != "pred"]
        for mode in modes:
            for d in ds:
                yield ["dev", n, m, p, T, mode, [d]]
            for i in range(len(ds)):
                for j in range(i + 1, len(ds)):
                    if ds[i][1] != ds[j][1]:
                        yield ["dev", n, m, p, T, mode, [ds[i], ds[j]]]


def late(shp, spots, modes):
    """A single deviation late in a long history (after convergence), also repeated."""
    for n, m, p in shp:
        ds = [d for d in lin.deviations(n, m, p, 1) if d[0] == 0]
        for mode in modes:
            for T, ks in spots:
                for d in ds:
                    for k in ks:
                        yield ["dev", n, m, p, T, mode, [[k] + d[1:]]]


def large(pairs):
    for n, m, p in pairs:
        for mode in ("gen", "ti", "diag"):
            yield ["dev", n, m, p, 2, mode, []]


BIG = [(n, 1, 1) for n in (5, 6, 7, 9, 13, 16, 20, 24, 33, 40)] + [(1, m, 1) for m in (5, 6, 7, 9, 13, 16, 20, 24, 33, 40)] + [(2, 1, p) for p in (9, 16, 17, 33, 40)] + [(n, n, 1) for n in (5, 6, 7, 9, 13)] + [(33, 2, 1), (2, 33, 2), (7, 6, 5), (6, 7, 3)]


def big(T=2, modes=("gen", "ti", "diag", "scalarish"), shp=BIG):
    """Large state, observation and control vectors in every mode."""
    for n, m, p in shp:
        for mode in modes if max(n, m, p) < 14 else modes[:3]:
            yield ["dev", n, m, p, T, mode, []]


def extended(q, T=2):
    """Larger sizes, terms replaced at every step, and late single deviations: the same for all secondary checks."""
    yield from large([(8, 8, 2), (7, 1, 1), (1, 7, 1), (10, 3, 2), (3, 10, 1), (2, 17, 1)] if q else [(8, 8, 2), (7, 1, 1), (1, 7, 1), (10, 3, 2), (3, 10, 1), (12, 12, 1), (17, 2, 1), (2, 17, 1), (33, 2, 1)])
    for d in everywhere([(1, 1, 1), (2, 1, 1), (2, 2, 1)], 3, ("gen",) if q else ("gen", "ti")):
        if len(d[6]) == 1 or not q:
            yield d
    yield from reps([(2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (2, 2, 1)], 9)
    yield from signs([(1, 1, 1), (2, 1, 1)] if q else [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1)], (32,))
    yield from late([(1, 1, 1), (2, 1, 1)], [(40, (30, 39))] if q else [(40, (30, 38, 39)), (130, (99, 129))], ("ti", "gen"))


def reps(shp, T, base=2, modes=("gen",)):
    """Every combination of terms that stay constant (2: or alternate) while the others vary."""
    for n, m, p in shp:
        for mode in modes:
            for code in range(3 ** 7):
                if max(lin.digits(code, 3, 7)) < base:
                    yield ["rep", n, m, p, T, code, mode]


def consts(ns, T):
    for n in ns:
        for a in range(len(lin.CONST["A"])):
            for q in range(len(lin.CONST["Q"])):
                for r in range(len(lin.CONST["R"])):
                    for z in range(len(lin.CONST["z"])):
                        yield ["const", n, T, a, q, r, z]


def signs(shp, mags, T=2):
    for n, m, p in shp:
        for mag in mags:
            for code in range(2 ** (n * m + m + n + 1)):
                yield ["sign", n, m, p, T, code, mag]


def products(shp, T, step=1, mode="gen"):
    """Full product of special values of all terms, used at every step."""
    for n, m, p in shp:
        for code in range(0, lin.prod_count(), step):
            yield ["prod", n, m, p, T, code, mode]


def dev3(shp, T, mode="gen"):
    for n, m, p in shp:
        for c in itertools.combinations(lin.deviations(n, m, p, T), 3):
            if len({x[0] * 10 + ("x0", "P0", *lin.STEP_COMPS).index(x[1]) for x in c}) == 3:
                yield ["dev", n, m, p, T, mode, [list(x) for x in c]]


WIDE = [(3, 1, 1), (3, 3, 1), (4, 2, 1), (4, 4, 2), (5, 3, 3), (2, 4, 2), (1, 3, 1), (3, 2, 4), (6, 2, 1)]


def wider(q, horizon=(12, 33), stride=7):
    """More than two states or channels over longer series, and special values of all terms at once, also over longer series."""
    for shp in WIDE:
        for T in horizon if q else tuple(horizon) + (65, 129):
            yield ["hor", *shp, T]
    yield from products([(1, 1, 1), (2, 1, 1), (2, 2, 1)], 3, stride if q else 1)
    yield from products([(1, 1, 1)], 14, stride if q else 1)


def seqs(spec):
    for name, depth, inits in spec:
        L = len(lin.alphabet(name))
        for i0 in range(inits):
            for idx in itertools.product(range(L), repeat=depth):
                yield ["seq", name, list(idx), i0]


def horizons(maxT, extra, shp):
    for n, m, p in shp:
        for T in list(range(1, maxT + 1)) + [t for t in extra if t > maxT]:
            yield ["hor", n, m, p, T]


def sizes(N):
    for n, m in shapes(N, N):
        for p in (1, 2, n):
            yield ["dev", n, m, p, 3, "gen", []]


def units(shp, T, exps, modes=("gen",)):
    for n, m, p in shp:
        for mode in modes:
            for e in exps:
                yield ["unit", n, m, p, T, mode, [e] * n, [e] * m, [e] * p]
                yield ["unit", n, m, p, T, mode, [e] * n, [0] * m, [0] * p]
                yield ["unit", n, m, p, T, mode, [0] * n, [e] * m, [0] * p]
                yield ["unit", n, m, p, T, mode, [0] * n, [0] * m, [e] * p]
                for i in range(n):
                    if n > 1:
                        yield ["unit", n, m, p, T, mode, [e if j == i else 0 for j in range(n)], [0] * m, [0] * p]
                for i in range(m):
                    if m > 1:
                        yield ["unit", n, m, p, T, mode, [0] * n, [e if j == i else 0 for j in range(m)], [0] * p]


MASKS = {"A": ((2, 1, 1, 3), (3, 1, 1, 2)), "H": ((2, 2, 1, 3), (3, 2, 1, 2), (2, 3, 1, 2), (1, 3, 1, 3), (3, 1, 1, 3)),
         "B": ((3, 1, 2, 2), (2, 1, 3, 2), (2, 1, 2, 3)), "Q": ((3, 1, 1, 3), (2, 2, 1, 3)), "R": ((1, 3, 1, 3), (3, 3, 1, 3), (2, 2, 1, 3)), "P0": ((3, 2, 1, 3), (2, 1, 1, 3)),
         "u": ((1, 1, 3, 3), (2, 1, 2, 4)), "z": ((1, 3, 1, 3), (3, 2, 1, 4)), "x0": ((3, 1, 1, 3), (2, 1, 1, 4))}


def masks(comps="AHBQRPuzx", T=3, whens=(-1, 1), limit=10 ** 9):
    """Every sparsity/sign pattern of one term, at every step or at one step only."""
    for comp, l in MASKS.items():
        if comp[0] in comps:
            for n, m, p, base in l:
                cnt = lin.mask_count(comp, n, m, p, base)
                if cnt > limit:
                    continue
                for w in whens if comp not in ("P0", "x0") else (-1,):
                    for code in range(cnt):
                        yield ["mask", n, m, p, T, comp, base, code, w]


def coincidences(tier):
    """Histories whose intermediate quantities repeat exactly while other terms differ."""
    if tier == "quick":
        yield from seqs([("c11", 1, 2), ("c11s", 4, 1), ("c21", 2, 1), ("c21s", 3, 1), ("c21t", 4, 1), ("c22", 2, 1), ("c22s", 3, 1), ("c12", 2, 1), ("c31", 2, 1)])
    else:
        yield from seqs([("c11", 2, 2), ("c11s", 5, 2), ("c21", 2, 2), ("c21s", 4, 1), ("c21t", 5, 1), ("c22", 3, 1), ("c22s", 4, 1), ("c12", 3, 1), ("c31", 3, 1)])


def ints(T=3, modes=("gen", "diag"), limit=10 ** 9):
    """One term made of small integers (selections, sums, permutations, incidence matrices, ...)."""
    for comp, l in lin.INTS.items():
        for i, (r, c, vals) in enumerate(l):
            cnt = len(lin.int_terms(comp, r, c, vals))
            if cnt <= limit:
                for mode in modes:
                    for code in range(cnt):
                        yield ["ints", comp, i, code, T, mode]


def near(shp, T, modes=lin.MODES, exps=(-18, -10), comps=lin.NEAR):
    """Structured or constant terms with one entry very slightly off: at every step, at one step, from one step on."""
    for n, m, p in shp:
        for mode in modes:
            for comp in comps:
                for pos in range(lin.near_count(comp, n, m, p)):
                    for when in (-1,) if comp in ("x0", "P0") or T == 1 else (-1, T - 1, -2) if T > 2 else (-1, T - 1):
                        for e in exps:
                            yield ["near", n, m, p, T, mode, comp, pos, when, e]


def broad(q, step=1, near_shapes=((2, 1, 1),)):
    """Small-alphabet histories, products of special values and near-structured terms, for the secondary checks."""
    def every():
        yield from seqs([("s_small", 3, 1), ("s_tiny", 5, 1), ("s_two", 8, 1), ("m21", 3, 1), ("m22", 3, 1), ("m12", 3, 1)])
        yield from products([(2, 1, 1)], 3, 1 if not q else 2)
        yield from near(near_shapes, 3, exps=(-18,))
        yield from ints(2, limit=100)
    for i, d in enumerate(every()):
        if i % step == 0:
            yield d
    yield from big(2, shp=BIG if step == 1 or not q else BIG[::4] + BIG[-3:])


def surprises(shp, Ts, modes=("ti", "gen")):
    """One unusual observation inside a long series."""
    for d in late(shp, [(T, (T // 2, T - 1)) for T in Ts], modes):
        if d[6][0][1] == "z":
            yield d


def linear(tier):
    yield from big()
    yield from surprises([(1, 1, 1), (2, 1, 1)], (150, 300) if tier == "quick" else (150, 300, 600, 1100))
    if tier == "quick":
        yield from near([(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 1, 1), (1, 2, 1)], 4)
    else:
        yield from near([(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 1, 1), (1, 2, 1), (3, 2, 1), (3, 3, 1)], 5, exps=(-22, -18, -14, -10, -6))
    yield from coincidences(tier)
    yield from masks()
    yield from ints()
    yield from extremes(3)
    if tier == "quick":
        yield from dev0(3, 3, 3)
        yield from dev1(3, 3, 3)
        for d in dev1(4, 4, 3, ("gen", "ti", "diag")):
            if max(d[1:3]) == 4:
                yield d
        yield from weak(3, 3, ("gen", "ti", "diag"))
        yield from sizes(6)
        yield from large([(8, 8, 2), (7, 1, 1), (1, 7, 1), (10, 3, 2), (3, 10, 1), (12, 12, 1), (17, 2, 1), (2, 17, 1), (2, 1, 17)])
        yield from everywhere([(1, 1, 1), (2, 1, 1), (2, 2, 2)], 3, ("gen",))
        yield from everywhere([(2, 5, 1), (1, 4, 1), (4, 2, 1), (3, 3, 1)], 2, ("diag",))
        yield from reps([(1, 1, 1), (2, 1, 1), (2, 2, 2)], 9)
        yield from reps([(1, 1, 1)], 6, 3)
        yield from consts((1, 2), 60)
        yield from signs([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1)], (1, 32, -32))
        yield from products([(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 1)], 3)
        yield from products([(1, 2, 1), (4, 2, 1)], 5)
        yield from products([(1, 1, 1), (2, 1, 1)], 14)
        yield from products([(1, 1, 1)], 40)
        yield from horizons(0, [6, 8, 9, 11, 12, 16, 17, 20, 33, 40, 65], WIDE)
        yield from late([(1, 1, 1), (2, 1, 1)], [(40, (30, 38, 39))], ("ti", "gen"))
        yield from units([(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 1), (3, 1, 1), (4, 1, 1), (1, 3, 1)], 3, [-60, -30, -20, -10, 10, 20, 30, 60])
        yield from horizons(0, [2049, 4100, 5001], [(1, 1, 1)])
        yield from horizons(24, [31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 365, 500, 513, 1000, 1025, 1500], [(2, 1, 1), (1, 1, 1)])
        yield from seqs([("s_full", 1, 3), ("s_mid", 2, 1), ("s_small", 3, 1), ("s_tiny", 5, 1), ("s_two", 9, 1), ("m21", 3, 1), ("m22", 3, 1), ("m12", 3, 1)])
        yield from dev2([(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1)], 3)
        yield from dev3([(1, 1, 1)], 2)
    else:
        yield from dev0(4, 4, 5)
        yield from dev1(4, 4, 4)
        yield from weak(4, 4, lin.MODES)
        yield from sizes(8)
        yield from large([(8, 8, 2), (7, 1, 1), (1, 7, 1), (10, 3, 2), (3, 10, 1), (12, 12, 1), (17, 2, 1), (2, 17, 1), (2, 1, 17), (16, 16, 3), (33, 2, 1), (2, 33, 1), (24, 24, 1), (32, 8, 2), (3, 3, 65)])
        yield from everywhere([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1), (2, 3, 3)], 4, ("gen", "ti", "diag"))
        yield from everywhere([(2, 5, 1), (1, 4, 1), (4, 2, 1), (3, 3, 1), (5, 5, 1), (6, 1, 1), (1, 6, 1), (4, 4, 2)], 2, ("gen", "diag", "scalarish"))
        yield from reps([(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 1)], 12)
        yield from reps([(1, 1, 1), (2, 1, 1)], 8, 3)
        yield from consts((1, 2, 3), 200)
        yield from signs([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1)], (1, 32, 1024, -32), 3)
        yield from products([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1), (4, 2, 1), (2, 3, 1)], 6)
        yield from products([(2, 1, 1), (3, 2, 2)], 24)
        yield from products([(1, 1, 1), (2, 1, 1)], 70)
        yield from horizons(70, [100, 129, 200, 257], WIDE)
        yield from dev3([(1, 1, 1)], 3)
        yield from dev3([(2, 1, 1), (2, 2, 1)], 2)
        yield from late([(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1)], [(40, (30, 38, 39)), (130, (99, 128, 129))], ("ti", "gen", "still"))
        yield from units([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1), (3, 3, 3)], 4,
                         [-100, -60, -40, -30, -20, -10, -5, -1, 1, 5, 10, 20, 30, 40, 60, 100], ("gen", "ti", "diag"))
        yield from horizons(0, [4100, 5001, 10001], [(1, 1, 1)])
        yield from horizons(130, [200, 255, 256, 257, 365, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2048, 2049], [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1)])
        yield from seqs([("s_full", 1, 3), ("s_full", 2, 1), ("s_mid", 2, 3), ("s_mid", 3, 1), ("s_small", 4, 1), ("s_tiny", 8, 1), ("s_two", 13, 1), ("m21", 4, 1), ("m22", 5, 1), ("m12", 5, 1)])
        yield from dev2([(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 1), (3, 2, 2), (2, 3, 1)], 4)
