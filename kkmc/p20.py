"""P20: the utility helpers over the full product of small arrays."""
import itertools
import math
import struct

import numpy as np

from .kal import Violation, utils

LEVEL = "model_checking"
CHUNK = 32
BOUNDS = {"quick": "all placements of {nan,1,0,inf,-inf,-0.0,-nan,denormal} over all shapes with <=4 elements (0..8 dimensions) x {float16,32,64,longdouble,big-endian} x 5 layouts; one non-NaN at every position of arrays up to 200 elements and of 256..2049 elements, at selected positions up to 2^24+5; every numeric type incl. complex and bool; default filling for every shape x type x layout",
          "thorough": "<=5 elements, every position up to 1100 elements in three backgrounds, selected ones up to 2^20+1"}
VALS = [math.nan, 1.0, 0.0, math.inf, -math.inf, -0.0, -math.nan, 5e-324]
FT = ["f2", "f4", "f8", "g", ">f8"]
IT = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "?"]
CT = ["c8", "c16"]


def shapes(N):
    out = {(), (0,), (0, 3), (3, 0), (1, 0, 2)}
    for d in (1, 2, 3, 4):
        for s in itertools.product(range(1, N + 1), repeat=d):
            if math.prod(s) <= N:
                out.add(s)
    out |= {(1,) * 5, (1,) * 8, (1, 2, 1, 1, 2), (1, 1, 2, 1, 1, 2), (0, 1, 1, 1, 1, 2)}
    return sorted(out, key=lambda s: (math.prod(s), len(s), s))


def cases(tier):
    N = 4 if tier == "quick" else 5
    for s in shapes(N):
        k = math.prod(s)
        if k <= 3:
            for ft in FT:
                yield ["nan", list(s), ft, []]
        else:
            for ft in FT if k == 4 else ["f8"]:
                for v in range(len(VALS)):
                    yield ["nan", list(s), ft, [v]]
        yield ["types", list(s)]
        yield ["fill", list(s)]
    for L in list(range(1, 70)) + [100, 127, 128, 129, 200] + ([] if tier == "quick" else [255, 256, 257, 500, 512, 1000, 1024, 1025, 1100]):
        yield ["long", L]
    for L in [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4097, 10000, 16385, 65537, 100003] + ([] if tier == "quick" else [2 ** 20 + 1, 10 ** 6]):
        yield ["big", L]
    for L in (10 ** 6 + 3, 2 ** 21 + 1, 2 ** 24 + 5):
        yield ["huge", L]
    for s in [(1, 2, 3, 2, 1), (2, 1, 2, 1, 2, 1), (2,) * 7, (1,) * 20, (5, 7), (2, 3, 4), (10, 10), (64, 2), (2, 64)]:
        yield ["fill", list(s)]


def layouts(a):
    yield "plain", a
    b = a.copy()
    b.flags.writeable = False
    yield "read-only", b
    if a.ndim:
        yield "fortran", np.asfortranarray(a)
        w = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        w[::2] = a
        yield "strided", w[::2]
        yield "reversed", a[::-1].copy()[::-1]


def check(a, expect, what):
    before = a.tobytes()
    got = utils.is_nan_all(a)
    if np.ndim(got) != 0 or bool(got) is not expect:
        raise Violation(f"is_nan_all({what}) = {got!r}, expected {expect}")
    if a.tobytes() != before:
        raise Violation(f"is_nan_all modified {what}")


def run_case(desc, st):
    kind = desc[0]
    if kind == "nan":
        shape, ft, prefix = tuple(desc[1]), desc[2], desc[3]
        k = math.prod(shape)
        for vals in itertools.product(range(len(VALS)), repeat=k - len(prefix)):
            v = [VALS[i] for i in list(prefix) + list(vals)]
            if ft == "f2":
                v = [6e-8 if x == 5e-324 else x for x in v]
            elif ft == "f4":
                v = [1.5e-45 if x == 5e-324 else x for x in v]
            a = np.array(v, dtype=ft).reshape(shape)
            exp = all(math.isnan(x) for x in v)
            for name, b in layouts(a):
                check(b, exp, f"{name} {ft} {b.tolist()}")
                st.traces += 1
            st.transitions += 1
            st.states.add((shape, ft, tuple(prefix) + vals))
    elif kind == "types":
        shape = tuple(desc[1])
        k = math.prod(shape)
        for t in IT + CT:
            for one in (0, 1):
                a = np.full(shape, one, dtype=t)
                check(a, k == 0, f"{t} {a.tolist()}")
                st.traces += 1
        for t in CT:
            for vals in itertools.product([complex(math.nan, math.nan), complex(math.nan, 0.0), complex(1.0, math.nan), 1 + 0j, 0j, complex(math.inf, -1.0)], repeat=min(k, 3)):
                a = np.array((list(vals) * (k or 1))[:k], dtype=t).reshape(shape)
                check(a, all(v != v for v in a.ravel().tolist()), f"{t} {a.tolist()}")
                st.traces += 1
                st.states.add((shape, t, str(vals)))
        # several NaN bit patterns
        for bits in (0x7FF8000000000000, 0xFFF8000000000000, 0x7FF0000000000001, 0x7FFFFFFFFFFFFFFF):
            x = struct.unpack("<d", struct.pack("<Q", bits))[0]
            a = np.frombuffer(struct.pack("<Q", bits) * max(k, 1), dtype="<f8")[:k].reshape(shape)
            check(a, True, f"NaN pattern {bits:x} {shape}")
            st.traces += 1
    elif kind == "long":
        L = desc[1]
        a = np.full(L, np.nan)
        check(a, True, f"{L} NaN")
        for i in range(L):
            for v in (0.0, 1.0, -math.inf):
                b = a.copy()
                b[i] = v
                check(b, False, f"{L} NaN but {v} at {i}")
                if L % 4 == 0:
                    check(b.reshape(4, -1), False, f"4x{L // 4} NaN but {v} at {i}")
                st.traces += 1
            b = np.zeros(L)
            b[i] = np.nan
            check(b, L == 1, f"{L} zeros but NaN at {i}")
            st.traces += 1
            st.states.add(("long", L, i))
        st.transitions += L
    elif kind == "big":
        L = desc[1]
        a = np.full(L, np.nan)
        check(a, True, f"{L} NaN")
        for i in range(L) if L <= 2049 else sorted(set(list(range(9)) + list(range(L - 9, L)) + [L // 2 + d for d in range(-4, 5)] + [L // 3, L // 5, 1023, 1024, 1025, 2047, 2048, 4095, 4096])):
            a[i] = 1.0
            check(a, False, f"{L} NaN but a number at {i}")
            if L % 3 == 0:
                check(a.reshape(3, -1), False, f"3x{L // 3} NaN but a number at {i}")
            a[i] = np.nan
            b = np.zeros(L)
            b[i] = np.nan
            check(b, False, f"{L} zeros but NaN at {i}")
            st.traces += 1
            st.states.add(("big", L, i))
        st.transitions += L
    elif kind == "huge":       # one number lost among millions of missing values (counts and means in low precision)
        L = desc[1]
        a = np.full(L, np.nan, dtype="f4")
        check(a, True, f"{L} NaN")
        for i in (0, 1, 777777, L // 2, L - 2, L - 1):
            a[i] = 1.0
            check(a, False, f"{L} NaN but a number at {i}")
            a[i] = np.nan
            st.states.add(("huge", L, i))
        st.traces += 7
    else:
        fill(tuple(desc[1]), st)


def fill(shape, st):
    f = utils.check_none_and_broadcast
    for t in FT + IT + CT:
        base = np.ones(shape, dtype=t)
        for name, refa in layouts(base):
            before = refa.tobytes()
            outs = [f(None, refa), f(None, refa), f(arr=None, broad_to=refa)]
            for o in outs:
                what = f"default for a {name} {t} reference of shape {shape}"
                if not isinstance(o, np.ndarray) or o.shape != shape:
                    raise Violation(f"{what}: shape {np.shape(o)}")
                if math.prod(shape) and not np.all(o != o):
                    raise Violation(f"{what}: not all NaN: {o.tolist()}")
                if np.shares_memory(o, refa):
                    raise Violation(f"{what}: shares memory with the reference")
            if outs[0] is outs[1] or np.shares_memory(outs[0], outs[1]):
                raise Violation(f"default for shape {shape}: two calls share one array")
            if math.prod(shape) and outs[0].flags.writeable:
                outs[0][...] = 1
                if not np.all(outs[1] != outs[1]):
                    raise Violation(f"default for shape {shape}: two calls share one array")
            if refa.tobytes() != before:
                raise Violation(f"the reference of shape {shape}, {t} was modified")
            # a given array comes back untouched, whatever it holds and whatever the reference
            for given in (refa, np.zeros(shape, dtype=t), np.full(shape, np.nan), np.zeros(0), np.zeros((2, 2)), np.array(0.0), np.ones((7,))):
                b = given.tobytes()
                for rt in (refa, np.zeros((3, 2)), np.zeros(0)):
                    if f(given, rt) is not given or f(arr=given, broad_to=rt) is not given:
                        raise Violation(f"a given array of shape {given.shape}, {given.dtype} is not returned as it is")
                if given.tobytes() != b:
                    raise Violation("a given array was modified")
                st.traces += 1
            st.traces += 3
            st.states.add(("fill", shape, t, name))
            st.transitions += 1
