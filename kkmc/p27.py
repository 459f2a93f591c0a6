"""P27: interpreter and process-wide settings. Every setting (and pair) x every operation: same results and errors as
under default settings, no setting changed afterwards, nothing printed, no warnings; every interpreter mode in a fresh
process."""
import contextlib
import functools
import io
import itertools
import json
import os
import subprocess
import sys
import threading

import numpy as np

from . import kal, lin, nl, ops
from .settings import IMPORT_ENV, IMPORTS, SETTINGS, snapshot

LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {"quick": "24 process-wide settings, singly and in pairs, x 15 operations (8 valid, 7 failing ones) x 4 models; 20 interpreter modes (optimisation, warnings as errors, dev mode, hash seeds, isolated, locale, utf-8, site) x the whole operation list in a fresh process; every environment variable the package asks for x candidate values; importing (9 ways) and asking for the version in a fresh process under each setting, with 40 process-wide settings compared",
          "thorough": "the same with triples of settings and 8 models; interpreter modes also in pairs"}


# ---------------------------------------------------------------- operations
@functools.lru_cache(maxsize=None)
def horizon(which, n, m, T):
    c = lin.build_hor(n, m, 1, T) if which == "kf" else nl.build(["nlhor", "quad", n, m, 1, T])
    return c, c.arrays()


def operations(w, big=False):
    """name -> (callable, object): fresh objects for every call."""
    def obj():
        a, Z, s, _ = w.fresh()
        return w.make(a), a, Z, s

    def run(fn, zk, withU):
        f, a, Z, s = obj()
        r = getattr(f, fn)(Z[zk], a["U"] if withU else None)
        return list(r) + list(f.kalman_gains)

    def short(fn, *names):
        f, a, Z, s = obj()
        for i, name in enumerate(names):
            setattr(f, name, getattr(f, name)[:2 - i % 2])
        return getattr(f, fn)(Z["1"], a["U"])

    def step(which):
        f, a, Z, s = obj()
        return w.call_predict(f, a, s, True) if which == "P" else w.call_update(f, a, s, False)

    def long(fn):
        c, a = horizon("ekf" if hasattr(w, "kind") else "kf", 2, 1, 1100)
        f = nl.make_ekf(a, c.callbacks()) if hasattr(w, "kind") else kal.make_kf(a)
        return list(getattr(f, fn)(a["Z"], a["U"]))

    def wide(fn, n=9, m=5):
        c, a = horizon("ekf" if hasattr(w, "kind") else "kf", n, m, 3)
        f = nl.make_ekf(a, c.callbacks()) if hasattr(w, "kind") else kal.make_kf(a)
        return list(getattr(f, fn)(a["Z"], a["U"]))

    def util():
        out = []
        for shp in ((1,), (3,), (63,), (65,), (129,), (1025,), (5000,), (40, 30), (300, 2, 2), (2, 2, 2, 2), (0,), (0, 3), ()):
            for v in (np.nan, 0.0, np.inf):
                x = np.full(shp, v)
                out.append(np.array(bool(kal.utils.is_nan_all(x))))
                out.append(kal.utils.check_none_and_broadcast(None, x))
                if x.ndim and x.size:
                    x.flat[-1] = 1.0
                    out.append(np.array(bool(kal.utils.is_nan_all(x))))
        return out

    def bad(kind):
        f, a, Z, s = obj()
        if kind == "callback":
            if hasattr(w, "kind"):
                def h(x):
                    raise LookupError("callback")
                f.h = h
            else:
                f.H = [f.H[0], "text", f.H[2], f.H[3]]
            return f.filter(Z["1"], a["U"])
        if kind == "singular":
            f.R = a["R"] * 0
            f.Pk = a["P0"] * 0
            f.Q = a["Q"] * 0
            return f.filter(Z["1"], a["U"])
        z = np.array(Z["1"])
        return f.filter(np.hstack([z, z, z]), a["U"])

    o = {"F": lambda: run("filter", "1", False), "Fu": lambda: run("filter", "1", True), "S": lambda: run("smooth", "1", False),
         "Su": lambda: run("smooth", "1", True), "S2": lambda: run("smooth", "2", True), "P": lambda: step("P"), "U": lambda: step("U"),
         "none": lambda: [kal.utils.check_none_and_broadcast(None, np.arange(4))] + [np.array(bool(kal.utils.is_nan_all(np.array(v)))) for v in ([np.nan, 1.0], [np.nan, np.nan], [0.0, 0.0], [np.inf, np.inf], [])],
         "util": util,
         "!Q": lambda: short("filter", "Q"), "!R": lambda: short("smooth", "R"), "!cb": lambda: bad("callback"), "!sing": lambda: bad("singular"),
         "!z": lambda: bad("z")}
    def huge(fn, scale):
        f, a, Z, s = obj()
        return getattr(f, fn)(Z["1"] * scale, a["U"])
    if not hasattr(w, "kind"):
        for sc in (1e200, 1e160, 1e-160, 1e-200):
            for fn in ("filter", "smooth"):
                o[f"{fn}*{sc}"] = lambda fn=fn, sc=sc: huge(fn, sc)
    if big:
        o.update(longF=lambda: long("filter"), longS=lambda: long("smooth"), wideF=lambda: wide("filter"), wideS=lambda: wide("smooth"), wide33=lambda: wide("smooth", 33, 17), wide17=lambda: wide("smooth", 5, 40))
    if not hasattr(w, "kind"):
        o["!A"] = lambda: short("smooth", "A")
        o["!H"] = lambda: short("filter", "H")
        o["!all"] = lambda: short("filter", "A", "H", "Q", "B", "R")
        o["!all2"] = lambda: short("smooth", "A", "H", "Q", "B", "R")
    o["!QR"] = lambda: short("filter", "Q", "R")
    return o


def outcome(fn):
    try:
        return ("ok", [np.array(v, dtype=float) for v in fn()])
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}")


def compare(got, exp, what):
    if got[0] != exp[0] or (got[0] == "error" and got[1] != exp[1]):
        raise kal.Violation(f"{what}: {brief(got)}, by default {brief(exp)}")
    if got[0] == "ok":
        if len(got[1]) != len(exp[1]):
            raise kal.Violation(f"{what}: {len(got[1])} arrays, by default {len(exp[1])}")
        for i, (g, e) in enumerate(zip(got[1], exp[1])):
            kal.same(g, e, np.maximum(np.nanmax(np.abs(e), initial=0.0), 1.0), f"{what}: array {i} ", 1e-12)


def brief(o):
    return f"raised {o[1]}" if o[0] == "error" else f"returned {len(o[1])} arrays"


def observed(fn, thread):
    """Run fn, watching output, warnings and process-wide settings."""
    box = []
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        before = snapshot()
        if thread:
            t = threading.Thread(target=lambda: box.append((outcome(fn))))
            t.start()
            t.join()
        else:
            box.append(outcome(fn))
        after = snapshot()
    ch = [k for k in before if before[k] != after[k]]
    return box[0], ch, out.getvalue() + err.getvalue()


# ---------------------------------------------------------------- interpreter modes
MODES = {"default": ([], {}), "O": (["-O"], {}), "OO": (["-OO"], {}), "warn": (["-W", "error"], {}), "warn-always": (["-W", "always"], {}), "dev": (["-X", "dev"], {}),
         "isolated": (["-I"], {}), "noenv": (["-E"], {}), "nouser": (["-s"], {}), "bytes": (["-bb"], {}), "hash1": ([], {"PYTHONHASHSEED": "1"}), "hash2": ([], {"PYTHONHASHSEED": "4294967295"}),
         "hashr": (["-R"], {"PYTHONHASHSEED": "random"}), "utf8": (["-X", "utf8"], {}), "C": ([], {"LC_ALL": "C", "PYTHONUTF8": "0"}), "POSIX": ([], {"LANG": "POSIX", "LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}),
         "unbuffered": (["-u"], {}), "nofrozen": (["-X", "frozen_modules=off"], {}), "digits": (["-X", "int_max_str_digits=640"], {}), "tracemalloc": (["-X", "tracemalloc=3"], {}),
         "safe": (["-P"], {}), "quiet": (["-q"], {})}


def modes(tier):
    one = [[m] for m in MODES]
    return one if tier == "quick" else one + [list(c) for c in itertools.combinations(list(MODES)[1:], 2)]


def cases(tier):
    q = tier == "quick"
    ws = [("kf", 2, 1, 1, "gen", False), ("ekf", 2, 1, 1, "mixed", False), ("kf", 1, 1, 1, "gen", False), ("ekf", 1, 1, 1, "quad", False)]
    if not q:
        ws += [("kf", 2, 2, 2, "ti", False), ("ekf", 2, 2, 1, "quad", False), ("kf", 3, 2, 1, "gen", False), ("ekf", 3, 2, 2, "bilin", False)]
    yield ["environment"]
    for how in IMPORTS:
        for s in [None] + list(SETTINGS):
            if s not in ("cwd-gone", "thread", "env") and (s is None or how in ("package", "versions")):
                yield ["import", how, s]
    for m in modes(tier):
        yield ["mode", m]
    for w in ws:
        for r in (0, 1, 2) if q else (0, 1, 2, 3):
            for s in itertools.combinations(SETTINGS, r):
                yield ["set", list(w), list(s)]


def probe_main():
    """Run in the fresh interpreter: all operations of two models, results as exact hex."""
    res = {}
    for wk in (("kf", 2, 1, 1, "gen", False), ("ekf", 2, 1, 1, "mixed", False)):
        w = ops.world(wk)
        for name, fn in operations(w, True).items():
            o = outcome(fn)
            res[f"{wk[0]}:{name}"] = [o[0], o[1] if o[0] == "error" else [v.tolist() for v in o[1]]]
    import kalmankit
    if "kkmc.envspy" in sys.modules:
        es = sys.modules["kkmc.envspy"]
        res["asked"] = ["error", es.asked]
    res["version"] = ["error", kalmankit.__version__]
    json.dump(res, sys.stdout)


def importing(how, setting, st):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(IMPORT_ENV, PYTHONDONTWRITEBYTECODE="1")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = f"import sys; sys.path[:0] = [{here!r}, {kal.SRC!r}]; import kkmc.settings as p; p.import_main({how!r}, {setting!r})"
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=120, env=env, cwd="/")
    what = f"{IMPORTS[how]!r} under setting {setting}"
    if not r.stdout.startswith("RESULT") and r.returncode == 0 or r.stderr:
        raise kal.Violation(f"{what} printed {(r.stdout + r.stderr)[:300]!r}")
    if r.returncode:
        raise RuntimeError(r.stderr[-500:])
    res = json.loads(r.stdout[6:])
    if "error" in res:
        raise kal.Violation(f"{what} raised {res['error']}")
    if res["changed"]:
        raise kal.Violation(f"{what} changed process-wide settings: {res['changed']}")
    st.transitions += 1
    st.outcomes.add((how, setting))


_default = {}


def run_case(desc, st):
    st.traces += 1
    st.states.add(hash(repr(desc)))
    if desc[0] == "mode":
        if "d" not in _default:
            _default["d"] = launch([])
        return same(launch(desc[1]), _default["d"], f"interpreter mode {desc[1]}", st)
    if desc[0] == "import":
        return importing(desc[1], desc[2], st)
    if desc[0] == "environment":
        return environment(st)
    w = ops.world(tuple(desc[1]))
    for name, fn in operations(w, len(desc[2]) < 2 and desc[1][1] == 2).items():
        key = (tuple(desc[1]), name)
        if key not in _default:
            _default[key] = outcome(fn)
            if (_default[key][0] == "error") != (name[0] == "!"):
                raise kal.Violation(f"operation {name}: {brief(_default[key])} {_default[key][1] if _default[key][0] == 'error' else ''}")
        with contextlib.ExitStack() as es:
            for s in desc[2]:
                es.enter_context(SETTINGS[s]())
            got, ch, printed = observed(fn, "thread" in desc[2])
        what = f"operation {name} under settings {desc[2]}"
        compare(got, _default[key], what)
        if ch:
            raise kal.Violation(f"{what} changed process-wide settings: {ch}")
        if printed:
            raise kal.Violation(f"{what} printed {printed[:200]!r}")
        st.transitions += 1
        st.outcomes.add((name, got[0]))


def environment(st):
    """Every environment variable the package asks for, found by watching its look-ups, set to every candidate value."""
    from . import envspy
    todo, seen, base = [{}], set(), None
    while todo:
        extra = todo.pop(0)
        got = launch([], extra, spy=True)
        asked = got.pop("asked")[1]
        base = base or got
        same(got, base, f"environment {extra}", st)
        for name, path in asked.items():
            if name not in seen and len(seen) < 12:
                seen.add(name)
                todo += [{name: v} for v in envspy.candidates(path)]
    st.count("environment_variables_asked_for", len(seen))


def same(got, exp, what, st):
    if set(got) != set(exp):
        raise kal.Violation(f"{what}: results {sorted(got)} instead of {sorted(exp)}")
    for k in exp:
        g, e = ((o[0], o[1] if o[0] == "error" else [np.array(v, dtype=float) for v in o[1]]) for o in (got[k], exp[k]))
        compare(g, e, f"{what}: {k}")
        st.transitions += 1
        st.outcomes.add((k, e[0]))


def launch(ms, extra=None, spy=False):
    flags, env = [], {}
    for m in ms:
        flags += MODES[m][0]
        env.update(MODES[m][1])
    base = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    base.update(KKMC_REPO=kal.REPO, KKMC_WARN="1", PYTHONDONTWRITEBYTECODE="1", **env)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if spy:
        base = {k: v for k, v in base.items() if k in ("PATH", "KKMC_REPO", "KKMC_WARN", "PYTHONDONTWRITEBYTECODE")}
    base.update(extra or {})
    code = f"import sys; sys.path[:0] = [{here!r}, {kal.SRC!r}]; sys.dont_write_bytecode = True; " + (f"import kkmc.envspy as s; s.install({kal.SRC!r}); " if spy else "") + "import kkmc.p27 as m; m.probe_main()"
    r = subprocess.run([sys.executable, *flags, "-c", code], capture_output=True, text=True, timeout=120, env=base, cwd="/")
    if r.returncode:
        raise kal.Violation(f"interpreter mode {ms}: import or run failed: " + (r.stderr.strip().splitlines() or ["no message"])[-1], stderr=r.stderr[-2000:])
    try:
        return json.loads(r.stdout)
    except ValueError:
        raise kal.Violation(f"interpreter mode {ms}: unexpected output {r.stdout[:200]!r}") from None
