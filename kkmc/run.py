"""Runner:  python -m kkmc.run P01 quick|thorough   /  python -m kkmc.run --replay FILE"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.environ.get("KKMC_OUT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ORDER = {}


def load(pid):
    return importlib.import_module(f"kkmc.{pid.lower()}")


class Stats:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.skipped = 0
        self.outcomes = set()
        self.counters = {}
        self.known = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n


class Hang(Exception):
    pass


TICK = 5.0
_case = {}


def _alarm(*_):
    """Every TICK seconds. A slow or suspended machine is not a hang: only time in which the case really ran counts in full."""
    _case["ticks"] += 1
    t = _case["ticks"] * TICK
    if t >= 3 * _case["limit"] or t >= _case["limit"] and time.process_time() - _case["cpu"] >= _case["limit"] / 2:
        raise Hang("no result within the per-case time limit")


def known_findings(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return [e for e in d["findings"] if e["property"] == pid and e.get("status") == "known"]


def match_known(known, desc, message):
    """A listed finding is exactly one case failing in exactly the listed way."""
    for e in known:
        if e["case"] == desc and message.startswith(e["message"]):
            return e
    return None


def one(mod, desc, stats):
    """Returns None or a violation dict."""
    from .kal import Violation
    limit = getattr(mod, "CASE_SECONDS", 120)
    limit = limit(desc) if callable(limit) else limit
    signal.signal(signal.SIGALRM, _alarm)
    _case.update(limit=limit, ticks=0, cpu=time.process_time())
    signal.setitimer(signal.ITIMER_REAL, TICK, TICK)
    try:
        mod.run_case(desc, stats)
        return None
    except Violation as e:
        return dict(case=desc, message=e.msg, detail=e.detail)
    except Hang as e:
        return dict(case=desc, message=str(e), detail={})
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-8)
        return dict(case=desc, message=f"{type(e).__name__}: {e}", detail=dict(traceback=tb))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(pid, tier, w, W, best, q):
    mod = load(pid)
    try:
        from . import lin
        ch = getattr(mod, "CHUNK", 48)
        stats = Stats()
        viol = None
        known = known_findings(pid)
        i = -1
        last = -1
        for i, desc in enumerate(mod.cases(tier)):
            b = i // ch
            if b % W != w:
                continue
            if i > best.value:
                break
            if b != last:
                last = b
                lin.clear()
            stats.cases += 1
            v = one(mod, desc, stats)
            if v:
                e = match_known(known, desc, v["message"])
                if e:
                    stats.known.append(e["id"])
                    continue
                v["index"] = i
                viol = v
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                break
        q.put((w, dict(states=list(stats.states), transitions=stats.transitions, traces=stats.traces, cases=stats.cases,
                       skipped=stats.skipped, outcomes=list(stats.outcomes), counters=stats.counters, known=stats.known), viol, None))
    except BaseException:
        q.put((w, None, None, traceback.format_exc()))
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        return selftest()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = load(pid)
    if hasattr(mod, "main"):
        res = mod.main(tier)
    else:
        res = explore(mod, pid, tier)
    viol, cov = res["violation"], res["coverage"]
    for k in sorted(set(res.get("known", []))):
        e = [x for x in known_findings(pid) if x["id"] == k][0]
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, **viol), f, indent=1, default=str)
        print(f"{viol['message']}")
        print(f"case: {json.dumps(viol['case'], default=str)[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK property={pid} tier={tier} " + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)) + f" wall={ev['wall_s']}s")
    return 0


def explore(mod, pid, tier):
    W = int(os.environ.get("KKMC_JOBS", str(max(1, min(8, os.cpu_count() or 1)))))
    ctx = mp.get_context("fork")
    best = ctx.Value("q", 2 ** 62)
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(pid, tier, w, W, best, q), daemon=False) for w in range(W)]
    for p in ps:
        p.start()
    got = {}
    errors = []
    while len(got) < W:
        try:
            w, st, v, err = q.get(timeout=5)
        except Exception:
            dead = [i for i, p in enumerate(ps) if i not in got and not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                errors.append(f"worker {dead} died with {[ps[i].exitcode for i in dead]}")
                break
            continue
        got[w] = (st, v)
        if err:
            errors.append(err)
    for p in ps:
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    if errors:
        print("\n".join(errors), file=sys.stderr)
        sys.exit(2)
    states, outcomes, counters, known = set(), set(), {}, []
    tot = dict(transitions=0, traces=0, cases=0, skipped=0)
    viol = None
    for w in sorted(got):
        st, v = got[w]
        states.update(st["states"])
        outcomes.update(st["outcomes"])
        known += st["known"]
        for k in tot:
            tot[k] += st[k]
        for k, n in st["counters"].items():
            counters[k] = counters.get(k, 0) + n
        if v and (viol is None or v["index"] < viol["index"]):
            viol = v
    samples = []
    for i, d in enumerate(mod.cases(tier)):
        if i in (0, 17, 1017):
            samples.append(d)
        if i > 1017:
            break
    # case families covered, by leading tag
    cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
               executions=tot["cases"], outside_domain=tot["skipped"], distinct_outcomes=len(outcomes) or len(states),
               samples=samples, exhaustive=viol is None, bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS, **counters)
    if mod.LEVEL in ("exploration", "fault_enumeration"):
        cov.update(evaluations=tot["traces"], distinct_nontrivial=len(outcomes) or len(states), rule=mod.RULE)
    return dict(violation=viol, coverage=cov, known=known)


def selftest():
    """setup: the toolchain works and the reference agrees with itself (recursion == batch conditioning)."""
    from . import lin, ref
    c = lin.build(["dev", 2, 1, 1, 3, "gen", []])
    nodes = c.nodes()
    mean, cov = ref.batch_condition(c.x0.l, c.P0.l, c.steps, 2, 2)
    ok = all(abs(float(a) - float(b)) < 1e-12 for a, b in zip(mean, nodes[-1].x))
    ok = ok and all(abs(float(cov[i][j]) - float(nodes[-1].P[i][j])) < 1e-12 for i in range(2) for j in range(2))
    print("selftest", "ok" if ok else "FAILED")
    return 0 if ok else 2


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    if hasattr(mod, "main") and not hasattr(mod, "run_case"):
        print("this check has no single-case replay")
        return 2
    v = one(mod, d["case"], Stats())
    if hasattr(mod, "cleanup"):
        mod.cleanup()
    print(json.dumps(v, indent=1, default=str) if v else "the case passes")
    return 1 if v else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
