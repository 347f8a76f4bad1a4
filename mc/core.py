"""Check driver: enumerates a module's cases, runs them on all cores, writes evidence and replays."""
import importlib, json, os, sys, time, traceback, signal, multiprocessing as mp, collections

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_LIMIT = 240       # seconds for one case before it counts as non-terminating
WALL_LIMIT = 820


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Tally:
    """Counts what one worker covered."""
    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known = prop, tier, known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = collections.Counter()
        self.found = {}
        self.cases = 0

    def state(self, key):
        self.states.add(hash(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] += 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def check(self, cond, msg, key=None, **detail):
        if cond:
            return True
        if callable(msg):
            msg = msg()
        if key is not None and key in self.known:
            self.found[key] = self.known[key]
            return False
        raise Violation(msg, key=key, **detail)


def load_known(prop):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                parts = body.split(None, 2)
                if parts[0] == f"property={prop}" and parts[1].startswith("key="):
                    known[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return known


def import_blueqat():
    """Import blueqat from REPO's working tree, never from cached bytecode."""
    from mc import rng
    import numpy, scipy.sparse, scipy.optimize  # noqa
    rng.install()
    rng.seed(int(os.environ.get("VERIF_SEED", "1") or 1))
    import warnings
    warnings.simplefilter("ignore")
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import blueqat
    assert os.path.realpath(blueqat.__file__).startswith(os.path.realpath(REPO) + "/"), blueqat.__file__
    for m in ("blueqat.pauli", "blueqat.vqe", "blueqat.wq", "blueqat.utils", "blueqat.gate", "blueqat.circuit",
              "blueqat.experimental", "blueqat.experimental.utils", "blueqat.backends.backendbase"):
        importlib.import_module(m)
    sys.pycache_prefix = old
    sys.unraisablehook = lambda *a: None


def _alarm(signum, frame):
    raise CaseTimeout()


def one_case(mod, t, desc):
    """Run one case; return None or a violation record."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.run_case(t, desc)
        return None
    except Violation as v:
        return dict(case=desc, message=str(v), key=v.key, detail=_js(v.detail))
    except CaseTimeout:
        return dict(case=desc, message=f"case did not finish within {CASE_LIMIT} s", key=None, detail={})
    except Exception as ex:
        return dict(case=desc, message=f"unexpected {type(ex).__name__}: {ex}", key=None,
                    detail=dict(traceback=traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)


def _js(o):
    try:
        json.dumps(o)
        return o
    except TypeError:
        if isinstance(o, dict):
            return {str(k): _js(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [_js(x) for x in o]
        return repr(o)


def _worker(mod, prop, tier, known, cases, nxt, stop, chunk, q, deadline):
    t = Tally(prop, tier, known)
    vio = []
    capped = False
    n = len(cases)
    while True:
        if stop.value >= 3:
            break
        if time.time() > deadline:
            capped = True
            break
        with nxt.get_lock():
            i = nxt.value
            nxt.value = min(n, i + chunk)
        if i >= n:
            break
        for j in range(i, min(n, i + chunk)):
            r = one_case(mod, t, cases[j])
            t.cases += 1
            if r is not None:
                r["cases_before_in_process"] = t.cases - 1
                vio.append(r)
                hung = "did not finish" in r["message"]
                with stop.get_lock():
                    stop.value += 3 if hung else 1
                if len(vio) >= 2 or hung:
                    break
            if stop.value >= 3 or time.time() > deadline:
                break
        if len(vio) >= 2 or (vio and hung):
            break
    q.put((t.states, t.transitions, t.traces, t.samples, dict(t.outcomes), t.found, t.cases, vio, capped))


def _confirm(mod, prop, tier, known, desc, q):
    t = Tally(prop, tier, known)
    r = one_case(mod, t, desc)
    q.put(None if r is None else r["message"])


def main(argv):
    prop, tier, replay = None, os.environ.get("VERIF_TIER", "quick"), None
    it = iter(argv)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--jobs":
            jobs = int(next(it))
        else:
            prop = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    try:
        import_blueqat()
    except Exception:
        traceback.print_exc()
        return report(prop, tier, seed, t0, None, [dict(case=None, message="blueqat cannot be imported", key=None,
                      detail=dict(traceback=traceback.format_exc()[-2000:]))], False)
    mod = importlib.import_module("mc.checks." + prop)
    if replay:
        rec = json.load(open(replay))
        t = Tally(prop, tier, known)
        r = one_case(mod, t, rec["case"])
        print(json.dumps(r, indent=1) if r else "no violation on replay")
        if r:
            print(f"VIOLATION property={prop} replay={os.path.abspath(replay)}")
        return 1 if r else 0
    cases = list(mod.cases(tier))
    jobs = min(jobs, max(1, len(cases)))
    ctx = mp.get_context("fork")
    nxt, stop = ctx.Value("l", 0), ctx.Value("l", 0)
    chunk = max(1, min(getattr(mod, "CHUNK", 10 ** 9), len(cases) // (jobs * 16) or 1))
    q = ctx.Queue()
    deadline = t0 + (WALL_LIMIT if tier == "quick" else float(os.environ.get("VERIF_WALL", 4 * 3600)))
    ps = [ctx.Process(target=_worker, args=(mod, prop, tier, known, cases, nxt, stop, chunk, q, deadline)) for _ in range(jobs)]
    for p in ps:
        p.start()
    tot = Tally(prop, tier, known)
    vio, capped, got, lost = [], False, 0, 0
    import queue as _q
    while got + lost < jobs:
        try:
            r = q.get(timeout=5)
        except _q.Empty:
            lost = sum(1 for p in ps if p.exitcode not in (None, 0))
            continue
        got += 1
        s, tr, tc, sm, oc, fd, nc, v, cp = r
        tot.states |= s
        tot.transitions += tr
        tot.traces += tc
        tot.samples += sm
        tot.outcomes.update(oc)
        tot.found.update(fd)
        tot.cases += nc
        vio += v
        capped |= cp
    for p in ps:
        p.join(5)
    if lost and not vio:
        print(f"{lost} worker(s) died", file=sys.stderr)
        return 2
    for v in vio[:3]:
        left = WALL_LIMIT - (time.time() - t0)
        if left < 30 or "did not finish" in v["message"]:
            v["fresh_process_replay"] = "not replayed: no time left"
            continue
        try:
            p = ctx.Process(target=_confirm, args=(mod, prop, tier, known, v["case"], q))
            p.start()
            m = q.get(timeout=min(CASE_LIMIT + 20, left))
            p.join(5)
            v["fresh_process_replay"] = m if m is not None else "not reproduced alone: depends on earlier cases in the process"
        except Exception as ex:
            v["fresh_process_replay"] = f"replay failed: {ex!r}"
            p.kill()
    if hasattr(mod, "finish") and not vio:
        mod.finish(tot)
    return report(prop, tier, seed, t0, tot, vio, capped, mod, len(cases))


def report(prop, tier, seed, t0, tot, vio, capped, mod=None, ncases=0):
    cov = dict(states=len(tot.states) if tot else 0, transitions=tot.transitions if tot else 0,
               traces_validated_against_impl=tot.traces if tot else 0,
               samples=(tot.samples[:3] if tot and tot.samples else ["none"]))
    if tot:
        cov["cases"] = tot.cases
        cov["cases_enumerated"] = ncases
        cov["exhaustive"] = (not vio) and (not capped) and tot.cases == ncases
        cov["distinct_outcomes"] = len(tot.outcomes)
        cov["outcomes"] = dict(tot.outcomes.most_common(12))
        if mod is not None:
            cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(mod, "BOUNDS", ""), dict) else mod.BOUNDS
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=(getattr(mod, "ASSUMPTIONS", None) or ["reference model mc/ref.py is correct"]),
              wall_s=round(time.time() - t0, 3), violations=len(vio))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(_js(ev), f, indent=1)
    if tot:
        for k, what in sorted(tot.found.items()):
            print(f"KNOWN-FINDING: property={prop} {what}")
        print(f"{prop} {tier}: cases={tot.cases}/{ncases} states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} "
              f"exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
    if not vio:
        return 0
    rd = os.path.join(HERE, "replays")
    try:
        os.makedirs(rd, exist_ok=True)
    except OSError:
        rd = "/tmp"
    for i, v in enumerate(vio[:3]):
        path = os.path.join(rd, f"{prop}-{i}.json")
        v = dict(property=prop, tier=tier, how_to_replay=f"./run {prop} --replay {path}", **v)
        with open(path, "w") as f:
            json.dump(_js(v), f, indent=1)
        print("  " + str(v["message"])[:1500])
        print("  case: " + json.dumps(_js(v["case"]))[:600])
        print(f"VIOLATION property={prop} replay={path}")
    return 1
