"""Simulated annealing: the full choice tree of the real annealer against an exact Metropolis model."""
import contextlib, io, itertools, math
import numpy as np
from mc import rng
from mc.wqm import *
from mc.wqm import r as rnd
from blueqat import wq

BOUNDS = {
 "quick": "joint distribution of result and energy record over every outcome of the random source (acceptance draws on a 3- or 4-point grid): all 2x2 upper-triangular QUBOs over {-1,0,1.5} and asymmetric ones x 8 schedules (0-3 temperatures, 1-2 moves each), 12 3x3 QUBOs, 1x1, 4 QUBOs and schedules scaled by 2^-40..2^30; 1-3 shots, run and sa, lists/arrays, target temperatures; "
          "default and fast schedules under 40 scripted sources (never/always accepting uphill, cyclic sites); schedules whose last temperature lies 1e-9..0.02 relative from the target; all histories of length <=3 of runs with other QUBOs; default, fast and 4..12-shot runs of 1..10 variables step by step against the model",
 "thorough": "four temperatures for all 2x2, 3x3 over all {-1,1}, 3 sweeps"}
ASSUMPTIONS = ["reference Metropolis model mc/wqm.py", "acceptance draws are compared on a finite grid of the unit interval; grid points within 1e-9 of an acceptance probability are skipped"]
# Ts, R, target, ite, grid
SCHED = [(2.0, 0.5, 1.2, 1, 4), (2.0, 0.5, 0.9, 1, 4), (1.5, 0.7, 1.0, 1, 3), (1.1, 0.5, 0.8, 2, 4), (2.2, 0.6, 0.9, 1, 3), (1.0, 0.5, 1.0, 1, 4), (2.1, 0.5, 0.5, 1, 4), (1.3, 0.5, 0.5, 2, 3)]
M3 = [triu(3, v) for v in ((1, -2, 0, -1, 3, 0.5), (-1, 2, 0.5, 1, -1, -1), (0, 0, 0, 0, 0, 0), (-3, 2, 2, -3, 2, -3), (0, 1, 0, 0, 1, 0), (2, 0, -4, 1, 0, 2))] + \
     [full(3, v) for v in ((0, 1, 2, 0, 0, 1, 0, 0, 0), (1, 1, 0, -2, 0, 0, 1, 0.5, -1), (0, 0, 0, 1, 0, 0, 1, 1, 0))]


def cases(tier):
    out = []
    for v in itertools.product((-1, 0, 1.5), repeat=3):
        for s in range(len(SCHED)):
            out.append(dict(kind="dist", Q=triu(2, v), s=s, form="list" if sum(v) > 0 else "array"))
    for v in ((1, 2, -3, 0), (0, 1, 1, 0), (-1, 0, 2.5, 1), (1, -2, -2, 1)):
        for s in range(len(SCHED)):
            out.append(dict(kind="dist", Q=full(2, v), s=s, form="array"))
    for m in M3:
        for s in (0, 1, 2, 6):
            out.append(dict(kind="dist", Q=m, s=s, form="rows"))
    for v in (-2, 0, 0.7, 1.9):
        for s in range(len(SCHED)):
            for shots in (1, 2):
                if SCHED[s][3] * len(temps(*SCHED[s][:3])) * shots <= 5:
                    out.append(dict(kind="dist", Q=[[v]], s=s, form="array", shots=shots))
        out.append(dict(kind="dist", Q=[[v]], s=0, form="list", shots=3))
    for i, v in enumerate(((-1, 2, -1), (0.5, -1, 0), (1, 0, -2), (0, 1.5, -1))):
        for sc in (-40, -20, -10, 10, 30):
            out.append(dict(kind="dist", Q=triu(2, v), s=i, form=("list", "array")[i % 2], scale=sc))
    for v in ((-1, 2, -1), (0.5, -1, 0), (1, 0, -2)):
        out.append(dict(kind="dist", Q=triu(2, v), s=0, form="list", shots=2))
    if tier == "thorough":
        SCHED2 = [(2.0, 0.6, 0.5, 1, 3), (1.2, 0.5, 1.0, 3, 3)]
        for v in itertools.product((-1, 0, 1.5), repeat=3):
            for s in SCHED2:
                out.append(dict(kind="dist", Q=triu(2, v), sched=list(s), form="list"))
        for v in itertools.product((-1, 1), repeat=6):
            out.append(dict(kind="dist", Q=triu(3, v), s=1, form="list"))
    for i in range(len(HQ)):
        out.append(dict(kind="hist", a=i))
    for i in range(len(LONG)):
        for mode in ("fast", "normal"):
            out.append(dict(kind="long", i=i, mode=mode))
    for i in range(len(LONG2)):
        for shots in (1, 4, 7, 12):
            out.append(dict(kind="shots", i=i, shots=shots))
    for R in (0.5, 0.25, 0.75, 0.95):
        out.append(dict(kind="steps", R=R))
    out.append(dict(kind="api"))
    return out


def opt(Q, sched, form="list"):
    Ts, R, target, ite, grid = sched
    o = wq.Opt()
    o.qubo = FORMS[form](Q)
    o.Ts, o.R, o.ite = Ts, R, ite
    return o


def record(res, E, shots):
    """normalised (bits per shot, record per shot)"""
    if shots == 1:
        res, E = [res], [E]
    return tuple((tuple(int(b) for b in x), tuple(rnd(e) for e in h)) for x, h in zip(res, E))


def dist(t, d):
    Q, shots = d["Q"], d.get("shots", 1)
    n = len(Q)
    sched = tuple(d["sched"]) if "sched" in d else SCHED[d["s"]]
    Ts, R, target, ite, grid = sched
    E = energies(Q)
    try:
        one = sa_shot(E, n, Ts, R, target, ite, grid)
    except Tie:
        t.outcome("grid tie skipped")
        return
    exp = {}
    for combo in itertools.product(one.items(), repeat=shots):
        k = tuple(c[0] for c in combo)
        exp[k] = exp.get(k, 0) + math.prod(c[1] for c in combo)
    c = 2.0 ** d.get("scale", 0)
    o = opt([[v * c for v in q] for q in Q], (Ts * c, R, target, ite, grid), d["form"])
    before = repr(o.qubo)

    def go():
        res = o.run(shots=shots, targetT=target * c)
        t.check(isinstance(res, list) and len(res) == (n if shots == 1 else shots) and len(o.E) == (len(temps(Ts, R, target)) + 1 if shots == 1 else shots), lambda: f"{shots} shots of {n} bits: result {res}, energies {o.E}")
        t.check(all(b in (0, 1) for x in ([res] if shots == 1 else res) for b in x), lambda: f"result {res}")
        return record(res, [e / c for e in o.E] if shots == 1 else [[e / c for e in h] for h in o.E], shots)
    got = {}
    for k, w, path in rng.explore(go, grid=grid):
        got[k] = got.get(k, 0) + w
        t.trans()
        t.state((repr(Q), sched, tuple(path)))
    t.check(repr(o.qubo) == before, "the run changed the QUBO")
    t.check(abs(sum(got.values()) - 1) < 1e-9, "weights")
    t.check(same(got, exp), lambda: f"QUBO {Q}, schedule (Ts, R, target, ite) {sched[:4]}, {shots} shots: (result, energies) {worst(got, exp)}")
    t.trace()
    t.outcome(f"{n} variables, {shots} shots")


HQ = [[[1.0]], [[-1, 2], [0, -1]], np.array([[0.5, -1], [0, 0]]), triu(3, (-1, 2, 0, 1, 0, -1))]


def hist(t, d):
    """records and results of one optimiser object are those of a fresh one, whatever ran before"""
    for L in (2, 3):
        for rest in itertools.product(range(len(HQ)), repeat=L - 1):
            seq = (d["a"], *rest)
            for shots in itertools.product((1, 2), repeat=L):
                o = wq.Opt()
                for j, (i, sh) in enumerate(zip(seq, shots)):
                    sched = SCHED[(i + j) % 3]
                    res = []
                    for obj in (o, wq.Opt()):
                        obj.qubo = HQ[i]
                        obj.Ts, obj.R, obj.ite = sched[0], sched[1], 3
                        src = rng.Script(u=lambda s: (len(s.log) * 0.37 + 0.1 * j) % 1, idx=lambda s, n: (len(s.log) * 7 + j) % n)
                        with rng.active(src):
                            res.append(record(obj.run(shots=sh, targetT=sched[2]), obj.E, sh))
                    t.trans()
                    t.check(res[0] == res[1], lambda: f"run {j} of the sequence {seq} with shots {shots}: {res[0]}, on a fresh optimiser {res[1]}")
                    for x, h in res[0]:
                        t.check(h[-1] == rnd(energy(HQ[i], x)), lambda: f"last energy {h[-1]} of {x}, QUBO {HQ[i]}")
                t.state((seq, shots))
    t.trace()
    t.outcome("histories")


LONG = [triu(3, (-1, 2, 0.5, 1, -1, -1)), triu(4, (-3, 2, 2, 2, -3, 2, 2, -3, 2, -3)), triu(2, (-1, 2.5, -2)), [[-1]], [[2]], full(3, (1, 1, 0, -2, 0, 0, 1, 0.5, -1)), triu(5, (-1, .5, -1, 2, 0, 1, -1, -1, .25, -2, 3, 1, .5, -2, 1))]


def long(t, d):
    Q, mode = LONG[d["i"]], d["mode"]
    n = len(Q)
    E = energies(Q)
    for init in bits(n):
        for step in (1, 2) if n > 2 and n % 2 else (1,):
            for u in (0.0, 1 - 1e-12):
                first = list(init)
                pos = [0]

                def idx(s, k):
                    if first:
                        if k == 2:
                            return first.pop(0)
                    pos[0] += step
                    return (pos[0] - step) % k
                # initial spins: choice among 2; sites afterwards
                src = rng.Script(u=lambda s: u, idx=idx)
                o = wq.Opt()
                o.qubo = Q
                if mode == "normal":
                    o.ite = 60
                elif sum(init) % 3:      # the fast schedule is fixed
                    o.R, o.ite = ((0.5, 3), (0.99, 250))[sum(init) % 3 - 1]
                with rng.active(src):
                    x = o.run(sampler=mode) if mode == "fast" else o.run()
                T = temps(5, 0.75 if mode == "fast" else 0.95, 0.02)
                per = 100 if mode == "fast" else 60
                t.trans(per * len(T))
                t.check(len(o.E) == len(T) + 1, lambda: f"{mode}: {len(o.E)} energies for {len(T)} temperatures")
                # reference: same sites, same decisions
                y, h, p = list(init), [E[tuple(init)]], 0
                for Tk in T:
                    for _ in range(per):
                        i = p % n
                        p += step
                        z = y[:]
                        z[i] ^= 1
                        dE = E[tuple(z)] - E[tuple(y)]
                        if dE <= 0 or math.exp(-dE / Tk) > u:
                            y = z
                    h.append(E[tuple(y)])
                t.check(tuple(x) == tuple(y) and np.allclose(o.E, h), lambda: f"{mode} annealing of {Q} from {init}, sites in steps of {step}, u={u}: result {x}, expected {y}")
                t.state((d["i"], mode, init, step, u))
    t.trace()
    t.outcome(f"long {mode}")


LONG2 = [triu(n, [((5 * k * k + 3 * k + n) % 9) / 2 - 2 for k in range(n * (n + 1) // 2)]) for n in (1, 3, 5, 6, 8, 10)] + [full(4, [((7 * k) % 5) - 2 for k in range(16)])]


def shots_(t, d):
    """several shots under one scripted source: each shot is the model's, one after the other"""
    Q, shots = LONG2[d["i"]], d["shots"]
    n = len(Q)
    E = {x: energy(Q, x) for x in bits(n)}
    for Ts, R, target, ite in ((3.0, 0.6, 0.1, 9), (0.7, 0.5, 0.02, 30), (5, 0.9, 0.3, 4)):
        for step, uu in ((1, 0.0), (3, 1 - 1e-12), (7, 0.0), (1, 1 - 1e-12)):
            cnt = [0]

            def idx(s, k):
                cnt[0] += 1
                return (cnt[0] * step + cnt[0] // 3) % k
            o = wq.Opt()
            o.qubo = FORMS[("list", "array")[step % 2]](Q)
            o.Ts, o.R, o.ite = Ts, R, ite
            with rng.active(rng.Script(u=lambda s: uu, idx=idx)):
                res = o.run(shots=shots, targetT=target)
            got = record(res, o.E, shots)
            c = 0
            for sh in range(shots):
                def nxt(k):
                    nonlocal c
                    c += 1
                    return (c * step + c // 3) % k
                y = [nxt(2) for _ in range(n)]
                h = [rnd(E[tuple(y)])]
                for T in temps(Ts, R, target):
                    for _ in range(ite):
                        i = nxt(n)
                        z = y[:]
                        z[i] ^= 1
                        dE = E[tuple(z)] - E[tuple(y)]
                        if dE <= 1e-12 or math.exp(-dE / T) > uu:
                            y = z
                    h.append(rnd(E[tuple(y)]))
                t.trans(len(h))
                t.check(got[sh][0] == tuple(y), lambda: f"shot {sh} of {shots}, QUBO {Q}, schedule {(Ts, R, target, ite)}: result {got[sh][0]}, expected {tuple(y)}")
                t.check(np.allclose(got[sh][1], h), lambda: f"shot {sh} of {shots}, QUBO {Q}: energies {got[sh][1]}, expected {h}")
            t.state((d["i"], shots, Ts, step, uu))
    t.trace()
    t.outcome("several shots")


def steps(t, d):
    """the number of temperatures, close to and away from the target; exact where the powers of R are"""
    R = d["R"]
    for target in (0.02, 0.5, 1.0, 3.0):
        for k in range(0, 9):
            for eps in (0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3, 0.02):
                if not eps and R > 0.5:
                    continue
                Ts = target / R ** k * (1 + eps)
                exp = len(temps(Ts, R, target))
                for sampler in ("normal", "fast") if R == 0.75 and k < 4 else ("normal",):
                    o = wq.Opt()
                    o.qubo = [[1.0]]
                    o.Ts, o.R, o.ite = Ts, R, 1
                    with rng.active(rng.Script(u=lambda s: 0.5, idx=lambda s, n: 0)):
                        o.run(targetT=target, sampler=sampler)
                    t.trans()
                    t.check(len(o.E) == exp + 1, lambda: f"from temperature {Ts!r} to {target}, factor {R}: {len(o.E) - 1} temperatures, expected {exp}")
                t.state((R, target, k, eps))
    t.trace()
    t.outcome("steps")


def printed(t):
    """printing changes nothing: the same random source with and without it, for equal and different shots"""
    for Q in (triu(2, (-1, 2, -1)), triu(2, (-1, 0, -1)), triu(3, (-1, 2, 2, -1, 2, -1))):
        for shots in (1, 2, 3, 5):
            for pat in ((0.5,), (0.1, 0.9, 0.4), (0.99, 0.02, 0.7, 0.3, 0.6)):
                for step in (0, 1, 3):
                    got = []
                    for verbose in (False, True):
                        src = rng.Script(u=lambda s: pat[len(s.log) % len(pat)], idx=lambda s, n: len(s.log) * step % n)
                        o = opt(Q, SCHED[1])
                        with rng.active(src), contextlib.redirect_stdout(io.StringIO()):
                            r = o.run(shots=shots, targetT=0.9, verbose=verbose)
                        got.append((repr(r), repr(o.E)))
                    t.check(got[0] == got[1], lambda: f"{shots} shots: {got[0]}, printed {got[1]}")
                    t.check(shots == 1 or len(r) == shots, lambda: f"{len(r)} results for {shots} shots")
                    t.trans(2)


def api(t):
    printed(t)
    Q = triu(2, (-1, 2, -1))
    for shots in (1, 2, 3):
        for kw in (dict(), dict(verbose=True)):
            buf = io.StringIO()
            o = opt(Q, SCHED[1])
            with contextlib.redirect_stdout(buf):
                res = o.run(shots=shots, targetT=0.9, **kw)
            t.check(len(buf.getvalue().splitlines()) == (shots if kw else 0), lambda: f"verbose printed {buf.getvalue()!r}")
            t.check(all(str(x) in buf.getvalue() for x in ([res] if shots == 1 else res)) or not kw, "verbose printed other results")
            t.trans()
        for sampler in ("normal", "fast"):
            out = []
            for f in (lambda o: o.sa(shots, sampler) if shots > 1 else o.sa(sampler=sampler), lambda o: o.run(shots=shots, sampler=sampler)):
                o = opt(Q, (3.0, 0.8, 0.02, 7, 0))
                with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.37) % 1, idx=lambda s, n: (len(s.log) * 5) % n)):
                    out.append(record(f(o), o.E, shots))
            t.check(out[0] == out[1], "sa() and run() differ")
            t.trans()
    # J given directly, without QUBO
    for Q in M3[:4]:
        a = opt(Q, SCHED[2])
        a.qi()
        b = wq.Opt()
        b.J, b.ep = a.J, a.ep
        out = []
        for o in (a, b):
            o.Ts, o.R, o.ite = 1.5, 0.7, 5
            with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.37) % 1, idx=lambda s, n: (len(s.log) * 5) % n)):
                out.append(record(o.run(targetT=0.5), o.E, 1))
        t.check(out[0] == out[1], lambda: f"annealing from J {out[1]}, from the QUBO {out[0]}")
    t.trace()
    t.state("api")
    t.outcome("interface")


def run_case(t, d):
    dict(dist=dist, hist=hist, steps=steps, long=long, shots=shots_, api=lambda t, d: api(t))[d["kind"]](t, d)
