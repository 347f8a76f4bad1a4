"""Simulated quantum annealing: the full choice tree of the real annealer against an exact path-integral model."""
import itertools, math
import numpy as np
from mc import rng
from mc.wqm import *
from mc.wqm import r as rnd
from blueqat import wq

BOUNDS = {
 "quick": "joint distribution of final slices and energy record over every outcome of the random source (acceptance draws on a 3-point grid): QUBOs of 1-2 variables over {-1,0,1.5} (asymmetric included) x 2-4 slices x 6 schedules, some with everything scaled by 2^-40..2^30; "
          "transverse fields from G/(T slices) = 1e-13 to 25 with a local field close to the coupling; runs of thousands of moves under scripted sources (never/always accepting uphill, mixed) for 1-8 variables x 2-5 (large QUBOs: also 8, 10) slices against the model; Ei_sqa on all configurations; histories of length <=3 of sqa and run",
 "thorough": "three-field schedules for all QUBOs, 3 variables"}
ASSUMPTIONS = ["reference path-integral model mc/wqm.py", "acceptance draws are compared on a finite grid of the unit interval; grid points within 1e-9 of an acceptance probability are skipped"]
# Tf, Gs, Gf, R, ite, grid
SCHED = [(0.8, 2.0, 1.2, 0.5, 1, 3), (0.5, 3.0, 1.0, 0.5, 1, 3), (1.5, 0.7, 0.5, 0.5, 2, 3), (0.3, 10, 4.0, 0.6, 1, 3), (1.0, 1.0, 1.0, 0.5, 1, 3), (1.0, 0.3, 0.2, 0.9, 1, 4)]


def size(n, P, s):
    Tf, Gs, Gf, R, ite, g = SCHED[s]
    return 2 ** (n * P) * (n * P * g) ** (ite * len(temps(Gs, R, Gf)))


def cases(tier):
    LIM = 12000 if tier == "quick" else 400000
    out = []
    QS = [[[v]] for v in (-2, 0, 0.7, 1.9)] + [triu(2, v) for v in itertools.product((-1, 0, 1.5), repeat=3)] + \
         [full(2, v) for v in ((1, 2, -3, 0), (0, 1, 1, 0), (-1, 0, 2.5, 1))] + [triu(3, v) for v in ((-1, 2, 0.5, 1, -1, -1), (1, -2, 0, -1, 3, 0.5))]
    for Q in QS:
        for P in (2, 3, 4):
            for s in range(len(SCHED)):
                if size(len(Q), P, s) < LIM:
                    out.append(dict(kind="dist", Q=Q, P=P, s=s))
    for i, Q in enumerate(([[-2]], [[0.7]], triu(2, (-1, 0, 1.5)), triu(2, (0, 1.5, -1)))):
        for sc in (-40, -20, -10, 10, 30):
            if size(len(Q), 2, i) < LIM:
                out.append(dict(kind="dist", Q=Q, P=2, s=i, scale=sc))
    for e in (0.02, 1e-3, 1e-4, 1e-6, 1e-9, 1e-13, 0.3, 1.5, 4.0, 9.0, 17.0, 25.0):
        for P in (2, 3):
            for off in (0.4, -0.4, 1.3):
                for sg in (1, -1):
                    out.append(dict(kind="field", x=e, P=P, off=off, sg=sg))
    for i in range(len(LONG)):
        for P in (2, 3, 4, 5) if i < 6 else (3, 8, 10):
            out.append(dict(kind="long", i=i, P=P))
    for i in range(3):
        out.append(dict(kind="hist", a=i))
    for n, P in ((1, 1), (1, 2), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
        out.append(dict(kind="energy", n=n, P=P))
    out.append(dict(kind="default"))
    return out


def opt(Q, P, sched, form="list"):
    Tf, Gs, Gf, R, ite, grid = sched
    o = wq.Opt()
    o.qubo = FORMS[form](Q)
    o.Tf, o.Gs, o.Gf, o.R, o.ite, o.tro = Tf, Gs, Gf, R, ite, P
    return o


def slices(t, q, P, n):
    a = np.asarray(q)
    t.check(a.shape == (P, n) and np.isin(a, (-1, 1)).all(), lambda: f"{P} slices of {n} spins: result {q!r}")
    return tuple(tuple(int((v + 1) // 2) for v in row) for row in a)


def dist(t, d):
    Q, P = d["Q"], d["P"]
    n = len(Q)
    sched = SCHED[d["s"]]
    Tf, Gs, Gf, R, ite, grid = sched
    E = energies(Q)
    try:
        exp = sqa_run(E, n, P, Tf, Gs, Gf, R, ite, grid)
    except Tie:
        t.outcome("grid tie skipped")
        return
    c = 2.0 ** d.get("scale", 0)
    o = opt([[v * c for v in q] for q in Q], P, (Tf * c, Gs * c, Gf * c, R, ite, grid), "array" if d["s"] % 2 else "list")
    before = repr(o.qubo)

    def go():
        q = o.sqa()
        return slices(t, q, P, n), tuple(rnd(e / c) for e in o.E)
    got = {}
    for k, w, path in rng.explore(go, grid=grid):
        got[k] = got.get(k, 0) + w
        t.trans()
        t.state((repr(Q), P, d["s"], tuple(path)))
    t.check(repr(o.qubo) == before, "the run changed the QUBO")
    t.check(same(got, exp), lambda: f"QUBO {Q}, {P} slices, (Tf, Gs, Gf, R, ite) {sched[:5]}: (slices, energies) {worst(got, exp)}")
    t.trace()
    t.outcome(f"{n} variables, {P} slices")


def field(t, d):
    """transverse fields from very weak to very strong: the local field nearly cancels the coupling of the slices"""
    x, P = d["x"], d["P"]
    Tf = 0.8
    K = -2 * Tf * math.log(math.tanh(x))          # cost of leaving two aligned neighbours
    G = x * Tf * P
    Q = [[d["sg"] * (P * (K - d["off"] * Tf))]]
    sched = (Tf, G, G * 0.9, 0.5, 1, 3)
    try:
        exp = sqa_run(energies(Q), 1, P, *sched)
    except Tie:
        t.outcome("grid tie skipped")
        return
    o = opt(Q, P, sched)

    def go():
        q = o.sqa()
        return slices(t, q, P, 1), tuple(rnd(e) for e in o.E)
    got = {}
    for k, w, path in rng.explore(go, grid=3):
        got[k] = got.get(k, 0) + w
        t.trans()
        t.state((d["x"], P, d["off"], d["sg"], tuple(path)))
    t.check(same(got, exp), lambda: f"QUBO {Q}, {P} slices, (Tf, Gs, Gf, R, ite) {sched[:5]}: (slices, energies) {worst(got, exp)}")
    t.trace()
    t.outcome(f"field {x:g}")


LONG = [[[-1]], [[0.5]], triu(2, (-1, 2.5, -2)), full(2, (0, 1, 1, 0)), triu(3, (-1, 2, 0.5, 1, -1, -1)), triu(4, (-3, 2, 2, 2, -3, 2, 2, -3, 2, -3)), triu(5, [((5 * k) % 7) / 2 - 1.5 for k in range(15)]), triu(8, [((5 * k * k + k) % 9) / 2 - 2 for k in range(36)])]


def scripted(t, Q, P, sched, init, su, useed):
    """real run and model under the same site/slice/acceptance script; None where a decision is too close to call"""
    n = len(Q)
    Tf, Gs, Gf, R, ite, grid = sched
    E = energies(Q)
    first = list(init)
    draws = []          # sequence of moves made by the real code: (x, y, u or None)

    def idx(s, k):
        if first:
            return first.pop(0)
        v = (len(draws) * su + len(draws) // 3) % k
        draws.append(v)
        return v
    us = []

    def u(s):
        if useed is None:
            return 0.0
        v = 1 - 1e-12 if useed == "greedy" else (len(draws) * useed) % 1
        us.append(v)
        return v
    o = opt(Q, P, sched)
    with rng.active(rng.Script(u=u, idx=idx)):
        q = o.sqa()
    return slices(t, q, P, n), [rnd(e) for e in o.E]


def long(t, d):
    """with always/never-uphill scripts the record must match the energy of the path the moves can reach"""
    Q, P = LONG[d["i"]], d["P"]
    n = len(Q)
    E = energies(Q)
    if n * P > 20:
        inits = [tuple((k * k * a + k * b) % 5 % 2 for k in range(n * P)) for a, b in ((0, 0), (1, 2), (3, 1), (0, 3))]
    else:
        inits = list(itertools.product((0, 1), repeat=n * P))
    if len(inits) > 16:
        inits = inits[:: max(1, len(inits) // 16)]
    for init in inits:
        for sched in ((0.02, 10, 0.02, 0.7, 12 * n * P if n < 5 else 2 * n * P, 0), (0.5, 4, 0.3, 0.8, 9, 0)):
            Tf, Gs, Gf, R, ite, _ = sched
            Gl = temps(Gs, R, Gf)
            for mode in ("greedy", None):
                q, h = scripted(t, Q, P, sched, init, 5 if (n * P) % 5 else 7, mode)
                t.trans(ite * len(Gl))
                t.check(len(h) == len(Gl) + 1, lambda: f"{len(h)} energies for {len(Gl)} field values")
                c0 = tuple(tuple(init[p * n + i] for i in range(n)) for p in range(P))
                t.check(abs(h[0] - path_energy(E, c0, Tf, Gs)) < 1e-6, lambda: f"first energy {h[0]} of {c0}, QUBO {Q}, expected {path_energy(E, c0, Tf, Gs)}")
                t.check(abs(h[-1] - path_energy(E, q, Tf, Gl[-1])) < 1e-6, lambda: f"last energy {h[-1]} of {q}, QUBO {Q}, expected {path_energy(E, q, Tf, Gl[-1])}")
                if mode == "greedy":
                    # never uphill: with the field fixed for one level, the energy cannot rise
                    t.check(h[1] <= h[0] + 1e-6, lambda: f"energy rises from {h[0]} to {h[1]} without uphill moves")
                t.state((d["i"], P, init, sched, mode))
    t.trace()
    t.outcome("long runs")


def hist(t, d):
    QS = [[[1.0]], triu(2, (-1, 2, -1)), np.array([[0.5, -1], [0, 0]])]
    for L in (2, 3):
        for rest in itertools.product(range(3), repeat=L - 1):
            for kinds in itertools.product(("sqa", "run"), repeat=L - 1):
                seq = (d["a"], *rest)
                o = wq.Opt()
                for j, (i, kd) in enumerate(zip(seq, kinds + ("sqa",))):
                    out = []
                    for obj in (o, wq.Opt()):
                        obj.qubo = QS[i]
                        obj.Tf, obj.Gs, obj.Gf, obj.R, obj.ite, obj.tro, obj.Ts = 0.5, 3.0, 1.0, 0.5, 3, 2 + j, 1.0
                        with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.37 + 0.1 * j) % 1, idx=lambda s, n: (len(s.log) * 7 + j) % n)):
                            q = obj.sqa() if kd == "sqa" else obj.run(targetT=0.6)
                        out.append((np.asarray(q).tolist(), [rnd(e) for e in obj.E]))
                    t.trans()
                    t.check(out[0] == out[1], lambda: f"step {j} of {list(zip(seq, kinds + ('sqa',)))}: {out[0]}, on a fresh optimiser {out[1]}")
                t.state((seq, kinds))
    t.trace()
    t.outcome("histories")


def energy_(t, d):
    n, P = d["n"], d["P"]
    Q = triu(n, [((3 * k + 1) % 7) - 3.5 for k in range(n * (n + 1) // 2)])
    E = energies(Q)
    o = wq.Opt()
    o.qubo = Q
    o.qi()
    for J in (o.J, o.reJ()):
        for T, G in ((0.02, 10), (1.0, 0.5), (0.3, 2.0)):
            for c in itertools.product(bits(n), repeat=P):
                q = np.array([[2 * b - 1 for b in s] for s in c])
                g = wq.Ei_sqa(q, J, T, P, G) + o.ep
                e = path_energy(E, c, T, G)
                t.check(abs(g - e) < 1e-8 * max(1, abs(e)), lambda: f"Ei_sqa of {c} (T={T}, G={G}, QUBO {Q}) is {g}, expected {e}")
                t.trans()
                t.state((n, P, T, G, c))
    t.trace()
    t.outcome("energies")


def run_case(t, d):
    k = d["kind"]
    if k == "default":
        o = wq.Opt()
        o.qubo = triu(2, (-1, 2, -1))
        o.ite = 2
        q = o.sqa()
        slices(t, q, 8, 2)
        t.check(len(o.E) == len(temps(10, 0.95, 0.02)) + 1, lambda: f"{len(o.E)} energies with default fields")
        t.trans(), t.trace(), t.state("default")
        t.outcome("defaults")
    else:
        dict(dist=dist, field=field, long=long, hist=hist, energy=energy_)[k](t, d)
