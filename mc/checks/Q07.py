"""Boltzmann-machine helpers: all small shapes, vectors, sampled configurations and training histories against the formulas."""
import contextlib, io, itertools, math
import numpy as np
from mc import rng
from mc.wqm import bits
from blueqat import wq

BOUNDS = {
 "quick": "dbms: all shapes of 1-4 layers of 1-3 units and 5-6 layers of 1-2 units x 4 weights and the random case; sigm; hidden activations and data matrices for all visible vectors of all 2-layer shapes v<=3,h<=3 x 3 weight matrices; model matrices for every list of 1-3 sampled configurations (<=4 units) and all of one configuration (6 units); "
          "1-2 training epochs over every choice of training vector and sampled configuration; real annealer runs; layers of 4-12 units and up to 6 layers; activations and data for 4-8 visible and 3-8 hidden units; model matrices of 4-40 configurations; trainings of 6 epochs",
 "thorough": "lists of four sampled configurations"}


def cases(tier):
    out = []
    for L in (1, 2, 3, 4):
        for sh in itertools.product((1, 2, 3), repeat=L):
            if sum(sh) <= 9:
                out.append(dict(kind="dbms", shape=list(sh)))
    for L in (5, 6):
        for sh in itertools.product((1, 2), repeat=L):
            out.append(dict(kind="dbms", shape=list(sh)))
    for v in (1, 2, 3):
        for h in (1, 2, 3):
            out.append(dict(kind="data", v=v, h=h))
            for shots in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                if 2 ** ((v + h) * shots) <= (5000 if tier == "quick" else 70000):
                    out.append(dict(kind="model", v=v, h=h, shots=shots))
            if v + h <= 4:
                for al in range(3):
                    out.append(dict(kind="fit", v=v, h=h, al=al))
    for sh in ([4, 5], [5, 4, 3], [10, 2], [2, 10], [6, 6], [2, 2, 2, 2, 2, 2], [1, 8, 1], [12], [3, 4, 5, 2]):
        out.append(dict(kind="dbms", shape=sh))
    for v, h in ((4, 3), (5, 2), (4, 6), (8, 8), (7, 3)):
        out.append(dict(kind="data", v=v, h=h))
        out.append(dict(kind="bigfit", v=v, h=h))
    out.append(dict(kind="sigm"))
    out.append(dict(kind="real"))
    return out


def layers(sh):
    lay, c = [], 0
    for s in sh:
        lay.append(list(range(c, c + s)))
        c += s
    return lay


def coupled(sh):
    lay = layers(sh)
    return {(i, j) for a, b in zip(lay, lay[1:]) for i in a for j in b}


def weights(n, seed):
    return [[(((i * 3 + j * 5 + seed) % 7) - 3) / 2 if j >= i else 0.0 for j in range(n)] for i in range(n)]


def sig(x):
    return 1 / (1 + math.exp(-x))


def hidden(v, W):
    n, N = len(v), len(W)
    return [sig(W[i][i] + sum(W[j][i] * v[j] for j in range(n))) for i in range(n, N)]


def data(v, W):
    h = hidden(v, W)
    N = len(W)
    D = np.zeros((N, N))
    for i, x in enumerate(list(v) + h):
        D[i][i] = x
    for i in range(len(v)):
        for j in range(len(h)):
            D[i][len(v) + j] = v[i] * h[j]
    return D


def model(confs, nv, nh):
    N = nv + nh
    D = np.zeros((N, N))
    for i in range(N):
        D[i][i] = sum(c[i] for c in confs) / len(confs)
    for i in range(nv):
        for j in range(nv, N):
            D[i][j] = sum(c[i] * c[j] for c in confs) / len(confs)
    return D


def stub(o, confs, log):
    def run(shots=1, *a, **k):
        log.append((shots, a, k, np.array(o.qubo, dtype=float)))
        return [list(c) for c in confs] if shots > 1 else list(confs[0])
    o.run = o.sa = run


def run_case(t, d):
    k = d["kind"]
    if k == "dbms":
        sh = d["shape"]
        n, cp = sum(sh), coupled(sh)
        for w in (0.5, -1, 2.25, 1e-3):
            for f in (list, np.array):
                arg = f(sh)
                m = np.asarray(wq.dbms(arg, w))
                t.check(list(arg) == sh, "dbms changed its argument")
                e = np.array([[0.5 if i == j else (w if (i, j) in cp else 0) for j in range(n)] for i in range(n)])
                t.check(m.shape == (n, n) and np.array_equal(m, e), lambda: f"dbms({sh}, {w}) = {m.tolist()}")
                t.trans()
        src = rng.Script(u=lambda s: (len(s.log) * 0.0137 + 0.003) % 1, idx=lambda s, q: 0)
        with rng.active(src):
            m = np.asarray(wq.dbms(sh))
        drawn = [x[1] for x in src.log if x[0] == "u"]
        pos = {(i, i) for i in range(n)} | cp
        t.check(m.shape == (n, n) and all((m[i][j] != 0) == ((i, j) in pos) for i in range(n) for j in range(n)), lambda: f"dbms({sh}) = {m.tolist()}")
        t.check(sorted(m[i][j] for i, j in pos) == sorted(drawn), lambda: f"dbms({sh}): entries {sorted(m[i][j] for i, j in pos)} are not the {len(drawn)} values drawn")
        o = wq.Opt()
        with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.0137 + 0.003) % 1, idx=lambda s, q: 0)):
            if len(sh) > 1:
                o.setRBM(sh)
                q = np.asarray(o.qubo)
                t.check(o.RBMvisible == sh[0] and o.RBMhidden == sh[1], "setRBM layer sizes")
                t.check(all((q[i][j] != 0) == ((i, j) in pos) for i in range(n) for j in range(n)) and q.shape == (n, n), lambda: f"setRBM({sh}): {q.tolist()}")
        t.state(tuple(sh))
    elif k == "sigm":
        for x in [i / 4 for i in range(-80, 81)] + [0, 50, -50]:
            t.check(abs(wq.sigm(x) - sig(x)) < 1e-12, lambda: f"sigm({x}) = {wq.sigm(x)}")
            t.trans()
        a = np.array([-1.0, 0, 2])
        t.check(np.allclose(wq.sigm(a), [sig(v) for v in (-1, 0, 2)]) and list(a) == [-1, 0, 2], "sigm of an array")
        t.state("sigm")
    elif k == "data":
        v, h = d["v"], d["h"]
        for seed in range(3):
            W0 = weights(v + h, seed)
            for W in (W0, np.array(W0)):
                b = repr(W)
                for x in bits(v):
                    x = list(x)
                    g = wq.rbm_hmodel(x, W)
                    t.check(len(g) == h and np.allclose(g, hidden(x, W0), atol=1e-12), lambda: f"hidden activations of {x} with {W0}: {g}, expected {hidden(x, W0)}")
                    D = np.asarray(wq.rbm_data_qubo(x, W))
                    t.check(D.shape == (v + h, v + h) and np.allclose(D, data(x, W0), atol=1e-12), lambda: f"data matrix of {x} with {W0}: {D.tolist()}, expected {data(x, W0).tolist()}")
                    t.check(repr(W) == b and x == list(x), "arguments changed")
                    t.trans()
                    t.state((v, h, seed, tuple(x)))
    elif k == "model":
        v, h, shots = d["v"], d["h"], d["shots"]
        for confs in itertools.product(bits(v + h), repeat=shots):
            o = wq.Opt()
            o.qubo = weights(v + h, 1)
            o.RBMvisible, o.RBMhidden = v, h
            b, log = repr(o.qubo), []
            stub(o, confs, log)
            m = np.asarray(o.rbm_model_qubo(shots=shots, targetT=0.3))
            e = model(confs, v, h)
            t.check(np.allclose(m, e), lambda: f"model matrix of {confs}: {m.tolist()}, expected {e.tolist()}")
            t.check(log and sum(x[0] for x in log) == shots and repr(o.qubo) == b, lambda: f"sampled {log} for {shots} shots")
            t.trans()
            t.state((v, h, confs))
    elif k == "bigfit":
        v, h = d["v"], d["h"]
        N = v + h
        C = [tuple((k * k * (q + 1) + q * q + k) % 7 % 2 for q in range(N)) for k in range(40)]
        for shots in (1, 4, 10, 40):
            o = wq.Opt()
            o.qubo = weights(N, 1)
            o.RBMvisible, o.RBMhidden = v, h
            log = []
            stub(o, C[:shots], log)
            m = np.asarray(o.rbm_model_qubo(shots=shots))
            e = model(C[:shots], v, h)
            t.check(np.allclose(m, e) and sum(x[0] for x in log) == shots, lambda: f"model matrix of {C[:shots]}: {m.tolist()}, expected {e.tolist()}")
            t.trans()
        for shots, al, ep in ((1, 0.9, 0.1), (4, 1.0, 0.25), (10, 0.5, -0.5)):
            train = [C[(3 * j + 1) % 40][:v] for j in range(5)]
            picks = []
            o = wq.Opt()
            o.qubo = weights(N, 2)
            o.RBMvisible, o.RBMhidden = v, h
            log = []
            stub(o, C[:shots], log)
            seq = [(j * 3 + shots) % 5 for j in range(6)]
            with rng.active(rng.Script(u=lambda s: 0.5, idx=lambda s, k: (picks.append(k), seq[(len(picks) - 1) % 6] % k)[1])):
                vd = [list(x) for x in train]
                o.fit(vd, shots=shots, alpha=al, epsilon=ep, epoch=6, verbose=False)
            t.check([list(x) for x in vd] == [list(x) for x in train], "training data changed")
            W = np.array(weights(N, 2))
            t.check(picks == [5] * 6, lambda: f"training vectors drawn among {picks}")
            for j in range(6):
                cum, here = 0, []
                for x in log:          # sampling calls of this epoch
                    if j * shots <= cum < (j + 1) * shots:
                        here.append(x[3])
                    cum += x[0]
                t.check(here and cum == 6 * shots and all(np.allclose(m, W) for m in here), lambda: f"epoch {j}: configurations sampled with the weights {[m.tolist() for m in here]}, current weights {W.tolist()}")
                W = al * W + ep * (data([1 - b for b in train[seq[j]]], W.tolist()) - model(C[:shots], v, h))
                t.trans()
            t.check(np.allclose(np.asarray(o.qubo), W), lambda: f"6 epochs on {train} with {shots} samples, alpha {al}, epsilon {ep}: weights {np.asarray(o.qubo).tolist()}, expected {W.tolist()}")
            t.state((v, h, shots))
    elif k == "fit":
        v, h = d["v"], d["h"]
        al, ep = ((0.9, 0.1), (1.0, 0.5), (0.5, -0.25))[d["al"]]
        C = bits(v + h)
        vs = [list(x) for x in bits(v)]
        for train in ([vs[0]], [vs[-1], vs[1 % len(vs)]], vs[:3], vs[::-1][:5]):
            for ci in range(0, len(C)):
                confs = (C[ci], C[(ci * 5 + 3) % len(C)])
                for epochs in (1, 2):
                    def go():
                        o = wq.Opt()
                        o.qubo = weights(v + h, 2)
                        o.RBMvisible, o.RBMhidden = v, h
                        stub(o, confs, [])
                        vd = [list(x) for x in train]
                        o.fit(vd, shots=2, alpha=al, epsilon=ep, epoch=epochs, verbose=False)
                        t.check(vd == train, "training data changed")
                        return np.asarray(o.qubo)
                    got = {}
                    for W, w, path in rng.explore(go, grid=2):
                        key = tuple(round(float(x), 9) + 0.0 for x in W.ravel())
                        got[key] = got.get(key, 0) + w
                        t.trans()
                    exp = {}
                    for pick in itertools.product(train, repeat=epochs):
                        W = np.array(weights(v + h, 2))
                        for x in pick:
                            W = al * W + ep * (data([1 - b for b in x], W.tolist()) - model(confs, v, h))
                        key = tuple(round(float(x), 9) + 0.0 for x in W.ravel())
                        exp[key] = exp.get(key, 0) + len(train) ** -epochs
                    gk, ek = sorted(got), sorted(exp)
                    ok = len(gk) == len(ek) and all(np.allclose(a, b, atol=1e-7) and abs(got[a] - exp[b]) < 1e-9 for a, b in zip(gk, ek))
                    t.check(ok, lambda: f"{epochs} epochs on {train} with samples {confs}, alpha {al}, epsilon {ep}: weights {gk}, expected {ek}")
                    t.state((v, h, al, str(train), ci, epochs))
    else:
        for sh in ([1, 1], [2, 1], [2, 2], [1, 3]):
            for shots in (1, 2, 5):
                o = wq.Opt()
                o.setRBM(sh)
                b = np.array(o.qubo)
                seen = []
                real = wq.Opt.run

                def rec(*a, **k):
                    r = real(o, *a, **k)
                    seen.append(([r] if k.get("shots", a[0] if a else 1) == 1 else r, k))
                    return r
                o.run = rec
                m = np.asarray(o.rbm_model_qubo(shots=shots, targetT=1.0))
                confs = [c for s, _ in seen for c in s]
                t.check(len(confs) == shots and np.allclose(m, model(confs, *sh)), lambda: f"model matrix of {confs}: {m.tolist()}")
                t.check(np.array_equal(np.asarray(o.qubo), b), "sampling changed the weights")
                for verbose in (True, False):
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        o.fit([[1] * sh[0]], shots=shots, targetT=1.0, epoch=3, verbose=verbose)
                    t.check(buf.getvalue().count("epoch") == (3 if verbose else 0), lambda: f"printed {buf.getvalue()!r}")
                    t.trans()
                t.check(np.asarray(o.qubo).shape == b.shape, "weights of another shape")
                t.state((tuple(sh), shots))
    t.trace()
    t.outcome(k)
