"""QUBO -> Ising and QUBO -> Pauli: all assignments of all small matrices, in every accepted container."""
import itertools
import numpy as np
from mc.wqm import bits, energy, FORMS, triu, full
from blueqat import wq

BOUNDS = {
 "quick": "all assignments of: all 1x1 and 2x2 matrices over 6 values (asymmetric included), all upper and lower triangular and symmetric 3x3 over 3 values, all 3x3 over {0,1}, all 4x4 and 5x5 matrices with one or two non-zero entries, dense 4x4..6x6; 6 containers; all sequences of length <=3 of assigning one of 6 matrices and converting; 6 kinds of matrices with 7..10 variables; entries from 2^-200 to 2^100, judged relatively",
 "thorough": "additionally all 3x3 over {-1,0,2}"}
A6 = (0, 1, -1, 0.5, -2.25, 3)
SEQ = [[[1]], [[-2, 1], [0.5, 0]], [[0, 3], [0, -1]], triu(3, (1, -1, 2, 0, 0.5, -3)), full(3, range(9)), [[0, 0], [4, 0]]]


def cases(tier):
    out = [dict(kind="one")]
    for a in range(6):
        for b in range(6):
            out.append(dict(kind="two", a=a, b=b))
    for a in itertools.product((0, -1, 2), repeat=2):
        for form in ("up", "low", "sym"):
            out.append(dict(kind="three", head=list(a), form=form))
        if tier == "thorough":
            out.append(dict(kind="full3", head=list(a)))
    for k in range(16):
        out.append(dict(kind="zeroone", k=k))
    for n in (4, 5):
        for i in range(n * n):
            out.append(dict(kind="sparse", n=n, i=i))
    for n in (4, 5, 6):
        out.append(dict(kind="dense", n=n))
    for n in (7, 8, 9, 10):
        for i in range(6):
            out.append(dict(kind="big", n=n, i=i))
    for j in (-200, -60, -30, 30, 60, 100):
        out.append(dict(kind="scale", j=j))
    for a in range(len(SEQ)):
        out.append(dict(kind="seq", a=a))
    return out


def ising(t, o, M, what):
    n = len(M)
    o.qi()
    J = np.array(o.J)
    t.check(J.shape == (n, n), lambda: f"{what}: J of shape {J.shape}")
    S = o.reJ()
    t.check(np.allclose(S, S.T) and np.allclose(np.triu(S), np.triu(J)), lambda: f"{what}: reJ() is {S.tolist()} for J {J.tolist()}")
    for x in bits(n):
        s = np.array([2 * b - 1 for b in x])
        e = energy(M, x)
        g = wq.Ei(s, o.J) + o.ep
        t.check(abs(g - e) < 1e-9, lambda: f"{what}: Ising energy of {x} is {g}, QUBO energy {e}")
        g = wq.Ei(s, S) + o.ep
        t.check(abs(g - e) < 1e-9, lambda: f"{what}: Ising energy with the symmetric matrix of {x} is {g}, QUBO energy {e}")
        t.check(list(s) == [2 * b - 1 for b in x], "energy evaluation changed the configuration")
        t.trans()


def one(t, M, forms=("list", "array")):
    n = len(M)
    ref = None
    for f in forms:
        Q = FORMS[f](M)
        before = repr(Q)
        o = wq.Opt()
        o.qubo = Q
        ising(t, o, M, f"QUBO {M} ({f})")
        t.check(repr(Q) == before and o.qubo is Q, lambda: f"qi() changed the QUBO {M}")
        if ref is None:
            ref = np.array([energy(M, tuple(k >> b & 1 for b in range(n))) for k in range(2 ** n)])
        P = wq.pauli(Q)
        m = np.asarray(P.to_matrix(n_qubits=n))
        t.check(np.abs(m - np.diag(ref)).max() < 1e-9, lambda: f"pauli({M}) ({f}) = {P!r}: diagonal {np.diag(m).real.tolist()}, energies {ref.tolist()}")
        t.check(repr(Q) == before, lambda: f"pauli() changed the QUBO {M}")
    t.state(repr(M))


def run_case(t, d):
    k = d["kind"]
    if k == "one":
        for v in A6 + (7, -0.125):
            one(t, [[v]], FORMS)
        for bad in ([[1, 2]], [[1, 2], [3]], [[1], [2]]):
            try:
                wq.pauli(bad)
                t.check(False, f"non-square {bad} accepted")
            except (AssertionError, IndexError, ValueError):
                t.trans()
    elif k == "two":
        for c, e in itertools.product(A6, repeat=2):
            one(t, [[A6[d["a"]], A6[d["b"]]], [c, e]], FORMS if d["a"] < 3 else ("list", "array"))
    elif k == "three":
        for rest in itertools.product((0, -1, 2), repeat=4):
            m = np.array(triu(3, [*d["head"], *rest]))
            if d["form"] == "low":
                m = m.T
            elif d["form"] == "sym":
                m = m + m.T
            one(t, m.tolist(), ("list", "fortran") if d["form"] == "up" else ("array",))
    elif k == "full3":
        for rest in itertools.product((0, -1, 2), repeat=7):
            one(t, full(3, [*d["head"], *rest]), ("list",))
    elif k == "zeroone":
        for rest in itertools.product((0, 1), repeat=5):
            one(t, full(3, [d["k"] >> b & 1 for b in range(4)] + list(rest)), ("rows", "ints"))
    elif k == "sparse":
        n = d["n"]
        for j in range(d["i"], n * n):
            v = [0] * (n * n)
            v[d["i"]] += 1.5
            v[j] += -2
            one(t, full(n, v), ("tuple",) if j % 2 else ("array",))
    elif k == "dense":
        n = d["n"]
        g = np.array([[((7 * i + 3 * j) % 11) - 4.5 for j in range(n)] for i in range(n)])
        for m in (g, np.triu(g), np.tril(g), g + g.T, np.triu(g) + np.triu(g, 1).T):
            one(t, m.tolist(), FORMS)
    elif k == "big":
        n, i = d["n"], d["i"]
        g = np.array([[((7 * a + 3 * b + i * a * b) % 13) / 2 - 2.75 for b in range(n)] for a in range(n)])
        m = (g, np.triu(g), np.tril(g), g + g.T, np.diag(np.diag(g)) + np.diag(np.diag(g, n - 1), n - 1) + np.diag(np.diag(g, -1), -1), np.where((np.arange(n)[:, None] * 5 + np.arange(n) * 3) % 7 == 1, g, 0))[i]
        one(t, m.tolist(), (("list",), ("array",), ("fortran",), ("rows",), ("tuple",), ("array",))[i])
    elif k == "scale":
        c = 2.0 ** d["j"]
        for base in (triu(2, (1, -2, 0.5)), full(2, (1, 2, -3, 0)), full(3, (1, 1, 0, -2, 0, 0, 1, 0.5, -1)), triu(4, (-3, 2, 2, 2, -3, 2, 2, -3, 2, -3)), [[0.75]]):
            M = [[v * c for v in r] for r in base]
            n = len(M)
            for f in ("list", "array"):
                o = wq.Opt()
                o.qubo = FORMS[f](M)
                o.qi()
                P = np.asarray(wq.pauli(o.qubo).to_matrix(n_qubits=n))
                for i, x in enumerate(tuple(k >> b & 1 for b in range(n)) for k in range(2 ** n)):
                    e = energy(base, x)
                    s = np.array([2 * b - 1 for b in x])
                    t.check(abs((wq.Ei(s, o.J) + o.ep) / c - e) < 1e-9, lambda: f"Ising energy of {x} is {wq.Ei(s, o.J) + o.ep}, QUBO {M}: {e * c}")
                    t.check(abs(P[i, i] / c - e) < 1e-9, lambda: f"pauli({M}) has {P[i, i]} at {x}, energy {e * c}")
                    t.trans()
            t.state((d["j"], str(base)))
    else:
        for L in (1, 2, 3):
            for rest in itertools.product(range(len(SEQ)), repeat=L - 1):
                o = wq.Opt()
                for i in (d["a"], *rest):
                    o.qubo = FORMS["array" if i % 2 else "list"](SEQ[i])
                    ising(t, o, SEQ[i], f"after {(d['a'], *rest)}")
                    ising(t, o, SEQ[i], f"after {(d['a'], *rest)}, again")
                t.state((d["a"], *rest))
    t.trace()
    t.outcome(k)
