"""QUBO constructors and Opt.add: energies of every small input over all assignments against the documented cost."""
import collections, itertools
import numpy as np
from mc import rng
from mc.wqm import *
from blueqat import wq

BOUNDS = {
 "quick": "sel: N<=5, K=0..N+1, every index list of length <=3 (repeats included); net: every edge list of length <=3 on <=4 nodes (reversed, repeated, loops; lists, tuples, arrays); sqr/mul: every integer vector (pair) of length <=3 over 4 values, plus length 4-6; diag, zeros, rands, counter; all sequences of <=4 additions from 14 operand/weight pairs, wrong sizes included; sel and diag to N=11, net on 6..12 nodes with up to 40 edges, sqr/mul of 7..10 numbers and of scales 1e-6..1e6, counter of 200 records of 10 bits, 30 additions in a row",
 "thorough": "five additions, mul pairs of length 4"}


def cases(tier):
    out = []
    for n in range(1, 6):
        for k in range(0, n + 2):
            out.append(dict(kind="sel", n=n, k=k))
    for n in range(2, 5):
        for e in range(n * n):
            out.append(dict(kind="net", n=n, e=e))
    for n in (1, 2, 3):
        for a in itertools.product((-2, 0, 1, 3), repeat=n):
            out.append(dict(kind="mul", a=list(a)))
    if tier == "thorough":
        for a in itertools.product((-2, 0, 1, 3), repeat=4):
            out.append(dict(kind="mul", a=list(a)))
    out += [dict(kind="mul", a=[1.5, -1, 2, 0.25], b=[0, 3, -1, 2]), dict(kind="mul", a=[1, 2, 3, 4, 5, -6], b=[2, 0, 1, -1, 4, 0.5])]
    out.append(dict(kind="misc"))
    for n in (6, 7, 8, 9, 10, 11):
        out.append(dict(kind="big", n=n))
    for a in range(len(OPS)):
        out.append(dict(kind="add", a=a, depth=4 if tier == "quick" else 5))
    return out


def agree(t, M, n, cost, what):
    a = np.asarray(M, dtype=float)
    t.check(a.shape == (n, n), lambda: f"{what}: shape {a.shape}")
    for x in bits(n):
        e = energy(a, x)
        t.check(abs(e - cost(x)) < 1e-9, lambda: f"{what}: energy of {x} is {e}, expected {cost(x)}; matrix {a.tolist()}")
        t.trans()
    t.check(np.allclose(a, np.triu(a)), lambda: f"{what}: entries below the diagonal {a.tolist()}")


def table(t, M, n, want, what):
    """energies of all assignments at once"""
    a = np.asarray(M, dtype=float)
    t.check(a.shape == (n, n) and np.allclose(a, np.triu(a)), lambda: f"{what}: {a.tolist()}")
    X = np.array(bits(n), dtype=float)
    e = np.einsum("ki,ij,kj->k", X, a, X)
    w = want(X)
    t.trans(len(X))
    bad = np.flatnonzero(abs(e - w) > 1e-9 * (1 + abs(w)))
    t.check(not len(bad), lambda: f"{what}: energy of {X[bad[0]].tolist()} is {e[bad[0]]}, expected {w[bad[0]]}")


def big(t, n):
    for K in range(0, n + 2):
        for arr in ([], [n - 1], [0, n // 2], list(range(n)), [1] * 5 + [n - 1, 0], [q % n for q in range(0, 40, 3)]):
            table(t, wq.sel(n, K, arr) if arr else wq.sel(n, K), n, lambda X: (X.sum(1) - K) ** 2 - K * K - 0.5 * sum((X[:, i] for i in arr), np.zeros(len(X))), f"sel({n},{K},{arr})")
            t.state(("sel", n, K, str(arr)))
    for j in range(8):
        edges = [((q * (j + 1) + j) % n, (q * (2 * j + 3) + 1) % n) for q in range((3, 12, 25, 40)[j % 4])]
        edges = [e[::-1] if (e[0] + j) % 2 else e for e in edges]
        dist = {tuple(sorted(e)) for e in edges}
        for v in ([list(e) for e in edges], np.array(edges)):
            for m in (n, n + 1):
                table(t, wq.net(v, m), m, lambda X: sum((X[:, a] * X[:, b] for a, b in dist), np.zeros(len(X))), f"net({edges},{m})")
        t.state(("net", n, j))
    for j in range(6):
        s = 10.0 ** ((0, -6, 6, -3, 3, 1)[j])
        a = [s * (((q * (j + 2) + 1) % 7) - 3) for q in range(n)]
        b = [(((q * q + j) % 5) - 2.5) for q in range(n)]
        table(t, wq.sqr(a), n, lambda X: (X @ a) ** 2, f"sqr({a})")
        table(t, wq.mul(a, np.array(b)), n, lambda X: (X @ a) * (X @ b), f"mul({a},{b})")
        table(t, wq.mul(np.array(b), tuple(a)), n, lambda X: (X @ a) * (X @ b), f"mul({b},{a})")
        table(t, wq.diag(a), n, lambda X: X @ a, f"diag({a})")
        t.state(("mul", n, j))
    rec = [[(k * k + q * (k % 7)) % 3 % 2 for q in range(n)] for k in range(200)]
    exp = collections.Counter("".join(map(str, x)) for x in rec)
    t.check(wq.counter(rec) == exp and wq.counter(np.array(rec)) == exp and wq.counter(rec).most_common(1)[0][1] == max(exp.values()), "counter of 200 records")
    o, cur = wq.Opt(), np.zeros((n, n))
    for k in range(30):
        m = np.array([[((i * (k + 1) + 2 * j + k) % 5) - 2.0 if j >= i else 0.0 for j in range(n)] for i in range(n)])
        w = (1, None, -0.5, 3, 0)[k % 5]
        o.add(m.tolist() if k % 2 else m) if w is None else o.add(m.tolist() if k % 2 else m, w)
        cur += m * (1 if w is None else w)
        t.check(np.allclose(np.asarray(o.qubo, float), cur), lambda: f"after {k + 1} additions")
        t.trans()


def run_case(t, d):
    k = d["kind"]
    if k == "sel":
        n, K = d["n"], d["k"]
        base = lambda x: (sum(x) - K) ** 2 - K * K
        agree(t, wq.sel(n, K), n, base, f"sel({n},{K})")
        for r in range(0, 4 if n < 5 else 3):
            for arr in itertools.product(range(n), repeat=r):
                for f in (list, tuple, np.array) if r else (list, tuple):
                    v = f(arr)
                    b = repr(v)
                    agree(t, wq.sel(n, K, v), n, lambda x: base(x) - 0.5 * sum(x[i] for i in arr), f"sel({n},{K},{v!r})")
                    t.check(repr(v) == b, lambda: f"sel changed its list {b} to {v!r}")
                t.state((n, K, arr))
        agree(t, wq.sel(n, K), n, base, f"sel({n},{K}) again")
    elif k == "net":
        n = d["n"]
        E = list(itertools.product(range(n), repeat=2))
        for r in range(1, 4):
            for rest in itertools.product(E, repeat=r - 1):
                edges = [E[d["e"]], *rest]
                dist = {tuple(sorted(e)) for e in edges}
                cost = lambda x: sum(x[a] * x[b] for a, b in dist)
                for f in (lambda e: [list(x) for x in e], lambda e: [tuple(x) for x in e], lambda e: np.array(e), lambda e: [np.array(x) for x in e], lambda e: tuple(tuple(x) for x in e)):
                    v = f(edges)
                    b = repr(v)
                    m = wq.net(v, n)
                    if r < 3 or f is not None and (n < 4 or sum(map(sum, edges)) % 3 == 0):
                        agree(t, m, n, cost, f"net({v!r},{n})")
                    else:
                        a = np.zeros((n, n))
                        for p, q in dist:
                            a[p][q] = 1
                        t.check(np.array_equal(m, a), lambda: f"net({v!r},{n}) = {m}")
                    t.check(repr(v) == b, lambda: f"net changed its edges {b} to {v!r}")
                t.state((n, tuple(edges)))
        if d["e"] == 0:
            agree(t, wq.net([], n), n, lambda x: 0, "net([])")
    elif k == "mul":
        a = d["a"]
        n = len(a)
        for f in (list, tuple, np.array):
            v = f(a)
            b = repr(v)
            agree(t, wq.sqr(v), n, lambda x: sum(p * q for p, q in zip(a, x)) ** 2, f"sqr({v!r})")
            t.check(repr(v) == b, "sqr changed its argument")
        for c in [d["b"]] if "b" in d else itertools.product((-2, 0, 1, 3), repeat=n):
            for f, g in ((list, np.array), (np.array, tuple)):
                v, w = f(a), g(c)
                b = repr((v, w))
                agree(t, wq.mul(v, w), n, lambda x: sum(p * q for p, q in zip(a, x)) * sum(p * q for p, q in zip(c, x)), f"mul({a},{list(c)})")
                t.check(repr((v, w)) == b, "mul changed its arguments")
            t.state((tuple(a), tuple(c)))
    elif k == "big":
        big(t, d["n"])
    elif k == "misc":
        for n in (1, 2, 3, 4):
            for v in itertools.product((-1, 0, 2.5), repeat=n):
                for f in (list, tuple, np.array):
                    a = f(v)
                    b = repr(a)
                    m = wq.diag(a)
                    agree(t, m, n, lambda x: sum(p * q for p, q in zip(v, x)), f"diag({v})")
                    t.check(repr(a) == b, "diag changed its argument")
                t.state(("diag", v))
            agree(t, wq.zeros(n), n, lambda x: 0, f"zeros({n})")
            z = wq.zeros(n)
            z += 5
            agree(t, wq.zeros(n), n, lambda x: 0, f"zeros({n}) again")
            for u in (lambda s: ((len(s.log) * 0.377 + 0.11) % 1), lambda s: 0.0, lambda s: 1 - 1e-12):
                src = rng.Script(u=u, idx=lambda s, k: 0)
                with rng.active(src):
                    m = wq.rands(n)
                drawn = {v for kind, v in ((x[0], x[-1]) for x in src.log) if kind == "u"}
                t.check(m.shape == (n, n) and all((m[i][j] in drawn) if j >= i else m[i][j] == 0 for i in range(n) for j in range(n)), lambda: f"rands({n}) = {m.tolist()} from {sorted(drawn)}")
                if len(drawn) > 1:
                    t.check(len({m[i][j] for i in range(n) for j in range(i, n)}) == n * (n + 1) // 2, "rands repeats one draw")
                t.trans()
            m1, m2 = wq.rands(n), wq.rands(n)
            t.check(not np.array_equal(m1, m2), "rands repeats itself")
        for n in (1, 2, 3):
            B = [list(x) for x in bits(n)]
            for r in range(0, 4):
                for c in itertools.product(B, repeat=r):
                    exp = collections.Counter("".join(map(str, x)) for x in c)
                    for f in (list, lambda z: [tuple(x) for x in z], lambda z: [np.array(x) for x in z]):
                        g = wq.counter(f(list(c)))
                        t.check(g == exp and isinstance(g, collections.Counter), lambda: f"counter({list(c)}) = {g}")
                    t.trans()
                t.state(("counter", n, r))
    else:
        add(t, d)
    t.trace()
    t.outcome(k)


A2, B2, C2 = [[1, 2], [0, -1]], [[0.5, -3], [1, 0]], [[2, 0], [0, 7]]
A3 = [[1, 0, 2], [0, -1, 1], [0, 0, 3]]
OPS = [(A2, 1, "list"), (A2, None, "array"), (B2, 2, "list"), (B2, -0.5, "array"), (C2, 0, "list"), (C2, 3, "ints"), (A3, 1, "array"), (A3, 2.5, "list"), ([[4]], 1, "list"), ([[-2]], 3, "array"),
       ("q0 + 2*q0*q1 - 3*q1", 1, "text"), ("(q0+q1-1)**2", 2, "text"), ("q2 - q0*q1", None, "text"), ("5*q0", -1, "text")]
TEXT = {"q0 + 2*q0*q1 - 3*q1": [[1, 2], [0, -3]], "(q0+q1-1)**2": [[-1, 2], [0, -1]], "q2 - q0*q1": [[0, -1, 0], [0, 0, 0], [0, 0, 1]], "5*q0": [[5]]}


_cache = {}


def assigned(t):
    """a QUBO assigned by the caller stays the caller's: additions do not write into it"""
    for A, B in itertools.product((A2, B2, C2), repeat=2):
        for f in FORMS.values():
            for g in FORMS.values():
                for seq in ((1,), (2.5, -1), (None, 3)):
                    o, a, b = wq.Opt(), f(A), g(B)
                    ra, rb = repr(a), repr(b)
                    o.qubo = a
                    cur = np.array(A, float)
                    for w in seq:
                        o.add(b) if w is None else o.add(b, w)
                        cur = cur + np.array(B, float) * (1 if w is None else w)
                        t.check(repr(a) == ra and repr(b) == rb, lambda: f"o.qubo = {ra}; o.add({rb}) changed the operands to {a!r}, {b!r}")
                        t.check(np.allclose(np.asarray(o.qubo, float), cur), lambda: f"o.qubo = {ra}; additions of {rb} with {seq}: {o.qubo}")
                        t.trans()
                    t.state((ra, rb, seq))


def add(t, d):
    if d["a"] == 0:
        assigned(t)
    for L in range(1, d["depth"] + 1):
        for rest in itertools.product(range(len(OPS)), repeat=L - 1):
            seq = (d["a"], *rest)
            ntext = sum(OPS[i][2] == "text" for i in seq)
            if L == 4 and (ntext > 1 or sum(seq) % 2) or L > 4 and ntext:
                continue
            o = wq.Opt()
            cur = None
            args = []
            for i in seq:
                q, M, form = OPS[i]
                val = q if form == "text" else FORMS[form](q)
                args.append((val, repr(val)))
                m = np.array(TEXT[q] if form == "text" else q, dtype=float) * (1 if M is None else M)
                before = None if cur is None else np.array(o.qubo, dtype=float)
                bad = cur is not None and cur.shape != m.shape
                try:
                    r = o.add(val) if M is None else (o.add(val, M) if i % 2 else o.add(val, M=M))
                    t.check(not bad, lambda: f"sequence {[OPS[j][:2] for j in seq]}: a QUBO of another size was accepted")
                    t.check(r is o, "add() does not return the optimiser")
                    cur = m if cur is None else cur + m
                except ValueError:
                    t.check(bad, lambda: f"sequence {[OPS[j][:2] for j in seq]}: {OPS[i][:2]} rejected")
                    t.check(np.array_equal(np.array(o.qubo, dtype=float), before), "a rejected addition changed the QUBO")
                t.trans()
                n = len(cur)
                g = np.asarray(o.qubo, dtype=float)
                t.check(g.shape == cur.shape, lambda: f"after {[OPS[j][:2] for j in seq]} the QUBO is {g.tolist()}")
                e = [energy(g, x) for x in bits(n)]
                w = [energy(cur, x) for x in bits(n)]
                t.check(np.allclose(e, w), lambda: f"after {[OPS[j][:2] for j in seq]} the QUBO is {g.tolist()}, expected {cur.tolist()}")
            for v, b in args:
                t.check(repr(v) == b, lambda: f"addition changed its argument {b} to {v!r}")
            # the optimiser keeps its own copy
            g = np.array(o.qubo, dtype=float)
            for v, _ in args:
                if isinstance(v, np.ndarray):
                    v += 1
                elif isinstance(v, list):
                    v[0][0] += 1
            t.check(np.array_equal(np.asarray(o.qubo, dtype=float), g), "changing an added matrix changes the QUBO")
            o.qi()
            s = np.array([1] * len(cur))
            t.check(abs(wq.Ei(s, o.J) + o.ep - cur.sum()) < 1e-9, "Ising energy of the accumulated QUBO")
            t.state(seq)
