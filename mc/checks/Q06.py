"""Two-body reduction: every sum of multilinear terms over a small alphabet, every assignment of original and auxiliary variables, several hash seeds."""
import itertools
import numpy as np
import sympy
from mc import sub
from blueqat import wq

BOUNDS = {
 "quick": "4 variables: every non-empty set of the 5 monomials of degree 3-4 x coefficients {1,-2,(2.5)} patterns x 9 lower parts; 5 variables: every set of <=2 monomials of degree 3-5 (plus lower terms); 6-7 variables: single monomials of degree 5-7; 8-10 variables: 12 polynomials of up to 9 high-degree terms sharing pairs, and terms of degree 8-10; all assignments of originals and auxiliaries; two-symbol naming schemes; PYTHONHASHSEED 0-6",
 "thorough": "all coefficient patterns, 5 variables with <=3 monomials, PYTHONHASHSEED 0-20"}
LOW = [(), ((0,),), ((0, 1),), ((), (2,)), ((1, 2), (0, 3)), ((0,), (1,), (2, 3)), ((0, 2), (1, 3), (0, 1)), ((),), ((3,), (0, 3))]


def cases(tier):
    out = []
    H4 = [c for r in (3, 4) for c in itertools.combinations(range(4), r)]
    for r in range(1, 6):
        for hs in itertools.combinations(range(5), r):
            for l in range(len(LOW)):
                out.append(dict(kind="four", hs=list(hs), low=l, full=tier != "quick"))
    H5 = list(range(16))
    for r in (1, 2) if tier == "quick" else (1, 2, 3):
        for hs in itertools.combinations(range(16), r):
            out.append(dict(kind="five", hs=list(hs)))
    for n in (5, 6, 7):
        out.append(dict(kind="big", n=n))
    for i in range(12):
        out.append(dict(kind="wide", i=i))
    out.append(dict(kind="plain"))
    for h in range(1, 7 if tier == "quick" else 21):
        out.append(dict(kind="hash", h=h))
    return out


def poly(expr, gens):
    """[(coefficient, indices)] of an expression"""
    p = sympy.Poly(sympy.expand(expr), *gens)
    out = []
    for e, c in p.terms():
        out.append((float(c), e))
    return out


def values(terms, X):
    v = np.zeros(len(X))
    for c, e in terms:
        if c:
            m = np.ones(len(X))
            for i, k in enumerate(e):
                if k:
                    m = m * X[:, i]
            v += c * m
    return v


def judge(t, monos, names="q{}", naux=None):
    """monos: {index tuple: coefficient}"""
    n = max([i for k in monos for i in k], default=0) + 1
    qs = [sympy.Symbol(names.format(i)) for i in range(n)]
    z = [sympy.Symbol(f"aux{i}") for i in range(naux or 40)]
    expr = sympy.Add(*[c * sympy.Mul(*[qs[i] for i in k]) for k, c in monos.items()])
    if not isinstance(expr, sympy.Add):
        return
    what = f"{expr}"
    ne, con, mp = wq.nbody_separation(expr, z)
    t.trans()
    aux = [v for v in mp.values()]
    t.check(len(set(aux)) == len(aux) and all(v in z for v in aux), lambda: f"{what}: mapping {mp}")
    used = [v for v in z if v in (sympy.sympify(ne).free_symbols | sympy.sympify(con).free_symbols)]
    t.check(set(used) == set(aux), lambda: f"{what}: auxiliary variables {used} used, mapping {mp}")
    gens = qs + aux
    te, tc = poly(ne, gens), poly(con, gens)
    for c, e in te + tc:
        t.check(sum(1 for k in e if k) <= 2, lambda: f"{what}: a term of {ne} / {con} has more than two variables")
    t.check(not (sympy.sympify(ne).free_symbols - set(gens)) and not (sympy.sympify(con).free_symbols - set(gens)), "unknown variables")
    # definitions
    byname = {str(g): i for i, g in enumerate(gens)}
    prod = {}
    for (a, b), v in mp.items():
        t.check(a in byname and b in byname, lambda: f"{what}: mapping names {a}, {b}")
        prod[byname[str(v)]] = (byname[a], byname[b])
    N = len(gens)
    if N > 18:
        # all originals, auxiliaries at their products and one off each
        base = np.array(list(itertools.product((0, 1), repeat=n)), dtype=np.int8)
        X = np.zeros((len(base), N), dtype=np.int8)
        X[:, :n] = base
        for i in range(n, N):
            X[:, i] = X[:, prod[i][0]] * X[:, prod[i][1]]
        blocks = [X]
        for i in range(n, N):
            Y = X.copy()
            Y[:, i] ^= 1
            blocks.append(Y)
        X = np.concatenate(blocks)
    else:
        k = np.arange(2 ** N)
        X = ((k[:, None] >> np.arange(N)) & 1).astype(np.int8)
    ok = np.ones(len(X), bool)
    for i in range(n, N):
        ok &= X[:, i] == X[:, prod[i][0]] * X[:, prod[i][1]]
    pen = values(tc, X)
    val = values(te, X)
    orig = np.zeros(len(X))
    for kk, c in monos.items():
        orig += c * np.prod(X[:, list(kk)], axis=1) if kk else c
    t.trans(len(X))
    t.check(np.abs(pen[ok]).max() < 1e-9, lambda: f"{what}: penalty {con} is not zero where auxiliaries equal their products ({mp})")
    t.check(np.abs(val[ok] - orig[ok]).max() < 1e-9, lambda: f"{what}: {ne} with {mp} has another value than the original")
    if (~ok).any():
        t.check(pen[~ok].min() > 1 - 1e-9, lambda: f"{what}: penalty {con} is only {pen[~ok].min()} on an inconsistent assignment ({mp})")
    t.trace()
    t.state((what, names))


def run_case(t, d):
    k = d["kind"]
    if k == "four":
        H = [c for r in (3, 4) for c in itertools.combinations(range(4), r)]
        hs = [H[i] for i in d["hs"]]
        pats = list(itertools.product((1, -2, 2.5), repeat=len(hs)))
        if not d["full"]:
            pats = pats if len(hs) <= 1 else [p for i, p in enumerate(pats) if i % (3 ** (len(hs) - 1)) == (d["low"] * 5 + len(hs)) % (3 ** (len(hs) - 1))]
        for p in pats:
            m = dict(zip(hs, p))
            for j, l in enumerate(LOW[d["low"]]):
                m[l] = (1, -1, 0.5)[j % 3]
            judge(t, m, ("q{}", "x{}")[(sum(d["hs"]) + d["low"]) % 2])
    elif k == "five":
        H = [c for r in (3, 4, 5) for c in itertools.combinations(range(5), r)]
        m = {H[i]: (1, -1.5, 3)[j] for j, i in enumerate(d["hs"])}
        m[(0,)] = -1
        m[(1, 4)] = 1
        judge(t, m)
    elif k == "big":
        n = d["n"]
        for r in range(5, n + 1):
            for c in itertools.combinations(range(n), r):
                judge(t, {c: 2, (0,): 1, (): -3})
                if n < 7:
                    judge(t, {c: -1, tuple(range(3)): 1, (0, n - 1): 0.5})
    elif k == "wide":
        i = d["i"]
        n = 8 + i % 3
        m = {}
        for j in range((1, 3, 6, 9)[i % 4]):
            c = tuple(sorted({(j + q * (1 + (i + j) % 3)) % n for q in range(3 + (i + j) % 4)}))
            m[c] = (1, -2, 2.5, -0.5)[j % 4]
        if i % 4 == 0:
            m[tuple(range(n))] = 3
        m[(0,)] = 1
        m[(n - 1, 1)[::-1]] = -1
        m[()] = 0.5
        judge(t, m, ("q{}", "x{}")[i % 2], naux=90)
    elif k == "plain":
        # nothing to reduce
        for m in itertools.product((0, 1, -2), repeat=6):
            keys = [(0,), (1,), (2,), (0, 1), (1, 2), ()]
            mm = {a: b for a, b in zip(keys, m) if b}
            judge(t, mm, naux=1)
            n = 3
        q = sympy.symbols("q0:3")
        e = 2 * q[0] * q[1] - q[2] + 3
        ne, con, mp = wq.nbody_separation(e, sympy.symbols("z0:2"))
        t.check(sympy.expand(ne - e) == 0 and con == 0 and mp == {}, lambda: f"{e}: {ne}, {con}, {mp}")
    else:
        L = [dict(kind="four", hs=[a, b], low=(a + b) % 9, full=False) for a in range(5) for b in range(a + 1, 5)] + [dict(kind="four", hs=[0, 1, 2, 3, 4], low=5, full=False), dict(kind="five", hs=[0, 12]), dict(kind="five", hs=[15]), dict(kind="five", hs=[10, 15]), dict(kind="big", n=6)]
        r = sub.run("Q06", L, d["h"])
        t.check(r["violation"] is None, lambda: f"PYTHONHASHSEED={d['h']}: {r['violation']}")
        t.trans(r["transitions"]), t.trace(r.get("traces", 0))
        t.state(("hash", d["h"]))
    t.outcome(k)
