"""Shared pieces for the QUBO checks: reference energies, matrices, annealing models."""
import itertools, math
import numpy as np


def bits(n):
    return list(itertools.product((0, 1), repeat=n))


def energy(Q, x):
    n = len(Q)
    return sum(float(Q[i][j]) * x[i] * x[j] for i in range(n) for j in range(n))


def energies(Q):
    return {x: energy(Q, x) for x in bits(len(Q))}


FORMS = {
 "list": lambda m: [list(r) for r in m],
 "tuple": lambda m: tuple(tuple(r) for r in m),
 "array": lambda m: np.array(m, dtype=float),
 "fortran": lambda m: np.asfortranarray(np.array(m, dtype=float)),
 "ints": lambda m: np.array(m) if all(float(v) == int(v) for r in m for v in r) else np.array(m, dtype=float),
 "rows": lambda m: [np.array(r) for r in m],
}


def triu(n, vals):
    it = iter(vals)
    return [[next(it) if j >= i else 0 for j in range(n)] for i in range(n)]


def full(n, vals):
    it = iter(vals)
    return [[next(it) for _ in range(n)] for _ in range(n)]


def frac(p, grid):
    """share of the grid points (k+1/2)/grid below p; None if one lies on p"""
    c = 0
    for k in range(grid):
        u = (k + 0.5) / grid
        if abs(u - p) < 1e-9:
            return None
        c += u < p
    return c / grid


class Tie(Exception):
    pass


def accept(dE, T, grid):
    if dE < 0 or abs(dE) < 1e-12:
        return 1.0
    f = frac(math.exp(-dE / T), grid)
    if f is None:
        raise Tie
    return f


def temps(T, R, target):
    out = []
    while T > target:
        out.append(T)
        T *= R
    return out


def r(e):
    return round(float(e), 7) + 0.0


def sa_shot(E, n, Ts, R, target, ite, grid):
    """{(final bits, energy record): probability} of one shot"""
    dist = {(x, (r(E[x]),)): 0.5 ** n for x in bits(n)}
    for T in temps(Ts, R, target):
        for _ in range(ite):
            nd = {}
            for (x, h), p in dist.items():
                for i in range(n):
                    y = x[:i] + (1 - x[i],) + x[i + 1:]
                    a = accept(E[y] - E[x], T, grid)
                    if a:
                        nd[y, h] = nd.get((y, h), 0) + p * a / n
                    if a < 1:
                        nd[x, h] = nd.get((x, h), 0) + p * (1 - a) / n
            dist = nd
        nd = {}
        for (x, h), p in dist.items():
            k = (x, h + (r(E[x]),))
            nd[k] = nd.get(k, 0) + p
        dist = nd
    return dist


def path_energy(E, c, T, G):
    """c: tuple of slices, each a tuple of bits"""
    P = len(c)
    e = sum(E[x] for x in c) / P
    s = sum((2 * a - 1) * (2 * b - 1) for p in range(P) for a, b in zip(c[p], c[(p + 1) % P]))
    return e - T / 2 * math.log(1 / math.tanh(G / (P * T))) * s


def sqa_run(E, n, P, Tf, Gs, Gf, R, ite, grid):
    """{(final slices, energy record): probability}"""
    confs = list(itertools.product(bits(n), repeat=P))
    dist = {(c, (r(path_energy(E, c, Tf, Gs)),)): 1 / len(confs) for c in confs}
    for G in temps(Gs, R, Gf):
        pe = {c: path_energy(E, c, Tf, G) for c in confs}
        for _ in range(ite):
            nd = {}
            for (c, h), p in dist.items():
                for y in range(P):
                    for i in range(n):
                        s = c[y]
                        d = c[:y] + (s[:i] + (1 - s[i],) + s[i + 1:],) + c[y + 1:]
                        a = accept(pe[d] - pe[c], Tf, grid)
                        if a:
                            nd[d, h] = nd.get((d, h), 0) + p * a / (n * P)
                        if a < 1:
                            nd[c, h] = nd.get((c, h), 0) + p * (1 - a) / (n * P)
            dist = nd
        nd = {}
        for (c, h), p in dist.items():
            k = (c, h + (r(pe[c]),))
            nd[k] = nd.get(k, 0) + p
        dist = nd
    return dist


def same(a, b, tol=1e-9):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


def worst(a, b):
    k = max(set(a) | set(b), key=lambda k: abs(a.get(k, 0) - b.get(k, 0)))
    return f"{k}: probability {a.get(k, 0):.6g}, expected {b.get(k, 0):.6g}"
