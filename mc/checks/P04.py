"""Commutators and commutation tests on all pairs of operators, strings and small sums, against exact operator algebra."""
import itertools
import numpy as np
from mc import palg
from mc.checks.P03 import mk
from blueqat import pauli as bp

BOUNDS = {
 "quick": "all pairs of Pauli strings n<=3 (functions and methods, both orders, as operator/term/expression), all pairs n=4 (commutation test), all pairs of two-term sums over 10 strings x coefficients, un-simplified words of length <=3, small coefficients around the tolerance and explicit eps; is_all_terms_commutable on every 0..4-subset of the strings n=2 and every pair and triple of n=3; 9 scales from 2^-300 to 2^200 on all pairs of 11 objects; 5..9-operator strings on up to 12 qubits and qubit numbers to 1000 (all pairs of 3x48), sums of 8..39 terms, is_all_terms_commutable of 8..40 terms with at most one anticommuting pair at every position (40 terms: 5 positions)",
 "thorough": "all pairs n=4 with commutators, all 5-subsets of n=2, two-term sums over 16 strings"}


def strs(n):
    return ["".join(w) for w in itertools.product("IXYZ", repeat=n)]


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for i in range(4 ** n):
            out.append(dict(kind="str", n=n, i=i, full=True))
    for i in range(0, 256, 2):
        out.append(dict(kind="str4", i=i, full=tier == "thorough"))
    m = len(sums(tier))
    for i in range(m):
        out.append(dict(kind="sum", i=i, tier=tier))
    for i in range(len(words())):
        out.append(dict(kind="word", i=i))
    for i in range(16):
        out.append(dict(kind="all2", i=i, r=4 if tier == "quick" else 5))
    for i in range(64):
        out.append(dict(kind="all3", i=i))
    out.append(dict(kind="eps"))
    out.append(dict(kind="ops"))
    for i in range(48):
        out.append(dict(kind="wide", i=i))
    for n in (40, 24, 13, 8):
        for i in range(5):
            out.append(dict(kind="many", n=n, i=i))
    for i in range(len(palg.SCALES)):
        out.append(dict(kind="scale", i=i))
    return out


def comm(a, b):
    return palg.add(palg.mul(a, b), palg.mul(b, a), -1)


def sums(tier):
    S = ["X", "Y", "Z", "IX", "ZZ", "XX", "YX", "XZ", "IZ", ""] if tier == "quick" else strs(2)
    out = []
    for a, b in itertools.combinations(S, 2):
        for ca, cb in ((1.0, 1.0), (1.0, -2.0), (0.5, 1j), (1j, 1.0)):
            out.append((a, ca, b, cb))
    return out


def words():
    A = ["X0", "Y0", "Z0", "X1", "Z1"]
    return [w for r in range(0, 4) for w in itertools.product(A, repeat=r)]


def judge(t, a, b, va=None, vb=None, both=True):
    va = palg.of(a) if va is None else va
    vb = palg.of(b) if vb is None else vb
    e = comm(va, vb)
    t.trans()
    c = bp.commutator(a, b)
    t.check(isinstance(c, bp.Expr) and palg.same(palg.of(c), e), lambda: f"commutator({a!r}, {b!r}) = {c!r}, expected {e}")
    yes = not e
    for f in (lambda: bp.is_commutable(a, b), lambda: bp.is_commutable(b, a)):
        r = f()
        t.check(bool(r) is yes, lambda: f"is_commutable({a!r}, {b!r}) is {r}, commutator is {e}")
    if both and isinstance(a, (bp.Term, bp.Expr)):
        c = a.commutator(b)
        t.check(palg.same(palg.of(c), e), lambda: f"({a!r}).commutator({b!r}) = {c!r}, expected {e}")
        t.check(bool(a.is_commutable_with(b)) is yes, lambda: f"({a!r}).is_commutable_with({b!r})")
    return yes


def wides():
    """strings with 5..9 operators, numbered by base-4 digits, and short ones on far apart qubits"""
    out = []
    for j in range(24):
        n = 5 + j % 8
        out.append([("IXYZ"[(j * 7 + q * q * (j % 5 + 1) + q * j) % 4], q) for q in range(n)])
    for j in range(12):
        out.append([("XYZ"[j % 3], (2, 10, 11, 100)[j % 4]), ("XYZ"[(j + j // 3) % 3], (9, 12, 64, 1000)[j // 3])])
    for j in range(12):
        out.append([("XYZ"[(j + q) % 3], (3 * q + j) % 13) for q in range(1 + j % 9)])
    return [[(o, q) for o, q in w if o != "I"] for w in out]


def many(t, n, only):
    """mutually commuting sets; replacing one member makes a single anticommuting pair"""
    T = lambda w: bp.Term(tuple(getattr(bp, o)[q] for o, q in w), 1.0)
    comm_sets = [[[("Z", q)] for q in range(n)], [[("X", 2 * q), ("X", 2 * q + 1)] if q % 2 else [("Z", 2 * (q - 1)), ("Z", 2 * q - 1)] if q else [("Y", 100)] for q in range(n)], [[("XYZ"[q % 3], q)] for q in range(n)],
                 [[("Z", q), ("Z", q + 1)] for q in range(n)], [[("X", q) for q in range(j + 1)] for j in range(n)]]
    for si, S in enumerate(comm_sets):
        if si != only:
            continue
        e = bp.Expr(tuple(T(w) for w in S))
        keys = [palg.word(w)[0] for w in S]
        exp = all(not (palg.pc(a[0] & b[1]) + palg.pc(a[1] & b[0])) & 1 for a, b in itertools.combinations(keys, 2))
        t.check(exp or si == 1, "reference sets commute")
        t.check(bool(e.is_all_terms_commutable()) is exp, lambda: f"{n} commuting terms {e!r}: is_all_terms_commutable() is {e.is_all_terms_commutable()}")
        for pos in range(n) if n < 30 else (0, 1, 19, 38, 39):
            for bad in ([("X", pos)], [("Y", pos + 1)], [("Z", pos)], [("Z", n - 1 - pos), ("X", n + 5)]):
                L = S[:pos] + [bad] + S[pos + 1:]
                K = keys[:pos] + [palg.word(bad)[0]] + keys[pos + 1:]
                exp = all(not (palg.pc(a[0] & b[1]) + palg.pc(a[1] & b[0])) & 1 for a, b in itertools.combinations(K, 2))
                e = bp.Expr(tuple(T(w) for w in L))
                r = e.is_all_terms_commutable()
                t.trans()
                t.check(bool(r) is exp, lambda: f"({e!r}).is_all_terms_commutable() is {r}")
                t.state((n, si, pos, str(bad)))
    A = bp.Expr(tuple(T(w) * (0.5 + j / 8) for j, w in enumerate(comm_sets[1])))
    B = bp.Expr(tuple(T(w) * (1 - j / 4) for j, w in enumerate(comm_sets[2])))
    C = bp.Expr(tuple(T(w) * (1 - j / 4) for j, w in enumerate(comm_sets[0])))
    D = bp.Expr(tuple(T(w) for w in comm_sets[3]))
    for x, y in [] if n > 13 or only else itertools.product((A, B, C, D, sum((bp.X[q] for q in range(n)), bp.Expr.zero()), sum((bp.X[q] * bp.X[q + 1] + bp.Y[q] * bp.Y[q + 1] + bp.Z[q] * bp.Z[q + 1] for q in range(n)), bp.Expr.zero()), sum((bp.Z[q] for q in range(n + 1)), bp.Expr.zero())), repeat=2):
        judge(t, x, y)
    t.trace()


def run_case(t, d):
    k = d["kind"]
    if k == "str":
        S = strs(d["n"])
        a = S[d["i"]]
        A = mk(a)
        for b in S:
            B = mk(b)
            judge(t, A, B)
            judge(t, A.to_expr(), B.to_expr())
            if d["n"] < 3:
                judge(t, A * 1j, B.to_expr() * 0.5)
                judge(t, A.to_expr() * -2.0, B * 3)
                if len(A.ops) < 2 and len(B.ops) < 2:
                    pa, pb = (A.ops or (bp.I,))[0], (B.ops or (bp.I,))[0]
                    judge(t, pa, pb), judge(t, pa, B), judge(t, A, pb), judge(t, pa, B.to_expr()), judge(t, A.to_expr(), pb)
            t.trace()
            t.state((a, b))
        t.outcome("strings")
    elif k == "wide":
        L = wides()
        T = lambda w, c=1.0: bp.Term(tuple(getattr(bp, o)[q] for o, q in w), c)
        A = T(L[d["i"]], 0.5)
        for w in L:
            judge(t, A, T(w, 2.0))
            judge(t, A, T(w[::-1] + w[:1]), both=False)
            judge(t, A + T(w), T(w) * 2 - T(L[(d["i"] + 5) % len(L)]), both=False)
            t.state((d["i"], str(w)))
        t.trace()
        t.outcome("many qubits")
    elif k == "many":
        many(t, d["n"], d["i"])
        t.outcome("many terms")
    elif k == "str4":
        S = strs(4)
        for i in (d["i"], d["i"] + 1):
            A = mk(S[i], 0.5)
            va = palg.of(A)
            for b in S:
                B = mk(b)
                if d["full"]:
                    judge(t, A, B, va)
                else:
                    e = comm(va, palg.of(B))
                    t.check(bool(A.is_commutable_with(B)) is (not e), lambda: f"({A!r}).is_commutable_with({B!r})")
                    t.trans()
                t.state((S[i], b))
        t.outcome("strings of four")
    elif k == "sum":
        L = sums(d["tier"])
        a, ca, b, cb = L[d["i"]]
        A = mk(a, ca).to_expr() + mk(b, cb)
        va = palg.of(A)
        for x, cx, y, cy in L:
            B = bp.Expr((mk(x, cx), mk(y, cy)))
            judge(t, A, B, va, both=False)
            t.state((d["i"], x, cx, y, cy))
        for w in strs(2):
            judge(t, A, mk(w), va)
            judge(t, mk(w), A, None, va)
        t.trace()
        t.outcome("sums")
    elif k == "word":
        L = words()
        mkw = lambda w, c: bp.Term(tuple(getattr(bp, x[0])[int(x[1])] for x in w), c)
        A = mkw(L[d["i"]], 0.5)
        for w in L:
            judge(t, A, mkw(w, 2.0), both=False)
        E = bp.Expr((A, mkw(("Z0", "X0"), 1.0), mkw(("Y0",), 1j)))
        for w in L[:40]:
            judge(t, E, mkw(w, 1.0))
        t.trace()
        t.outcome("un-simplified words")
    elif k in ("all2", "all3"):
        S = strs(2 if k == "all2" else 3)
        for r in range(0, d.get("r", 3)):
            for c in itertools.combinations(S[d["i"] + 1:], r):
                L = [S[d["i"]], *c]
                coef = [1.0, -0.5, 2j, 0.25, 3]
                e = bp.Expr(tuple(mk(w, coef[i % 5]) for i, w in enumerate(L)))
                exp = all(not comm({palg.word([(o, q) for q, o in enumerate(a)])[0]: 1}, {palg.word([(o, q) for q, o in enumerate(b)])[0]: 1}) for a, b in itertools.combinations(L, 2))
                g = e.is_all_terms_commutable()
                t.check(bool(g) is exp, lambda: f"({e!r}).is_all_terms_commutable() is {g}")
                t.trans()
                if k == "all2" and r:
                    f = bp.Expr(tuple(reversed(e.terms)))
                    t.check(bool(f.is_all_terms_commutable()) is exp, lambda: f"({f!r}).is_all_terms_commutable()")
            t.state((k, d["i"], r))
        t.check(bp.Expr.zero().is_all_terms_commutable(), "zero")
        t.trace()
        t.outcome("all terms")
    elif k == "scale":
        c = palg.SCALES[d["i"]]
        with palg.exact():
            for a, b in itertools.product(palg.scale_pool(), repeat=2):
                for A, B in ((a * c, b), (a, b * c), (a * c + bp.Z[0], b), (a * c, b - bp.Y[1] * c)):
                    e = comm(palg.of(A), palg.of(B))
                    g = bp.commutator(A, B)
                    t.trans()
                    t.check(palg.rel(palg.of(g), e), lambda: f"commutator({A!r}, {B!r}) = {g!r}, expected {e}")
                    size = sum(abs(v) ** 2 for v in e.values())
                    if not 1e-10 < size < 1e-6:
                        for f in (lambda: bp.is_commutable(A, B), lambda: bp.is_commutable(B, A)):
                            t.check(bool(f()) is (size < 1e-8), lambda: f"is_commutable({A!r}, {B!r}) is {f()}, |commutator|^2 = {size}")
                    t.state((repr(A), repr(B)))
        t.trace()
        t.outcome("very small and very large coefficients")
    elif k == "eps":
        X, Y, Z = bp.X, bp.Y, bp.Z
        for c in (1, 1e-1, 1e-2, 1e-3):
            t.check(not bp.is_commutable(c * X[0], Z[0]) and not bp.is_commutable(X[0], c * Z[0]) and not (X[0] + c * Y[0]).is_commutable_with(X[0]), f"coefficient {c}")
        for c in (1e-8, 1e-9, 1e-12, 0):
            t.check(bp.is_commutable(c * X[0], Z[0]) and bp.is_commutable(X[0] + c * Y[1], X[0] + c * Z[1]) and (X[0] + c * Y[0]).is_commutable_with(X[0]), f"coefficient {c}")
        for v, eps, e in ((1, 100, True), (1, 1e-3, False), (1e-3, 1e-1, True), (1e-3, 1e-9, False), (0, 1e-300, True), (1e-6, 1e-30, False)):
            t.check(bool(bp.is_commutable(v * X[0], Z[0], eps)) is e and bool(bp.is_commutable(v * X[0], Z[0], eps=eps)) is e, f"is_commutable({v}*X0, Z0, eps={eps})")
        t.trans(20), t.trace()
        t.outcome("tolerance")
    else:
        P = [bp.I] + [f[n] for f in (bp.X, bp.Y, bp.Z) for n in range(4)]
        for a, b in itertools.product(P, repeat=2):
            judge(t, a, b)
            judge(t, a, b * 2j)
            judge(t, a + 1, b - a)
            judge(t, a * b, b * a)
            t.state((repr(a), repr(b)))
        t.trace()
        t.outcome("operators")
