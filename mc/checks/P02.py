"""Equality and simplify over every pair of a closed set of representations, against exact operator algebra."""
import itertools
import numpy as np
from mc import palg
from mc.palg import build, refv, show, of, same
from blueqat import pauli as bp

BOUNDS = {
 "quick": "all pairs of ~900 representations on 2-3 qubits (operators, terms as words of length <=4 over 7 operators with 5 coefficients, expressions of <=3 terms incl. repeated, zero and cancelling terms): ==, != both ways and hash against operator equality; "
          "simplify of each; all term words of length <=5 over 6 operators; all permutations of all 4-term sums over 6 terms; all products of two 2-term sums; 9 scales from 2^-300 to 2^200 on words of length <=3; words of length <=5 on qubits 2..1000 (3 alphabets, numeric against textual order), orders of 4 of 8 such terms; sums of 6..48 terms in 14 orders and writings, each term altered in 5 ways",
 "thorough": "term words of length <=6 over 8 operators; permutations of 5-term sums; ~2500 representations"}
COEF = [1.0, -1.0, 0, 0.5, 1j]
PTYPES = (bp.Term, bp.Expr, type(bp.I), type(bp.X[0]), type(bp.Y[0]), type(bp.Z[0]))


def W(word, c=1.0):
    return bp.Term(tuple(bp.I if w == "I" else getattr(bp, w[0])[int(w[1:])] for w in word), c)


_pool = {}


def pool(tier):
    """list of (description, object)"""
    if tier in _pool:
        return _pool[tier]
    A = ["X0", "Y0", "Z0", "X1", "Z1"]
    out = [("I", bp.I)] + [(w, build(w)) for w in A + ["Y1", "X2", "Z3"]]
    words = [()] + [(a,) for a in A] + list(itertools.product(A, repeat=2)) + list(itertools.product(["X0", "Y0", "Z1"], repeat=3)) + [w for w in itertools.product(["X0", "Z1"], repeat=4)]
    words += [("I",), ("I", "X0"), ("X0", "I", "Z1"), ("I", "I"), ("X3", "X0", "X3"), ("Y2", "Y2"), ("X1", "X0", "Z0")]
    for w in words:
        for c in COEF if len(w) < 3 or tier == "thorough" else COEF[:1]:
            out.append((f"Term({w},{c})", W(w, c)))
    base = [("X0",), ("Z1",), ("X0", "Z1"), ("Z1", "X0"), (), ("X0", "X0"), ("X0", "Y0"), ("Z0",), ("Y0", "X0")]
    for r in (0, 1, 2, 3):
        for ws in itertools.product(base, repeat=r):
            if r == 3 and tier == "quick" and ws != tuple(sorted(ws)) and ws[0] not in (("X0",), ()):
                continue
            for cs in ([(1.0,) * r] + ([(1.0, -1.0), (0.5, 0.5), (1j, -1), (0, 1)] if r == 2 else [(1, -0.5, -0.5), (0.5, 0.5, 1)] if r == 3 else [(0,), (-1,), (1j,), (0.5,)] if r == 1 else [])):
                if r == 3 and cs[0] != 1.0 and len(set(ws)) == 3 and tier == "quick":
                    continue
                out.append((f"Expr({ws},{cs})", bp.Expr(tuple(W(w, c) for w, c in zip(ws, cs)))))
    X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
    extra = {"0*X0": 0 * X[0], "X0-X0": X[0] - X[0], "0*I": 0 * I, "X0+0": X[0] + 0, "1+I": 1 + I, "2*I": 2 * I, "X0*X0": X[0] * X[0], "X0*Y0": X[0] * Y[0], "-1j*Z0*..": -1j * Y[0] * X[0], "Term**2": (X[0] * Y[1]) ** 2,
             "Expr**2": (X[0] + Y[0]) ** 2, "zero": bp.Expr.zero(), "number": bp.Expr.from_number(2), "one": bp.Expr.from_number(1), "0*(X0Y1)": 0 * (X[0] * Y[1]), "qubo": bp.qubo_bit(0), "1-qubo": 1 - bp.qubo_bit(0), "half": 0.5 + 0.5 * Z[0],
             "npc": np.complex128(1) * X[0], "npf": np.float64(1) * X[0], "int": 1 * X[0], "bool": True * X[0]}
    out += list(extra.items())
    _pool[tier] = out
    return out


_val = {}


def val(tier, i):
    k = (tier, i)
    if k not in _val:
        _val[k] = of(pool(tier)[i][1])
    return _val[k]


def cases(tier):
    out = []
    n = len(pool(tier))
    for i in range(n):
        out.append(dict(kind="pair", a=i, tier=tier))
    for i in range(0, n, 16):
        out.append(dict(kind="simp", lo=i, tier=tier))
    A = ["X0", "Y0", "Z0", "X1", "Y1", "Z2"] if tier == "quick" else ["X0", "Y0", "Z0", "X1", "Y1", "Z1", "X2", "Z3"]
    for h in itertools.product(A, repeat=2):
        out.append(dict(kind="words", head=list(h), alpha=A, depth=5 if tier == "quick" else 6))
    T = [("X0",), ("X0", "Y0"), ("Z1",), ("Y0", "X0"), (), ("X1", "X0"), ("Z1", "Z1")]
    for c in itertools.combinations_with_replacement(range(len(T)), 4 if tier == "quick" else 5):
        out.append(dict(kind="perm", terms=[T[i] for i in c]))
    for A in (["X2", "Y10", "Z9", "X10", "Y2"], ["Z100", "X11", "Y100", "X9", "Z11"], ["X64", "Z63", "Y64", "X1000"]):
        for h in itertools.product(A, repeat=2):
            out.append(dict(kind="words", head=list(h), alpha=A, depth=5 if tier == "quick" else 6))
    T = [("X10", "Y2"), ("Y2", "X10"), ("X10",), ("X9", "X10"), ("X2", "X10", "Y2"), ("Z2", "X10"), ("X1", "X0"), ("X11", "X0")]
    for c in itertools.combinations(range(len(T)), 4):
        out.append(dict(kind="perm", terms=[T[i] for i in c]))
    for i in range(8):
        out.append(dict(kind="many", i=i))
    out.append(dict(kind="prod"))
    out.append(dict(kind="hash"))
    out.append(dict(kind="foreign"))
    for i in range(len(palg.SCALES)):
        out.append(dict(kind="scale", i=i))
    return out


def canonical(t, o, exp, what):
    s = o.simplify()
    t.trans()
    t.check(type(s) is type(o), lambda: f"{what}: simplify gives a {type(s).__name__}")
    t.check(same(of(s), exp, 1e-9), lambda: f"{what}: {o!r}.simplify() = {s!r}, another operator")
    t.check(s == o and o == s and not s != o, lambda: f"{what}: {o!r} != its simplified form {s!r}")
    s2 = s.simplify()
    t.check(tuple.__eq__(s2, s), lambda: f"{what}: simplify is not idempotent: {s!r} -> {s2!r}")
    terms = s.terms if isinstance(s, bp.Expr) else (s,)
    for m in terms:
        q = [p.n for p in m.ops]
        t.check(len(set(q)) == len(q), lambda: f"{what}: simplified term {m!r} repeats a qubit")
        t.check(isinstance(s, bp.Term) or m.coeff != 0, lambda: f"{what}: zero term {m!r} left in {s!r}")
    keys = [frozenset((p.op, p.n) for p in m.ops) for m in terms]
    t.check(len(set(keys)) == len(keys), lambda: f"{what}: duplicate terms in {s!r}")
    return s


def scale(t, c):
    A = ["X0", "Y0", "Z1"]
    ws = [w for r in range(0, 4) for w in itertools.product(A, repeat=r)]
    for w in ws:
        o = W(w, c)
        e = of(o)
        for x, f in ((o, e), (bp.Expr((o,)), e), (bp.Expr((o, W(w, 1.0), W(("X1",), -c))), palg.add(palg.add(e, of(W(w, 1.0))), {(2, 0): -c}))):
            s = x.simplify()
            t.trans()
            t.check(palg.rel(of(s), f), lambda: f"({x!r}).simplify() = {s!r}, expected {f}")
            t.check(tuple.__eq__(s.simplify(), s), lambda: f"simplify is not idempotent on {x!r}: {s!r}")
            t.check(s == x and x == s, lambda: f"{x!r} != its simplified form {s!r}")
            t.state(repr(x))
        for v in (W(w, 2 * c), W(w, -c), W(w, 0), bp.Expr.zero(), bp.Expr((W(w, c / 2),)), bp.Expr((o, W(("X1",), c)))):
            t.trans()
            same_ = palg.rel(of(v), e)
            t.check((o == v) is same_ and (v == o) is same_ and (o != v) is (not same_) and (v != o) is (not same_), lambda: f"{o!r} == {v!r} is {o == v}")
        for v in (bp.Expr((W(w, c / 2), W(w, c / 2))), bp.Expr((W(w, c), W(("X1",), 0))), 1.0 * o, o.to_expr(), bp.Expr((W(("X1",), 1.0), o, W(("X1",), -1.0)))):
            t.check(o == v and v == o and not o != v, lambda: f"{o!r} and {v!r} are unequal")
    t.trace()


def many(t, i):
    """a sum of 6, 12, 24 or 48 words written in many orders, with repeated and cancelling terms: one canonical form; changing any one coefficient or letter makes it unequal"""
    n = (6, 12, 24, 48)[i % 4]
    base = []
    for j in range(n):
        w = ("XYZ"[j % 3] + str(j % 12), "XYZ"[(j // 3 + i) % 3] + str((5 * j + 1) % 14), "XYZ"[(j // 9) % 3] + str((3 * j + i) % 11))[: 1 + (j + i) % 3]
        base.append((w, (j - 2.5) / 4 if j % 4 else complex(1, j) / 8))
    exp = {}
    for w, c in base:
        exp = palg.add(exp, of(W(w, c)))
    rot = [base[r:] + base[:r] for r in range(0, n, max(1, n // 8))] + [base[::-1], sorted(base, key=lambda b: b[0]), sorted(base, key=lambda b: b[0][::-1]), base[::2] + base[1::2]]
    split = [(w, c / 2) for w, c in base] + [(w, c / 2) for w, c in base[::-1]]
    noise = [(("X20",), 1.0)] + base + [(("X20",), -1.0), ((), 0)]
    swap = [(w[::-1], of_sign(w) * c) for w, c in base]
    first = None
    for L in rot + [split, noise, swap]:
        for o in (bp.Expr(tuple(W(w, c) for w, c in L)), sum((W(w, c) for w, c in L), bp.Expr.zero())):
            s = canonical(t, o, exp, f"{n} terms written as {L}")
            if first is None:
                first = o, s
            t.check(tuple.__eq__(s, first[1]), lambda: f"{n} terms written as {L}: {s!r} instead of {first[1]!r}")
            t.check(o == first[0] and first[0] == o and not o != first[0], lambda: f"{o!r} != {first[0]!r}")
    for j in range(n):
        w, c = base[j]
        for x in ((w, c + 0.125), (w[:-1], c), (w + ("Y3",), c), (w, -c), (w, 0)):
            L = base[:j] + [x] + base[j + 1:]
            o = bp.Expr(tuple(W(a, b) for a, b in L))
            e = same(of(o), exp)
            t.trans()
            t.check((o == first[0]) is e and (first[0] == o) is e and (o != first[0]) is (not e), lambda: f"{n} terms with term {j} {base[j]} replaced by {x}: == is {o == first[0]}, expected {e}")
            t.state((i, j, str(x)))
    t.trace()


def of_sign(w):
    """+1 or -1 such that the reversed word times it is the word"""
    a, b = of(W(w)), of(W(w[::-1]))
    (ka, va), = a.items()
    return (va / b[ka]).real


def run_case(t, d):
    k = d["kind"]
    if k == "pair":
        P = pool(d["tier"])
        na, a = P[d["a"]]
        va = val(d["tier"], d["a"])
        for j, (nb, b) in enumerate(P):
            e = same(va, val(d["tier"], j))
            t.trans()
            try:
                eq, ne = (a == b), (a != b)
            except Exception as ex:
                t.check(False, f"{a!r} == {b!r} ({na}, {nb}) raised {ex!r}")
            t.check(bool(eq) is e, lambda: f"{a!r} == {b!r} is {eq} ({na} vs {nb}), expected {e}")
            t.check(bool(ne) is (not e), lambda: f"{a!r} != {b!r} is {ne} ({na} vs {nb})")
            t.state((d["a"], j))
        t.outcome("pairs")
    elif k == "simp":
        P = pool(d["tier"])
        seen = {}
        for i in range(len(P)):
            o = P[i][1]
            if not isinstance(o, (bp.Term, bp.Expr)):
                continue
            s = canonical(t, o, val(d["tier"], i), P[i][0]) if d["lo"] <= i < d["lo"] + 16 else o.simplify()
            kk = (type(o), frozenset((q, complex(c)) for q, c in val(d["tier"], i).items()))
            if kk in seen:
                t.check(tuple.__eq__(seen[kk], s) or isinstance(o, bp.Term) and s.coeff == 0, lambda: f"two writings of one operator simplify to {seen[kk]!r} and {s!r}")
            else:
                seen[kk] = s
            t.trace()
        t.outcome("canonical forms")
    elif k == "words":
        for r in range(0, d["depth"] - 1):
            for rest in itertools.product(d["alpha"], repeat=r):
                w = tuple(d["head"]) + rest
                o = W(w, 0.5)
                key, c = palg.word([(x[0], int(x[1:])) for x in w], 0.5)
                s = canonical(t, o, {key: c}, str(w))
                n = palg.pc(key[0] | key[1])
                t.check(len(s.ops) == n and list(s.ops) == sorted(s.ops, key=lambda p: p.n), lambda: f"{o!r} simplifies to {s!r}")
                t.check((o == W(w[::-1], 0.5)) == (palg.word([(x[0], int(x[1:])) for x in w[::-1]], 0.5) == (key, c)), lambda: f"{w} against its reverse")
                t.state(w)
        t.outcome("words")
    elif k == "perm":
        ts = [W(tuple(w), c) for w, c in zip(d["terms"], (0.5, -0.25, 2.0, 1j, -1.5))]
        exp = {}
        for x in ts:
            exp = palg.add(exp, of(x))
        first = None
        for p in itertools.permutations(ts):
            for o in (bp.Expr(tuple(p)), sum(p[1:], p[0].to_expr()), sum(p, bp.Expr.zero()), p[0] + (p[1] + sum(p[2:], 0))):
                s = canonical(t, o, exp, f"sum of {p}")
                if first is None:
                    first = s
                t.check(tuple.__eq__(s, first), lambda: f"sum of {ts} written as {p}: {s!r} instead of {first!r}")
            t.trace()
        t.state(str(d["terms"]))
        t.outcome("orders of writing")
    elif k == "prod":
        T = [("X0",), ("Y0",), ("Z1",), ("X0", "Z1"), (), ("Y1", "X0")]
        for a, b, c, e in itertools.product(T, repeat=4):
            A, B = W(a) + W(b, -0.5), W(c, 2) + W(e, 1j)
            exp = palg.mul(of(A), of(B))
            canonical(t, A * B, exp, f"({A!r})*({B!r})")
            alt = A * W(c, 2) + A * W(e, 1j)
            t.check(A * B == alt and alt == A * B, lambda: f"({A!r})*({B!r}) != distributed {alt!r}")
            t.check((A * B == B * A) == same(exp, palg.mul(of(B), of(A))), lambda: f"{A!r} and {B!r}: equality of both products")
            t.state((a, b, c, e))
        t.outcome("products")
    elif k == "many":
        many(t, d["i"])
        t.outcome("sums of many terms")
    elif k == "scale":
        with palg.exact():
            scale(t, palg.SCALES[d["i"]])
        t.outcome("very small and very large coefficients")
    elif k == "hash":
        ops = [bp.I, bp.I()] + [f(n) for f in (bp.X, bp.Y, bp.Z) for n in range(6)] + [getattr(bp, o)[n] for o in "XYZ" for n in range(6)] + [bp.X[np.int64(2)], bp.Z[True]]
        for a, b in itertools.product(ops, repeat=2):
            e = (a.op, None if a.is_identity else a.n) == (b.op, None if b.is_identity else b.n)
            t.check(bool(a == b) is e and bool(a != b) is (not e), lambda: f"{a!r} == {b!r}: {a == b}")
            t.check(not e or hash(a) == hash(b), lambda: f"equal operators {a!r}, {b!r} hash differently")
            t.trans()
        t.check(len(set(ops)) == 19 and len({o: 1 for o in ops}) == 19, lambda: f"set of operators has {len(set(ops))} elements: {set(ops)}")
        t.outcome("hash")
    else:
        for na, a in pool("quick")[::7]:
            for b in (None, "X[0]", object(), [], {}, NotImplemented, float):
                t.check((a == b) is False and (a != b) is True and (b == a) is False and (b != a) is True, lambda: f"{a!r} compared with {b!r}")
                t.trans()
        t.outcome("foreign")
