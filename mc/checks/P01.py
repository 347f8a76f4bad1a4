"""Every expression tree over Pauli operators, terms, expressions and numbers up to a depth: the real result against exact operator algebra."""
import itertools
import numpy as np
from mc import palg, ref
from mc.palg import build, refv, show, of, same
from blueqat import pauli as bp

PAULI = ["I", "X0", "Y0", "Z0", "X1", "Y1", "Z1", "Y2"]
NUM = [["n", "i", 0], ["n", "i", 2], ["n", "f", -0.5], ["n", "c", [0, 1]], ["n", "f64", 0.5], ["n", "c128", [1, 2]]]
NUMX = NUM + [["n", "i", 1], ["n", "i", -1], ["n", "f", 1.0], ["n", "f", 0.0], ["n", "c", [0, 0]], ["n", "b", True], ["n", "b", False], ["n", "i64", 3], ["n", "i64", 0], ["n", "f32", 0.25], ["n", "f64", -1.0],
              ["n", "c", [-1, 0]], ["n", "c128", [0, -1]], ["n", "f", 1e-3], ["n", "i", 10 ** 6], ["n", "f64", 0.0], ["n", "c128", [0, 0]]]
BOUNDS = {
 "quick": "leaves: 8 Pauli operators on 3 qubits, 23 Python/NumPy numbers; all trees of depth 1; all depth-2 trees over (depth-1 trees incl. unsimplified powers, zero and cancelled terms) x (+,-,*), in both orders and with all numbers (+,-,*,/); powers 0..4; depth-3 chains over 12 leaves; in-place operators, sum(); "
          "matrix of every distinct depth-2 result; 9 scales from 2^-300 to 2^200 on all pairs of 11 objects, judged relatively; qubit numbers 0, 2, 9, 10, 11, 63, 64, 100, 1000: all triples of operators; all 8-letter products over 3 operators of one and of two qubits; sums of 1..64 terms built in 5 ways, products of 32-term sums, powers to 9",
 "thorough": "depth-3 trees: all depth-2 results over 6 leaves x depth-1 trees, both orders; depth-4 chains"}


def is_num(tr):
    return isinstance(tr, list) and tr[0] == "n"


_pool = {}


def pool(kind):
    """depth <= 1 objects, including un-simplified ones"""
    if kind in _pool:
        return _pool[kind]
    L = PAULI if kind == "full" else ["X0", "Y0", "Z1", "I"]
    N = NUM if kind == "full" else [["n", "i", 2], ["n", "c", [0, 1]]]
    out = list(L)
    for a in L:
        out += [["neg", a], ["term", a], ["expr", a]]
        for b in L:
            out += [[o, a, b] for o in "+-*"]
        for k in N:
            out += [[o, a, k] for o in "+-*"] + [[o, k, a] for o in "+-*"]
            if palg.number(k):
                out.append(["/", a, k])
    T = ["*", "X0", "Y1"] if kind == "full" else ["*", "X0", "Z1"]
    out += [["pow", ["term", "X0"], 2], ["pow", ["*", ["n", "i", 2], "Y0"], 3], ["pow", T, 2], ["pow", ["+", "X0", "Z0"], 2], ["*", ["n", "i", 0], T], ["-", T, T], ["*", ["expr", T], ["*", ["n", "i", 0], "X1"]],
            ["+", ["expr", ["pow", ["term", "X0"], 2]], ["n", "i", 1]], ["*", ["+", ["expr", ["pow", ["term", "X0"], 2]], ["n", "i", 1]], ["term", "X0"]],
            ["+", ["*", ["*", "X0", "Y0"], "Z0"], T], ["*", ["*", "Z0", "X0"], "Y0"], ["*", ["*", "X1", "X0"], "X1"], ["neg", ["+", T, ["n", "f", 0.5]]]]
    _pool[kind] = out
    return out


def cases(tier):
    out = []
    n = len(pool("full"))
    for i in range(n):
        out.append(dict(kind="bin", a=i))
    for i in range(0, n, 4):
        out.append(dict(kind="num", lo=i, hi=min(n, i + 4)))
    out.append(dict(kind="leaf"))
    CH = chain_leaves()
    for a, b in itertools.product(range(len(CH)), repeat=2):
        out.append(dict(kind="chain", head=[a, b], depth=4 if tier == "quick" else 5))
    out.append(dict(kind="misc"))
    for i in range(len(palg.SCALES)):
        out.append(dict(kind="scale", i=i))
    for q in HIGH:
        out.append(dict(kind="high", q=q))
    for A in LONGP:
        for h in A:
            out.append(dict(kind="longp", alpha=A, head=h, depth=8 if tier == "quick" else 10))
    for i in range(6):
        out.append(dict(kind="longs", i=i))
    if tier == "thorough":
        m = len(pool("small"))
        for a in range(m):
            for b in range(m):
                out.append(dict(kind="deep", a=a, b=b))
    return out


def chain_leaves():
    return ["I", "X0", "Y0", "Z0", "X1", "Y1", ["n", "i", 2], ["n", "c", [0, 1]], ["*", "X0", "Y1"], ["+", "X0", ["n", "i", 1]], ["-", "Z0", "Z0"], ["n", "f64", -0.5]]


_obj = {}


def obj(tr):
    """object for a tree, with a snapshot of what it is"""
    k = str(tr)
    if k not in _obj:
        o = build(tr)
        _obj[k] = (o, snap(o), refv(tr))
    return _obj[k]


def snap(o):
    if isinstance(o, bp.Expr):
        return ("E", tuple((tuple((p.op, None if p.op == "I" else p.n) for p in t.ops), t.coeff) for t in o.terms))
    if isinstance(o, bp.Term):
        return ("T", tuple((p.op, None if p.op == "I" else p.n) for p in o.ops), o.coeff)
    if isinstance(o, tuple):
        return ("P", o.op, None if o.op == "I" else o.n)
    return ("N", repr(o))


PTYPES = (bp.Term, bp.Expr, type(bp.I), type(bp.X[0]), type(bp.Y[0]), type(bp.Z[0]))
_mats = {}


def judge(t, res, exp, what, mat=False):
    t.trans()
    t.check(isinstance(res, PTYPES), lambda: f"{what()} is {res!r}, a {type(res).__name__}")
    got = of(res)
    t.check(same(got, exp), lambda: f"{what()} = {res!r}, expected {exp}")
    if mat:
        k = repr(res)
        if k not in _mats:
            if len(_mats) > 40000:
                _mats.clear()
            _mats[k] = 1
            n = max(2, res.n_qubits)
            t.trace()
            t.check(np.allclose(res.to_matrix(n), palg.coo(exp, n), atol=1e-9), lambda: f"matrix of {what()} = {res!r}")
        t.state(k)


def scale(t, c):
    """coefficients of very different magnitude: nothing may be rounded away or overflow"""
    P = palg.scale_pool()
    tiny = abs(c) < 1e-80 or abs(c) > 1e50

    def ok(r, e, what):
        t.trans()
        t.check(isinstance(r, PTYPES) and palg.rel(of(r), e), lambda: f"{what} = {r!r}, expected {e}")
        t.state((what, repr(r)))
    for a in P:
        ra = of(a)
        A = a * c
        sa = palg.scale(ra, c)
        ok(A, sa, f"({a!r}) * {c}")
        ok(c * a, sa, f"{c} * ({a!r})")
        ok(a / c, palg.scale(ra, 1 / c), f"({a!r}) / {c}")
        ok(-A, palg.scale(ra, -c), f"-({A!r})")
        for x in (c, c.real, 3 * c):
            if x:
                ok(a + x, palg.add(ra, palg.num(x)), f"({a!r}) + {x}")
                ok(x - a, palg.add(palg.num(x), ra, -1), f"{x} - ({a!r})")
        if isinstance(a, (bp.Term, bp.Expr)) and not tiny:
            ok(A ** 2, palg.power(sa, 2), f"({A!r}) ** 2")
            ok(A ** 3, palg.power(sa, 3), f"({A!r}) ** 3")
        for b in P:
            rb = of(b)
            ok(A + b, palg.add(sa, rb), f"({A!r}) + ({b!r})")
            ok(A - b, palg.add(sa, rb, -1), f"({A!r}) - ({b!r})")
            ok(b - A, palg.add(rb, sa, -1), f"({b!r}) - ({A!r})")
            ok(A * b, palg.mul(sa, rb), f"({A!r}) * ({b!r})")
            ok(b * A, palg.mul(rb, sa), f"({b!r}) * ({A!r})")
            ok(A + b * c, palg.add(sa, palg.scale(rb, c)), f"({A!r}) + ({b!r}) * {c}")
    t.trace()


HIGH = [0, 2, 9, 10, 11, 63, 64, 100, 1000]
LONGP = [["X0", "Y0", "Z0"], ["X2", "Z10", "Y2"], ["X10", "Z9", "Z10"], ["Y100", "X11", "X100"]]


def high(t, q):
    """operators of qubits with large numbers: order of factors, letters and phases"""
    for (p, r, u) in itertools.product("XYZ", repeat=3):
        for m in HIGH:
            for n in (q, m, 10):
                w = [f"{p}{q}", f"{r}{m}", f"{u}{n}"]
                a, b, c = map(build, w)
                ra, rb, rc = map(refv, w)
                judge(t, a * b * c, palg.mul(palg.mul(ra, rb), rc), lambda: "*".join(w))
                judge(t, a * (b * c), palg.mul(palg.mul(ra, rb), rc), lambda: "*".join(w) + " (right first)")
                judge(t, a + b * c - 2 * b, palg.add(palg.add(ra, palg.mul(rb, rc)), palg.scale(rb, -2)), lambda: f"{w[0]} + {w[1]}*{w[2]} - 2*{w[1]}")
                s = (a + b) * (c - b)
                judge(t, s, palg.mul(palg.add(ra, rb), palg.add(rc, rb, -1)), lambda: f"({w[0]} + {w[1]})*({w[2]} - {w[1]})")
                judge(t, s.simplify(), palg.mul(palg.add(ra, rb), palg.add(rc, rb, -1)), lambda: f"simplified ({w[0]} + {w[1]})*({w[2]} - {w[1]})")
    t.trace()


def longp(t, alpha, head, depth):
    ob = {w: (build(w), refv(w)) for w in alpha}

    def go(A, B, r, w):
        judge(t, A, r, lambda: "*".join(w))
        if len(w) == depth:
            judge(t, A.simplify(), r, lambda: "*".join(w) + " simplified")
            judge(t, bp.Term(tuple(ob[x][0] for x in w), 1.0), r, lambda: f"Term of {w}")
            judge(t, B * B, palg.mul(palg.add(r, palg.num(1)), palg.add(r, palg.num(1))), lambda: f"({'*'.join(w)} + 1) squared")
            return
        for x in alpha:
            e = palg.mul(r, ob[x][1])
            C = A * ob[x][0]
            go(C, C + 1, e, w + [x])
    go(ob[head][0].to_term(), None, ob[head][1], [head])
    t.trace()


def longs(t, i):
    """many terms: 64 distinct words with distinct coefficients, accumulated in several ways"""
    letters = [("X", "Z"), ("Y", "X"), ("Z", "Y")][i % 3]
    W = [(f"{letters[j % 2]}{j % 11}", f"{letters[(j // 2) % 2]}{(j * 7 + 3 + i) % 13}", (j - 20.5) / 8 if j % 3 else complex(j, 2) / 4) for j in range(64)]
    objs = [build(a) * build(b) * c for a, b, c in W]
    refs = [palg.scale(palg.mul(refv(a), refv(b)), c) for a, b, c in W]
    ks = range(1, 65)
    acc, ex, left, inp = bp.Expr.zero(), {}, 0, bp.Expr.zero()
    for k in ks:
        acc = acc + objs[k - 1]
        left = objs[k - 1] + left
        inp += objs[k - 1]
        ex = palg.add(ex, refs[k - 1])
        for o, n in ((acc, "added one by one"), (left, "added from the left"), (inp, "+="), (sum(objs[:k]), "sum()"), (bp.Expr(tuple(objs[:k])), "Expr of the terms")):
            judge(t, o, ex, lambda: f"{k} terms {n}")
            judge(t, o.to_expr().simplify(), ex, lambda: f"{k} terms {n}, simplified")
        judge(t, acc - objs[0] * 2, palg.add(ex, palg.scale(refs[0], -2)), lambda: f"{k} terms minus twice the first")
        judge(t, acc * objs[k // 2], palg.mul(ex, refs[k // 2]), lambda: f"{k} terms times a term")
        judge(t, objs[k // 2] * acc, palg.mul(refs[k // 2], ex), lambda: f"a term times {k} terms")
        judge(t, acc * (2 - 1j) - 3, palg.add(palg.scale(ex, 2 - 1j), palg.num(-3)), lambda: f"{k} terms scaled")
        judge(t, acc - acc, {}, lambda: f"{k} terms minus themselves")
    for a, b in ((2, 3), (8, 8), (16, 32), (32, 32)):
        A, B = sum(objs[:a]), sum(objs[-b:])
        ra, rb = {}, {}
        for r in refs[:a]:
            ra = palg.add(ra, r)
        for r in refs[-b:]:
            rb = palg.add(rb, r)
        judge(t, A * B, palg.mul(ra, rb), lambda: f"product of sums of {a} and {b} terms")
    for m in (1, 2, 3):
        A, ra = bp.Expr.zero(), {}
        for j in range(m):
            A, ra = A + objs[j] * 0.25, palg.add(ra, palg.scale(refs[j], 0.25))
        for e in range(0, 10 if m < 3 else 7):
            r = A ** e
            ex = palg.power(ra, e)
            t.trans()
            t.check(palg.same(of(r), ex, 1e-9 * max([1] + [abs(v) for v in ex.values()])), lambda: f"sum of {m} terms to the power {e}: {r!r}, expected {ex}")
    T, rt = objs[5], refs[5]
    for e in range(0, 13):
        ex = palg.power(rt, e)
        t.trans()
        t.check(palg.same(of(T ** e), ex, 1e-9 * max([1] + [abs(v) for v in ex.values()])), lambda: f"({T!r}) ** {e} = {T ** e!r}, expected {ex}")
    t.trace()


def run_case(t, d):
    k = d["kind"]
    if k == "high":
        high(t, d["q"])
        t.outcome("large qubit numbers")
    elif k == "longp":
        longp(t, d["alpha"], d["head"], d["depth"])
        t.outcome("long products")
    elif k == "longs":
        longs(t, d["i"])
        t.outcome("sums of many terms")
    elif k == "bin":
        L = pool("full")
        a = L[d["a"]]
        A, sa, ra = obj(a)
        judge(t, A, ra, lambda: show(a), True)
        for b in L:
            B, sb, rb = obj(b)
            for o in "+-*":
                try:
                    r = palg.OPF[o](A, B)
                except Exception as ex:
                    t.check(False, f"{show([o, a, b])} raised {ex!r}")
                judge(t, r, palg.mul(ra, rb) if o == "*" else palg.add(ra, rb, 1 if o == "+" else -1), lambda: show([o, a, b]), True)
            if snap(B) != sb or snap(A) != sa:
                t.check(False, f"operands of {show(['*', a, b])} changed to {A!r}, {B!r}")
        t.check(snap(A) == sa, lambda: f"{show(a)} changed to {A!r}")
        t.outcome("depth 2")
    elif k == "num":
        for a in pool("full")[d["lo"]:d["hi"]]:
            A, sa, ra = obj(a)
            for x in NUMX:
                v = palg.number(x)
                rx = palg.num(v)
                for o in "+-*":
                    judge(t, palg.OPF[o](A, v), palg.mul(ra, rx) if o == "*" else palg.add(ra, rx, 1 if o == "+" else -1), lambda: show([o, a, x]), True)
                    judge(t, palg.OPF[o](v, A), palg.mul(rx, ra) if o == "*" else palg.add(rx, ra, 1 if o == "+" else -1), lambda: show([o, x, a]), True)
                try:
                    r = A / v
                    t.check(bool(v), lambda: f"{show(['/', a, x])} = {r!r} instead of ZeroDivisionError")
                    judge(t, r, palg.scale(ra, 1 / complex(v)), lambda: show(["/", a, x]), True)
                except ZeroDivisionError:
                    t.check(not v, lambda: f"{show(['/', a, x])} raised ZeroDivisionError")
                try:
                    r = v / A
                    t.check(False, f"{show(['/', x, a])} = {r!r}")
                except TypeError:
                    pass
            if isinstance(A, (bp.Term, bp.Expr)):
                for e in (0, 1, 2, 3, 4, np.int64(2), True):
                    judge(t, A ** e, palg.power(ra, int(e)), lambda: show(["pow", a, e]), True)
                for e in (-1, -2):
                    try:
                        r = A ** e
                        t.check(False, f"{show(['pow', a, e])} = {r!r}")
                    except ValueError:
                        pass
                for e in (0.5, 1j, "2", None):
                    try:
                        r = A ** e
                        t.check(False, f"{show(a)} ** {e!r} = {r!r}")
                    except TypeError:
                        pass
            judge(t, -A, palg.scale(ra, -1), lambda: show(["neg", a]), True)
            judge(t, sum([A, A, A]), palg.scale(ra, 3), lambda: f"sum of three {show(a)}")
            judge(t, sum([A], A), palg.scale(ra, 2), lambda: f"sum of two {show(a)}")
            # in-place operators make new objects
            for o, B in (("+", bp.X[0]), ("-", 1.5), ("*", bp.Y[0] * bp.Z[1]), ("*", 2), ("+", bp.X[0] * bp.Z[0] + 1)):
                C = A
                if o == "+":
                    C += B
                elif o == "-":
                    C -= B
                else:
                    C *= B
                rb = of(B) if isinstance(B, PTYPES) else palg.num(B)
                judge(t, C, palg.mul(ra, rb) if o == "*" else palg.add(ra, rb, 1 if o == "+" else -1), lambda: f"{show(a)} {o}= {B!r}")
            # foreign operands
            for B in ("x", None, [1], object()):
                for o in "+-/":
                    try:
                        r = palg.OPF[o](A, B)
                        t.check(False, f"{show(a)} {o} {B!r} = {r!r}")
                    except TypeError:
                        pass
            t.check(snap(A) == sa, lambda: f"{show(a)} changed to {A!r}")
        t.outcome("numbers")
    elif k == "scale":
        with palg.exact():
            scale(t, palg.SCALES[d["i"]])
        t.outcome("very small and very large coefficients")
    elif k == "leaf":
        for a, b in itertools.product(PAULI + NUMX, repeat=2):
            if is_num(a) and is_num(b):
                continue
            for o in "+-*":
                judge(t, build([o, a, b]), refv([o, a, b]), lambda: show([o, a, b]), True)
        for n in range(0, 7):
            for p, q in itertools.product("XYZ", repeat=2):
                for m in range(0, 7):
                    a, b = f"{p}{n}", f"{q}{m}"
                    for o in "+-*":
                        judge(t, build([o, a, b]), refv([o, a, b]), lambda: show([o, a, b]), n < 5 and m < 5)
        t.outcome("depth 1")
    elif k == "chain":
        CH = chain_leaves()
        h = [CH[i] for i in d["head"]]
        if is_num(h[0]) and is_num(h[1]):
            h[1] = "I"
        for o in "+-*":
            first = [o, h[0], h[1]]
            try:
                base = (build(first), refv(first))
            except Exception as ex:
                t.check(False, f"{show(first)} raised {ex!r}")
            chain(t, base, first, d["depth"] - 2, CH)
        t.outcome("chains")
    elif k == "deep":
        S = pool("small")
        for o in "+-*":
            e = [o, S[d["a"]], S[d["b"]]]
            A, ra = build(e), refv(e)
            sa = snap(A)
            for c in S:
                B, sb, rb = obj(c)
                for p in "+-*":
                    judge(t, palg.OPF[p](A, B), palg.mul(ra, rb) if p == "*" else palg.add(ra, rb, 1 if p == "+" else -1), lambda: show([p, e, c]), True)
                    judge(t, palg.OPF[p](B, A), palg.mul(rb, ra) if p == "*" else palg.add(rb, ra, 1 if p == "+" else -1), lambda: show([p, c, e]), True)
            t.check(snap(A) == sa, lambda: f"{show(e)} changed")
        t.outcome("depth 3")
    else:
        misc(t)


def chain(t, base, tr, depth, CH):
    A, ra = base
    for c in CH:
        B, sb, rb = obj(c)
        for p in "+-*":
            for left in (0, 1):
                if left:
                    r, e, tt = palg.OPF[p](B, A), (palg.mul(rb, ra) if p == "*" else palg.add(rb, ra, 1 if p == "+" else -1)), [p, c, tr]
                else:
                    r, e, tt = palg.OPF[p](A, B), (palg.mul(ra, rb) if p == "*" else palg.add(ra, rb, 1 if p == "+" else -1)), [p, tr, c]
                judge(t, r, e, lambda: show(tt))
                if depth > 1:
                    chain(t, (r, e), tt, depth - 1, CH)
        if snap(B) != sb:
            t.check(False, f"operand {show(c)} changed to {B!r}")


def misc(t):
    X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
    one = {(0, 0): 1}
    judge(t, I * I, one, lambda: "I*I", True)
    judge(t, I() * X[3], {(8, 0): 1}, lambda: "I()*X[3]", True)
    judge(t, sum([X[0], Y[0], Z[0]]), {(1, 0): 1, (1, 1): 1, (0, 1): 1}, lambda: "sum", True)
    for n in range(0, 5):
        q = bp.qubo_bit(n)
        judge(t, q, {(0, 0): 0.5, (0, 1 << n): -0.5}, lambda: f"qubo_bit({n})", True)
        judge(t, q * q, {(0, 0): 0.5, (0, 1 << n): -0.5}, lambda: f"qubo_bit({n})**2", True)
        judge(t, q ** 3, {(0, 0): 0.5, (0, 1 << n): -0.5}, lambda: f"qubo_bit({n})**3", True)
    for a in (X[0], X[0] * Y[1], X[0] + Y[1]):
        for b in (X[0], X[0] * 2, Y[0] + 1):
            try:
                r = a / b
                t.check(False, f"{a!r} / {b!r} = {r!r}")
            except TypeError:
                pass
    # long products in every order of three-qubit words
    for w in itertools.product(["X0", "Y0", "Z1", "X1"], repeat=5):
        A, r = build(w[0]), refv(w[0])
        for x in w[1:]:
            A, r = A * build(x), palg.mul(r, refv(x))
        judge(t, A, r, lambda: "*".join(w))
        A = build(w[-1])
        for x in w[-2::-1]:
            A = build(x) * A
        judge(t, A, r, lambda: "*".join(w) + " (from the right)")
    t.outcome("misc")
