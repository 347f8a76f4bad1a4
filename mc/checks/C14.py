"""Symbolic unitary: every enumerated circuit's sympy matrix, evaluated, against the reference unitary."""
import cmath, itertools, math
import numpy as np
from mc import ref
from mc.build import circ, rprog, instances, targets, PI, pv, long_alphabet, near_params
from mc.checks.C01 import multi_targets
from blueqat import Circuit

NAMES = ref.UNITARY
ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}
ANG = [k * PI / 12 for k in range(-26, 27)] + [0, 1, -2, 3, 0.1, 0.7, -1.9, 9.3, 100.25, 1e-3, -1e-6, 1e-9, PI / 7, PI / 1000, PI / 3 + 1e-4, PI / 3 + 1e-6, PI / 2 - 1e-8,
       math.sqrt(2), math.e, PI * math.sqrt(3) / 5, ["f64", 0.3], ["f64", PI / 4]]
G2 = [0.0, PI / 2, 0.7, -1.9, PI]
G3 = [0.0, PI / 2, 0.7, -2.2]
# words that hide exact zeros on the diagonal and in phases
W1 = [["h", [], 0], ["t", [], 0], ["s", [], 0], ["ry", [PI / 4], 0], ["rx", [PI / 4], 0], ["rz", [PI / 4], 0], ["x", [], 0], ["ry", [0.7], 0], ["ry", [PI - 0.7], 0], ["u1", [PI / 3], 0]]
BOUNDS = {
 "quick": "every gate x every target tuple n<=3 and sliced targets, 77 angles per 1-parameter gate, 5^2/4^3 parameter grids, angles 2^-10 and 2^-20 beside the quarter turns, symbolic parameters (single, permuted, shared, compound, mixed with numbers) x 6 substitutions, all ordered pairs of 23 instances n=2, words of length 3 over 10 one-qubit gates with and without ignore_global, growing circuits, n=0..4; registers of 5 and 6 qubits (empty, gates at both ends, growing) and words of 8 to 24 gates over 2 and 3 qubits",
 "thorough": "all ordered pairs of all instances n=2, words of length 4, pairs n=3"}
ASSUMPTIONS = ["sympy evaluates numbers correctly to 1e-9"]
SUBS = [(0.7, -1.3, 2.1), (0.0, 0.0, 0.0), (PI / 2, PI, -PI / 2), (-5.5, 0.2, 3.3), (2 * PI, PI / 3, 1e-3), (1e-5, -7.7, 4.0)]


def syms():
    import sympy
    return sympy.symbols("theta phi lambd")


def rsyms():
    import sympy
    return sympy.symbols("a b c", real=True)


def cases(tier):
    out = []
    for nm in NAMES:
        for n in (1, 2, 3):
            out.append(dict(kind="targets", name=nm, n=n))
        if ref.NPARAM[nm]:
            for part in range(4):
                out.append(dict(kind="grid", name=nm, part=part))
                out.append(dict(kind="sym", name=nm, part=part))
    I = pairs2(tier)
    for a in range(len(I)):
        out.append(dict(kind="pair", a=a))
    L = 3 if tier == "quick" else 4
    for w in itertools.product(range(len(W1)), repeat=L - 1):
        out.append(dict(kind="word", w=list(w)))
    for k in range(8):
        out.append(dict(kind="shape", part=k))
    for n in (5, 6):
        for i in range(len(WIDE)) if n == 5 or tier != "quick" else (0, 3, 4, 8):
            out.append(dict(kind="wide", n=n, i=i))
    for i in range(12):
        out.append(dict(kind="long", i=i))
    return out


WIDE = ["x", "h", "rz", "u3", "cx", "cz", "crx", "cu1", "swap", "ccx", "t", "ry"]


def pairs2(tier):
    I = instances([x for x in NAMES if x not in ref.THREE], 2, ZERO)
    if tier == "quick":
        keep = [x for x in I if x[0] in ("h", "t", "rx", "rz", "u3", "u2", "cx", "cz", "swap", "crx", "cu1")]
        return keep
    return I


def num(m, subs=None):
    """numeric value of a sympy matrix (recursive evaluation of the expression tree; unknown nodes through evalf)"""
    import sympy
    subs = {k: complex(v) for k, v in (subs or {}).items()}
    memo = {}

    def ev(e):
        r = memo.get(e)
        if r is not None:
            return r
        f = e.func
        if e.is_Symbol:
            r = subs[e]
        elif e.is_Add:
            r = sum(ev(x) for x in e.args)
        elif e.is_Mul:
            r = 1.0 + 0j
            for x in e.args:
                r = r * ev(x)
        elif e.is_Pow and e.base is not sympy.E:
            b = ev(e.base)
            r = b ** int(e.exp) if e.exp.is_Integer else b ** ev(e.exp)
        elif f is sympy.exp:
            r = cmath.exp(ev(e.args[0]))
        elif f is sympy.sin:
            r = cmath.sin(ev(e.args[0]))
        elif f is sympy.cos:
            r = cmath.cos(ev(e.args[0]))
        elif f is sympy.Abs:
            r = complex(abs(ev(e.args[0])))
        elif e is sympy.I:
            r = 1j
        elif e.is_Number or e is sympy.pi:
            r = complex(float(e))
        else:
            r = complex(e.evalf(18, subs=subs))
        memo[e] = r
        return r
    return np.array([[ev(sympy.sympify(x)) for x in row] for row in m.tolist()], dtype=complex)


def phase_equal(got, exp, tol=3e-7):
    return got.shape == exp.shape and ref.same(got, exp, tol)


def go(t, prog, n0, ig=False, tol=3e-7):
    c = circ(prog, n0)
    n = ref.n_of(rprog(prog), n0)
    m = c.to_unitary()
    t.trace()
    t.trans(len(prog))
    exp = ref.unitary(rprog(prog), n)
    got = num(m)
    t.check(phase_equal(got, exp, tol), lambda: f"to_unitary of {prog} on {n} qubits is {np.round(got, 4).tolist()}, gates define {np.round(exp, 4).tolist()}")
    if ig:
        g2 = num(c.to_unitary(ignore_global=True))
        t.trace()
        t.check(phase_equal(g2, got, tol), lambda: f"to_unitary(ignore_global=True) of {prog} is {np.round(g2, 4).tolist()}, not {np.round(got, 4).tolist()} times a phase")
    t.state(ref.key(exp))
    return m


def run_case(t, d):
    k = d["kind"]
    if k == "targets":
        nm, n = d["name"], d["n"]
        p = ZERO[ref.NPARAM[nm]][0]
        if n < (1 if nm in ref.ONE else 2 if nm in ref.TWO else 3):
            return
        for i, x in enumerate(targets(nm, n) + multi_targets(nm, n)):
            go(t, [[nm, p, x]], n, ig=i < 2)
        if n == 2 and nm not in ref.THREE:
            go(t, [[nm, p, targets(nm, 2)[0]], ["h", [], 2]], 0)
            go(t, [[nm, p, ["s", None, None, None] if nm in ref.ONE else ["t", [-1, 0]]], ["x", [], 2]], 0)
        t.outcome("targets")
    elif k == "grid":
        nm = d["name"]
        m = ref.NPARAM[nm]
        grid = [[x] for x in ANG] if m == 1 else [list(x) for x in itertools.product(G2, repeat=2)] if m == 2 else [list(x) for x in itertools.product(G3, repeat=3)]
        x = targets(nm, 1 if nm in ref.ONE else 2)[0]
        for i, p in enumerate((grid + near_params(m, range(-3, 5), (10, 20)))[d["part"]::4]):
            go(t, [[nm, p, x]], 0, ig=i % 3 == 0)
        t.outcome("grid")
    elif k == "sym":
        import sympy
        nm, m = d["name"], ref.NPARAM[d["name"]]
        n = 1 if nm in ref.ONE else 2
        for S in (syms(), rsyms()):
            th, ph, la = S
            forms = {1: [[th], [ph], [la], [2 * th - ph], [th * ph], [sympy.pi / 3 + la], [sympy.pi / 4], [sympy.Rational(1, 3)], [-th]],
                     2: [[th, ph], [ph, la], [la, ph], [la, th], [th, th], [0.7, la], [ph, 0.3], [th + ph, th - ph], [sympy.pi / 3, la]],
                     3: [[th, ph, la], [la, th, ph], [ph, la, th], [la, ph, th], [th, th, th], [th, 0.7, la], [0.3, ph, -ph], [ph, th + la, 2], [sympy.pi / 2, th, sympy.pi]]}[m]
            for f in forms[d["part"]::4]:
                for x in targets(nm, n):
                    w = getattr(Circuit(n), nm)(*f)[ref.to_py(x)]
                    mat = w.to_unitary()
                    t.trace()
                    t.check(all(s in S for s in mat.free_symbols), lambda: f"{nm}({f}) mentions symbols {mat.free_symbols}")
                    for vals in SUBS:
                        sub = dict(zip(S, vals))
                        pn = [float(sympy.sympify(v).evalf(20, subs=sub)) for v in f]
                        got = num(mat, sub)
                        t.trans()
                        exp = ref.unitary([[nm, pn, x]], n)
                        t.check(phase_equal(got, exp), lambda: f"{nm}({f})[{x}] with {sub}: {np.round(got, 4).tolist()}, expected {np.round(exp, 4).tolist()}")
                    mat2 = w.to_unitary(ignore_global=True)
                    for vals in (SUBS[0], SUBS[3]):
                        sub = dict(zip(S, vals))
                        g2, g1 = num(mat2, sub), num(mat, sub)
                        t.check(phase_equal(g2, g1), lambda: f"ignore_global of {nm}({f})[{x}] with {sub}: {np.round(g2, 4).tolist()} vs {np.round(g1, 4).tolist()}")
                    t.state((nm, str(f), str(x)))
            # two symbolic gates in a row, both orders (values of one must not leak into the other)
            f = forms[d["part"]]
            for other in (["rx", [ph]], ["u3", [la, th, ph]], ["rz", [th]]):
                for first in (0, 1):
                    ops = [[nm, f, targets(nm, n)[0]], [other[0], other[1], n - 1]]
                    if first:
                        ops.reverse()
                    c = Circuit(n)
                    for o in ops:
                        c = getattr(c, o[0])(*o[1])[ref.to_py(o[2])]
                    mat = c.to_unitary()
                    t.trace()
                    for vals in (SUBS[0], SUBS[3]):
                        sub = dict(zip(S, vals))
                        po = [[o[0], [float(sympy.sympify(v).evalf(20, subs=sub)) for v in o[1]], o[2]] for o in ops]
                        t.trans(2)
                        t.check(phase_equal(num(mat, sub), ref.unitary(po, n)), lambda: f"{ops} with {sub}")
        t.outcome("symbolic")
    elif k == "pair":
        I = pairs2(t.tier)
        for i, b in enumerate(I):
            go(t, [I[d["a"]], b], 2, ig=i % 5 == d["a"] % 5)
        t.sample(I[d["a"]])
        t.outcome("pairs")
    elif k == "wide":
        n, nm = d["n"], WIDE[d["i"]]
        w = 1 if nm in ref.ONE else 2 if nm in ref.TWO else 3
        tg = {1: [n - 1, 4, -n], 2: [["t", x] for x in ([n - 1, 0], [0, n - 1], [3, 1])], 3: [["t", [n - 1, 0, 2]]]}[w]
        for x in tg if n < 6 else tg[:1]:
            go(t, [["x", [], n - 2], [nm, ZERO[ref.NPARAM[nm]][0], x]], n)
        if d["i"] == 0:
            t.check(phase_equal(num(Circuit(n).to_unitary()), np.eye(2 ** n)), f"empty circuit on {n} qubits")
        t.outcome("wide")
    elif k == "long":
        cl = ["x", "h", "s", "cx", "t", "cz", "y", "tdg", "cy", "swap", "sdg", "z", "i", "h", "cx"]
        i = d["i"]
        for n, L in ((2, 8), (2, 16), (2, 24), (3, 12)):
            al = long_alphabet(cl, 3)
            if n == 2:
                al = [[a, b, (c % 2 if isinstance(c, int) else ["t", [c[1][0] % 2, 1 - c[1][0] % 2]])] for a, b, c in al]
            prog = [al[(i + j * (1 + i % 4)) % len(al)] for j in range(L)]
            go(t, prog, n, ig=n == 2 and L < 24)
        go(t, [["rx", [0.3], 0], ["rz", [0.2], 0], ["u2", [0.1, 0.5], 0]] * 3 + [W1[i % len(W1)]], 1)
        t.outcome("long")
    elif k == "word":
        for last in W1:
            go(t, [W1[i] for i in d["w"]] + [last], 1, ig=True)
        t.outcome("words")
    elif k == "shape":
        part = d["part"]
        if part == 0:
            for n in range(0, 5):
                for ig in (False, True):
                    got = num(Circuit(n).to_unitary(ignore_global=ig))
                    t.trace(), t.trans()
                    t.check(phase_equal(got, np.eye(2 ** n)), f"empty circuit on {n} qubits")
        elif part == 1:
            # results are not shared and the circuit is unchanged
            c = Circuit(2).h[0].cx[0, 1]
            a = c.to_unitary()
            ga = num(a)
            try:
                a[0, 0] = 17
            except TypeError:
                pass
            t.check(phase_equal(num(c.to_unitary()), ga), "a result changed by its owner changed the next result")
            e = Circuit(2).to_unitary()
            try:
                e[0, 0] = 17
            except TypeError:
                pass
            t.check(phase_equal(num(Circuit(2).to_unitary()), np.eye(4)), "a result changed by its owner changed the next result")
            t.check(len(c.ops) == 2 and phase_equal(num(c.copy().to_unitary()), ga) and phase_equal(num((c + Circuit()).to_unitary()), ga), "copies")
            c.run()
            c.x[2]
            t.check(phase_equal(num(c.to_unitary()), ref.unitary([["h", [], 0], ["cx", [], ["t", [0, 1]]], ["x", [], 2]], 3)), "after running and growing")
            t.check(phase_equal(num(c.run(backend="sympy_unitary")), num(c.to_unitary())) and phase_equal(num(c.run_with_sympy_unitary()), num(c.to_unitary())), "run(backend='sympy_unitary')")
            t.trans(8), t.trace(8)
        else:
            # larger registers: one gate on each placement
            for nm in ("x", "h", "rz", "u3", "cx", "cz", "crx", "cu1", "swap", "ccx")[part - 2::6]:
                for x in targets(nm, 4)[::1 if nm not in ref.THREE else 4]:
                    go(t, [["h", [], 1], [nm, ZERO[ref.NPARAM[nm]][0], x]], 4)
        t.state(("shape", part))
        t.outcome("shape")
