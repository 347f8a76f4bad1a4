"""Immutable operation lists, printing, circuit_to_unitary: all operation sequences on a heap of values against a value model."""
import itertools, math
import numpy as np
from mc import ref
from mc.build import circ, add, rprog, instances, targets, generic_prefix, pv, PI, wide_targets, long_alphabet
from mc.checks.C01 import multi_targets, GRID1, G2, G3
from blueqat import Circuit
from blueqat.experimental import Ops
from blueqat.experimental.utils import circuit_to_unitary

OPSNAMES = "i x y z h t tdg s sdg cz cx cnot cy ch rx ry rz r phase crx cry crz cr cphase u1 u2 u3 cu1 cu2 cu3 swap ccx toffoli".split()
ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}
s = lambda a=None, b=None, c=None: ["s", a, b, c]
BOUNDS = {
 "quick": "every gate x target expression on Ops vs Circuit (n=1..4, growing, sliced, nested); all sequences of length 4 over 13 operations (gates, +, dagger, to_circuit followed by changes of the circuit) on a heap of 3 values, every value re-checked after every step; "
          "printing: every gate x parameter grid x index expressions (for x/rz/measure/reset every slice with start, stop in -3..4/none and step in -3..3, for cx/crz/swap pairs of slices), all pairs; circuit_to_unitary of every gate x target n<=3, all pairs n=2, n=0..8; every gate at wide targets on 9..12 qubits, programs of 34-400 gates: every prefix kept and re-checked, printed, added, inverted",
 "thorough": "length 5, pairs n=3"}


def cases(tier):
    out = []
    for nm in OPSNAMES + ["m", "measure"]:
        out.append(dict(kind="same", name=nm))
    for nm in ref.UNITARY + ["m", "measure", "reset"]:
        out.append(dict(kind="repr", name=nm))
    for nm in ref.UNITARY:
        out.append(dict(kind="unitary", name=nm))
    for a in range(len(pairs2())):
        out.append(dict(kind="pair", a=a))
    for a, b in itertools.product(range(len(ACT)), repeat=2):
        out.append(dict(kind="heap", head=[a, b], depth=4 if tier == "quick" else 5))
    out.append(dict(kind="shape"))
    for nm in OPSNAMES:
        out.append(dict(kind="wide", name=nm))
    for i in range(12):
        out.append(dict(kind="long", i=i))
    return out


def pairs2():
    return instances([x for x in ref.UNITARY if x not in ref.THREE], 2, ZERO)


def ops_of(o):
    return (o.n_qubits, tuple(str(g) for g in o.ops))


def state_same(t, o, prog, n, what):
    """the Ops value equals the model program"""
    t.trace()
    t.check(o.n_qubits == n and len(o.ops) == len(prog), lambda: f"{what}: {o!r} has {o.n_qubits} qubits/{len(o.ops)} gates, expected {n}/{len(prog)}")
    c = o.to_circuit()
    if any(p[0] in ("m", "measure", "reset") for p in prog):
        got = c.run()
        t.check(any(ref.same(got, v) for p, b, v in ref.branches(rprog(prog), n)), lambda: f"{what}: {o!r} gives {got}")
    else:
        got = c.run()
        exp = ref.run(rprog(prog), n)
        t.check(ref.same(got, exp), lambda: f"{what}: {o!r} gives {np.round(got, 4)}, expected {np.round(exp, 4)}")


ACT = [("app", 0, ["h", [], 0]), ("app", 0, ["ry", [0.7], 1]), ("app", 1, ["cx", [], ["t", [0, 2]]]), ("app", 1, ["rz", [0.4], s()]), ("app", 2, ["u3", [0.3, 0.5, 0.7], -1]),
       ("add", 0, 1), ("add", 1, 0), ("add", 2, 2), ("dag", 0), ("dag", 2), ("circ", 0), ("circ", 1), ("cadd", 2)]
INIT = [(0, []), (2, [["h", [], 0], ["cx", [], ["t", [0, 1]]]]), (2, [["ry", [0.9], 0], ["s", [], 0]])]


def dag(op):
    nm, p, x = op
    if nm in ("ry", "rz", "rx"):
        return [nm, [-p[0]], x]
    if nm == "u3":
        return [nm, [-p[0], -p[2], -p[1]], x]
    return {"s": ["sdg", [], x], "sdg": ["s", [], x]}.get(nm, op)


def run_case(t, d):
    k = d["kind"]
    if k == "same":
        nm = d["name"]
        meas = nm in ("m", "measure")
        p = [] if meas else ZERO[ref.NPARAM[nm]][0]
        for n0 in (0, 1, 2, 3):
            for n in (1, 2, 3, 4):
                if not meas and n < (1 if nm in ref.ONE else 2 if nm in ref.TWO else 3):
                    continue
                tg = (targets(nm, n) + multi_targets("x" if meas else nm, n)) if n < 4 else targets(nm, n)[::3]
                for x in tg:
                    base = [["h", [], 0], ["ry", [0.5], n0]] if n0 else [["ry", [0.3], 0]]
                    o = Ops(n0)
                    c = Circuit(n0)
                    olds = [o]
                    ok = True
                    for op in base + [[nm, p, x]]:
                        o = add(o, op)
                        add(c, op)
                        olds.append(o)
                    n1 = max(n0, ref.n_of(base + [[nm, p, x]]))
                    try:
                        [ref.elementary("m" if meas else nm, ref.to_py(x), n1)]
                    except ref.Bad:
                        continue
                    t.check(ops_of(o) == (c.n_qubits, tuple(str(g) for g in c.ops)) and [type(g) for g in o.ops] == [type(g) for g in c.ops], lambda: f"Ops {o!r} and circuit {c!r} differ for the same steps")
                    state_same(t, o, base + [[nm, p, x]], n1, f"{nm}[{x}]")
                    t.check([len(v.ops) for v in olds] == [0, *range(1, len(base) + 1 + 1)] and olds[0].n_qubits == n0, lambda: f"earlier values changed: {olds}")
                    t.trans(len(base) + 1)
                    t.state((nm, n0, n, str(x)))
        # parameters of every type, wrappers used twice
        if not meas and ref.NPARAM[nm]:
            x = targets(nm, 1 if nm in ref.ONE else 2)
            for v in (0.3, -4, 1e-7, np.float64(0.2), 7):
                w = getattr(Ops(1), nm)(*[v] * ref.NPARAM[nm])
                a, b = w[ref.to_py(x[0])], w[ref.to_py(x[-1])]
                state_same(t, a, [[nm, [float(v)] * ref.NPARAM[nm], x[0]]], max(1, ref.n_of([[nm, [], x[0]]])), "wrapper")
                state_same(t, b, [[nm, [float(v)] * ref.NPARAM[nm], x[-1]]], max(1, ref.n_of([[nm, [], x[-1]]])), "wrapper")
        t.outcome("same steps")
    elif k == "heap":
        for rest in itertools.product(range(len(ACT)), repeat=d["depth"] - 2):
            heap(t, [ACT[i] for i in d["head"] + list(rest)])
        t.sample([ACT[i] for i in d["head"]])
        t.outcome("heap sequences")
    elif k == "repr":
        reprs(t, d["name"])
    elif k == "unitary":
        nm = d["name"]
        p = ZERO[ref.NPARAM[nm]][0]
        for n in (1, 2, 3):
            if n < (1 if nm in ref.ONE else 2 if nm in ref.TWO else 3):
                continue
            for x in targets(nm, n) + multi_targets(nm, n):
                unitary(t, [["ry", [0.4], n - 1], [nm, p, x], ["h", [], 0]], n)
        unitary(t, [[nm, p, targets(nm, 3)[0]], ["x", [], 3]], 0)
        t.outcome("circuit_to_unitary")
    elif k == "pair":
        I = pairs2()
        for b in I:
            unitary(t, [I[d["a"]], b], 2)
        t.outcome("circuit_to_unitary pairs")
    elif k == "wide":
        wide(t, d["name"])
    elif k == "long":
        long_(t, d["i"])
    elif k == "shape":
        shape(t)


def same_ops(a, b):
    return a.n_qubits == b.n_qubits and len(a.ops) == len(b.ops) and all(type(g) is type(h) and str(g) == str(h) and [float(v) for v in g.params] == [float(v) for v in h.params] for g, h in zip(a.ops, b.ops))


def rebuilt(t, o, what):
    back = eval(repr(o), {"Circuit": Circuit, "Ops": Ops})
    t.check(type(back) is type(o) and same_ops(back, o), lambda: f"{what}: {o!r} rebuilds {back!r}")
    a, b = (x if isinstance(x, Circuit) else x.to_circuit() for x in (o, back))
    t.check(a.to_qasm() == b.to_qasm(), lambda: f"{what}: {o!r} rebuilds a circuit with another export")
    t.trace()


def wide(t, nm):
    p = ZERO[ref.NPARAM[nm]][0]
    for n in (9, 11, 12):
        pre = generic_prefix(n)
        v = ref.run(pre, n)
        base = Ops(0)
        for op in pre:
            base = add(base, op)
        for x in wide_targets(nm, n):
            o = add(base, [nm, p, x])
            c = o.to_circuit()
            t.check(o.n_qubits == n and len(base.ops) == len(pre) and ref.same(c.run(), ref.run([[nm, p, x]], n, v)), lambda: f"{nm}{p}[{x}] on an Ops of {n} qubits: {str(o.ops[-1])}")
            rebuilt(t, o, "wide")
            rebuilt(t, c, "wide")
            grown = add(Ops(), ["x", [], n - 1])
            t.check(grown.n_qubits == n, lambda: f"{grown!r}")
            rebuilt(t, grown, "grown")
            t.trans()
            t.state((nm, n, str(x)))
    if nm not in ref.THREE:
        for n in (6, 7, 8):
            unitary(t, [["ry", [0.4], n - 1], [nm, p, n - 1 if nm in ref.ONE else ["t", [n - 1, 0]]], ["h", [], n // 2]], n)
    t.outcome("wide")


def long_(t, i):
    al = [g for g in long_alphabet([x for x in OPSNAMES])]
    r = i * 3 % len(al)
    al = al[r:] + al[:r]
    prog = al + al[::-1] + al[::2]
    vals, o = [], Ops(3)
    c = Circuit(3)
    for op in prog:
        vals.append(o)
        o = add(o, op)
        add(c, op)
    vals.append(o)
    t.check(same_ops(o, c), lambda: f"Ops {o!r} and circuit {c!r} differ for the same {len(prog)} steps")
    for j, v in enumerate(vals):
        t.check(len(v.ops) == j, lambda: f"value after {j} steps has {len(v.ops)} gates later")
        t.trans()
        if j % 11 == i % 11:
            t.check(ref.same(v.to_circuit().run(), ref.run(prog[:j], 3)), lambda: f"value after {j} steps")
    # several children of one value
    kids = [add(vals[20], op) for op in al[:8]]
    for op, kd in zip(al, kids):
        t.check(len(kd.ops) == 21 and ref.same(kd.to_circuit().run(), ref.run(prog[:20] + [op], 3)), lambda: f"children of one value: {kd!r}")
    d2 = o + o
    t.check(len(d2.ops) == 2 * len(prog) and len(o.ops) == len(prog) and ref.same(d2.to_circuit().run(), ref.run(prog + prog, 3)), "sum of long lists")
    for m in (0, 1, 4, 6):
        for short in ([], [["h", [], 0]], [["x", [], max(m - 1, 0)], ["ry", [0.3], 0]], [["h", [], 0]] * 7):
            z = Ops(m)
            for op in short:
                z = add(z, op)
            n1 = max(m, ref.n_of(short))
            zd = z.dagger()
            t.check(zd.n_qubits == n1 and len(zd.ops) == len(short) and z.n_qubits == n1, lambda: f"inverse of {z!r} is {zd!r}")
            t.check(z.to_circuit().n_qubits == n1 and zd.to_circuit().dagger().n_qubits == n1, lambda: f"circuit of {z!r}, inverse")
            for y, p, n2 in ((o, prog, 3), (vals[5], prog[:5], 3), (vals[1], prog[:1], 3)):
                for w, q in ((z + y, short + p), (y + z, p + short)):
                    t.check(w.n_qubits == max(n1, n2) and len(w.ops) == len(q) and z.n_qubits == n1 and y.n_qubits == n2, lambda: f"sum of {len(p)} gates on {n2} qubits and {short} on {n1}: {w.n_qubits} qubits, {len(w.ops)} gates")
                    if len(q) < 30:
                        t.check(ref.same(w.to_circuit().run(), ref.run(q, max(n1, n2))), lambda: f"sum of {p} and {short}")
                    t.trans()
    d3 = d2 + d2 + kids[0]
    t.check(len(d3.ops) == 4 * len(prog) + 21, "sum of long lists")
    back = o + o.dagger()
    t.check(ref.same(back.to_circuit().run(), ref.run([], 3)), lambda: f"a list of {len(prog)} gates and its inverse")
    for x in (o, d3, c, back, o.dagger(), add(d3, ["x", [], 14])):
        rebuilt(t, x, "long")
    U = circuit_to_unitary(c)
    t.check(ref.same(U, ref.unitary(prog, 3)), "circuit_to_unitary of a long circuit")
    t.state((i, len(prog)))
    t.outcome("long")


def unitary(t, prog, n0):
    c = circ(prog, n0)
    n = ref.n_of(prog, n0)
    if len(prog) % 2:
        c.run()
    before = (c.n_qubits, [str(g) for g in c.ops])
    U = circuit_to_unitary(c)
    t.trace(), t.trans(len(prog))
    exp = ref.unitary(prog, n)
    t.check(isinstance(U, np.ndarray) and U.shape == exp.shape and ref.same(U, exp), lambda: f"circuit_to_unitary of {prog} on {n} qubits: {np.round(U, 3).tolist()} expected {np.round(exp, 3).tolist()}")
    t.check((c.n_qubits, [str(g) for g in c.ops]) == before, "circuit changed")
    t.state(ref.key(exp))


def heap(t, seq):
    H = []
    for n, prog in INIT:
        o = Ops(n)
        for op in prog:
            o = add(o, op)
        H.append((o, prog, n))
    old = list(H)
    circs = []
    for a in seq:
        t.trans()
        i = a[1]
        o, prog, n = H[i]
        if a[0] == "app":
            if n == 0 and a[2][2] == -1:
                continue
            new = add(o, a[2])
            H[i] = (new, prog + [a[2]], max(n, ref.n_of([a[2]])))
        elif a[0] == "add":
            o2, p2, n2 = H[a[2]]
            H[2] = (o + o2, prog + p2, max(n, n2))
        elif a[0] == "dag":
            H[i] = (o.dagger(), [dag(x) for x in reversed(prog)], n)
        elif a[0] == "circ":
            c = o.to_circuit()
            c.x[n]
            c.h[:]
            c.run()
            circs.append((c, prog + [["x", [], n], ["h", [], s()]], n + 1))
            continue
        elif a[0] == "cadd":
            c = o.to_circuit()
            c += Circuit().ry(0.2)[0]
            circs.append((c, prog + [["ry", [0.2], 0]], max(n, 1)))
            continue
        if H[i] is not old[-1]:
            old.append(H[2] if a[0] == "add" else H[i])
    for o, prog, n in old:
        if n > 3 or len(prog) > 12:
            continue
        t.check(o.n_qubits == n and isinstance(o.ops, tuple), lambda: f"after {seq}: {o!r}, expected {n} qubits")
        state_same(t, o, prog, n, f"after {seq}")
    for c, prog, n in circs:
        if n <= 4:
            got = c.run()
            t.check(c.n_qubits == n and ref.same(got, ref.run(prog, n)), lambda: f"after {seq}: circuit {c!r} gives {got}, expected program {prog}")
    t.state(str([(p, n) for _, p, n in H]))


def reprs(t, nm):
    m = 0 if nm in ("m", "measure", "reset") else ref.NPARAM[nm]
    one = nm in ref.ONE or nm in ("m", "measure", "reset")
    three = nm in ref.THREE
    grid = [[]] if m == 0 else [[x] for x in GRID1 if not isinstance(x, list) or x[0] != "f32"] if m == 1 else [list(x) for x in itertools.product(G2, repeat=2)] if m == 2 else [list(x) for x in itertools.product(G3[:5], repeat=3)]
    if m:
        grid += [[v] * m for v in (1e-7, -3e-9, 1e-300, 1e22, 123456789.123456, ["f64", 1e-7], ["f64", -0.1], ["i64", -3], 0, -1, 1 / 3, -0.0, 2.0 ** -40, math.pi * 1e5)]
    if one:
        tg = targets("x", 3) + multi_targets("x", 3) + [["t", [["t", [0, 1]], 2]], ["t", [s(0, 2), ["t", [2, s(None, None, -1)]]]], s(-1, None), s(None, -1), s(2, 0, -1), s(0, 3, 2), ["t", [0]], ["t", [s()]], -1, ["t", [-1, 0]], ["t", [["t", [1]]]]]
    elif three:
        tg = targets(nm, 3) + [["t", [-1, 0, 1]]]
    else:
        tg = targets(nm, 3) + multi_targets(nm, 3) + [["t", [["t", [0, 1]], ["t", [1, 2]]]], ["t", [["t", [0, 2]], s(1, None, None)]], ["t", [s(0, 2), ["t", [2, 0]]]], ["t", [s(None, 1), 2]], ["t", [["t", [0]], 1]], ["t", [["t", []], ["t", []]]]]
    V = (None, -3, -1, 0, 1, 3)
    if nm in ("x", "rz", "m", "reset"):
        tg = tg + [s(a, b, c) for a in (None, *range(-3, 4)) for b in (None, *range(-3, 5)) for c in (None, -3, -2, -1, 1, 2, 3)]
        tg += [["t", [s(a, b, c), 1]] for a in V for b in V for c in (None, -1, 1, 2)]
    elif nm in ("cx", "crz", "swap"):
        sl = [s(a, b, c) for a in V for b in V for c in (None, -1, 1, 2)]
        tg = tg + [["t", [a, b]] for a in sl[::3] for b in sl[::2]] + [["t", [a, 1]] for a in sl] + [["t", [0, a]] for a in sl]
    for gi, p in enumerate(grid):
        for x in (tg if gi < 1 or gi < 2 and len(tg) < 300 else tg[:1]):
            for n0 in (0, 3):
                try:
                    ref.elementary("m" if one else nm, ref.to_py(x), max(3, ref.n_of([[nm, [], x]])))
                except ref.Bad:
                    continue
                for cls in (Circuit, Ops):
                    o = cls(3)
                    if cls is Ops and nm not in OPSNAMES + ["m", "measure"]:
                        continue
                    o = add(o, ["ry", [0.4], 0])
                    o = add(o, [nm, p, x])
                    o = add(o, ["h", [], 1])
                    text = repr(o)
                    t.trace(), t.trans()
                    try:
                        back = eval(text, {"Circuit": Circuit, "Ops": Ops})
                    except Exception as ex:
                        t.check(False, f"{text!r} is not valid source: {ex!r}")
                    t.check(type(back) is cls and back.n_qubits == o.n_qubits and len(back.ops) == len(o.ops), lambda: f"{text!r} rebuilds {back!r}")
                    for g, h in zip(o.ops, back.ops):
                        t.check(type(g) is type(h) and [float(v) for v in g.params] == [float(v) for v in h.params], lambda: f"{text!r}: gate {g} rebuilt as {h}")
                    c, c2 = (o, back) if cls is Circuit else (o.to_circuit(), back.to_circuit())
                    t.check(c.to_qasm() == c2.to_qasm(), lambda: f"{text!r} rebuilds a circuit that exports as {c2.to_qasm()!r} instead of {c.to_qasm()!r}")
                    t.check(str(o) == text, "str() and repr() differ")
                    t.state(text)
    t.outcome("printing")


def shape(t):
    for n in range(0, 6):
        U = circuit_to_unitary(Circuit(n))
        t.check(U.shape == (2 ** n, 2 ** n) and np.allclose(U, np.eye(2 ** n)), f"empty circuit on {n} qubits")
        for c in (Circuit(n), Ops(n)):
            back = eval(repr(c), {"Circuit": Circuit, "Ops": Ops})
            t.check(type(back) is type(c) and back.n_qubits == n and len(back.ops) == 0, f"{c!r}")
        t.trans(3), t.trace(3)
        t.state(n)
    c = Circuit(2).h[0].cx[0, 1]
    for kw in ({}, {"backend": "numpy"}, {"returns": "statevector"}, {"shots": 1}):
        U = circuit_to_unitary(c, **kw)
        t.check(ref.same(U, ref.unitary([["h", [], 0], ["cx", [], ["t", [0, 1]]]], 2)), lambda: f"{kw}")
    Ug = circuit_to_unitary(c, ignore_global=True)
    t.check(all(ref.same(Ug[:, j], circuit_to_unitary(c)[:, j]) for j in range(4)), "ignore_global")
    # immutability and errors
    o = Ops(2).h[0]
    for f in (lambda: setattr(o, "n_qubits", 5), lambda: setattr(o, "ops", ()), lambda: o.ops.append(1), lambda: o.__setitem__(0, 1)):
        try:
            f()
            t.check(False, "an Ops value could be changed")
        except (AttributeError, TypeError):
            pass
    for bad in ("x", 1.5, None, ["a"]):
        try:
            r = o.x[bad]
            t.check(False, f"target {bad!r} accepted: {r!r}")
        except (TypeError, AttributeError, ValueError):
            pass
    try:
        r = o.no_such_gate
        t.check(False, "unknown gate")
    except AttributeError:
        pass
    for other in (3, None, Circuit(1), "x"):
        for f in (lambda: o + other, lambda: other + o):
            try:
                r = f()
                t.check(False, lambda: f"sum of Ops and {other!r} is {r!r}")
            except TypeError:
                pass
    try:
        r = o.m[0].dagger()
        t.check(False, f"dagger of a measurement: {r!r}")
    except (ValueError, NotImplementedError):
        pass
    t.check(ops_of(o) == (2, ("h[0]",)), lambda: f"{o!r}")
    # values built from a common prefix are independent
    for x in (0, 1, s(), 3):
        a = add(o, ["x", [], x])
        b = add(o, ["z", [], x])
        state_same(t, o, [["h", [], 0]], 2, "prefix")
        state_same(t, a, [["h", [], 0], ["x", [], x]], max(2, ref.n_of([["x", [], x]])), "x branch")
        state_same(t, b, [["h", [], 0], ["z", [], x]], max(2, ref.n_of([["x", [], x]])), "z branch")
    for nm in OPSNAMES + ["m", "measure"]:
        getattr(o, nm)
    t.check(Ops().n_qubits == 0 and Ops().ops == () and Ops(n_qubits=3).n_qubits == 3, "defaults")
    t.trans(40), t.trace(20)
    t.outcome("shape")
