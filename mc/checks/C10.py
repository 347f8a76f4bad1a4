"""dagger(): composition with the original is the identity; measurement handling."""
import itertools, math
import numpy as np
from mc import ref
from mc.build import circ, add, rprog, instances, generic_prefix, targets, long_alphabet, wide_targets, PI, near_params
from mc.checks.C01 import multi_targets
from blueqat import Circuit

BOUNDS = {
 "quick": "every gate x every target tuple (n<=3) x parameter grid (22 values / 7^2 / 5^3 / angles beside the quarter turns); sliced, reversed, negative, repeated and growing targets n=3..5; all sequences of length 2 (n=3) and 3 (n=2); "
          "targets on 9 and 11 qubits; programs of 18 gates (every pair of gates repeated), every gate repeated 1..16 times; composition applied to every basis state and a generic state; measurement/reset at every position of every length<=3 sequence",
 "thorough": "finer grids, length 3 for n=3"}
NAMES = ref.UNITARY + ['ccz']
G1 = [0.0, PI / 4, -PI / 4, PI / 2, -PI / 2, PI, -PI, 1.5 * PI, 2 * PI, -2 * PI, 3 * PI, 4 * PI, 0.7, -1.9, 5.5, 1e-7, 100.3, 3, -2, ["f64", 0.3], ["i64", 2], ["f32", 0.5]]
G2 = [0.0, PI / 2, -PI / 2, PI, 0.7, -1.9, 5.5]
G3 = [0.0, PI / 2, PI, 0.7, -4.1]
ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}


def s(a=None, b=None, c=None):
    return ["s", a, b, c]


def cases(tier):
    out = []
    for nm in NAMES:
        out.append(dict(kind="one", name=nm, fine=tier == "thorough"))
        for n in (3, 4, 5):
            out.append(dict(kind="multi", name=nm, n=n))
        out.append(dict(kind="grow", name=nm))
    for a in range(len(instances(NAMES, 3, ZERO))):
        out.append(dict(kind="seq", n=3, a=a, depth=2 if tier == "quick" else 3))
    for a in range(len(instances([x for x in NAMES if x not in ref.THREE and x != 'ccz'], 2, ZERO))):
        out.append(dict(kind="seq", n=2, a=a, depth=3))
    for nm in NAMES:
        out.append(dict(kind="wide", name=nm, ns=(9, 11) if tier == "quick" else (9, 10, 11, 12)))
        out.append(dict(kind="long", name=nm, rep=8 if tier == "quick" else 30))
    for i in range(len(MOPS)):
        out.append(dict(kind="meas", i=i))
    out.append(dict(kind="meta"))
    return out


MOPS = [["m", [], 0], ["measure", [], s()], ["m", [], ["t", [1, 0]]], ["reset", [], 0], ["reset", [], s()], ["m", [], ["t", []]]]
UOPS = [["h", [], 0], ["s", [], 1], ["cx", [], ["t", [0, 1]]], ["u3", [0.7, -1.3, 2.1], 1], ["ry", [0.4], s()]]


def inverse(t, prog, n0, full=True, what="", overlap=False):
    """c + c.dagger() and c.dagger() + c act as identity; dagger twice equals the original"""
    c = circ(prog, n0)
    before = (c.n_qubits, [str(o) for o in c.ops])
    d = c.dagger()
    t.check((c.n_qubits, [str(o) for o in c.ops]) == before, lambda: f"dagger changed the circuit {prog}")
    n = ref.n_of(prog, n0)
    t.check(d.n_qubits == n, lambda: f"dagger of {prog} on {n} qubits has {d.n_qubits}")
    gp = generic_prefix(n)
    starts = [gp] if not full else [gp] + [[["x", [], q] for q in range(n) if b >> q & 1] + [["rz", [0.2], 0]] for b in range(2 ** n)]
    for pre in starts:
        v = ref.run(pre, n)
        base = circ(pre, n)
        for first, second, w in ((c, d, "c then dagger"), (d, c, "dagger then c")):
            got = (base + first + second).run()
            t.trace(), t.trans(len(prog))
            if not ref.same(got, v):
                key = None
                if overlap and wrong_order(prog, n, v, got, w):
                    key = "overlapping-pairs"
                t.check(False, lambda: f"{what}{prog} on {n} qubits: {w} is not the identity (from {pre}): {np.round(got, 4)}", key=key)
                return
    dd = d.dagger()
    got = (circ(gp, n) + dd).run()
    t.check(ref.same(got, ref.run(gp + rprog(prog), n)), lambda: f"dagger twice of {prog} differs from the original")
    t.state((n, str(prog)))


def wrong_order(prog, n, v, got, w):
    """is got exactly what the recorded finding produces: each pair inverted, but pairs not in reverse order?"""
    (nm, p, ex), = rprog(prog)
    fw = lambda x: ref.run([[nm, p, ex]], n, x)

    def bw(x):
        for qs in ref.elementary(nm, ref.to_py(ex), n):
            U = ref.unitary([[nm, p, ["t", list(qs)]]], n)
            x = U.conj().T @ x
        return x
    return ref.same(got, bw(fw(v)) if w == "c then dagger" else fw(bw(v)))


def overlaps(nm, ex, n):
    el = ref.elementary(nm, ref.to_py(ex), n)
    return len(el) > 1 and len({q for p in el for q in p}) < sum(len(p) for p in el)


def run_case(t, d):
    k = d["kind"]
    if k == "one":
        nm = d["name"]
        m = ref.NPARAM[nm]
        fine = d["fine"]
        grid = [[]] if m == 0 else [[x] for x in G1 + ([j * PI / 24 for j in range(-100, 100)] if fine else [])] if m == 1 else \
            [list(x) for x in itertools.product(G2, repeat=2)] if m == 2 else [list(x) for x in itertools.product(G3 if not fine else G2, repeat=3)]
        nmin = 1 if nm in ref.ONE else 2 if nm in ref.TWO else 3
        for p in near_params(m):
            inverse(t, [[nm, p, targets(nm, nmin)[-1]]], nmin)
        for n in range(nmin, 4):
            for i, p in enumerate(grid):
                tg = targets(nm, n)
                for x in (tg if i == 0 or len(grid) < 30 else tg[:1]):
                    inverse(t, [[nm, p, x]], n, full=n == nmin or i == 0)
        t.outcome("single gate")
    elif k == "multi":
        nm, n = d["name"], d["n"]
        ext = multi_targets(nm, n)
        if nm in ref.TWO:
            ext = ext + [["t", [["t", [0, 1]], ["t", [2, 0]]]], ["t", [["t", [0, 0]], ["t", [1, 2]]]], ["t", [["t", [0, 1]], ["t", [1, 0]]]], ["t", [["t", [1, 2]], ["t", [0, 0]]]], ["t", [["t", [0]], ["t", [2]]]]]
        for x in ext:
            inverse(t, [[nm, ZERO[ref.NPARAM[nm]][0], x]], n, full=False, overlap=nm in ref.TWO and overlaps(nm, x, n))
        t.outcome("multi target")
    elif k == "grow":
        nm = d["name"]
        p = ZERO[ref.NPARAM[nm]][0]
        if nm in ref.ONE:
            for x in (s(), s(None, None, -1), -1, s(1)):
                inverse(t, [["h", [], 1], [nm, p, x], ["x", [], 3]], 0, full=False)
        elif nm in ref.TWO:
            for x in (["t", [-1, 0]], ["t", [s(None, 1), s(-1, None)]]):
                inverse(t, [["h", [], 1], [nm, p, x], ["x", [], 3]], 0, full=False)
        else:
            inverse(t, [["h", [], 1], [nm, p, ["t", [0, -1, 1]]], ["x", [], 3]], 0, full=False)
        t.outcome("growing circuit")
    elif k == "seq":
        n = d["n"]
        I = instances([x for x in NAMES if n > 2 or (x not in ref.THREE and x != 'ccz')], n, ZERO)
        for rest in itertools.product(I, repeat=d["depth"] - 1):
            prog = [I[d["a"]]] + list(rest)
            c = circ(prog, n)
            got = c.dagger().run()
            # dagger applied to |0..0> and original applied to that state give |0..0> up to phase
            exp0 = ref.run([], n)
            back = ref.run(prog, n, got)
            t.trace(), t.trans()
            t.check(ref.same(back, exp0), lambda: f"{prog} on {n} qubits: applying the circuit to dagger|0> gives {np.round(back, 4)}")
            t.state(ref.key(got, 5))
        t.sample(dict(n=n, first=I[d["a"]]))
        t.outcome("sequences n=%d" % n)
    elif k == "wide":
        nm = d["name"]
        for n in d["ns"]:
            for x in wide_targets(nm, n):
                inverse(t, [[nm, ZERO[ref.NPARAM[nm]][0], x]], n, full=False, overlap=nm in ref.TWO and overlaps(nm, x, n))
        t.outcome("wide registers")
    elif k == "long":
        A = long_alphabet(NAMES)
        a = A[NAMES.index(d["name"])]
        for b in A:
            inverse(t, [["ry", [0.4], s()]] + [a, b] * d["rep"] + [["s", [], 1]], 3, full=False)
        for r in range(1, 17):
            inverse(t, [a] * r, 3, full=False)
        t.outcome("long programs")
    elif k == "meas":
        mop = MOPS[d["i"]]
        for r in range(0, 4):
            for rest in itertools.product(UOPS, repeat=r):
                for pos in range(r + 1):
                    prog = list(rest[:pos]) + [mop] + list(rest[pos:])
                    for second in ((None,) if r > 2 else (None, MOPS[3], MOPS[1])):
                        full = prog + ([second] if second else [])
                        c = circ(full, 2)
                        before = [str(o) for o in c.ops]
                        for kw in ({}, dict(ignore_measurement=False)):
                            try:
                                c.dagger(**kw)
                                t.check(False, f"dagger of {full} accepted")
                            except ValueError:
                                pass
                        t.check([str(o) for o in c.ops] == before, f"rejected dagger changed {full}")
                        dg = c.dagger(ignore_measurement=True)
                        t.trace(), t.trans()
                        t.check(dg.n_qubits == 2 and [str(o) for o in dg.ops] == [str(o) for o in circ(list(rest), 2).dagger().ops], lambda: f"dagger(ignore_measurement) of {full}: {dg!r}")
                        t.check(len(dg.ops) == r and ref.same(ref.run(list(rest), 2, dg.run()), ref.run([], 2)), lambda: f"dagger(ignore_measurement) of {full} is {dg!r}")
                        t.state(str(full))
        t.outcome("measurement")
    elif k == "meta":
        for n in range(0, 5):
            dg = Circuit(n).dagger()
            t.check(dg.n_qubits == n and len(dg.ops) == 0, f"dagger of empty circuit on {n}")
            dg = Circuit(n).dagger(ignore_measurement=True)
            t.check(dg.n_qubits == n and len(dg.ops) == 0, f"dagger of empty circuit on {n}")
        for cb in (False, True):
            c = Circuit(2).h[0].cx[0, 1].t[1]
            c.run()
            dg = c.dagger(copy_backends=cb)
            t.check(ref.same(dg.run(), ref.run([["tdg", [], 1], ["cx", [], ["t", [0, 1]]], ["h", [], 0]], 2)), "dagger with copied backends runs stale state")
            t.check(ref.same(c.run(), ref.run([["h", [], 0], ["cx", [], ["t", [0, 1]]], ["t", [], 1]], 2)), "original after dagger")
            t.trace(2), t.trans(2)
        t.state("meta")
