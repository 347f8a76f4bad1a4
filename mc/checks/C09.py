"""Stateless exploration of all two-thread schedules (switches at source lines) up to a preemption bound."""
import numpy as np
from mc import ref, rng
from mc.build import circ, add
from mc.sched import Two
from blueqat import Circuit

BOUNDS = {
 "quick": "15 pairs of operations (runs of different circuits, circuit and its copy, cached and fresh, same gate on different targets, unequal sizes, shots, measured with state, sums and daggers, 11 qubits, growing, unitary, QASM) - every schedule with 1 preemption at line granularity; every schedule with 2 preemptions for cached circuit/copy and QASM; for the others 2 preemptions with the second at every 12th line (all residues)",
 "thorough": "at most 3 preemptions for the shortest pairs (third at every 3rd line), all schedules with 2 for the others"}
S = ["s", None, None, None]


def cx(a, b):
    return ["cx", [], ["t", [a, b]]]


def run_check(prog, n):
    m = [v for p, b, v in ref.branches(prog, n)]
    return lambda r: isinstance(r, np.ndarray) and r.shape == m[0].shape and any(ref.same(r, v) for v in m)


def shots_check(prog, n, N):
    labels = {"".join(map(str, b)) for p, b, v in ref.branches(prog, n)}
    return lambda r: sum(r.values()) == N and set(r) <= labels


def pair(name):
    """-> [(fn, check), (fn, check)] on fresh objects"""
    if name == "diff":
        p, q = [["h", [], 0], ["ry", [0.7], 1]], [["x", [], 1], cx(1, 0)]
        a, b = circ(p, 2), circ(q, 2)
        return [(a.run, run_check(p, 2)), (b.run, run_check(q, 2))]
    if name == "copy":
        p = [["u3", [.4, .3, .2], 0], cx(0, 1)]
        a = circ(p, 2)
        b = a.copy()
        return [(a.run, run_check(p, 2)), (b.run, run_check(p, 2))]
    if name == "cachedcopy":
        p = [["h", [], 0]]
        a = circ(p, 2)
        a.run()
        b = a.copy()
        add(a, ["ry", [0.3], 0])
        add(b, ["rx", [0.9], 1])
        return [(a.run, run_check(p + [["ry", [0.3], 0]], 2)), (b.run, run_check(p + [["rx", [0.9], 1]], 2))]
    if name == "samegate":
        p, q = [["cx", [], ["t", [0, 1]]], ["ry", [0.4], S], ["crx", [0.6], ["t", [0, 1]]]], [["ry", [1.4], S], ["crx", [-0.6], ["t", [1, 0]]]]
        a, b = circ(p, 2), circ(q, 2)
        return [(a.run, run_check(p, 2)), (b.run, run_check(q, 2))]
    if name == "sizes":
        p, q = [["h", [], S], cx(2, 0)], [["h", [], S], ["rx", [0.3], 0]]
        a, b = circ(p, 3), circ(q, 1)
        return [(a.run, run_check(p, 3)), (b.run, run_check(q, 1))]
    if name == "fallback":
        p, q = [["h", [], 0], ["swap", [], ["t", [0, 1]]]], [["x", [], 1], ["ccx", [], ["t", [0, 1, 2]]]]
        a, b = circ(p, 2), circ(q, 3)
        return [(a.run, run_check(p, 2)), (b.run, run_check(q, 3))]
    if name == "shots":
        p, q = [["x", [], 0], ["m", [], 0], ["x", [], 1], ["m", [], 1]], [["h", [], 0], ["m", [], 0], ["reset", [], 0]]
        a, b = circ(p, 2), circ(q, 2)
        return [(lambda: a.run(shots=2), shots_check(p, 2, 2)), (b.run, run_check(q, 2))]
    if name == "qasm":
        p, q = [["h", [], S], cx(0, 1)], [["ry", [0.5], 0], ["m", [], 0]]
        a, b = circ(p, 2), circ(q, 1)
        ea, eb = a.to_qasm(), b.to_qasm()
        return [(a.to_qasm, lambda r: r == ea), (b.to_qasm, lambda r: r == eb)]
    if name == "qasmrun":
        p = [["h", [], S], cx(0, 1)]
        a = circ(p, 2)
        ea = a.to_qasm()
        b = a.copy()
        return [(a.to_qasm, lambda r: r == ea), (b.run, run_check(p, 2))]
    if name == "unitary":
        p, q = [["h", [], 0], cx(0, 1)], [["x", [], 1], ["s", [], 0]]
        a, b = circ(p, 2), circ(q, 2)
        f = lambda prog: (lambda r: ref.same(np.array(r.evalf().tolist(), complex), ref.unitary(prog, 2)))
        return [(a.to_unitary, f(p)), (b.to_unitary, f(q))]
    if name == "globalphase":
        p, q = [["x", [], 0], ["rz", [0.8], 0]], [["y", [], 0], ["phase", [0.4], 0]]
        a, b = circ(p, 1), circ(q, 1)
        return [(lambda: a.run(ignore_global=True), run_check(p, 1)), (lambda: b.run(ignore_global=True), run_check(q, 1))]
    if name == "wide":
        # above every size at which numpy or the simulator might switch strategy
        p = [["h", [], 0], cx(0, 9), ["ry", [0.7], 10]]
        q = [["x", [], 10], ["crx", [0.9], ["t", [10, 3]]], ["rz", [0.3], S]]
        a, b = circ(p, 11), circ(q, 11)
        return [(a.run, run_check(p, 11)), (b.run, run_check(q, 11))]
    if name == "growncopy":
        p = [["h", [], 0], cx(0, 1)]
        a = circ(p, 2)
        a.run()
        b = a.copy()
        add(a, ["ry", [0.3], 2])
        add(b, cx(0, 2))
        add(b, ["rx", [0.9], 3])
        return [(a.run, run_check(p + [["ry", [0.3], 2]], 3)), (b.run, run_check(p + [cx(0, 2), ["rx", [0.9], 3]], 4))]
    if name == "sumops":
        # building new circuits from one circuit while its copy runs
        p = [["ry", [0.4], 0], cx(0, 1), ["s", [], 1]]
        a = circ(p, 2)
        a.run()
        b = a.copy()
        add(b, ["h", [], 1])
        d = [["sdg", [], 1], cx(0, 1), ["ry", [-0.4], 0]]
        return [(lambda: (a + circ([["x", [], 1]], 2)).run(), run_check(p + [["x", [], 1]], 2)), (lambda: b.dagger().run(), run_check([["h", [], 1]] + d, 2))]
    if name == "measured":
        p, q = [["x", [], S], ["m", [], 0], ["reset", [], 1], ["m", [], S]], [["x", [], 1], ["m", [], ["t", [1, 0]]], cx(1, 0), ["m", [], 0]]
        a, b = circ(p, 2), circ(q, 2)
        f = lambda prog, key: (lambda r: isinstance(r, tuple) and dict(r[1]) == {key: 2} and run_check(prog, 2)(r[0]))
        return [(lambda: a.run(shots=2, returns="statevector_and_shots"), f(p, "10")), (lambda: b.run(shots=2, returns="statevector_and_shots"), f(q, "11"))]
    raise KeyError(name)


NAMES = ["diff", "copy", "cachedcopy", "samegate", "sizes", "fallback", "shots", "qasm", "qasmrun", "unitary", "globalphase", "wide", "growncopy", "sumops", "measured"]


def lengths(name):
    fns = [f for f, _ in pair(name)]
    out = []
    for i in (0, 1):
        T = Two(fns, [(0, 10 ** 9)]) if i == 0 else Two([f for f, _ in pair(name)], [(1, 10 ** 9)])
        T.run()
        out.append(T.steps[i])
    return out


def cases(tier):
    out = []
    with rng.active(rng.Script(u=lambda _: .3, idx=lambda _, n: 0)):
        for nm in NAMES:
            L = lengths(nm)
            out.append(dict(kind="alone", name=nm))
            for first in (0, 1):
                for i in range(0, L[first] + 1):
                    out.append(dict(kind="pb", name=nm, first=first, i=i, L=L, bound=1 if nm == "unitary" and tier == "quick" else 3 if tier == "thorough" and sum(L) < 200 else 2,
                                    stride=1 if tier == "thorough" or nm in ("cachedcopy", "qasm") else 12))
    return out


def one(t, name, plan):
    fc = pair(name)
    T = Two([f for f, _ in fc], plan)
    res, exc = T.run()
    t.trace()
    t.trans(T.switches + 1)
    for k in (0, 1):
        t.check(exc[k] is None, lambda: f"pair {name}, schedule {plan}: thread {k} raised {exc[k]!r}")
        t.check(fc[k][1](res[k]), lambda: f"pair {name}, schedule {plan}: thread {k} returned {res[k]}")


def run_case(t, d):
    nm = d["name"]
    with rng.active(rng.Script(u=lambda _: .3, idx=lambda _, n: 0)):
        if d["kind"] == "alone":
            for f, c in pair(nm):
                r = f()
                t.check(c(r), f"pair {nm}: alone returns {r}")
            return
        a, i = d["first"], d["i"]
        b = 1 - a
        if d["bound"] == 1:
            one(t, nm, [(a, i), (b, 10 ** 9)])
            t.state((nm, a, i))
        else:
            one(t, nm, [(a, i), (b, 10 ** 9)])
            for j in range(1 + i % d["stride"], d["L"][b] + 1, d["stride"]):
                plan = [(a, i), (b, j)]
                one(t, nm, plan + [(a, 10 ** 9)])
                t.state((nm, a, i, j))
                if d["bound"] == 3:
                    for k in range(1, d["L"][a] - i + 1, 3):
                        one(t, nm, plan + [(a, k), (b, 10 ** 9)])
        t.outcome(nm)
        if i == 3:
            t.sample(dict(pair=nm, schedule=[(a, i), (b, "1.."), (a, "rest")]))
