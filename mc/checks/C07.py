"""Value semantics of circuits and returned results: all operation sequences over a heap of three circuits."""
import itertools, collections
import numpy as np
from mc import ref
from mc.build import circ, add, long_alphabet
from mc.checks.C06 import dag, model
from blueqat import Circuit
from blueqat.backends.numpy_backend import NumPyBackend

BOUNDS = {
 "quick": "all sequences of length 4 over 23 operations (append, grow, copy with/without backends, dagger, +, +=, runs returning vector/counter/both/unitary/qasm, shared-backend run, mutation of every held result) on a heap of 3 circuits, 2 initial heaps (16 operations for the second); length 5 over 7 core operations; length 4 over 12 joining operations (+=, + with the empty circuit on either side) on both heaps; "
          "every untouched circuit and held result compared bitwise after every step; length 3 over 13 operations on a heap of a 9-qubit circuit of 24 gates, an 11-qubit circuit and an empty one",
 "thorough": "lengths 5 and 7"}
FULL = ["A0", "A1", "A2", "G0", "K01", "K10", "k01", "K12", "D01", "D12", "+", "+r", "I01", "I10", "I00", "I12", "R0", "R1", "N0", "W0", "S0", "S1", "X"]
PART = ["A0", "A2", "G0", "K01", "K12", "k01", "D01", "+", "I01", "I00", "R0", "R1", "N0", "W0", "S0", "X"]
JOIN = ["A0", "A1", "A2", "I20", "I02", "I01", "E01", "E12", "F10", "+", "K01", "R0"]
CORE = ["A0", "A1", "K01", "I01", "R0", "R1", "X"]
INIT = {0: [(2, [["h", [], 0], ["ry", [0.9], 1]]), (1, [["rx", [0.7], 0]]), (0, [])], 1: [(1, [["x", [], 0], ["m", [], 0]]), (3, []), (2, [["h", [], ["s", None, None, None]], ["cx", [], ["t", [0, 1]]]])]}

INIT[2] = [(9, long_alphabet("x y z h rx ry rz u3 cx cz cy ch crx swap i ry".split()) + long_alphabet("h rx cx u3 ry cz".split()) + [["h", [], 8], ["cx", [], ["t", [8, 1]]]]), (11, [["h", [], 10], ["ry", [0.5], 9]]), (0, [])]
BIG = ["A0", "A2", "G0", "K01", "K12", "D01", "+", "I10", "R0", "R1", "N0", "S0", "X"]


def cases(tier):
    out = []
    L1, L2 = (4, 5) if tier == "quick" else (5, 7)
    for init in INIT:
        for a, b in itertools.product(FULL if tier != "quick" or init == 0 else PART, repeat=2):
            out.append(dict(kind="seq", alpha="FULL" if tier != "quick" or init == 0 else "PART", init=init, head=[a, b], depth=L1))
    for a, b, c in itertools.product(CORE, repeat=3):
        out.append(dict(kind="seq", alpha="CORE", init=0, head=[a, b, c], depth=L2))
    for a, b in itertools.product(JOIN, repeat=2):
        for init in INIT:
            out.append(dict(kind="seq", alpha="JOIN", init=init, head=[a, b], depth=L1))
    for a, b in itertools.product(BIG, repeat=2):
        out.append(dict(kind="seq", alpha="BIG", init=2, head=[a, b], depth=3 if tier == "quick" else 4))
    out.append(dict(kind="other"))
    return out


def snap(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, tuple):
        return tuple(snap(x) for x in o)
    if isinstance(o, collections.Counter):
        return collections.Counter(o)
    return o


def eq(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, tuple):
        return all(eq(x, y) for x, y in zip(a, b))
    return a == b


def trash(o):
    if isinstance(o, np.ndarray):
        o.fill(7.5)
    elif isinstance(o, tuple):
        for x in o:
            trash(x)
    elif isinstance(o, collections.Counter):
        o.clear()
        o["junk"] = 5


class World:
    def __init__(self, init):
        self.H = [circ(p, n) if p or n else Circuit() for n, p in INIT[init]]
        self.P = [[list(p), max(n, ref.n_of(p))] for n, p in INIT[init]]
        self.B = NumPyBackend()
        self.held = []
        self.k = 0

    def ident(self, i):
        c = self.H[i]
        return (c.n_qubits, [str(o) for o in c.ops])

    def verify(self, t, before, touched, hist):
        for i in range(3):
            if i != touched:
                t.check(self.ident(i) == before[i], lambda: f"{hist}: changed circuit {i} from {before[i]} to {self.ident(i)}")
        for o, s in self.held:
            t.check(eq(o, s), lambda: f"{hist}: a result returned earlier changed from {s} to {o}")

    def state_ok(self, i, got):
        prog, n = self.P[i]
        return isinstance(got, np.ndarray) and got.shape == (2 ** n,) and any(np.allclose(got, v, atol=1e-8) or ref.same(got, v) for _, v in model(prog, n))

    def do(self, t, o, hist):
        t.trans()
        c = o[0]
        i = int(o[1]) if len(o) > 1 and o[1].isdigit() else 0
        before = [self.ident(j) for j in range(3)]
        prog, n = self.P[i]
        touched = None
        if c == "A":
            self.k += 1
            op = ["ry", [0.3 + 0.41 * self.k], 0]
            add(self.H[i], op)
            self.P[i] = [prog + [op], max(n, 1)]
            touched = i
        elif c == "G":
            op = ["cx", [], ["t", [0, n]]] if n else ["x", [], 0]
            if n >= (4 if len(self.P[0][0]) < 20 else 13):
                return False
            add(self.H[i], op)
            self.P[i] = [prog + [op], max(n, ref.n_of([op]))]
            touched = i
        elif c in "Kk":
            j = int(o[2])
            self.H[j] = self.H[i].copy() if c == "K" else self.H[i].copy(copy_backends=False)
            self.P[j] = [list(prog), n]
            touched = j
        elif c == "D":
            j = int(o[2])
            if any(x[0] == "m" for x in prog):
                self.H[j] = self.H[i].dagger(ignore_measurement=True, copy_backends=True)
            else:
                self.H[j] = self.H[i].dagger(copy_backends=True)
            self.P[j] = [[dag(x) for x in reversed(prog) if x[0] != "m"], n]
            touched = j
        elif c == "+":
            a, b = (0, 1) if o == "+" else (1, 0)
            r = self.H[a] + self.H[b]
            t.check(r is not self.H[a] and r is not self.H[b], "+ returned an operand")
            self.H[2] = r
            self.P[2] = [self.P[a][0] + self.P[b][0], max(self.P[a][1], self.P[b][1])]
            touched = 2
        elif c == "I":
            j = int(o[2])
            if len(prog) + len(self.P[j][0]) > (14 if len(self.P[0][0]) < 20 else 80):
                return False
            h = self.H[i]
            h += self.H[j]
            t.check(h is self.H[i], "+= returned another object")
            self.P[i] = [prog + self.P[j][0], max(n, self.P[j][1])]
            touched = i
        elif c in "EF":
            # the empty circuit as left or right operand
            j = int(o[2])
            self.H[j] = Circuit() + self.H[i] if c == "E" else self.H[i] + Circuit()
            self.P[j] = [list(prog), n]
            touched = j
        elif c in "RS":
            if n == 0:
                return False
            r = self.H[i].run() if c == "R" else self.H[i].run(backend=self.B)
            t.trace()
            t.check(self.state_ok(i, r), lambda: f"{hist}: run of circuit {i} = {self.P[i]} returned {r}")
            t.check(not any(np.shares_memory(r, x) for x, _ in self.held if isinstance(x, np.ndarray)), lambda: f"{hist}: two runs returned the same memory")
            self.held.append([r, snap(r)])
        elif c == "N":
            r = self.H[i].run(shots=2)
            t.trace()
            self.held.append([r, snap(r)])
            labels = {b for b, _ in model(*self.P[i])}
            t.check(n == 0 or (sum(r.values()) == 2 and set(r) <= labels), lambda: f"{hist}: shots of circuit {i} = {r}")
        elif c == "W":
            if n == 0:
                return False
            r = self.H[i].run(shots=1, returns="statevector_and_shots")
            t.trace()
            t.check(self.state_ok(i, r[0]) and sum(r[1].values()) == 1, lambda: f"{hist}: {r}")
            self.held.append([r, snap(r)])
        elif c == "X":
            if not self.held:
                return False
            for h in self.held:
                trash(h[0])
                h[1] = snap(h[0])
        self.verify(t, before, touched, hist)
        return True


def run_case(t, d):
    if d["kind"] == "other":
        return other(t)
    alpha = globals()[d["alpha"]]
    for rest in itertools.product(alpha, repeat=d["depth"] - len(d["head"])):
        seq = d["head"] + list(rest)
        w = World(d["init"])
        if not all(w.do(t, o, seq[:j + 1]) for j, o in enumerate(seq)):
            continue
        for o in ("R0", "R1", "R2"):
            w.do(t, o, seq + ["final " + o])
        t.state(str(w.P))
    t.sample(d)
    t.outcome(d["alpha"])


def other(t):
    """results of the other backends and rejected operands"""
    c = Circuit(2).h[0].cx[0, 1].ry(0.3)[1]
    U1 = c.to_unitary()
    keep = U1.copy()
    U2 = c.to_unitary()
    U2[0, 0] = 99
    t.check(U1 == keep and c.to_unitary() == keep, "to_unitary results share state")
    t.check(U1 is not U2, "to_unitary returned the same matrix twice")
    before = (c.n_qubits, [str(o) for o in c.ops])
    from blueqat.experimental.utils import circuit_to_unitary
    M1 = circuit_to_unitary(c)
    M1.fill(3)
    M2 = circuit_to_unitary(c)
    t.check(ref.same(M2, ref.unitary([["h", [], 0], ["cx", [], ["t", [0, 1]]], ["ry", [.3], 1]], 2)), "circuit_to_unitary results share state")
    for op in ("+", "+="):
        for bad in (None, 1, [], "x", c.ops):
            try:
                if op == "+":
                    c + bad
                else:
                    d = c
                    d += bad
                t.check(False, f"circuit {op} {bad!r} accepted")
            except TypeError:
                pass
    t.check((c.n_qubits, [str(o) for o in c.ops]) == before, "circuit changed")
    # several copies, each extended differently, in every order
    for perm in itertools.permutations(range(3)):
        c = Circuit(1).h[0]
        c.run()
        cs = [c.copy(), c.copy(copy_backends=False), c]
        exp = [None] * 3
        for k in perm:
            op = ["ry", [0.5 + k], 0]
            add(cs[k], op)
            exp[k] = [["h", [], 0], op]
            cs[k].run()
        for k in range(3):
            t.check(ref.same(cs[k].run(), ref.run(exp[k], 1)), f"copies extended in order {perm} differ")
            t.trace(), t.trans()
    t.state("other")
