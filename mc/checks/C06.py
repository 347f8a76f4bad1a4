"""All operation sequences over circuits, copies and shared backend objects; every run compared with a cache-free model."""
import itertools, warnings
import numpy as np
from mc import ref
from mc.build import circ, add
from blueqat import Circuit
from blueqat.backends.numpy_backend import NumPyBackend

BOUNDS = {
 "quick": "all sequences of length 4 over 22 operations (append, growing append, sliced append, measure, run, run on shared backend, make_cache, copy with/without backends, dagger, +, +=, shots, ignore_global) on a heap of 2 circuits from 2 initial heaps (15 operations for the second); "
          "length 5 over 11 and 7 core operations; every word of 2 (22 operations) and 3 (11 operations) steps repeated to 12 steps, every step 70 times and every pair of 11 operations 24 times; 40 circuits in turn on one backend object; every gate with targets that depend on the circuit's size, looked at between growth steps, in copies, and in circuits of all sizes sharing its operations, in every order; after each sequence every circuit is run on its own and on the shared backend",
 "thorough": "lengths 5 / 6 / 8"}
FULL = ["A0", "A1", "G0", "G1", "H0", "H1", "M0", "R0", "R1", "C0", "K0", "K1", "k0", "S0", "S1", "D0", "+", "I01", "I10", "I00", "N0", "P0"]
PART = ["A0", "A1", "G0", "H0", "M0", "R0", "R1", "C0", "K0", "k0", "S0", "S1", "I01", "N0", "P0"]
CORE = ["A0", "A1", "H0", "G0", "R0", "R1", "C0", "K0", "S0", "S1", "M0"]
MINI = ["A0", "A1", "R0", "R1", "K0", "S0", "S1"]
INIT = {0: ((0, []), (0, [])), 1: ((2, [["h", [], 0], ["ry", [0.9], ["s", None, None, None]]]), (2, [["h", [], 0]])), 2: ((3, [["rx", [0.4], 2]]), (1, [["x", [], 0], ["m", [], 0]]))}


def cases(tier):
    L = (4, 5, 5) if tier == "quick" else (5, 6, 8)
    out = []
    for init in INIT:
        for a, b in itertools.product(FULL, repeat=2):
            if tier == "quick" and (init == 0 or init == 2 and not {a, b} <= set(PART)):
                continue
            out.append(dict(kind="seq", alpha="PART" if tier == "quick" and init == 2 else "FULL", init=init, head=[a, b], depth=L[0]))
    for a, b in itertools.product(CORE, repeat=2):
        out.append(dict(kind="seq", alpha="CORE", init=0, head=[a, b], depth=L[1]))
    for i, a in enumerate(FULL):
        out.append(dict(kind="cycle", alpha="FULL", init=(0, 1, 2)[i % 3], head=[a], width=2, rep=6))
    for a, b in itertools.product(CORE, repeat=2):
        out.append(dict(kind="cycle", alpha="CORE", init=1, head=[a, b], width=3, rep=4 if tier == "quick" else 10))
    for a in FULL:
        out.append(dict(kind="cycle", alpha="FULL", init=1, head=[a], width=1, rep=70))
        if a in CORE:
            for b in CORE:
                out.append(dict(kind="cycle", alpha="CORE", init=0, head=[a, b], width=2, rep=24))
    for k in range(6):
        out.append(dict(kind="fleet", k=k, m=40))
    for nm in ref.UNITARY + ["m", "reset"]:
        out.append(dict(kind="regrow", name=nm))
    for a, b, c in itertools.product(MINI, repeat=3):
        out.append(dict(kind="seq", alpha="MINI", init=1, head=[a, b, c], depth=L[2]))
    return out


_memo = {}


def model(prog, n):
    k = (str(prog), n)
    if k not in _memo:
        if len(_memo) > 50000:
            _memo.clear()
        _memo[k] = [("".join(map(str, b)), v) for p, b, v in ref.branches(prog, n)]
    return _memo[k]


class World:
    def __init__(self, init):
        self.H = [circ(p, n) if p or n else Circuit() for n, p in INIT[init]]
        self.P = [[list(p), max(n, ref.n_of(p))] for n, p in INIT[init]]
        self.B = NumPyBackend()
        self.k = 0

    def check(self, t, i, got, hist, what):
        t.trace()
        prog, n = self.P[i]
        m = model(prog, n)
        ok = isinstance(got, np.ndarray) and got.shape == (2 ** n,) and any(np.allclose(got, v, atol=1e-8) or ref.same(got, v) for _, v in m)
        t.check(ok, lambda: f"after {hist}: {what} of circuit {i} ({prog} on {n} qubits) returned {np.round(got, 4)}, a fresh circuit gives {[np.round(v, 4) for _, v in m][:2]}")

    def app(self, i, op):
        add(self.H[i], op)
        self.P[i][0].append(op)
        self.P[i][1] = max(self.P[i][1], ref.grow(ref.to_py(op[2])))

    def do(self, t, o, hist):
        """perform operation o; False if disabled in this state"""
        t.trans()
        c = o[0]
        i = int(o[1]) if len(o) > 1 else 0
        prog, n = self.P[i]
        if c == "A":
            self.k += 1
            self.app(i, ["ry", [0.3 + 0.41 * self.k], 0] if self.k % 2 else ["u3", [0.3 * self.k, 0.2, 0.5], 0])
        elif c == "H":
            self.app(i, ["h", [], ["s", None, None, None]])
        elif c == "G":
            if n >= 4:
                return False
            self.app(i, ["cx", [], ["t", [0, n]]] if n else ["x", [], 0])
        elif c == "M":
            if sum(o[0] == "m" for o in prog) >= 2:
                return False
            self.app(i, ["m", [], 0])
        elif c == "R":
            self.check(t, i, self.H[i].run(), hist, "run()")
        elif c == "C":
            self.H[i].make_cache()
        elif c in "Kk":
            self.H[1 - i] = self.H[i].copy() if c == "K" else self.H[i].copy(copy_backends=False)
            self.P[1 - i] = [list(prog), n]
        elif c == "S":
            self.check(t, i, self.H[i].run(backend=self.B), hist, "run on the shared backend")
        elif c == "D":
            if any(o[0] in ("m", "reset") for o in prog):
                return False
            self.H[1] = self.H[0].dagger(copy_backends=self.k % 2 == 0)
            self.P[1] = [[dag(x) for x in reversed(prog)], n]
        elif c == "+":
            self.H[0] = self.H[0] + self.H[1]
            self.P[0] = [self.P[0][0] + self.P[1][0], max(self.P[0][1], self.P[1][1])]
        elif c == "I":
            a, b = int(o[1]), int(o[2])
            if len(self.P[a][0]) + len(self.P[b][0]) > 14:
                return False
            h = self.H[a]
            h += self.H[b]
            self.P[a] = [self.P[a][0] + list(self.P[b][0]), max(self.P[a][1], self.P[b][1])]
            if a == b:
                self.P[a] = [self.P[a][0], self.P[a][1]]
        elif c == "N":
            sh = self.H[i].run(shots=2)
            labels = {b for b, _ in model(prog, n)}
            t.trace()
            t.check(n == 0 or (sum(sh.values()) == 2 and set(sh) <= labels), lambda: f"after {hist}: run(shots=2) of {prog} on {n} gave {sh}")
        elif c == "P":
            self.check(t, i, self.H[i].run(ignore_global=True), hist, "run(ignore_global=True)")
        else:
            raise KeyError(o)
        return True


def dag(op):
    nm, p, x = op
    if nm in ("ry", "rx", "rz", "crx", "phase"):
        return [nm, [-p[0]], x]
    if nm == "u3":
        return [nm, [-p[0], -p[2], -p[1]], x]
    return op


def fleet(t, k, m):
    """many circuits of different sizes, run in turn on one backend object and on their own, growing and being copied between the rounds"""
    B = NumPyBackend()
    cs = []
    for i in range(m):
        n = (i * (k + 2)) % 5 + 1
        prog = [["ry", [0.1 * i + 0.2], i % n], ["h", [], (i + k) % n]]
        cs.append([circ(prog, n if i % 3 else 0), prog, max(n if i % 3 else 0, ref.n_of(prog))])
    for rnd in range(3):
        for j in range(m):
            i = (j * (3 if k % 2 else 1) + rnd) % m
            c, prog, n = cs[i]
            for what, f in (("shared", lambda: c.run(backend=B)), ("own", c.run)) if (j + k) % 2 else (("own", c.run), ("shared", lambda: c.run(backend=B))):
                got = f()
                t.check(isinstance(got, np.ndarray) and got.shape == (2 ** n,) and ref.same(got, model(prog, n)[0][1]), lambda: f"round {rnd}, circuit {i} of {m} ({prog} on {n} qubits), {what} backend: {np.round(got, 4)}")
                t.trans(), t.trace()
            if k in (2, 3, 5) and (i + rnd) % 3 == 0:
                op = ["cx", [], ["t", [0, n if n < 5 else n - 1]]]
                add(c, op)
                cs[i] = [c, prog + [op], min(5, n + 1)]
            elif k in (1, 3) and (i + rnd) % 3 == 1:
                cs[i] = [c.copy(), prog, n]
        t.state((k, rnd))
    t.outcome("fleet")


def regrow(t, nm):
    """an operation whose targets depend on the number of qubits, used at several sizes in every order"""
    S = lambda a, b, c=None: ["s", a, b, c]
    if nm in ref.TWO:
        L = [["t", x] for x in ([0, -1], [-1, 0], [-2, -1], [S(None, -1), -1], [-1, S(None, -1)], [S(1, None), 0], [S(None, None, 2), S(1, None, 2)], [["t", [0, -2]], ["t", [1, -1]]], [S(-2, -1), S(-1, None)], [0, 1])]
    elif nm in ref.THREE:
        L = [["t", x] for x in ([0, 1, -1], [-1, 0, 1], [-3, -2, -1], [0, -1, 1], [0, 1, 2])]
    else:
        L = [-1, -2, S(None, None), S(1, None), S(None, -1), S(None, None, -1), S(-2, None), ["t", [0, -1]], ["t", [-1, -1]], ["t", [S(None, None, 2), -1]], S(None, None, 2), 0]
    params = [[0.7, -1.3, 2.1][:ref.NPARAM[nm]]]
    for ex in L:
        for pp in params:
            op = [nm, pp, ex]

            def prog(n):
                return [["ry", [0.4 + 0.3 * q], q] for q in range(2)] + [op, ["rx", [0.3], 0]]

            def fits(n):
                try:
                    qs = list(ref.elementary(nm, ref.to_py(ex), n))
                    return all(len(set(q)) == len(q) for q in qs) and all(0 <= x < n for q in qs for x in q)
                except Exception:
                    return False
            sizes = [n for n in (2, 3, 4, 5) if fits(n)]
            if not sizes:
                continue

            def look(c, n, what, hist, extra=()):
                extra = list(extra)
                m = model(prog(n), n)
                if what == "qasm":
                    got = c.to_qasm()
                    t.check(got == circ(prog(n) + extra, n).to_qasm(), lambda: f"{prog(n) + extra} after {hist}: exports {got!r} on {n} qubits, a fresh circuit {circ(prog(n) + extra, n).to_qasm()!r}")
                    return
                got = c.run(backend=B) if what == "shared" else c.run() if what == "run" else c.run(backend=NumPyBackend())
                t.check(isinstance(got, np.ndarray) and got.shape == (2 ** n,) and any(ref.same(got, v) for _, v in m),
                        lambda: f"{prog(n)} after {hist}: {what} on {n} qubits returned {np.round(got, 4)}, a fresh circuit gives {[np.round(v, 4) for _, v in m][:2]}")
                t.trace()
            for order in itertools.product(("run", "shared", "qasm", "new", ""), repeat=2):
                B = NumPyBackend()
                # one circuit growing
                n = sizes[0]
                c = circ(prog(n), n)
                hist = []
                old = []
                for k, n in enumerate(sizes):
                    if k:
                        # the new qubit is there but nothing happens on it
                        c.i[n - 1]
                    if order[k % 2]:
                        look(c, n, order[k % 2], hist, [["i", [], x - 1] for x in sizes[1:k + 1]])
                    hist.append((n, order[k % 2]))
                    old.append((n, c.copy()))
                    t.trans()
                look(c, n, "run", hist)
                for n, cc in old:
                    look(cc, n, "run", hist + ["its copy"])
                # circuits of several sizes sharing the operations
                for seq in (sizes, sizes[::-1]):
                    ops = circ(prog(sizes[0]), sizes[0]).ops
                    hist = []
                    for k, n in enumerate(seq + seq[:1]):
                        cc = Circuit(n, list(ops))
                        look(cc, n, order[k % 2] or "run", hist + ["another circuit with the same operations"])
                        hist.append((n, order[k % 2]))
                        t.trans()
                t.state((str(op), order))
    t.outcome("regrow")


def run_case(t, d):
    if d["kind"] == "regrow":
        regrow(t, d["name"])
        return
    if d["kind"] == "fleet":
        fleet(t, d["k"], d["m"])
        return
    alpha = globals()[d["alpha"]]
    cyc = d["kind"] == "cycle"
    for rest in itertools.product(alpha, repeat=(d["width"] if cyc else d["depth"]) - len(d["head"])):
        seq = d["head"] + list(rest)
        if cyc:
            seq = seq * d["rep"]
        w = World(d["init"])
        ok = True
        for j, o in enumerate(seq):
            if not w.do(t, o, seq[:j + 1]):
                ok = cyc          # a cycle goes on without the disabled step
                if not cyc:
                    break
        if not ok:
            continue
        for o in ("R0", "R1", "S0", "S1"):
            w.do(t, o, seq + ["final " + o])
        t.state((str(w.P[0]), str(w.P[1])))
    t.sample(d)
    t.outcome(d["alpha"])
