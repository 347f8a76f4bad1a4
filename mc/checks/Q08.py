"""Annealing-service submission and QAOA hand-over: all small QUBOs x solver graphs x answers with a recording stand-in for the service."""
import itertools, sys, types
import numpy as np
from mc.wqm import *
from mc import rng
from blueqat import wq

BOUNDS = {
 "quick": "all 2x2 QUBOs over {0,1,-2} and asymmetric ones, 64 3x3, 16 4x4 QUBOs x every order of the graph's nodes (<=4), sets, extra nodes and couplers, missing unused couplers; every answer of the service; repeated submissions; QAOA hand-over for all 2x2 QUBOs over {0,1,-2} x 1-3 steps, 8 QUBOs of 3-5 variables; submissions of 12 QUBOs of 5-8 variables, 96 QUBOs with entries from 1e-100 to 1e12 mixed, judged relatively",
 "thorough": "all 3x3 upper-triangular QUBOs over {0,1,-2}"}
ASSUMPTIONS = ["the service follows the dwave.cloud client interface: couplers (u,v) with u<v, samples indexed by qubit, any of 3, 1, -1 for unused qubits"]


def cases(tier):
    out = []
    for a in itertools.product((0, 1, -2), repeat=2):
        out.append(dict(kind="two", head=list(a)))
    vs = list(itertools.product((0, 1, -2), repeat=6))
    for i in range(0, len(vs), 11 if tier == "quick" else 1):
        out.append(dict(kind="three", v=list(vs[i])))
    for i in range(16):
        out.append(dict(kind="four", i=i))
    for a in itertools.product((0, 1, -2), repeat=1):
        out.append(dict(kind="qaoa", a=a[0]))
    for i in range(12):
        out.append(dict(kind="big", i=i))
    for i in range(8):
        out.append(dict(kind="qaoabig", i=i))
    out.append(dict(kind="seq"))
    for j in range(8):
        out.append(dict(kind="scale", j=j))
    return out


def scaled(t, j):
    """entries of very different sizes: every bias and coupling judged relative to its own parts"""
    n = 2 + j % 3
    mags = ((1e-3, 1e-6), (1e-9, 1.0), (1e6, 1e-3), (1e12, 1.0), (1e-12, 1e-15), (2e-3, 2e-3), (1e3, 1e-3), (1e-100, 1e-100))[j]
    for q in range(12):
        Q = [[(((7 * a + 3 * b + q) % 5) - 2) * mags[(a + b + q) % 2] for b in range(n)] for a in range(n)]
        if q % 3 == 0:
            Q = np.triu(np.array(Q)).tolist()
        for form in ("list", "array"):
            o = wq.Opt()
            o.qubo = FORMS[form](Q)
            with Service(list(range(n)), list(itertools.combinations(range(n), 2)), [1] * n, n) as svc:
                o.dw()
            lin, quad, kw = svc.calls[0]
            for a in range(n):
                parts = [Q[a][a] / 2] + [(Q[a][b] + Q[b][a]) / 4 for b in range(n) if b != a]
                t.check(abs(lin.get(a, 0) - sum(parts)) <= 1e-9 * sum(map(abs, parts)), lambda: f"QUBO {Q}: bias of {a} is {lin.get(a, 0)}, expected {sum(parts)}")
                for b in range(a + 1, n):
                    w = (Q[a][b] + Q[b][a]) / 4
                    g = quad.get((a, b), 0) + quad.get((b, a), 0)
                    t.check(abs(g - w) <= 1e-9 * (abs(Q[a][b]) + abs(Q[b][a])), lambda: f"QUBO {Q}: coupling of {a},{b} is {g}, expected {w}")
            t.trans()
        t.state((j, q))
    t.trace()


class Service:
    def __init__(self, nodes, edges, answer, size):
        self.calls, self.config = [], []
        svc = self
        unused = (3, 1, -1)

        class Solver:
            def __init__(self):
                self.nodes = nodes
                self.undirected_edges = edges
                self.edges = [e for a, b in edges for e in ((a, b), (b, a))]

            def sample_ising(self, linear, quad, **kw):
                svc.calls.append((dict(linear), dict(quad), kw))
                r = types.SimpleNamespace()
                r.samples = [[answer[i] if i < len(answer) else unused[(i + len(answer) + sum(answer)) % 3] for i in range(size)]]
                return r

        class Client:
            @staticmethod
            def from_config(**kw):
                svc.config.append(kw)
                return Client()

            def get_solver(self, *a, **k):
                return Solver()
        self.client = Client

    def __enter__(self):
        d, c = types.ModuleType("dwave"), types.ModuleType("dwave.cloud")
        c.Client = self.client
        d.cloud = c
        self.old = {k: sys.modules.get(k) for k in ("dwave", "dwave.cloud")}
        sys.modules["dwave"], sys.modules["dwave.cloud"] = d, c
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def graphs(n, Q, deep):
    need = {(i, j) for i in range(n) for j in range(i + 1, n) if Q[i][j] + Q[j][i] != 0}
    allp = list(itertools.combinations(range(n), 2))
    extra = [(i, n) for i in range(n)] + [(n, n + 1)]
    out = []
    for nodes in itertools.permutations(range(n)) if deep else [tuple(range(n)), tuple(reversed(range(n)))]:
        out.append((list(nodes), allp, n))
        out.append((list(nodes) + [n, n + 1], allp + extra, n + 2))
    out.append((set(range(n + 2)), set(allp + extra), n + 3))
    out.append(([n + 1] + list(range(n)) + [n], list(reversed(sorted(need))) + extra, n + 2))
    out.append((set(range(n)), {e for e in need}, n))
    return out


def judge(t, Q, form="list", deep=True, answers=None):
    n = len(Q)
    E = energies(Q)
    for gi, (nodes, edges, size) in enumerate(graphs(n, Q, deep)):
        for ans in ([bits(n)[(gi * 5) % 2 ** n]] if answers is None else answers):
            o = wq.Opt()
            o.qubo = FORMS[form](Q)
            b = repr(o.qubo)
            o.dwavetoken, o.dwavesolver, o.dwaveendpoint = "tok", "sol", "http://end"
            with Service(nodes, edges, [2 * x - 1 for x in ans], size) as svc:
                r = o.dw()
            t.trans()
            t.check(len(svc.calls) == 1, lambda: f"{len(svc.calls)} submissions")
            lin, quad, kw = svc.calls[0]
            what = f"QUBO {Q}, graph nodes {nodes} couplers {edges}"
            t.check(all(0 <= i < n for i in lin) and all(0 <= i < n and 0 <= j < n and i != j for i, j in quad), lambda: f"{what}: biases {lin}, couplings {quad}")
            for x in bits(n):
                s = [2 * v - 1 for v in x]
                e = sum(h * s[i] for i, h in lin.items()) + sum(J * s[i] * s[j] for (i, j), J in quad.items()) + o.ep
                t.check(abs(e - E[x]) < 1e-9, lambda: f"{what}: biases {lin}, couplings {quad}, offset {o.ep}: energy {e} at {x}, expected {E[x]}")
            t.check(list(r) == list(ans), lambda: f"{what}: service answered {ans}, dw() returned {r}")
            t.check(len(svc.config) == 1 and set(("tok", "sol", "http://end")) <= set(svc.config[0].values()), lambda: f"client configured with {svc.config}")
            t.check(repr(o.qubo) == b, "dw() changed the QUBO")
            t.state((repr(Q), gi, tuple(ans)))
    t.trace()


def run_case(t, d):
    k = d["kind"]
    if k == "two":
        for rest in itertools.product((0, 1, -2), repeat=2):
            judge(t, full(2, [*d["head"], *rest]), ("list", "array")[sum(rest) % 2], answers=bits(2))
    elif k == "three":
        judge(t, triu(3, d["v"]))
        judge(t, triu(3, d["v"]), "array", deep=False, answers=bits(3))
    elif k == "four":
        v = [((d["i"] * 7 + 5 * j * j) % 5) - 2 for j in range(16)]
        judge(t, full(4, v), "rows")
        judge(t, [[3 * d["i"] - 20]], answers=bits(1))
    elif k == "big":
        i = d["i"]
        n = 5 + i % 4
        v = [((i * 7 + 5 * j * j + j) % 7) - 3 if (j * (i + 2)) % 5 else 0 for j in range(n * n)]
        M = full(n, v)
        judge(t, M if i % 3 else np.triu(np.array(M)).tolist(), ("rows", "array", "list")[i % 3], deep=False, answers=[b for b in bits(n)][i::2 ** n // 4 + 1])
    elif k == "qaoabig":
        from blueqat import vqe
        i = d["i"]
        n = 3 + i % 3
        Q = full(n, [((i * 5 + 3 * j * j + j) % 5) - 2 for j in range(n * n)])
        if i % 2:
            Q = np.triu(np.array(Q)).tolist()
        ref = [energy(Q, tuple(k >> b & 1 for b in range(n))) for k in range(2 ** n)]
        o = wq.Opt()
        o.qubo = FORMS["array" if i % 2 else "list"](Q)
        with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.377 + 0.1) % 1, idx=lambda s, k: 0)):
            r = o.qaoa(step=1 + i % 2)
        t.trans()
        t.check(isinstance(r, vqe.VqeResult) and len(r.params) == 2 * (1 + i % 2), lambda: f"qaoa of {Q}: {len(r.params)} parameters")
        m = np.diag(np.asarray(r.vqe.ansatz.hamiltonian.to_matrix(n_qubits=n))).real
        t.check(np.allclose(m, ref), lambda: f"qaoa of {Q}: cost operator {r.vqe.ansatz.hamiltonian!r}, energies {ref}")
        t.check(abs(sum(r.get_probs().values()) - 1) < 1e-8, "probabilities")
        t.state((repr(Q), "qaoa"))
    elif k == "scale":
        scaled(t, d["j"])
    elif k == "seq":
        QS = [triu(2, (1, -2, 0.5)), [[3]], triu(3, (1, 2, 3, 4, 5, 6)), triu(2, (0, 1, 0))]
        for seq in itertools.product(range(4), repeat=3):
            o = wq.Opt()
            for i in seq:
                Q = QS[i]
                n = len(Q)
                o.qubo = Q
                with Service(list(range(3)), [(0, 1), (0, 2), (1, 2)], [1] * n, 3) as svc:
                    o.dw()
                lin, quad, kw = svc.calls[0]
                for x in bits(n):
                    s = [2 * v - 1 for v in x]
                    e = sum(h * s[i] for i, h in lin.items()) + sum(J * s[i] * s[j] for (i, j), J in quad.items()) + o.ep
                    t.check(abs(e - energy(Q, x)) < 1e-9, lambda: f"submission {seq}: energy {e} of {x}")
                t.trans()
            t.state(seq)
        t.trace()
    else:
        from blueqat import vqe
        for b, c in itertools.product((0, 1, -2), repeat=2):
            for e in (0, 1.5):
                Q = [[d["a"], b], [e, c]]
                if e == 0 and b == 0 and d["a"] == 0 and c == 0:
                    continue
                ref = [energy(Q, (k & 1, k >> 1)) for k in range(4)]
                for step in (None, 1, 3) if e == 0 else (2,):
                    o = wq.Opt()
                    o.qubo = FORMS["array" if e else "list"](Q)
                    with rng.active(rng.Script(u=lambda s: (len(s.log) * 0.377 + 0.1) % 1, idx=lambda s, n: 0)):
                        r = o.qaoa() if step is None else o.qaoa(step=step)
                    t.trans()
                    t.check(isinstance(r, vqe.VqeResult) and len(r.params) == 2 * (step or 2), lambda: f"qaoa of {Q}: {len(r.params)} parameters for {step or 2} steps")
                    H = r.vqe.ansatz.hamiltonian
                    m = np.diag(np.asarray(H.to_matrix(n_qubits=2))).real
                    t.check(np.allclose(m, ref), lambda: f"qaoa of {Q}: cost operator {H!r}, energies {ref}")
                    p = r.get_probs()
                    t.check(abs(sum(p.values()) - 1) < 1e-8, "probabilities")
                    t.state((repr(Q), step))
        t.trace()
    t.outcome(k)
