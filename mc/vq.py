"""Shared pieces for the VQE checks."""
import itertools, math
import numpy as np
from mc import palg, ref
from mc.build import circ, rprog, generic_prefix
from mc.checks.C17 import fake_backend, branches
from blueqat import Circuit, vqe, pauli as bp

s = lambda a=None, b=None, c=None: ["s", a, b, c]


def exact_device():
    """a Qiskit device that answers exact frequencies (shots x probability, all dyadic here)"""
    base = type(fake_backend())

    class Exact(base):
        def run(self, circuits, *a, **opts):
            qc = circuits[0] if isinstance(circuits, (list, tuple)) else circuits
            shots = opts.get("shots") or 1024
            cnt = {}
            for p, bits, v in branches(qc, qc.num_qubits, qc.num_clbits):
                k = "".join(map(str, bits))
                cnt[k] = cnt.get(k, 0) + p * shots
            self.setup({k: int(round(v)) for k, v in cnt.items() if round(v)})
            return super().run(circuits, *a, **opts)
    return Exact().setup({})


def csnap(c):
    return (c.n_qubits, tuple((type(g).__name__, tuple(float(p) for p in g.params), str(g)) for g in c.ops))


# programs whose measurement probabilities (also after x/y basis changes) are multiples of 1/4 or 1/2
DY = {1: [[], [["h", [], 0]], [["h", [], 0], ["s", [], 0]], [["x", [], 0]], [["sdg", [], 0], ["h", [], 0], ["sdg", [], 0]], [["rx", [math.pi / 2], 0]]],
      2: [[], [["h", [], 0], ["cx", [], ["t", [0, 1]]]], [["x", [], 0], ["h", [], 1], ["s", [], 1]], [["h", [], s()], ["cz", [], ["t", [0, 1]]], ["s", [], 0]], [["rx", [math.pi / 2], 0], ["ry", [math.pi / 2], 1], ["cx", [], ["t", [1, 0]]]], [["x", [], 1], ["sdg", [], 0], ["h", [], 0], ["s", [], 0]],
          [["h", [], 0], ["s", [], 0], ["cx", [], ["t", [0, 1]]], ["x", [], 0]]],
      3: [[["h", [], 0], ["cx", [], ["t", [0, 1]]], ["cx", [], ["t", [1, 2]]], ["s", [], 2]], [["x", [], 2], ["h", [], 1], ["s", [], 1]], [["h", [], s()], ["s", [], 1], ["cz", [], ["t", [0, 2]]], ["h", [], 2]]]}


def exp_h(hd, v, n):
    """<v|H|v> for a reference operator"""
    return float(np.vdot(v, palg.coo(hd, n) @ v).real)


def marginal(v, meas):
    d = {}
    for i, a in enumerate(v):
        p = abs(a) ** 2
        k = tuple(i >> m & 1 for m in meas)
        d[k] = d.get(k, 0) + p
    return d
