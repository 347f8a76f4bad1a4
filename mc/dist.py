"""Comparison of explored branch distributions."""
import numpy as np
from . import ref


class Dist:
    """weights over (label, state up to phase)"""
    def __init__(self):
        self.items = {}

    def add(self, label, vec, w):
        l = self.items.setdefault(label, [])
        for e in l:
            if vec is None or ref.same(vec, e[0], 1e-7):
                e[1] += w
                return
        l.append([None if vec is None else np.array(vec, complex), w])

    def diff(self, other, tol=1e-9, wtol=None):
        """None if equal, else a description"""
        wtol = tol if wtol is None else wtol
        for a, b, who in ((self, other, "first"), (other, self, "second")):
            for label, l in a.items.items():
                for vec, w in l:
                    m = 0.0
                    for v2, w2 in b.items.get(label, []):
                        if vec is None or ref.same(vec, v2, 1e-7):
                            m += w2
                    if abs(m - w) > wtol or (w > 0) != (m > 0):
                        return f"label {label}: weight {w:.6g} ({who}) vs {m:.6g}; state {None if vec is None else np.round(vec, 3).tolist()}"
        return None

    def count(self):
        return sum(len(l) for l in self.items.values())


def reference(prog, n, vec=None):
    d = Dist()
    for p, bits, v in ref.branches(prog, n, vec):
        d.add("".join(map(str, bits)), v, p)
    return d


def cond_probs(prog, n, vec=None):
    """conditional probability of bit 0 at every measurement/reset over all branches (to decide whether a grid is exact)"""
    out = []
    idx = np.arange(2 ** n)
    br = [vec if vec is not None else ref.run([], n)]
    for name, params, ex in prog:
        nm = ref.ALIAS.get(name, name)
        for qs in ref.elementary(name, ref.to_py(ex), n):
            nb = []
            for v in br:
                if nm in ("measure", "reset"):
                    for b in (0, 1):
                        m = ((idx >> qs[0]) & 1) == b
                        pr = float(np.sum(np.abs(v[m]) ** 2))
                        out.append(pr)
                        if pr < 1e-12:
                            continue
                        w = np.where(m, v, 0) / pr ** .5
                        nb.append(ref.apply1(w, qs[0], ref.mat1('x')) if nm == "reset" and b else w)
                else:
                    nb.append(ref.gate(v, nm, params, qs))
            br = nb
    return out


def on_grid(probs, g):
    return all(abs(p * g - round(p * g)) < 1e-7 for p in probs)
