"""A stand-in for the qgate package (not installed here), with the part of its interface that the qgate backend uses.

Registers, references and operators are the objects qgate's model has; a simulator runs them one after the other on a
dense state.  Anything which is not a well formed operator is refused.  Random decisions go through mc.rng."""
import sys, types, math
import numpy as np
from . import ref, rng


class Qreg:
    pass


class Reference:
    pass


class GateType:
    nq = 1

    def __init__(self, *params):
        if len(params) != self.npar:
            raise TypeError(f"{self.name} takes {self.npar} parameter(s), not {len(params)}")
        self.params = [float(p) for p in params]

    def matrix(self):
        return ref.mat1(self.name, self.params)


def _gt(cls, name, npar, nq=1):
    return type(cls, (GateType,), dict(name=name, npar=npar, nq=nq))


class _Op:
    def __init__(self, gt):
        if not isinstance(gt, GateType) or gt.nq != self.nq:
            raise TypeError(f"not a gate type for {self.nq} qubit(s): {gt!r}")
        self.gate_type, self.adjoint, self.ctrllist, self.qreglist = gt, False, [], []

    def set_adjoint(self, b):
        self.adjoint = bool(b)

    def set_ctrllist(self, c):
        self.ctrllist = _regs(c)

    def check(self):
        qs = self.ctrllist + self.qreglist
        if len(self.qreglist) != self.nq or len(set(map(id, qs))) != len(qs):
            raise RuntimeError("malformed operator")


def _regs(q):
    q = list(q) if isinstance(q, (list, tuple)) else [q]
    if not all(isinstance(r, Qreg) for r in q):
        raise TypeError("Qreg expected")
    return q


class Gate(_Op):
    nq = 1

    def set_qreg(self, q):
        self.qreglist = _regs(q)

    @property
    def qreg(self):
        return self.qreglist[0]


class MultiQubitGate(_Op):
    nq = 2

    def set_qreglist(self, q):
        self.qreglist = _regs(q)


class Measure:
    def __init__(self, r, q):
        if not isinstance(r, Reference) or not isinstance(q, Qreg):
            raise TypeError("Measure(reference, qreg)")
        self.outref, self.qreg = r, q


class ObservationList:
    def __init__(self, order, values, mask=0):
        self.values = [int(v) for v in values]

    def histgram(self):
        h = {}
        for v in self.values:
            h[v] = h.get(v, 0) + 1
        return h
    histogram = histgram


class SamplingPool:
    def __init__(self, prob, empty, order):
        self.prob, self.empty, self.order = prob, empty, order

    def sample(self, n):
        return ObservationList(self.order, [_widen(rng._active[0].idx(len(self.prob), list(self.prob)), self.empty) for _ in range(n)])


def _widen(v, empty):
    for lane in sorted(empty):
        low = v & ((1 << lane) - 1)
        v = (v - low) << 1 | low
    return v


class Observation:
    def __init__(self, bits):
        self.bits = bits

    @property
    def int(self):
        return sum(b << k for k, b in enumerate(self.bits))


class _States:
    def __init__(self, sim):
        self.sim = sim

    def __getitem__(self, k):
        return self.sim.vec.copy()[k]


class _Qubits:
    def __init__(self, sim):
        self.sim, self.order = sim, None
        self.states = _States(sim)

    def set_ordering(self, regs):
        self.order = _regs(list(regs))
        n = len(self.order)
        self.sim.vec = np.zeros(2 ** n, complex)
        self.sim.vec[0] = 1

    def create_sampling_pool(self, regs, factory=None):
        sim = self.sim
        regs = _regs(list(regs))
        lanes = [self.pos(r) for r in regs]
        if len(set(lanes)) != len(lanes):
            raise RuntimeError("a register is listed twice")
        empty = [k for k, r in enumerate(regs) if id(r) not in sim.used]     # never touched: certainly 0
        full = [lane for k, lane in enumerate(lanes) if k not in empty]
        i = np.arange(len(sim.vec))
        key = sum(((i >> lane & 1) << j for j, lane in enumerate(full)), np.zeros_like(i))
        prob = np.bincount(key, np.abs(sim.vec) ** 2, 2 ** len(full))
        return (factory or SamplingPool)(prob, empty, regs)

    def pos(self, r):
        for k, o in enumerate(self.order):
            if o is r:
                return k
        raise RuntimeError("unknown register")


class Simulator:
    LOG = []

    def __init__(self, kind, **prefs):
        self.kind, self.prefs = kind, prefs
        self.qubits = _Qubits(self)
        self.vec, self.refs, self.used = None, {}, set()
        Simulator.LOG.append((kind, prefs))

    def run(self, ops):
        for o in list(ops):
            if isinstance(o, Measure):
                q = self.qubits.pos(o.qreg)
                one = (np.arange(len(self.vec)) >> q & 1) == 1
                p1 = float(np.sum(np.abs(self.vec[one]) ** 2))
                b = rng._active[0].idx(2, [1 - p1, p1]) if 1e-12 < p1 < 1 - 1e-12 else int(p1 > .5)
                self.vec = np.where(one == bool(b), self.vec, 0) / math.sqrt(p1 if b else 1 - p1)
                self.refs[id(o.outref)] = b
                continue
            if not isinstance(o, _Op):
                raise TypeError(f"not an operator: {o!r}")
            o.check()
            cs, qs = [self.qubits.pos(r) for r in o.ctrllist], [self.qubits.pos(r) for r in o.qreglist]
            self.used |= {id(r) for r in o.qreglist + o.ctrllist}
            mask = sum(1 << c for c in cs)
            if o.gate_type.name == "swap":
                self.vec = ref.permute_swap(self.vec, qs[0], qs[1], mask)
            else:
                U = o.gate_type.matrix()
                self.vec = ref.apply1(self.vec, qs[0], U.conj().T if o.adjoint else U, mask)

    def obs(self, refs):
        return Observation([self.refs.get(id(r), 0) for r in refs])


def install():
    """make `import qgate` find the stand-in"""
    if "qgate" in sys.modules:
        return
    q, model, gt, sim, obs, prefs = (types.ModuleType(n) for n in ("qgate", "qgate.model", "qgate.model.gate_type", "qgate.simulator", "qgate.simulator.observation", "qgate.prefs"))
    for cls, nm, k in (("ID", "i", 0), ("X", "x", 0), ("Y", "y", 0), ("Z", "z", 0), ("H", "h", 0), ("T", "t", 0), ("S", "s", 0), ("RX", "rx", 1), ("RY", "ry", 1), ("RZ", "rz", 1),
                       ("U1", "phase", 1), ("U2", "u2", 2), ("U", "u3", 3)):
        setattr(gt, cls, _gt(cls, nm, k))
    gt.SWAP = _gt("SWAP", "swap", 0, 2)
    for o in (Qreg, Reference, Gate, MultiQubitGate, Measure):
        setattr(model, o.__name__, o)
    model.gate_type = gt
    for kind in ("cpu", "cuda", "py"):
        setattr(sim, kind, (lambda kind: lambda **p: Simulator(kind, **p))(kind))
    obs.ObservationList = ObservationList
    sim.observation = obs
    prefs.dynamic, prefs.static = "dynamic", "static"
    q.model, q.simulator, q.prefs = model, sim, prefs
    for m in (q, model, gt, sim, obs, prefs):
        sys.modules[m.__name__] = m
