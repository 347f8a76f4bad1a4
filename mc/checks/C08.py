"""Fault enumeration: an exception is raised at every opcode of repository code executed by a run; all follow-ups are compared with the model."""
import numpy as np
from mc import ref, rng
from mc.build import circ, add
from mc.trace import Injector
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.gate import OneQubitGate, XGate, RYGate
from blueqat.backends.numpy_backend import NumPyBackend

BOUNDS = {
 "quick": "17 scenarios (fresh, cached prefix, grown circuit, measured, shots, make_cache, shared backend, copy, ignore_global, unitary/QASM export, backend named for one run, 9-qubit and 33-gate circuits, failing gate) x KeyboardInterrupt at every opcode (every 5th in the two big scenarios) x 6 follow-up histories, MemoryError at every line, double faults at every 29th pair of points",
 "thorough": "MemoryError at every opcode too, all double faults of the short scenarios"}

S = ["s", None, None, None]
G1 = [["h", [], 0], ["cx", [], ["t", [0, 1]]], ["ry", [0.7], S]]
G2 = [["u3", [0.4, 1.1, -0.3], 1], ["swap", [], ["t", [0, 1]]], ["rz", [0.5], 0]]
MEAS = [["h", [], 0], ["m", [], 0], ["ry", [0.9], 1], ["m", [], S]]


class W:
    """world of one scenario: circuits with their model programs, and the operation that is aborted"""
    def __init__(self, name):
        self.B = NumPyBackend()
        self.sh = False
        f = getattr(self, "s_" + name)
        f()

    def mk(self, prog, n=0):
        self.c, self.prog = circ(prog, n), list(prog)
        self.n = ref.n_of(prog, n)

    def app(self, op):
        add(self.c, op)
        self.prog.append(op)
        self.n = max(self.n, ref.n_of([op]))

    def s_fresh(self):
        self.mk(G1 + G2)
        self.victim = lambda: self.c.run()

    def s_cached(self):
        self.mk(G1)
        self.c.run()
        for o in G2:
            self.app(o)
        self.victim = lambda: self.c.run()

    def s_grown(self):
        self.mk(G1)
        self.c.run()
        self.app(["x", [], 2])
        self.app(["h", [], S])
        self.victim = lambda: self.c.run()

    def s_full(self):
        self.mk(G1)
        self.c.run()
        self.victim = lambda: self.c.run()

    def s_measured(self):
        self.mk(MEAS)
        self.victim = lambda: self.c.run()

    def s_shots(self):
        self.mk(MEAS)
        self.c.run(shots=2)
        self.app(["h", [], 1])
        self.victim = lambda: self.c.run(shots=2)

    def s_cache(self):
        self.mk(G1 + G2)
        self.victim = lambda: self.c.make_cache()

    def s_shared(self):
        self.mk(G1 + G2[:1])
        self.o, self.oprog = circ([["x", [], 0], ["ry", [1.3], 1]]), [["x", [], 0], ["ry", [1.3], 1]]
        self.o.run(backend=self.B)
        self.sh = True
        self.victim = lambda: self.c.run(backend=self.B)

    def s_sharedback(self):
        self.mk(G1)
        self.c.run(backend=self.B)
        self.o, self.oprog = circ(G1[:2] + G2), G1[:2] + G2
        self.sh = True
        self.victim = lambda: self.o.run(backend=self.B)

    def s_copy(self):
        self.mk(G1)
        self.c.run()
        self.o = self.c
        self.oprog = list(self.prog)
        self.c = self.c.copy()
        self.app(["ry", [0.2], 0])
        self.sh = None
        self.victim = lambda: self.c.run()

    def s_global(self):
        self.mk([["x", [], 0], ["rz", [0.7], S]] + G2)
        self.victim = lambda: self.c.run(ignore_global=True)

    def s_qasm(self):
        self.mk(G1 + G2)
        self.c.run()
        self.victim = lambda: self.c.to_qasm()

    def s_wide(self):
        self.mk([["h", [], S]] + [["cx", [], ["t", [q, q + 1]]] for q in range(0, 8, 2)], 9)
        self.c.run()
        self.app(["ry", [0.7], ["t", [8, 0]]])
        self.app(["crx", [0.4], ["t", [7, 1]]])
        self.app(["rz", [0.3], 8])
        self.victim = lambda: self.c.run()

    def s_long(self):
        self.mk((G1 + G2) * 3)
        self.c.run()
        for o in (G2[:2] + G1) * 3:
            self.app(o)
        self.victim = lambda: self.c.run()

    def s_named(self):
        # a backend given by its name for this one run only
        self.mk(G1 + G2[:1])
        self.c.run()
        self.app(G2[1])
        self.victim = lambda: self.c.run(backend="qasm_output", output_prologue=False)

    def s_namednumpy(self):
        self.mk(G1 + G2)
        self.c.set_default_backend("qasm_output")
        self.victim = lambda: self.c.run(backend="numpy")

    def s_docopy(self):
        self.mk(G1)
        self.c.run()
        self.victim = lambda: (self.c.copy(), self.c + self.c, self.c.dagger())


BIG = 5          # stride over the opcodes of the two big scenarios
NAMES = [x[2:] for x in dir(W) if x.startswith("s_")]
FOLLOW = ["run", "copyrun", "append", "grow", "shots", "shared"]


def check(t, w, c, prog, n, got, what):
    t.trace()
    m = [v for p, b, v in ref.branches(prog, n)]
    t.check(isinstance(got, np.ndarray) and got.shape == (2 ** n,) and any(ref.same(got, v) for v in m), lambda: f"{what}: {prog} on {n} qubits gives {np.round(got, 4)}, expected {np.round(m[0], 4)}")


def follow(t, w, f, what):
    what = f"{what}, then {f}"
    c = w.c
    if f == "run":
        check(t, w, c, w.prog, w.n, c.run(), what)
        check(t, w, c, w.prog, w.n, c.run(), what + " twice")
    elif f == "copyrun":
        d = c.copy()
        check(t, w, d, w.prog, w.n, d.run(), what)
        check(t, w, c, w.prog, w.n, c.run(), what + " (original)")
        e = c + circ([["ry", [0.3], 0]])
        check(t, w, e, w.prog + [["ry", [0.3], 0]], w.n, e.run(), what + " (sum)")
    elif f == "append":
        w.app(["ry", [1.1], 1])
        w.app(["cx", [], ["t", [1, 0]]])
        check(t, w, c, w.prog, w.n, c.run(), what)
    elif f == "grow":
        w.app(["cx", [], ["t", [0, w.n]]])
        check(t, w, c, w.prog, w.n, c.run(), what)
    elif f == "shots":
        r = c.run(shots=3)
        labels = {"".join(map(str, b)) for p, b, v in ref.branches(w.prog, w.n)}
        t.trace()
        t.check(sum(r.values()) == 3 and set(r) <= labels, lambda: f"{what}: {r}")
        check(t, w, c, w.prog, w.n, c.run(), what + " run")
    elif f == "shared":
        if w.sh is None or w.sh:
            check(t, w, w.o, w.oprog, 2, w.o.run(backend=w.B) if w.sh else w.o.run(), what + " other circuit")
        check(t, w, c, w.prog, w.n, c.run(backend=w.B), what)
        if w.sh:
            check(t, w, w.o, w.oprog, 2, w.o.run(backend=w.B), what + " other circuit again")
            check(t, w, w.o, w.oprog, 2, w.o.run(), what + " other circuit alone")


def after_default(t, w, default, what):
    """the aborted call leaves the default backend alone; the follow-ups need vectors"""
    t.check(w.c.get_default_backend_name() == default, lambda: f"{what}: default backend {w.c.get_default_backend_name()}, was {default}")
    if default != BlueqatGlobalSetting.get_default_backend_name():
        t.check(isinstance(w.c.run(), str), lambda: f"{what}: the default backend {default} is not used any more")
        w.c.set_default_backend(None)


def run_victim(w, at, exc, opcodes=True):
    inj = Injector(at, exc, opcodes)
    r, ex = inj.run(w.victim)
    return inj, ex


def cases(tier):
    out = []
    for s in NAMES:
        w = W(s)
        with rng.active(rng.Script(u=lambda _: .3, idx=lambda _, n: 0)):
            inj = Injector(None)
            inj.run(w.victim)
        N = inj.n
        for lo in range(1, N + 1, 40):
            out.append(dict(kind="op", s=s, lo=lo, hi=min(N, lo + 39), exc="K", op=True, step=BIG if s in ("wide", "long") and tier == "quick" else 1))
        if tier == "thorough":
            for lo in range(1, N + 1, 40):
                out.append(dict(kind="op", s=s, lo=lo, hi=min(N, lo + 39), exc="M", op=True))
        w = W(s)
        with rng.active(rng.Script(u=lambda _: .3, idx=lambda _, n: 0)):
            inj = Injector(None, opcodes=False)
            inj.run(w.victim)
        for lo in range(1, inj.n + 1, 40):
            out.append(dict(kind="op", s=s, lo=lo, hi=min(inj.n, lo + 39), exc="M", op=False))
        for lo in range(1, inj.n + 1, 8 if s not in ("wide", "long") or tier != "quick" else 64):
            out.append(dict(kind="dbl", s=s, lo=lo, hi=min(inj.n, lo + 7), step=29 * (1 + 4 * (s in ("wide", "long"))) if tier == "quick" else 1))
    for pos in range(5):
        out.append(dict(kind="gate", pos=pos))
    return out


EXC = {"K": KeyboardInterrupt, "M": MemoryError}


def run_case(t, d):
    k = d["kind"]
    with rng.active(rng.Script(u=lambda _: .3, idx=lambda _, n: 0)):
        if k == "op":
            for at in range(d["lo"] + (d["lo"] // 40) % d.get("step", 1), d["hi"] + 1, d.get("step", 1)):
                for f in FOLLOW:
                    w = W(d["s"])
                    before = (w.c.n_qubits, [str(o) for o in w.c.ops])
                    default = w.c.get_default_backend_name()
                    inj, ex = run_victim(w, at, EXC[d["exc"]], d["op"])
                    what = f"scenario {d['s']} aborted at {'opcode' if d['op'] else 'line'} {at} ({inj.where})"
                    t.trans()
                    t.check((w.c.n_qubits, [str(o) for o in w.c.ops]) == before, lambda: what + ": circuit changed")
                    after_default(t, w, default, what)
                    follow(t, w, f, what)
                t.state((d["s"], inj.where, d["exc"]))
                t.outcome("aborted" if ex is not None else "completed (exception absorbed or past the end)")
            t.sample(d)
        elif k == "dbl":
            for at in range(d["lo"], d["hi"] + 1):
                at2 = 1 + at % d["step"]
                while True:
                    w = W(d["s"])
                    default = w.c.get_default_backend_name()
                    i1, e1 = run_victim(w, at, KeyboardInterrupt, False)
                    i2, e2 = run_victim(w, at2, KeyboardInterrupt, False)
                    what = f"scenario {d['s']} aborted at {i1.where} and again at {i2.where}"
                    t.trans(2)
                    after_default(t, w, default, what)
                    follow(t, w, "run", what)
                    if i2.where is None:
                        break
                    at2 += d["step"]
            t.outcome("double fault")
        elif k == "gate":
            gate_errors(t, d["pos"])


def gate_errors(t, pos):
    """a gate that cannot be executed (yet) at position pos; later it can"""
    class Flaky(OneQubitGate):
        lowername = "verif_flaky"
        fail = 0

        def fallback(self, n):
            if Flaky.fail > 0:
                Flaky.fail -= 1
                raise RuntimeError("flaky")
            return self._make_fallback_for_target_iter(n, lambda q: [XGate(q), RYGate(q, 0.4)])
    BlueqatGlobalSetting.register_gate("verif_flaky", Flaky)
    try:
        base = G1 + G2[:1]
        for fails in (1, 2):
            for pre in (False, True):
                for how in ("run", "make_cache", "shots", "ignore_global"):
                    c = Circuit(2)
                    prog = []
                    for k in range(len(base) + 1):
                        if k == pos:
                            if pre:
                                c.run()
                            c.verif_flaky[0]
                            prog += [["x", [], 0], ["ry", [0.4], 0]]
                        if k < len(base):
                            add(c, base[k])
                            prog.append(base[k])
                    Flaky.fail = fails
                    for _ in range(fails):
                        try:
                            {"run": c.run, "make_cache": c.make_cache, "shots": lambda: c.run(shots=2), "ignore_global": lambda: c.run(ignore_global=True)}[how]()
                            t.check(False, "failing gate did not raise")
                        except RuntimeError:
                            pass
                    t.check(len(c.ops) == len(base) + 1 and c.n_qubits == 2, "circuit changed by failed run")
                    d = c.copy()
                    for x in (c, d):
                        check(t, None, x, prog, 2, x.run(), f"gate {pos} failed {fails} times in {how}")
                    t.trans(fails)
                    t.state((pos, fails, pre, how))
        # negative index that becomes valid once the circuit grows
        for pre in (False, True):
            c = Circuit(2)
            for o in G1:
                add(c, o)
            if pre:
                c.run()
            c.h[-3]
            for _ in range(2):
                try:
                    c.run()
                    t.check(False, "out of range index executed")
                except IndexError:
                    pass
            c.x[2]
            prog = G1 + [["h", [], -3], ["x", [], 2]]
            check(t, None, c, prog, 3, c.run(), "after the index became valid")
            check(t, None, c, prog, 3, c.run(), "after the index became valid")
        t.outcome("gate error")
    finally:
        BlueqatGlobalSetting.unregister_gate("verif_flaky")
