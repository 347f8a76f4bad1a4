"""Registry and default-backend state machine: all operation sequences, real functions in lock-step with a dictionary model."""
import itertools, warnings
import numpy as np
from mc import ref
from mc.build import circ
from blueqat import Circuit, BlueqatGlobalSetting as S
from blueqat.gate import OneQubitGate, TwoQubitGate
from blueqat.backends.backendbase import Backend

BOUNDS = {
 "quick": "gate/macro registry: all sequences of length 4 over 22 operations (register/unregister with and without allow_overwrite; new, built-in, method and reserved names); backends and defaults: all sequences of length 4 over 26 operations "
          "(register, overwrite, unregister, global/circuit default, copy/dagger/+ inheritance, run, make_cache); every name probed on an old and a new circuit after every step; 17 names and up to 15 variants of each (case, underscores, prefixes, blanks), variants of every built-in name",
 "thorough": "length 5"}


class GA(OneQubitGate):
    lowername = "verif_ga"


class GB(OneQubitGate):
    lowername = "verif_gb"


def fa(c, *a, **k):
    return ("fa", c, a, k)


def fb(c, *a, **k):
    return ("fb", c, a, k)


class BX(Backend):
    mark = "X"

    def run(self, gates, n_qubits, *a, **k):
        return (self.mark, len(gates), n_qubits, a, k)

    def make_cache(self, gates, n_qubits):
        return ("cache", self.mark, len(gates))


class BY(BX):
    mark = "Y"


H = type(Circuit().h[0].ops[0])
OPS1 = [("RG", "foo", "A", 0), ("RG", "foo", "B", 0), ("RG", "foo", "B", 1), ("RG", "h", "A", 0), ("RG", "h", "A", 1), ("RG", "run", "A", 0), ("RG", "run_with_q", "A", 0),
        ("UG", "foo"), ("UG", "h"), ("UG", "nope"), ("RM", "foo", "a", 0), ("RM", "foo", "b", 1), ("RM", "h", "a", 0), ("RM", "copy", "a", 0), ("RM", "run_with_q", "a", 0), ("RM", "bar", "a", 0),
        ("RM", "bar", "b", 0), ("UM", "foo"), ("UM", "bar"), ("UM", "h"), ("RM", "copy", "a", 1), ("RG", "run", "A", 1)]
OPS2 = [("RB", "b1", "X", 0), ("RB", "b1", "Y", 0), ("RB", "b1", "Y", 1), ("RB", "b2", "X", 0), ("UB", "b1"), ("UB", "b2"), ("UB", "nope"), ("VB", "b2"), ("SD", "b1"), ("SD", "b2"), ("SD", "numpy"), ("SD", "nope"),
        ("SC", 0, "b1"), ("SC", 0, None), ("SC", 0, "nope"), ("SC", 1, "b2"), ("SC", 0, "numpy"), ("K", 1, 1), ("K", 1, 0), ("K", 0, 1), ("D", 1), ("D", 0), ("+",), ("R", 0), ("R", 1), ("C", 0)]


def cases(tier):
    L = 4 if tier == "quick" else 5
    out = []
    for alpha in ("OPS1", "OPS2"):
        A = globals()[alpha]
        for a in range(len(A)):
            for b in range(len(A)):
                out.append(dict(kind="seq", alpha=alpha, head=[a, b], depth=L))
    out.append(dict(kind="args"))
    for i in range(len(NAMES)):
        out.append(dict(kind="names", i=i))
    return out


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


class W1:
    """gates and macros"""
    def __init__(self):
        self.G = {"h": H}
        self.M = {}
        self.c = Circuit(2)

    def clean(self):
        for n in list(self.M):
            S.unregister_macro(n)
        for n in list(self.G):
            if n != "h":
                S.unregister_gate(n)
        if self.G.get("h") is not H:
            S.register_gate("h", H, allow_overwrite=True)

    def do(self, t, o, hist):
        methods = {"run", "copy"}
        k, n = o[0], o[1]
        if k in ("RG", "RM"):
            obj = {"A": GA, "B": GB, "a": fa, "b": fb}[o[2]]
            bad = not o[3] and (n in self.G or n in self.M or n in methods or n.startswith("run_with_"))
            f = (lambda: S.register_gate(n, obj, allow_overwrite=bool(o[3]))) if k == "RG" else (lambda: S.register_macro(n, obj, allow_overwrite=bool(o[3])))
            if not o[3] and k == "RG":
                f = lambda: S.register_gate(n, obj)
            if bad:
                t.check(raises(ValueError, f), lambda: f"{hist}: {o} accepted")
            else:
                f()
                (self.G if k == "RG" else self.M)[n] = obj
        else:
            reg = self.G if k == "UG" else self.M
            f = (lambda: S.unregister_gate(n)) if k == "UG" else (lambda: S.unregister_macro(n))
            if n in reg:
                f()
                del reg[n]
            else:
                t.check(raises(ValueError, f), lambda: f"{hist}: {o} accepted")

    def probe(self, t, hist):
        for c in (self.c, Circuit()):
            for n in ("foo", "bar", "h", "nope", "run_with_q"):
                if n in self.G and n in self.M:
                    continue
                before = (c.n_qubits, len(c.ops))
                if n in self.G:
                    r = getattr(c, n)[1]
                    t.check(r is c and type(c.ops[-1]) is self.G[n] and c.n_qubits == 2 and c.ops[-1].targets == 1, lambda: f"{hist}: gate {n} adds {c.ops[-1:]}")
                    c.ops.pop()
                elif n in self.M:
                    r = getattr(c, n)(1, z=2)
                    t.check(r == ("fa" if self.M[n] is fa else "fb", c, (1,), dict(z=2)) and r[1] is c, lambda: f"{hist}: macro {n} returned {r}")
                else:
                    t.check(raises(AttributeError, lambda: getattr(c, n)), lambda: f"{hist}: name {n} usable although not registered")
                    t.check(not hasattr(c, n), "hasattr")
                t.check(len(c.ops) == before[1], "probe left a gate")
            t.check(callable(c.run) and c.copy().n_qubits == c.n_qubits and type(c.copy()) is Circuit and len(Circuit().x[0].ops) == 1, lambda: f"{hist}: methods changed")
        t.state((tuple(sorted((k, str(v)) for k, v in self.G.items())), tuple(sorted((k, str(v)) for k, v in self.M.items()))))


class W2:
    """backends and defaults"""
    def __init__(self):
        self.B = {}
        self.g = "numpy"
        self.c = [Circuit(2).x[0], Circuit(1)]
        self.n = [(1, 2), (0, 1)]
        self.own = [None, None]

    def clean(self):
        S.set_default_backend("numpy")
        for n in list(self.B):
            S.unregister_backend(n)

    def exp_run(self, t, i, r_or_f, hist):
        eff = self.own[i] or self.g
        g, n = self.n[i]
        if eff in self.B:
            r = r_or_f()
            t.check(r == (self.B[eff].mark, g, n, (), {}), lambda: f"{hist}: run of circuit {i} used {r}, expected backend {eff}={self.B[eff].mark}")
        elif eff == "numpy":
            r = r_or_f()
            t.check(isinstance(r, np.ndarray) and len(r) == 2 ** n, lambda: f"{hist}: run of circuit {i} returned {r}, expected the simulator")
        else:
            t.check(raises(ValueError, r_or_f), lambda: f"{hist}: run with unregistered default {eff} did not raise")

    def do(self, t, o, hist):
        k = o[0]
        if k == "RB":
            cls = BX if o[2] == "X" else BY
            f = lambda: S.register_backend(o[1], cls, allow_overwrite=bool(o[3]))
            if o[1] in self.B and not o[3]:
                t.check(raises(ValueError, f), lambda: f"{hist}: duplicate backend accepted")
            else:
                f()
                self.B[o[1]] = cls
        elif k in ("UB", "VB"):
            f = lambda: (S.unregister_backend if k == "UB" else S.remove_backend)(o[1])
            if o[1] in self.B:
                f()
                del self.B[o[1]]
            else:
                t.check(raises(ValueError, f), lambda: f"{hist}: unregistering unknown backend accepted")
        elif k == "SD":
            f = lambda: S.set_default_backend(o[1])
            if o[1] in self.B or o[1] == "numpy":
                f()
                self.g = o[1]
            else:
                t.check(raises(ValueError, f), lambda: f"{hist}: unknown default accepted")
        elif k == "SC":
            f = lambda: self.c[o[1]].set_default_backend(o[2])
            if o[2] is None or o[2] in self.B or o[2] == "numpy":
                f()
                self.own[o[1]] = o[2]
            else:
                t.check(raises(ValueError, f), lambda: f"{hist}: unknown circuit default accepted")
        elif k == "K":
            kw = {}
            if not o[2]:
                kw["copy_default_backend"] = False
            if not o[1]:
                kw["copy_backends"] = False
            self.c[1] = self.c[0].copy(**kw)
            self.n[1] = self.n[0]
            self.own[1] = self.own[0] if o[2] else None
        elif k == "D":
            self.c[1] = self.c[0].dagger() if o[1] else self.c[0].dagger(copy_default_backend=False, copy_backends=True)
            self.n[1] = self.n[0]
            self.own[1] = self.own[0] if o[1] else None
        elif k == "+":
            a, b = self.n
            self.c[1] = self.c[0] + self.c[1]
            self.n[1] = (a[0] + b[0], max(a[1], b[1]))
            self.own[1] = self.own[0]
        elif k == "R":
            self.exp_run(t, o[1], lambda: self.c[o[1]].run(), hist)
        elif k == "C":
            eff = self.own[o[1]] or self.g
            if eff in self.B:
                r = self.c[o[1]].make_cache()
                t.check(r == ("cache", self.B[eff].mark, self.n[o[1]][0]), lambda: f"{hist}: make_cache used {r}")
            elif eff == "numpy":
                self.c[o[1]].make_cache()
            else:
                t.check(raises(ValueError, lambda: self.c[o[1]].make_cache()), lambda: f"{hist}: make_cache with unregistered default")

    def probe(self, t, hist):
        t.check(S.get_default_backend_name() == self.g, lambda: f"{hist}: global default {S.get_default_backend_name()} expected {self.g}")
        for i, c in enumerate(self.c):
            t.check(c.get_default_backend_name() == (self.own[i] or self.g), lambda: f"{hist}: circuit {i} default {c.get_default_backend_name()} expected {self.own[i] or self.g}")
        cs = [(c, n) for c, n in zip(self.c, self.n)] + [(Circuit(3), (0, 3))]
        t.check(cs[2][0].get_default_backend_name() == self.g, "fresh circuit default")
        for c, (g, n) in cs[-1:] if len(hist) < 3 else cs:
            for b in ("b1", "b2", "nope"):
                if b in self.B:
                    for r in (c.run(backend=b), getattr(c, "run_with_" + b)()):
                        t.check(r == (self.B[b].mark, g, n, (), {}), lambda: f"{hist}: backend {b} gave {r}, registered {self.B[b].mark}")
                    t.check(c.run(7, backend=b, q=1) == (self.B[b].mark, g, n, (7,), dict(q=1)), "arguments not passed to the backend")
                else:
                    t.check(raises(ValueError, lambda: c.run(backend=b)), lambda: f"{hist}: unregistered backend {b} usable")
                    t.check(raises(AttributeError, lambda: getattr(c, "run_with_" + b)), lambda: f"{hist}: run_with_{b} usable")
        if len(hist) >= 4:
            for i in (0, 1):
                self.exp_run(t, i, lambda: self.c[i].run(), hist)
        t.state((str(self.B), self.g, tuple(self.own), tuple(self.n)))


def run_case(t, d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if d["kind"] == "args":
            return args(t)
        if d["kind"] == "names":
            return names(t, NAMES[d["i"]])
        A = globals()[d["alpha"]]
        for rest in itertools.product(range(len(A)), repeat=d["depth"] - 2):
            seq = [A[i] for i in d["head"] + list(rest)]
            w = W1() if d["alpha"] == "OPS1" else W2()
            try:
                for j, o in enumerate(seq):
                    w.do(t, o, seq[:j + 1])
                    t.trans()
                    # shorter prefixes were probed in the case that starts with them
                    if j >= 2 or not any(rest):
                        w.probe(t, seq[:j + 1])
                t.trace()
            finally:
                w.clean()
        t.sample([str(A[i]) for i in d["head"]])
        t.outcome(d["alpha"])


NAMES = ["verif_q", "Verif_Q", "VQ", "v9", "_vq", "v_", "hh", "cxx", "xm", "run_wit", "runwith_v", "my_run_with_x", "copy_", "to_qas", "vérif", "v q", "q-1"]
BUILTIN = ref.UNITARY + ["m", "measure", "reset", "cnot", "toffoli"]


def variants(n):
    out = {n.upper(), n.lower(), n.swapcase(), n.title(), n + "_", "_" + n, n + "1", n[:-1], n[1:], n.replace("_", ""), n.replace("_", "-"), " " + n, n + " ", n * 2, n[::-1]}
    return sorted(v for v in out - {n, ""} if v not in BUILTIN and v not in ("numpy", "numba", "qasm_output", "ibmq", "sympy_unitary", "qgate") and not hasattr(Circuit, v) and not v.startswith("run_with_"))


def names(t, n):
    """exactly the registered name is usable, not a similar one"""
    old = Circuit(1)

    def usable(v, why):
        for c in (old, Circuit()):
            before = len(c.ops)
            t.check(raises(AttributeError, lambda: getattr(c, v)) and not hasattr(c, v) and len(c.ops) == before, lambda: f"name {v!r} usable although {why}")
        t.trans()
    for k, reg, unreg, obj in (("gate", S.register_gate, S.unregister_gate, GA), ("macro", S.register_macro, S.unregister_macro, fa)):
        reg(n, obj)
        try:
            for v in variants(n):
                usable(v, f"{k} {n!r} is registered")
                t.check(raises(ValueError, lambda: unreg(v)), lambda: f"unregistering {v!r} with {k} {n!r} registered")
                reg(v, {"gate": GB, "macro": fb}[k])       # a name of its own
                try:
                    for c in (old, Circuit()):
                        if k == "gate":
                            c = c.copy()
                            getattr(c, n)[0]
                            getattr(c, v)[0]
                            t.check([type(g) for g in c.ops[-2:]] == [GA, GB], lambda: f"gates {n!r} and {v!r} added {c.ops}")
                        else:
                            t.check(getattr(c, n)(1)[0] == "fa" and getattr(c, v)(1)[0] == "fb", lambda: f"macros {n!r} and {v!r} mixed up")
                finally:
                    unreg(v)
                usable(v, "unregistered")
            for c in (old.copy(), Circuit()):
                r = getattr(c, n)
                t.check(type(r[0].ops[-1]) is GA if k == "gate" else r(3)[0] == "fa", lambda: f"{k} {n!r} not usable")
            t.trace()
        finally:
            unreg(n)
        usable(n, "unregistered")
    S.register_backend(n, BX)
    try:
        t.check(Circuit(1).run(backend=n)[0] == "X" and getattr(Circuit(1), "run_with_" + n)()[0] == "X", lambda: f"backend {n!r} not usable")
        for v in sorted(set(variants(n)) | {"run_with_" + n}):
            t.check(raises(ValueError, lambda: Circuit(1).run(backend=v)) and raises(ValueError, lambda: S.set_default_backend(v)) and raises(ValueError, lambda: old.set_default_backend(v)) and raises(ValueError, lambda: S.unregister_backend(v)),
                    lambda: f"backend {v!r} usable although only {n!r} is registered")
            t.check(raises(AttributeError, lambda: getattr(Circuit(1), "run_with_" + v)) and (v == "run_with_" + n or raises(AttributeError, lambda: getattr(old, v))), lambda: f"run_with_{v} usable although only {n!r} is registered")
            t.trans()
        t.check(raises(AttributeError, lambda: getattr(old, n)) and raises(AttributeError, lambda: getattr(old, "Run_with_" + n)) and raises(AttributeError, lambda: getattr(old, "run_With_" + n)), lambda: f"backend {n!r} usable under another name")
        t.trace()
    finally:
        S.unregister_backend(n)
    if n == NAMES[0]:
        for b in BUILTIN:
            for v in variants(b):
                usable(v, "only similar to a gate")
    t.state(n)
    t.outcome("similar names")


def args(t):
    """a registered gate takes its parameters and targets like a built-in one, on circuits made before and after"""
    class GP(OneQubitGate):
        lowername = "verif_gp"

        def __init__(self, targets, a, b=2, **kw):
            super().__init__(targets, (a, b), **kw)
    c = Circuit()
    S.register_gate("verif_gp", GP)
    try:
        c.verif_gp(1)[3].verif_gp(1, b=5)[0:2]
        t.check(c.n_qubits == 4 and [g.params for g in c.ops] == [(1, 2), (1, 5)] and c.ops[1].targets == slice(0, 2), "registered gate arguments")
        t.check(raises(TypeError, lambda: c.verif_gp()[0]) and len(c.ops) == 2, "registered gate rejected arguments")
    finally:
        S.unregister_gate("verif_gp")
    t.check(len(c.ops) == 2 and type(c.copy().ops[0]) is GP, "circuit keeps operations of an unregistered gate")
    for bad in ("run", "copy", "dagger", "make_cache", "to_qasm", "to_unitary", "set_default_backend", "get_default_backend_name", "__init__", "__add__", "run_with_numpy", "run_with_"):
        t.check(raises(ValueError, lambda: S.register_gate(bad, GP)), f"gate name {bad} accepted")
        t.check(raises(ValueError, lambda: S.register_macro(bad, fa)), f"macro name {bad} accepted")
        t.trans(2)
    for nm in ref.UNITARY + ["m", "measure", "reset"]:
        t.check(raises(ValueError, lambda: S.register_gate(nm, GP)), f"gate name {nm} accepted")
        t.check(raises(ValueError, lambda: S.register_macro(nm, fa)), f"macro name {nm} accepted")
        t.check(hasattr(Circuit(), nm), f"{nm} lost")
        t.trans(2)
    for nm in ("numpy", "numba", "qasm_output", "ibmq", "sympy_unitary", "qgate"):
        t.check(raises(ValueError, lambda: S.register_backend(nm, BX)), f"backend name {nm} accepted")
        t.trans()
    # a backend object (not a name) can be passed to run
    r = Circuit(2).x[0].run(backend=BY())
    t.check(r == ("Y", 1, 2, (), {}), f"backend object: {r}")
    t.trace()
    t.state("args")
