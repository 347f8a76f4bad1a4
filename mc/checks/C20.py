"""Plug-in protocol: every small program x backend configuration on a recording backend; all histories of a stateful backend."""
import itertools
import numpy as np
from mc import ref, qasm
from mc.build import circ, generic_prefix, instances, wide_targets, long_alphabet
from mc.checks.C03 import PS
from blueqat import Circuit, BlueqatGlobalSetting as S
from blueqat.backends.backendbase import Backend
from blueqat.backends.qasm_parser_backend_generator import generate_backend

s = lambda a=None, b=None, c=None: ["s", a, b, c]
ALPHA = [["x", [], 0], ["h", [], s()], ["cx", [], ["t", [0, 1]]], ["swap", [], ["t", [1, 2]]], ["ccx", [], ["t", [0, 1, 2]]], ["u3", [0.7, -1.3, 2.1], -1], ["cu1", [0.9], ["t", [s(0, 2), s(1, 3)]]], ["s", [], ["t", [2, 0, 2]]],
         ["rxx", [1.1], ["t", [2, 0]]], ["measure", [], s(1)], ["reset", [], 1]]
LACK = ["s", "swap", "ccx", "cu1", "rxx", "u3"]      # u3 has no decomposition: always native here
BOUNDS = {
 "quick": "all programs of length <=3 over 11 operations (sliced, repeated, negative targets, measurement, reset) x every subset of {s, swap, ccx, cu1, rxx} missing x 5 shapes of backend (full hooks, no hooks, own run, gates replaced or decompositions resolved by preprocessing) with immutable contexts between actions; "
          "positional/keyword arguments; OpenQASM-runner backends for all programs of length <=2; all histories of length <=6 over 11 operations (run by name / object / default, make_cache, copy with and without backends, dagger, +, append) with a stateful backend against a model of its instances; run methods taken at every point of every history of length <=3 over 11 operations and called at its end; programs of 42-250 gates and registers of 9 and 12 qubits on the same 4 shapes x 8 sets of missing gates",
 "thorough": "programs of length 4, histories of length 7"}
WIDEMISS = [[], ["s"], ["swap"], ["ccx"], ["cu1"], ["rxx"], ["s", "swap", "ccx", "cu1", "rxx"], ["t", "tdg", "sdg", "ch", "crx", "cry", "crz", "cphase", "cu2", "cu3", "cswap", "ryy", "rzz", "cy", "phase", "u1", "u2"]]
MISS = ["s", "swap", "ccx", "cu1", "rxx"]


def cases(tier):
    L = 3 if tier == "quick" else 4
    out = []
    for r in range(len(MISS) + 1):
        for miss in itertools.combinations(MISS, r):
            for shape in ("hooks", "bare", "filter", "flat"):
                for a in range(len(ALPHA)):
                    out.append(dict(kind="prog", miss=list(miss), shape=shape, head=a, depth=L))
    for a in range(len(ALPHA)):
        out.append(dict(kind="run", head=a))
        out.append(dict(kind="qasm", head=a))
    for a in range(len(HOPS)):
        for b in range(len(HOPS)):
            out.append(dict(kind="hist", head=[a, b], depth=6 if tier == "quick" else 7))
    out.append(dict(kind="args"))
    for a in range(len(HELD)):
        out.append(dict(kind="held", a=a))
    for miss in WIDEMISS:
        for shape in ("hooks", "bare", "filter", "flat"):
            for n in (3, 9, 12):
                out.append(dict(kind="big", miss=miss, shape=shape, n=n))
    return out


class Trace:
    """events of one run"""
    def __init__(self):
        self.ev = []


def plug(miss, shape):
    native = [x for x in ref.UNITARY + ["ccz", "measure", "reset"] if x not in miss and x not in ref.ALIAS]
    tr = Trace()

    def make(nm):
        def act(self, gate, ctx):
            tr.ev.append(("act", nm, gate, ctx))
            return (ctx or ()) + ((nm, gate),)        # a new context every time
        return act
    ns = {"gate_" + nm: make(nm) for nm in native}
    if shape != "bare":
        def pre(self, gates, n_qubits, args, kwargs):
            tr.ev.append(("pre", list(gates), n_qubits, tuple(args), dict(kwargs)))
            if shape == "filter":
                gates = [g for g in gates if g.lowername != "measure"][::-1]
            if shape == "flat" and hasattr(self, "_resolve_fallback"):
                gates = self._resolve_fallback(gates, n_qubits)
                tr.flat = [g.lowername for g in gates]
            return gates, ("start",)

        def post(self, ctx):
            tr.ev.append(("post", ctx))
            return ("result", len(tr.ev))
        ns["_preprocess_run"] = pre
        ns["_postprocess_run"] = post
    return type("Plug", (Backend,), ns)(), tr, native


def key(g):
    return (g.lowername, tuple(float(p) for p in g.params), str(g.targets))


def elems(g, n):
    if g.lowername in ("measure", "reset"):
        return [(g.lowername, (), (q,)) for q in g.target_iter(n)]
    p = tuple(float(x) for x in g.params)
    nm = g.lowername
    tg = [(q,) for q in g.target_iter(n)] if nm in ref.ONE else list(g.control_target_iter(n)) if nm in ref.TWO else [tuple(ref.select(x, n)[0] for x in g.targets)]
    return [(nm, p, tuple(t)) for t in tg]


def block(prog, n):
    """a program split into stretches of unitary gates and measurements/resets"""
    out = []
    for nm, p, qs in prog:
        if nm in ("measure", "reset"):
            out.append((nm, qs))
        else:
            if not out or not isinstance(out[-1], list):
                out.append([])
            out[-1].append((nm, p, qs))
    return out


def same_program(a, b, n, v):
    A, B = block(a, n), block(b, n)
    if [x if isinstance(x, tuple) else "u" for x in A] != [x if isinstance(x, tuple) else "u" for x in B]:
        return False
    for x, y in zip(A, B):
        if isinstance(x, list):
            u = w = v
            for nm, p, qs in x:
                u = ref.gate(u, nm, p, qs)
            for nm, p, qs in y:
                w = ref.gate(w, nm, p, qs)
            if not ref.same(u, w):
                return False
    return True


_v = {}


def generic(n):
    if n not in _v:
        _v[n] = ref.run(generic_prefix(n), n)
    return _v[n]


def prog_case(t, d):
    be, tr, native = plug(d["miss"], d["shape"])
    for L in range(0, d["depth"]):
        for rest in itertools.product(range(len(ALPHA)), repeat=L):
            seq = [ALPHA[d["head"]]] + [ALPHA[i] for i in rest]
            one_prog(t, d, be, tr, native, seq, 3, L + sum(rest))
    t.outcome(f"{d['shape']}, {len(d['miss'])} gates missing")


def big_case(t, d):
    """long programs, wide registers"""
    be, tr, native = plug(d["miss"], d["shape"])
    n = d["n"]
    al = long_alphabet(ref.UNITARY) + [["m", [], 1], ["reset", [], 2], ["m", [], s()]]
    if n == 3:
        seqs = [al[r:] + al[:r] + al[:5] for r in range(0, len(al), 3)] + [(al + al[::-1]) * 3]
    else:
        seqs = [[[g[0], g[1], x] for x in wide_targets(g[0], n)] + [["h", [], s()]] for g in al]
        seqs += [[[g[0], g[1], wide_targets(g[0], n)[i % 4]] for g in al[i:] + al[:i]] for i in range(0, len(al), 6)]
    for i, seq in enumerate(seqs):
        one_prog(t, d, be, tr, native, seq, n, i)
    t.outcome(f"long or wide, {d['shape']}")


def one_prog(t, d, be, tr, native, seq, n, salt):
    c = circ(seq, n)
    ops = list(c.ops)
    del tr.ev[:]
    args, kw = [((), {}), ((5, "a"), {}), ((), dict(shots=9)), ((None,), dict(returns="z", q=[1])), ((), dict(shots=None, returns=None, q=0, z="", w=False))][salt % 5]
    r = c.run(*args, backend=be, **kw)
    t.trans(), t.trace()
    ev = list(tr.ev)
    where = lambda: f"{str(seq)[:300]} on a backend without {d['miss']} ({d['shape']})"
    if d["shape"] == "bare":
        t.check(r is None, lambda: f"{where()} returned {r}")
        acts, want = ev, ops
        start = None
    else:
        t.check([e[0] for e in ev] == ["pre"] + ["act"] * (len(ev) - 2) + ["post"], lambda: f"{where()}: order of calls {[e[0] for e in ev]}")
        t.check(len(ev[0][1]) == len(ops) and all(x is y for x, y in zip(ev[0][1], ops)) and ev[0][2] == n, lambda: f"{where()}: preprocessing was handed {ev[0]}")
        t.check(ev[0][3] == args and ev[0][4] == kw, lambda: f"{where()}: arguments {ev[0][3:]} instead of {args, kw}")
        t.check(r == ("result", len(ev)), lambda: f"{where()} returned {r}")
        acts, start = ev[1:-1], ("start",)
        want = ops if d["shape"] in ("hooks", "flat") else [g for g in ops if g.lowername != "measure"][::-1]
    if d["shape"] == "flat" and getattr(tr, "flat", None) is not None:
        t.check(set(tr.flat) <= set(native), lambda: f"{where()}: resolving the decompositions left {set(tr.flat) - set(native)}")
    # each action gets what the previous one returned
    prev = start
    for e in acts:
        t.check(e[3] == prev and (e[3] is None) == (prev is None), lambda: f"{where()}: action {e[1]} got context {e[3]}, the previous action returned {prev}")
        t.check(e[2].lowername == e[1] and e[1] in native, "action of another gate")
        prev = (e[3] or ()) + ((e[1], e[2]),)
    # native gates arrive themselves, in order; in the gaps an equivalent of the missing ones
    i = 0
    exp_all = []
    for g in want:
        exp_all += elems(g, n)
    got_all = []
    for e in acts:
        got_all += elems(e[2], n)
    for g in want:
        if g.lowername in native:
            while i < len(acts) and acts[i][2] is not g:
                i += 1
            t.check(i < len(acts), lambda: f"{where()}: the gate {g} never reached the backend (or out of order)")
            i += 1
    if all(g.lowername in native for g in want):
        t.check(len(acts) == len(want), lambda: f"{where()}: {len(acts)} actions for {len(want)} gates")
    t.check(same_program(got_all, exp_all, n, generic(n)), lambda: f"{where()}: the backend performed {[x[:1] + x[2:] for x in got_all]}")
    t.check(len(c.ops) == len(ops) and all(x is y for x, y in zip(c.ops, ops)) and c.n_qubits == n, "the run changed the circuit")
    t.state((d["shape"], tuple(d["miss"]), tuple(x[0] for x in got_all)))


def run_cases(t, d):
    log = []

    class Own(Backend):
        def run(self, gates, n_qubits, *args, **kwargs):
            log.append(([*gates], n_qubits, args, kwargs))
            return ("mine", len(log))
    be = Own()
    S.register_backend("verif_own", Own)
    try:
        for rest in [()] + [(i,) for i in range(len(ALPHA))]:
            seq = [ALPHA[d["head"]]] + [ALPHA[i] for i in rest]
            for n0 in (0, 3, 5):
                c = circ(seq, n0)
                n = c.n_qubits
                for call in (lambda *a, **k: c.run(*a, backend=be, **k), lambda *a, **k: c.run(*a, backend="verif_own", **k), lambda *a, **k: c.run_with_verif_own(*a, **k)):
                    for a, k in (((), {}), ((1, "x"), dict(shots=3, returns="q")), ((None,), {}), ((), dict(gatez=1)), ((), dict(shots=None, returns=0, x=False, y="", z=()))):
                        r = call(*a, **k)
                        t.check(r == ("mine", len(log)), lambda: f"run returned {r}")
                        g, m, aa, kk = log[-1]
                        t.check(len(g) == len(c.ops) and all(x is y for x, y in zip(g, c.ops)) and m == n and aa == a and kk == k, lambda: f"{seq}: backend was called with {m, aa, kk} instead of {n, a, k}")
                        t.trans()
                t.state((str(seq), n0))
        t.trace()
    finally:
        S.unregister_backend("verif_own")
    t.outcome("own run")


def qasm_cases(t, d):
    log = []

    def runner(text, *a, **k):
        log.append((text, a, k))
        return ("ran", len(log))
    S.register_backend("verif_qasm", generate_backend(runner))
    try:
        for L in range(0, 2):
            for rest in itertools.product(range(len(ALPHA)), repeat=L):
                seq = [ALPHA[d["head"]]] + [ALPHA[i] for i in rest]
                for a, k in (((), {}), ((4,), dict(shots=7, output_prologue=False)), ((0, None), dict(shots=None, q=0))):
                    c = circ(seq, 3)
                    r = c.run(*a, backend="verif_qasm", **k)
                    t.trans(), t.trace()
                    t.check(r == ("ran", len(log)) and log[-1][1] == a and log[-1][2] == k, lambda: f"{seq}: runner got {log[-1][1:]}, run returned {r}")
                    t.check(qasm_same(log[-1][0], c), lambda: f"{seq}: runner was handed\n{log[-1][0]}")
                    t.state(log[-1][0])
    finally:
        S.unregister_backend("verif_qasm")
    t.outcome("OpenQASM runner")


def qasm_same(text, c):
    n, prog, extra = qasm.parse(text)
    if n != c.n_qubits or extra:
        return False
    got, exp = [], []
    for op in prog:
        if op[0] == "measure" and op[2] != op[3]:
            return False
        got.append((op[0], tuple(op[1]), tuple(op[2][1]) if isinstance(op[2], list) else (op[2],)))
    for g in c.ops:
        exp += elems(g, n)
    return same_program(got, exp, n, generic(n))


HOPS = [("name", 0), ("name", 1), ("obj", 0), ("dflt", 0), ("cache", 0), ("K", 1, 1), ("K", 1, 0), ("D", 1), ("D", 0), ("+",), ("app", 0)]


class Counter(Backend):
    """a backend whose answers depend on its own history"""
    made = 0

    def __init__(self):
        self.hist = []

    def run(self, gates, n_qubits, *a, **k):
        self.hist.append(len(gates))
        return list(self.hist)

    def make_cache(self, gates, n_qubits):
        self.hist.append(("cache", len(gates), n_qubits))
        return None


def hist_cases(t, d):
    S.register_backend("verif_count", Counter)
    try:
        for rest in itertools.product(range(len(HOPS)), repeat=d["depth"] - 2):
            seq = [HOPS[i] for i in d["head"] + list(rest)]
            if seq[-1][0] not in ("name", "obj", "dflt"):
                continue
            c = [Circuit(2).x[0], Circuit(2)]
            c[0].set_default_backend("verif_count")
            L = [1, 0]
            inst = [None, None]       # model of the circuits' own instances
            dfl = [True, False]
            shared, sh = Counter(), []
            for o in seq:
                k = o[0]
                if k in ("name", "dflt"):
                    i = o[1]
                    if k == "dflt" and not dfl[i]:
                        continue
                    r = c[i].run(backend="verif_count") if k == "name" else c[i].run()
                    inst[i] = (inst[i] or []) + [L[i]]
                    t.check(r == inst[i], lambda: f"{seq}: {o} answered {r}; runs of this circuit's backend so far {inst[i]}")
                elif k == "obj":
                    r = c[o[1]].run(backend=shared)
                    sh.append(L[o[1]])
                    t.check(r == sh, lambda: f"{seq}: the backend object answered {r}, its runs {sh}")
                elif k == "cache":
                    c[0].make_cache(backend="verif_count")
                    inst[0] = (inst[0] or []) + [("cache", L[0], 2)]
                elif k in ("K", "D"):
                    if k == "K":
                        c[1] = c[0].copy() if o[2] else c[0].copy(copy_backends=False)
                        keep = o[2]
                    else:
                        c[1] = c[0].dagger(copy_backends=True) if o[1] else c[0].dagger()
                        keep = o[1]
                    inst[1] = list(inst[0]) if keep and inst[0] is not None else None
                    L[1], dfl[1] = L[0], dfl[0]
                elif k == "+":
                    c[1] = c[0] + c[1]
                    inst[1] = list(inst[0]) if inst[0] is not None else None
                    L[1], dfl[1] = L[0] + L[1], dfl[0]
                else:
                    c[0].z[1]
                    L[0] += 1
                t.trans()
            t.trace()
            t.state((tuple(L), str(inst)))
    finally:
        S.unregister_backend("verif_count")
    t.outcome("histories of a stateful backend")


HELD = ["x", "grow", "iadd", "plus", "copy", "run", "byname", "dagger", "qasm", "cache", "fail"]


def held_case(t, d):
    """run methods taken from a circuit and called later: they hand over the circuit as it is when they are called"""
    log = []

    class Own(Backend):
        def run(self, gates, n_qubits, *args, **kwargs):
            log.append(([*gates], n_qubits, args, kwargs))
            return ("mine", len(log))
    S.register_backend("verif_own", Own)
    texts = []
    S.register_backend("verif_qasm", generate_backend(lambda text, *a, **k: texts.append((text, a, k)) or len(texts)))

    def step(c, k):
        if k == "x":
            c.x[0]
        elif k == "grow":
            c.h[c.n_qubits]
        elif k == "iadd":
            c += Circuit(4).cx[1, 3]
        elif k == "plus":
            (c + Circuit(5).x[4]).run()
        elif k == "copy":
            c.copy().x[2].run_with_verif_own()
        elif k == "run":
            c.run()
        elif k == "byname":
            c.run_with_verif_own(1)
        elif k == "dagger":
            c.dagger().y[1]
        elif k == "qasm":
            c.to_qasm()
        elif k == "cache":
            c.make_cache()
        else:
            try:
                c.rx[0]
            except TypeError:
                pass
        return c
    try:
        for L in (1, 2, 3):
            for rest in itertools.product(HELD, repeat=L - 1):
                seq = (HELD[d["a"]], *rest)
                for n0 in (0, 2):
                    c = Circuit(n0).ry(0.3)[0]
                    held = []
                    for k in (None, *seq):
                        if k is not None:
                            step(c, k)
                        held.append((c.run_with_verif_own, c.run_with_verif_qasm, c.run_with_numpy, c.run, c.to_qasm))
                    for own, qa, num, run, tq in held:
                        r = own(7, x=None)
                        g, m, a, kw = log[-1]
                        t.check(r == ("mine", len(log)) and len(g) == len(c.ops) and all(p is q for p, q in zip(g, c.ops)) and m == c.n_qubits and a == (7,) and kw == dict(x=None), lambda: f"run method taken during {seq}, called at the end: backend was called with {g, m, a, kw}, circuit {c!r}")
                        qa()
                        t.check(qasm_same(texts[-1][0], c), lambda: f"run method taken during {seq}: runner was handed\n{texts[-1][0]}\nfor {c!r}")
                        t.check(num().shape == (2 ** c.n_qubits,) and np.array_equal(num(), run()), lambda: f"run method taken during {seq}: state of {num().shape} for {c!r}")
                        t.check(tq() == c.to_qasm(), lambda: f"to_qasm taken during {seq}")
                        t.trans(4)
                    t.trace()
                    t.state((n0, seq))
    finally:
        S.unregister_backend("verif_own")
        S.unregister_backend("verif_qasm")
    t.outcome("held run methods")


def arg_case(t):
    # defaults of the base class
    class Empty(Backend):
        pass
    t.check(Circuit(2).run(backend=Empty()) is None and Empty().make_cache([], 1) is None, "defaults of the base class")
    try:
        Circuit(2).x[0].run(backend=Empty())
        t.check(False, "a backend without any gate ran a circuit")
    except Exception as ex:
        t.check(not isinstance(ex, AssertionError), "error")
    a = Counter()
    a.hist.append([1])
    b = a.copy()
    b.hist[0].append(2)
    t.check(a.hist == [[1]] and type(b) is Counter, "copy of a backend shares its state")
    t.trans(3), t.trace(), t.state("args")


def run_case(t, d):
    k = d["kind"]
    if k == "prog":
        prog_case(t, d)
    elif k == "big":
        big_case(t, d)
    elif k == "run":
        run_cases(t, d)
    elif k == "qasm":
        qasm_cases(t, d)
    elif k == "hist":
        hist_cases(t, d)
    elif k == "held":
        held_case(t, d)
    else:
        arg_case(t)
