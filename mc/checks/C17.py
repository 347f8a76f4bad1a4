"""Qiskit backend: the circuit handed to Qiskit, interpreted exactly; and every histogram a (fake) Qiskit device can answer."""
import itertools, collections, math, sys, types, warnings
import numpy as np
from mc import ref, dist
from mc.build import circ, rprog, instances, targets, generic_prefix, long_alphabet, wide_targets, near_params
from mc.checks.C01 import multi_targets, GRID1, G2, G3
from mc.checks.C04 import PREP3, SUF, TG, s, h, cx
from blueqat import Circuit

ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}
BOUNDS = {
 "quick": "circuits handed to Qiskit for every gate x target tuple (n<=3, sliced, n=5 spot), parameter grids (82; 9^2; 7^3; angles beside the quarter turns), all pairs of instances n=2, 13 preparations x 64 measured suffixes: exact outcome distribution by enumeration of all branches; "
          "gates on 11 qubits, measurements on 6, 10, 12 qubits, programs of 13 gates; a fake device answering every single-outcome and every two-outcome histogram, n<=4 (and for one-hot and dense keys n=6, 10, 12), and histograms of all and of a third of the 2^n outcomes; all option combinations (shots 1 to 100001); Aer runs of all basis states n<=4",
 "thorough": "plus all pairs n=3, all pairs of suffixes"}
ASSUMPTIONS = ["qiskit.circuit Instruction.to_matrix() is the gate Qiskit runs", "circuits contain at least one measurement when counts are asked for (Qiskit raises otherwise)"]


def cases(tier):
    out = []
    for nm in ref.UNITARY:
        for n in (1, 2, 3, 5):
            out.append(dict(kind="gate", name=nm, n=n))
        if ref.NPARAM[nm]:
            for part in range(4):
                out.append(dict(kind="grid", name=nm, part=part))
    for a in range(len(pairs(2))):
        out.append(dict(kind="pair", a=a, n=2))
    if tier == "thorough":
        for a in range(len(pairs(3))):
            out.append(dict(kind="pair", a=a, n=3))
    for p in range(len(PREP3)):
        for lo in range(0, len(SUF), 16):
            out.append(dict(kind="meas", p=p, lo=lo, full=tier == "thorough"))
    for nm in ref.UNITARY:
        out.append(dict(kind="wide", name=nm))
        out.append(dict(kind="long", name=nm))
    for n in (6, 10, 12):
        out.append(dict(kind="fake", n=n))
        out.append(dict(kind="mwide", n=n))
    for n in range(1, 5):
        out.append(dict(kind="fake", n=n))
        out.append(dict(kind="aer", n=n))
    for k in range(4):
        out.append(dict(kind="opts", k=k))
    out.append(dict(kind="exception"))
    return out


def pairs(n):
    return instances([x for x in ref.UNITARY if n > 2 or x not in ref.THREE], n, ZERO)


def apply_matrix(vec, qs, U):
    """U's basis index has qs[0] as least significant bit (Qiskit's convention)"""
    k = len(qs)
    N = vec.shape[0]
    idx = np.arange(N)
    base = idx[np.all([(idx >> q) & 1 == 0 for q in qs], axis=0)] if k else idx
    cols = [base + sum(((b >> j) & 1) << q for j, q in enumerate(qs)) for b in range(2 ** k)]
    out = vec.copy()
    for r in range(2 ** k):
        out[cols[r]] = sum(U[r, c] * vec[cols[c]] for c in range(2 ** k))
    return out


def branches(qc, n, nbits):
    """all (prob, bits, state) of a QuantumCircuit, from |0..0>"""
    vec = np.zeros(2 ** n, complex)
    vec[0] = 1
    br = [(1.0, (0,) * nbits, vec)]
    idx = np.arange(2 ** n)
    for ins in qc.data:
        qs = [qc.find_bit(q).index for q in ins.qubits]
        nb = []
        nm = ins.operation.name
        if nm == "barrier":
            continue
        if getattr(ins.operation, "condition", None) is not None:
            raise ValueError("conditional operation")
        U = None if nm in ("measure", "reset") else np.asarray(ins.operation.to_matrix())
        for p, bits, v in br:
            if U is not None:
                nb.append((p, bits, apply_matrix(v, qs, U)))
                continue
            for b in (0, 1):
                m = (idx >> qs[0] & 1) == b
                pr = float(np.sum(np.abs(v[m]) ** 2))
                if pr < 1e-12:
                    continue
                w = np.where(m, v, 0) / math.sqrt(pr)
                if nm == "reset":
                    nb.append((p * pr, bits, apply_matrix(w, qs, np.array([[0, 1], [1, 0]])) if b else w))
                else:
                    c = qc.find_bit(ins.clbits[0]).index
                    nb.append((p * pr, bits[:c] + (b,) + bits[c + 1:], w))
        br = nb
    return br


def compare(t, prog, n0, pre=None, c=None):
    c = c or circ(prog, n0)
    n = ref.n_of(rprog(prog), n0)
    ops = [str(o) for o in c.ops]
    qc = c.run_with_ibmq(returns="qiskit_circuit")
    t.trace(), t.trans(len(prog))
    t.check(qc.num_qubits == n and [str(o) for o in c.ops] == ops, lambda: f"{prog}: Qiskit circuit has {qc.num_qubits} qubits, circuit {n}")
    got = dist.Dist()
    for p, bits, v in branches(qc, n, qc.num_clbits):
        got.add("".join(map(str, bits))[:n], v, p)
    t.check(qc.num_clbits == n, lambda: f"{prog}: {qc.num_clbits} classical bits")
    exp = dist.reference(rprog(prog), n)
    d = got.diff(exp, 1e-7)
    t.check(d is None, lambda: f"{prog} on {n} qubits: circuit given to Qiskit (first) and circuit (second): {d}")
    t.state(str(prog))


def fake_backend():
    from qiskit_aer import AerSimulator
    from qiskit.providers import JobV1, JobStatus
    from qiskit.result import Result

    class Job(JobV1):
        def __init__(self, backend, res):
            super().__init__(backend, "id")
            self._res = res
            self.waited = 0

        def submit(self):
            pass

        def result(self, *a, **k):
            self.waited += 1
            return self._res

        def status(self):
            return JobStatus.DONE

    class Fake(AerSimulator):
        def setup(self, counts, hexkeys=False):
            object.__setattr__(self, "_hex", hexkeys)
            object.__setattr__(self, "_fk", counts)
            object.__setattr__(self, "_log", [])
            return self

        def run(self, circuits, *a, **opts):
            qc = circuits[0] if isinstance(circuits, (list, tuple)) else circuits
            n = qc.num_clbits
            res = Result.from_dict(dict(backend_name="fake", backend_version="0", qobj_id="0", job_id="id", success=True, results=[dict(
                shots=opts.get("shots") or 1, success=True, meas_level=2, status="DONE",
                data=dict(counts={hex(sum(int(b) << i for i, b in enumerate(k))): v for k, v in self._fk.items()}),
                header=dict(name="c", memory_slots=n, n_qubits=qc.num_qubits, creg_sizes=[["c", n]], clbit_labels=[["c", i] for i in range(n)]))]))
            if self._hex:       # devices whose results give hexadecimal keys
                res = types.SimpleNamespace(get_counts=lambda *a: {hex(sum(int(b) << i for i, b in enumerate(k))): v for k, v in self._fk.items()})
            job = Job(self, res)
            self._log.append((qc, a, opts, job, res))
            return job
    return Fake()


def run_case(t, d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(t, d)


def _run(t, d):
    k = d["kind"]
    if k == "gate":
        nm, n = d["name"], d["n"]
        if n < (1 if nm in ref.ONE else 2 if nm in ref.TWO else 3):
            return
        p = ZERO[ref.NPARAM[nm]][0]
        pre = generic_prefix(n)
        tg = targets(nm, n) + multi_targets(nm, n)
        for x in tg if n < 5 else tg[::7]:
            compare(t, pre + [[nm, p, x]], n)
        t.outcome("gate")
    elif k == "grid":
        nm = d["name"]
        m = ref.NPARAM[nm]
        n = 1 if nm in ref.ONE else 2
        grid = [[x] for x in GRID1 if not isinstance(x, list) or x[0] != "f32"] if m == 1 else [list(x) for x in itertools.product(G2, repeat=2)] if m == 2 else [list(x) for x in itertools.product(G3, repeat=3)]
        for p in (grid + near_params(m, range(-2, 4), (9, 20)))[d["part"]::4]:
            compare(t, generic_prefix(n) + [[nm, p, targets(nm, n)[-1]]], n)
        t.outcome("grid")
    elif k == "wide":
        nm, n = d["name"], 11
        for x in wide_targets(nm, n):
            compare(t, generic_prefix(n) + [[nm, ZERO[ref.NPARAM[nm]][0], x]], n)
        t.outcome("wide")
    elif k == "long":
        A = long_alphabet(ref.UNITARY)
        a = A[ref.UNITARY.index(d["name"])]
        for b in A[::3]:
            compare(t, [["ry", [0.4], s()]] + [a, b] * 6, 3)
        for r in (2, 3, 4, 5, 8, 13):
            compare(t, [["ry", [0.4], s()]] + [a] * r, 3)
        t.outcome("long")
    elif k == "mwide":
        n = d["n"]
        for a, b in ((0, n - 1), (n - 1, 0), (n - 2, 1), (2, 3), (5, 4)):
            for x in (["t", [a, b]], b, s(n - 2), s(None, None, -4), s()):
                if x == s() and n > 6:
                    continue
                pre = [h(a), cx(a, b), ["x", [], n - 3], ["ry", [0.7], 1]]
                compare(t, pre + [["m", [], x]], n)
                compare(t, pre + [["reset", [], b], ["m", [], x], ["x", [], a], ["m", [], a]], n)
        t.outcome("wide measurements")
    elif k == "pair":
        I = pairs(d["n"])
        pre = generic_prefix(d["n"])
        for b in I:
            compare(t, pre + [I[d["a"]], b], d["n"])
        t.sample(I[d["a"]])
        t.outcome("pair")
    elif k == "meas":
        pre = PREP3[d["p"]]
        for sf in SUF[d["lo"]:d["lo"] + 16]:
            for s2 in ([[]] + [x for x in SUF] if d["full"] else [[], SUF[2], SUF[20]]):
                compare(t, pre + sf + s2, 3)
        t.outcome("measured")
    elif k == "fake":
        n = d["n"]
        pats = ["".join(x) for x in itertools.product("01", repeat=n)] if n < 5 else ["0" * q + "1" + "0" * (n - q - 1) for q in range(n)] + ["1" * n, "0" * n, "1" * (n - 2) + "01", "110" + "0" * (n - 4) + "1"]
        fb = fake_backend()
        full = ["".join(x) for x in itertools.product("01", repeat=n)]
        hists = [{b: i % 5 + 1 for i, b in enumerate(full[r::3])} for r in range(3)] + [{b: i % 7 + 1 for i, b in enumerate(full)}] if n < 12 else []
        hists += [{a: 3} for a in pats] + [{a: 2, b: 5} for a, b in itertools.combinations(pats, 2)] + [{a: i + 1 for i, a in enumerate(pats)}]
        for hst in hists:
            c = Circuit(n).h[:].m[:]
            fb.setup(hst)
            r = c.run_with_ibmq(fb, shots=sum(hst.values()))
            t.check(isinstance(r, collections.Counter) and dict(r) == hst, lambda: f"device answered {hst} (qubit 0 first), backend returned {r}")
            t.check(len(fb._log) == 1 and fb._log[0][2].get("shots") == sum(hst.values()), "shots passed on")
            t.trace(), t.trans()
            t.state(str(hst))
        t.outcome("histograms")
    elif k == "aer":
        n = d["n"]
        for b in range(2 ** n):
            for x in TG if n == 3 else [s(), 0, -1]:
                prog = [["x", [], q] for q in range(n) if b >> q & 1] + [["m", [], x]]
                bits = ref.branches(prog, n)[0][1]
                if not ref.elementary("m", ref.to_py(x), n):
                    continue
                r = circ(prog, n).run_with_ibmq(shots=7)
                t.check(dict(r) == {"".join(map(str, bits)): 7} and isinstance(r, collections.Counter), lambda: f"{prog} on {n} qubits through Qiskit: {r}")
                t.trace(), t.trans()
                t.state((n, b, str(x)))
        for prog in [p + [["m", [], s()]] for p in PREP3]:
            labels = {"".join(map(str, b)) for p, b, v in ref.branches(prog, 3)}
            for _ in range(2):
                r = circ(prog, 3).run(backend="ibmq", shots=50)
                t.check(sum(r.values()) == 50 and set(r) <= labels, lambda: f"{prog}: {r}")
                t.trace(), t.trans()
        t.outcome("aer")
    elif k == "opts":
        import qiskit
        from qiskit import QuantumCircuit
        from qiskit.result import Result
        mk = [lambda: Circuit(2).h[0].cx[0, 1].m[:], lambda: Circuit(1).x[0].m[0], lambda: Circuit(3).ry(0.3)[:].m[1, 2], lambda: Circuit(2).h[0].m[0].reset[0].m[:]][d["k"]]
        n = mk().n_qubits
        fb = fake_backend()
        hst = {"1" * n: 4, "0" + "1" * (n - 1): 9}
        for ret in (None, "shots", "qiskit_job", "qiskit_result", "qiskit_circuit", "draw", "_exception"):
            for shots in (None, 1, 77, 1025, 8193, 100001):
                for extra in ({},) if shots is not None and shots > 77 else ({}, {"memory": True}, {"seed_simulator": 5}, {"optimization_level": 0}, {"seed_simulator": 9, "memory": True}):
                    for how in ("run", "run_with_ibmq", "positional"):
                        c = mk()
                        fb.setup(hst)
                        ops = [str(o) for o in c.ops]
                        kw = dict(extra)
                        if ret == "draw":
                            kw = {"output": "text"} if extra else {}
                        if how == "positional":
                            r = c.run_with_ibmq(fb, shots, ret, **kw)
                        else:
                            if ret is not None:
                                kw["returns"] = ret
                            if shots is not None:
                                kw["shots"] = shots
                            r = c.run(backend="ibmq", qiskit_backend=fb, **kw) if how == "run" else c.run_with_ibmq(qiskit_backend=fb, **kw)
                        where = lambda: f"{ops} returns={ret} shots={shots} {extra} {how}: {r!r}, device calls {[x[2] for x in fb._log]}"
                        ran = ret in (None, "shots", "qiskit_job", "qiskit_result")
                        t.check(len(fb._log) == (1 if ran else 0), where)
                        if ran:
                            qc, a, opts, job, res = fb._log[0]
                            t.check(opts.get("shots") == (1024 if shots is None else shots), where)
                            for o in ("memory", "seed_simulator"):
                                t.check(o not in extra or opts.get(o) == extra[o], where)
                        if ret in (None, "shots"):
                            t.check(isinstance(r, collections.Counter) and dict(r) == hst, where)
                        elif ret == "qiskit_job":
                            t.check(r is job and job.waited == 0, where)
                        elif ret == "qiskit_result":
                            t.check(r is res, where)
                        elif ret == "qiskit_circuit":
                            t.check(isinstance(r, QuantumCircuit) and r == QuantumCircuit.from_qasm_str(c.to_qasm()), where)
                        elif ret == "draw":
                            t.check(str(r) == str(QuantumCircuit.from_qasm_str(c.to_qasm()).draw(**({"output": "text"} if extra else {}))), where)
                        else:
                            t.check(r is None, where)
                        t.check([str(o) for o in c.ops] == ops and c.n_qubits == n, "circuit changed")
                        t.trace(), t.trans()
                        t.state((d["k"], ret, shots, str(extra), how))
        for bad in ("", "count", "statevector", "Shots", 0, "qiskit"):
            try:
                r = mk().run_with_ibmq(fb, returns=bad)
                t.check(False, f"unknown returns {bad!r} accepted: {r!r}")
            except (ValueError, TypeError) as ex:
                t.check(isinstance(ex, ValueError), f"returns={bad!r}: {ex!r}")
        r = mk().run_with_ibmq()
        t.check(sum(r.values()) == 1024, "default shots")
        r = mk().run_with_ibmq(shots=5, returns="qiskit_result")
        t.check(isinstance(r, Result) and sum(r.get_counts().values()) == 5, "default device")
        a, b = mk().run_with_ibmq(shots=200, seed_simulator=11), mk().run_with_ibmq(shots=200, seed_simulator=11)
        t.check(a == b, "seed_simulator not passed on")
        t.outcome("options")
    elif k == "exception":
        # without Qiskit: documented errors
        saved = {m: sys.modules[m] for m in list(sys.modules) if m == "qiskit"}
        for label, broken in (("missing", None), ("broken", type(sys)("qiskit"))):
            sys.modules["qiskit"] = broken
            try:
                c = Circuit().x[0].m[0]
                ex = c.run_with_ibmq(returns="_exception")
                t.check(isinstance(ex, Exception), f"returns='_exception' gave {ex!r}")
                try:
                    c.run_with_ibmq()
                    t.check(False, "ran without qiskit")
                except (ImportError, ValueError):
                    pass
                try:
                    c.run_with_ibmq(returns="bad")
                    t.check(False, "bad returns accepted")
                except ValueError:
                    pass
                t.check(c.run().shape == (2,), "numpy still works")
                t.trace(), t.trans(3)
                t.state(label)
            finally:
                sys.modules.pop("qiskit", None)
                sys.modules.update(saved)
        t.outcome("no qiskit")
