"""OpenQASM export: every enumerated circuit is exported, read back by an independent interpreter and compared."""
import itertools, math
import numpy as np
from mc import ref, dist, qasm
from mc.build import circ, rprog, instances, generic_prefix, targets, long_alphabet, wide_targets, PI, pv, near_params
from mc.checks.C01 import multi_targets, GRID1, G2, G3
from mc.checks.C04 import TG, SUF, PREP3
from blueqat import Circuit

BOUNDS = {
 "quick": "every gate x every target tuple (n<=3; n=4..6 two-qubit) x parameter grid (81 values, 9^2, 7^3, numpy types, angles beside the quarter turns); sliced/negative/growing targets; all sequences of length 2 (n=3) and 3 (n=2); targets on 9, 11 and 12 qubits, programs of 17 gates and texts of 60 to 2060 statements; measured programs (13 preparations x 64 suffixes); n up to 100 registers; every measured qubit (pair) of registers of 1..7 qubits; prologue on/off; one export per gate through qiskit's parser",
 "thorough": "finer grids, length 3 for n=3 with one placement per gate first"}
NAMES = ref.UNITARY
ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}


def cases(tier):
    out = []
    for nm in NAMES:
        out.append(dict(kind="grid", name=nm))
        for n in (3, 4, 5, 6):
            out.append(dict(kind="targets", name=nm, n=n))
    for a in range(len(instances(NAMES, 3, ZERO))):
        out.append(dict(kind="seq", n=3, a=a, depth=2 if tier == "quick" else 3))
    for a in range(len(instances([x for x in NAMES if x not in ref.THREE], 2, ZERO))):
        out.append(dict(kind="seq", n=2, a=a, depth=3))
    for nm in NAMES:
        out.append(dict(kind="wide", name=nm))
        out.append(dict(kind="long", name=nm))
    for p in range(len(PREP3)):
        out.append(dict(kind="meas", p=p))
    out.append(dict(kind="shape"))
    for nm in NAMES + ["m", "reset"]:
        out.append(dict(kind="qiskit", name=nm))
    return out


def read(t, c, prog, n, prologue=True, text=None):
    text = c.to_qasm() if text is None else text
    t.trace()
    try:
        m, back, extra = qasm.parse(text, prologue, n)
    except qasm.QasmError as ex:
        t.check(False, f"{prog} exported as {text!r}: {ex}")
        return None
    for e in extra:
        t.check(False, f"{prog} exported with gate {e}, which qelib1 does not define: {text!r}", key="gate-" + e)
    t.check(m == n, f"{prog}: register size {m}, circuit has {n} qubits")
    return back


def unitary_same(t, prog, n, states=None, c=None):
    c = c or circ(prog, n)
    back = read(t, c, prog, n)
    if back is None:
        return
    t.trans(len(back))
    for v in states or STATES[n]:
        t.check(ref.same(ref.run(back, n, v), ref.run(rprog(prog), n, v)), lambda: f"{prog} on {n} qubits exported as {c.to_qasm()!r}, which is another unitary")
    t.state(str(back))


STATES = {n: [ref.run(generic_prefix(n), n)] for n in range(0, 7)}
for _n in (1, 2, 3):
    # a second generic vector and the basis states: equality on all with one phase per vector plus the generic sum fixes the unitary
    STATES[_n] = STATES[_n] + [np.eye(2 ** _n, dtype=complex)[b] for b in range(2 ** _n)]


def run_case(t, d):
    k = d["kind"]
    if k == "grid":
        nm = d["name"]
        m = ref.NPARAM[nm]
        grid = [[]] if m == 0 else [[x] for x in GRID1] if m == 1 else [list(x) for x in itertools.product(G2, repeat=2)] if m == 2 else [list(x) for x in itertools.product(G3, repeat=3)]
        extra = [[x] * m for x in (1e-7, -3e-9, 1e-300, 1e22, 123456789.123456, ["f64", 1e-7], ["f64", -0.1], ["i64", -3], 0, 1, -1, 1 / 3)] if m else []
        nmin = 1 if nm in ref.ONE else 2 if nm in ref.TWO else 3
        for p in grid + near_params(m):
            unitary_same(t, [[nm, p, targets(nm, nmin)[0]]], nmin)
        for p in extra:
            c = circ([[nm, p, targets(nm, nmin)[0]]], nmin)
            back = read(t, c, [nm, p], nmin)
            if back is None:
                continue
            vals = {float(pv(x)) for x in p}
            if nm in ("rx", "ry", "rz", "u1", "phase", "r", "u2", "u3", "cu1", "cphase", "cr", "cu3", "cu2") and len(back) == 1:
                t.check(set(back[0][1]) <= vals | {-v for v in vals} | {PI / 2}, lambda: f"{nm}({p}) exported as {c.to_qasm()!r}: parameter does not parse back to the same value")
            if max(abs(v) for v in vals) < 1e3:
                unitary_same(t, [[nm, p, targets(nm, nmin)[0]]], nmin)
        t.outcome("grid " + nm)
    elif k == "targets":
        nm, n = d["name"], d["n"]
        p = ZERO[ref.NPARAM[nm]][0]
        for x in targets(nm, n) + multi_targets(nm, n):
            unitary_same(t, [[nm, p, x]], n, STATES[n][:1] if n > 3 else None)
        if n == 3:
            for x in multi_targets(nm, 3)[:6]:
                pr = [["h", [], 1], [nm, p, x], ["x", [], 4]]
                try:
                    [ref.elementary(o[0], ref.to_py(o[2]), 5) for o in pr]
                except ref.Bad:
                    continue
                unitary_same(t, pr, 5, c=circ(pr))
        t.outcome("targets")
    elif k == "seq":
        n = d["n"]
        I = instances([x for x in NAMES if n > 2 or x not in ref.THREE], n, ZERO)
        for rest in itertools.product(I, repeat=d["depth"] - 1):
            unitary_same(t, [I[d["a"]]] + list(rest), n, STATES[n][:1])
        t.sample(I[d["a"]])
        t.outcome("sequences")
    elif k == "wide":
        nm = d["name"]
        for n in (9, 11, 12):
            v = [ref.run(generic_prefix(n), n)]
            for x in wide_targets(nm, n):
                unitary_same(t, [[nm, ZERO[ref.NPARAM[nm]][0], x]], n, v)
        t.outcome("wide registers")
    elif k == "long":
        A = long_alphabet(NAMES)
        a = A[NAMES.index(d["name"])]
        for b in A:
            unitary_same(t, [["ry", [0.4], ["s", None, None, None]]] + [a, b] * 8, 3, STATES[3][:1])
        for r in range(1, 17):
            unitary_same(t, [a] * r, 3, STATES[3][:1])
        t.outcome("long programs")
    elif k == "meas":
        pre = PREP3[d["p"]]
        for sf in SUF + [[["m", [], x], ["reset", [], y]] for x in TG for y in TG[::3]]:
            prog = pre + sf
            c = circ(prog, 3)
            back = read(t, c, prog, 3)
            if back is None:
                continue
            t.check(all(len(o) < 4 or o[2] == o[3] for o in back), lambda: f"{prog}: measurement into another bit: {c.to_qasm()!r}")
            df = dist.reference([o[:3] for o in back], 3).diff(dist.reference(prog, 3))
            t.check(df is None, lambda: f"{prog} exported as {c.to_qasm()!r}: {df}")
            order = [(o[0], o[2]) for o in back if o[0] in ("measure", "reset")]
            want = [({"m": "measure"}.get(o[0], o[0]), q[0]) for o in prog if o[0] in ("m", "measure", "reset") for q in ref.elementary(o[0], ref.to_py(o[2]), 3)]
            t.check(order == want, lambda: f"{prog}: measurements/resets exported as {order}, expected {want}")
            t.trans(len(back))
            t.state(str(back))
        t.outcome("measured")
    elif k == "shape":
        for n in list(range(1, 13)) + [20, 40, 100]:
            for c, prog in ((Circuit(n), []), (Circuit().x[n - 1], [["x", [], n - 1]]), (Circuit(n).m[:], [["m", [], ["s", None, None, None]]]), (Circuit(n).h[0].m[-1], [["h", [], 0], ["m", [], -1]])):
                back = read(t, c, prog, n)
                if back is None:
                    continue
                body = c.to_qasm(output_prologue=False)
                full = c.to_qasm()
                t.check(full == c.to_qasm(output_prologue=True) == c.run(backend="qasm_output") == c.run_with_qasm_output(), "prologue variants")
                t.check(full.endswith(body) and body == c.to_qasm(False), lambda: f"output_prologue=False changed the body: {body!r} / {full!r}")
                head = full[:len(full) - len(body)] if body else full
                t.check("OPENQASM" in head and "OPENQASM" not in body and "qreg" not in body and "creg" not in body and "include" not in body, "prologue split")
                want = [(o[0] if o[0] != "m" else "measure", q[0]) for o in prog for q in ref.elementary(o[0], ref.to_py(o[2]), n)]
                t.check([(o[0], o[2]) for o in back] == want, lambda: f"{prog} on {n}: {back}")
                b2 = read(t, c, prog, n, False, body)
                t.check(b2 == back, "body without prologue differs")
                t.trans(len(want))
                t.state((n, str(prog)))
        # registers have the circuit's size whatever is measured or used
        for n in range(1, 8):
            for q in range(n):
                for r in [None] + list(range(n)):
                    for prog in ([["x", [], q], ["m", [], q if r is None else ["t", [q, r]]]], [["m", [], q]] + ([] if r is None else [["h", [], r], ["reset", [], q]])):
                        c = circ(prog, n)
                        back = read(t, c, prog, n)
                        if back is None:
                            continue
                        want = [(o[0] if o[0] != "m" else "measure", e[0]) for o in prog for e in ref.elementary(o[0], ref.to_py(o[2]), n)]
                        want = [x for x in want if x[0] in ("measure", "reset")]
                        back = [o for o in back if o[0] in ("measure", "reset")]
                        t.check([(o[0], o[2]) for o in back] == want and all(len(o) < 4 or o[2] == o[3] for o in back), lambda: f"{prog} on {n}: {back}")
                        t.trans(len(want))
                t.state((n, q))
        # long texts: without measurement by their effect, and all measurements and resets of a row of them
        for L in (60, 100, 130, 256, 300, 520, 1030, 2060):
            prog = [[("x", "h", "s", "t", "cx", "z", "ry", "cz")[(i * 3 + i // 7) % 8], [], i % 3] for i in range(L)]
            for i, o in enumerate(prog):
                if o[0] in ("cx", "cz"):
                    o[2] = ["t", [i % 3, (i + 1 + i // 9 % 2) % 3]]
                if o[0] == "ry":
                    o[1] = [0.1 + i % 5]
            unitary_same(t, prog, 3, STATES[3][:1])
            prog = [["reset" if i % 3 == 1 else "measure", [], (i * 2 + i // 5) % 5] for i in range(L)]
            back = read(t, circ(prog, 5), prog, 5)
            if back is not None:
                t.check([(o[0], o[2]) for o in back if o[0] in ("measure", "reset")] == [(o[0], o[2]) for o in prog], lambda: f"{L} measurements and resets exported as {back}")
            t.trans(L)
        # exporting twice, after runs and from copies gives the same text
        c = Circuit(3).h[:].cx[0, 1].ry(0.3)[2].m[:]
        q = c.to_qasm()
        c.run()
        t.check(c.to_qasm() == q == c.copy().to_qasm() and (Circuit(3) + c).to_qasm() == q, "export depends on history")
        t.outcome("shape")
    elif k == "qiskit":
        nm = d["name"]
        if nm == "cu2":
            return
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from qiskit import QuantumCircuit
        for p in ([ZERO[ref.NPARAM[nm]][0]] + ([[1e-7] * ref.NPARAM[nm]] if ref.NPARAM[nm] else [])):
            for x in targets(nm, 3)[:6]:
                qc = QuantumCircuit.from_qasm_str(circ([[nm, p, x]], 3).to_qasm())
                t.check(qc.num_qubits == 3 and qc.num_clbits == 3 and len(qc.data) >= (0 if nm == "i" else 1), "qiskit reads another circuit")
                t.trace(), t.trans()
                t.state((nm, str(x)))
        t.outcome("qiskit parser")
