"""Marginals from expect() and every sampler: all ordered qubit subsets, all outcomes of the random samplers."""
import itertools, math
import numpy as np
from mc import ref, rng
from mc.build import circ, rprog, generic_prefix
from mc.vq import exact_device, csnap, DY, marginal
from mc.checks.C17 import fake_backend
from blueqat import Circuit, vqe

BOUNDS = {
 "quick": "expect/non_sampling_sampler: every ordered subset (and empty, repeated) of n<=5 qubits on generic, basis and sparse states, given as tuple/list/range/iterator; random samplers: 16 stabilizer programs n<=3 x every ordered subset, every outcome of 1-3 shots; Qiskit sampler on an exact device and on a device answering every one- and two-outcome histogram n<=3 (binary keys); "
          "circuits with history, run options, consecutive use of one sampler; one shot of 11 states with probabilities such as sin(0.005)^2: the exact weight of every outcome (n<=4, every ordered subset); n=9..12 (two-digit qubits): 60 ordered subsets of 1..n qubits per size through expect, every sampler and histograms of a scripted device",
 "thorough": "n=6, 4 shots"}


def subsets(n):
    return [p for r in range(0, n + 1) for p in itertools.permutations(range(n), r)]


def cases(tier):
    out = []
    for n in range(1, 6 if tier == "quick" else 7):
        out.append(dict(kind="exact", n=n, what="generic"))
        for b in range(0, 2 ** n, 1 if n < 5 else 5):
            out.append(dict(kind="exact", n=n, what=b))
        out.append(dict(kind="exact", n=n, what="sparse"))
    for n in DY:
        for i in range(len(DY[n])):
            out.append(dict(kind="random", n=n, i=i, shots=3 if tier == "quick" else 4))
            out.append(dict(kind="qiskit", n=n, i=i))
    for n in (1, 2, 3):
        out.append(dict(kind="device", n=n))
    for i in range(len(SCRIPT)):
        out.append(dict(kind="script", i=i))
    out.append(dict(kind="reuse"))
    out.append(dict(kind="options"))
    for i in range(len(LAW)):
        out.append(dict(kind="law", i=i))
    for n in (9, 10, 11, 12):
        for i in range(4):
            out.append(dict(kind="wide", n=n, i=i))
    return out


SCRIPT = [(2, [["x", [], 1]]), (3, [["x", [], 0], ["x", [], 2]]), (4, [["x", [], 3]]), (4, [["x", [], 1], ["x", [], 2]]), (5, [["x", [], 0]])]


LAW = [(1, [["ry", [a], 0]]) for a in (0.01, 0.05, 0.3, 1.0, 2.0, 3.1)] + \
      [(2, [["ry", [a], 0], ["ry", [b], 1], ["cx", [], ["t", [0, 1]]]]) for a, b in ((0.05, 0.02), (1.1, 0.1), (3.0, 2.2))] + \
      [(3, [["ry", [0.1], 0], ["rx", [2.5], 1], ["ry", [0.03], 2], ["cx", [], ["t", [1, 2]]]]), (4, [["ry", [0.1 + 0.7 * q], q] for q in range(4)] + [["cz", [], ["t", [0, 3]]], ["h", [], 1]])]


class FineTree(rng.Tree):
    """also notes whether the result came from uniform draws, which the grid only approximates"""
    uniform = False

    def u(self):
        self.uniform = True
        return super().u()


def law(t, i):
    """one shot of a state whose probabilities are not simple fractions: every outcome with its exact weight"""
    n, prog = LAW[i]
    v = ref.run(rprog(prog), n)
    c = circ(prog, n)
    for meas in subsets(n):
        if not meas:
            continue
        want = marginal(v, meas)
        for kind, sm in (("state vector", vqe.get_state_vector_sampler(1)), ("measurement", vqe.get_measurement_sampler(1))):
            if kind == "measurement" and n > 1:
                continue
            tree = FineTree(400)
            dist = {}
            while True:
                tree.start()
                with rng.active(tree):
                    r = sm(c, meas)
                well(t, r, meas, f"{kind} sampler, {prog}, {meas}")
                key = [k for k, x in r.items() if x]
                t.check(len(key) == 1 and abs(r[key[0]] - 1) < 1e-12, lambda: f"{kind} sampler, one shot: {r}")
                dist[key[0]] = dist.get(key[0], 0) + tree.weight
                t.trans()
                if len(tree.path) > 1 and tree.uniform:     # a product of uniform draws: not decided here (C04, C05 follow those)
                    dist = None
                    break
                if not tree.advance():
                    break
            if dist is None:
                continue
            tol = 2 / 400 if tree.uniform else 1e-9
            t.check(eq(dist, want, tol), lambda: f"{kind} sampler, one shot of {prog} measuring {meas}: distribution {dist}, expected {want}")
            t.trace()
        t.state((i, meas))
    t.outcome("weights of single shots")


def eq(a, b, tol=1e-9):
    """same distribution; absent keys mean zero"""
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


def well(t, r, meas, what, total=1.0):
    t.check(isinstance(r, dict), lambda: f"{what} is {r!r}")
    t.check(all(isinstance(k, tuple) and len(k) == len(meas) and all(b in (0, 1) for b in k) for k in r), lambda: f"{what}: keys {list(r)}")
    t.check(abs(sum(r.values()) - total) < 1e-9 and all(v > -1e-12 for v in r.values()), lambda: f"{what}: values {r} do not sum to {total}")


def wide(t, n, i):
    rot = lambda k, s: tuple((s + k * q) % n for q in range(n))
    subs = [(a, b) for a in (0, 2, n - 1) for b in range(n) if a != b][i::4] + [(q,) for q in range(n)][i::4]
    subs += [tuple(dict.fromkeys(rot(k, s)))[:m] for k in (1, 3, n - 1) for s in (0, 1, n - 2) for m in (3, 5, 7)][i::4] + [tuple(range(n))[:8], tuple(range(n))[::-1][:8]]
    basis = [["x", [], q] for q in range(n) if (q * 7 + i) % 5 < 2]
    prog = generic_prefix(n)
    v, vb = ref.run(rprog(prog), n), ref.run(rprog(basis), n)
    c, cb = circ(prog, n), circ(basis, n)
    own = c.run()
    dev = exact_device() if n < 11 else None
    fb = fake_backend()
    h1, h2 = "".join("01"[(q * 3 + i) % 4 == 1] for q in range(n)), "".join("01"[(q + i) % 3 == 0] for q in range(n))
    for meas in subs:
        e = marginal(v, meas)
        for src in (v, own):
            t.check(eq(vqe.expect(src, meas), e), lambda: f"expect of a generic state of {n} qubits, {meas}: {vqe.expect(src, meas)}, expected {e}")
        r = vqe.non_sampling_sampler(c, meas)
        well(t, r, meas, f"non_sampling_sampler, {n} qubits, {meas}")
        t.check(eq(r, e), lambda: f"non_sampling_sampler, {n} qubits, {meas}: {r}, expected {e}")
        want = marginal(vb, meas)
        for sm in (vqe.get_measurement_sampler(1), vqe.get_measurement_sampler(5), vqe.get_state_vector_sampler(1), vqe.get_state_vector_sampler(5), vqe.non_sampling_sampler):
            with rng.active(rng.Script(u=lambda s: 0.43, idx=lambda s, m: [i for i in range(m)][0])):
                r = sm(cb, meas)
            well(t, r, meas, f"sampler, {basis}, {meas}")
            t.check(eq(r, want), lambda: f"sampling {basis} on {n} qubits, measured {meas}: {r}, expected {want}")
            t.trans()
        if dev is not None and len(meas) < 6:
            r = vqe.get_qiskit_sampler(dev, shots=64)(cb, meas)
            t.check(eq(r, want), lambda: f"qiskit sampler on an exact device: {basis} on {n} qubits, measured {meas}: {r}, expected {want}")
        hst = {h1: 1, h2: 3} if h1 != h2 else {h1: 4}
        for hexk in (False, True):
            fb.setup(hst, hexk)
            r = vqe.get_qiskit_sampler(fb, shots=4)(cb, meas)
            x = {}
            for a, q in hst.items():
                k = tuple(int(a[m]) for m in meas)
                x[k] = x.get(k, 0) + q / 4
            t.check(eq(r, x), lambda: f"device answered {hst} (qubit 0 first), sampler for {meas} returned {r}, expected {x}")
            t.trans()
        t.trace()
        t.state((n, i, meas))
    t.outcome("many qubits")


def run_case(t, d):
    k = d["kind"]
    if k == "exact":
        n, what = d["n"], d["what"]
        prog = generic_prefix(n) if what == "generic" else [["h", [], 0]] + [["cx", [], ["t", [i, i + 1]]] for i in range(n - 1)] + [["x", [], n // 2]] + [["ry", [0.4], n - 1]] if what == "sparse" else [["x", [], q] for q in range(n) if what >> q & 1]
        v = ref.run(rprog(prog), n)
        c = circ(prog, n)
        sn = csnap(c)
        own = c.run()
        for meas in subsets(n) + ([(0, 0), (n - 1, 0, n - 1)] if n > 1 else [(0, 0)]):
            e = marginal(v, meas)
            for src in (v, own, own.astype(np.complex64) if n < 3 else own):
                tol = 1e-5 if src.dtype == np.complex64 else 1e-9
                before = src.copy()
                for form in (meas, list(meas), iter(meas)):
                    r = vqe.expect(src, form)
                    t.trans()
                    t.check(isinstance(r, dict) and eq(r, e, tol) and all(len(x) == len(meas) for x in r), lambda: f"expect({prog}, {meas}) = {r}, expected {e}")
                t.check(np.array_equal(src, before), "expect changed the state vector")
            for cc in (c, circ(prog, n)):
                for form in (meas, list(meas), iter(meas)):
                    r = vqe.non_sampling_sampler(cc, form)
                    t.trans()
                    well(t, r, meas, f"non_sampling_sampler({prog}, {meas})")
                    t.check(eq(r, e), lambda: f"non_sampling_sampler({prog}, {meas}) = {r}, expected {e}")
            t.trace()
            t.state((str(prog), meas))
        for form in (range(n), range(n - 1, -1, -1), (i for i in range(n))):
            lst = list(range(n)) if form != range(n - 1, -1, -1) else list(range(n - 1, -1, -1))
            r = vqe.non_sampling_sampler(c, form)
            t.check(eq(r, marginal(v, lst)), lambda: f"non_sampling_sampler({prog}, {lst}) = {r}")
        t.check(csnap(c) == sn and ref.same(c.run(), v), lambda: f"circuit changed to {c!r}")
        t.outcome("exact")
    elif k == "wide":
        wide(t, d["n"], d["i"])
    elif k == "law":
        law(t, d["i"])
    elif k == "random":
        n, prog = d["n"], DY[d["n"]][d["i"]]
        v = ref.run(rprog(prog), n)
        for meas in subsets(n):
            e = {a: b for a, b in marginal(v, meas).items() if b > 1e-12}
            for kind in ("meas", "sv"):
                for shots in range(1, d["shots"] + 1):
                    if (2 ** len(meas)) ** shots > 300:
                        continue
                    sm = vqe.get_measurement_sampler(shots) if kind == "meas" else vqe.get_state_vector_sampler(shots)
                    c = circ(prog, n)
                    if shots == 2:
                        c.run()
                    sn = csnap(c)
                    dist = {}
                    for r, w, path in rng.explore(lambda: sm(c, meas if shots != 2 else list(meas)), 2):
                        well(t, r, meas, f"{kind} sampler, {shots} shots, {prog}, {meas}")
                        t.check(all(abs(x * shots - round(x * shots)) < 1e-9 for x in r.values()), lambda: f"{kind} sampler: {r} are not frequencies of {shots} shots")
                        key = tuple(sorted((a, round(b * shots)) for a, b in r.items() if b))
                        dist[key] = dist.get(key, 0) + w
                        t.check(csnap(c) == sn, lambda: f"{kind} sampler changed the circuit {prog} to {c!r}")
                        t.trans()
                    want = {(): 1.0}
                    for _ in range(shots):
                        nw = {}
                        for kk, p in want.items():
                            for a, q in e.items():
                                h = dict(kk)
                                h[a] = h.get(a, 0) + 1
                                x = tuple(sorted(h.items()))
                                nw[x] = nw.get(x, 0) + p * q
                        want = nw
                    t.trace()
                    t.check(eq(dist, want), lambda: f"{kind} sampler, {shots} shots, {prog}, measured {meas}: distribution of results {dist}, expected {want}")
                    t.check(ref.same(c.run(), v), "the circuit runs differently after sampling")
            t.state((n, d["i"], meas))
        t.outcome("random samplers")
    elif k == "qiskit":
        n, prog = d["n"], DY[d["n"]][d["i"]]
        v = ref.run(rprog(prog), n)
        dev = exact_device()
        for meas in subsets(n):
            for sm in (vqe.get_qiskit_sampler(dev), vqe.get_qiskit_sampler(dev, shots=64)):
                c = circ(prog, n)
                sn = csnap(c)
                r = sm(c, iter(meas))
                well(t, r, meas, f"qiskit sampler {prog} {meas}")
                t.check(eq(r, marginal(v, meas)), lambda: f"qiskit sampler on an exact device: {prog}, measured {meas}: {r}, expected {marginal(v, meas)}")
                t.check(csnap(c) == sn, lambda: f"qiskit sampler changed the circuit {prog} to {c!r}")
                r2 = sm(c, meas)
                t.check(eq(r, r2), "second use of the sampler")
                t.trans(2), t.trace()
            t.state((n, d["i"], meas))
        t.outcome("qiskit exact")
    elif k == "device":
        n = d["n"]
        pats = ["".join(x) for x in itertools.product("01", repeat=n)]
        fb = fake_backend()
        for hst in [{a: 4} for a in pats] + [{a: 1, b: 3} for a, b in itertools.permutations(pats, 2)]:
            for meas in subsets(n):
                if not meas:
                    continue
                fb.setup(hst)
                c = Circuit(n).h[:]
                sn = csnap(c)
                r = vqe.get_qiskit_sampler(fb, shots=4)(c, meas)
                e = {}
                for a, q in hst.items():
                    x = tuple(int(a[m]) for m in meas)
                    e[x] = e.get(x, 0) + q / 4
                t.check(eq(r, e), lambda: f"device answered {hst} (qubit 0 first), sampler for {meas} returned {r}, expected {e}")
                fb.setup(hst, True)
                raw = vqe.get_qiskit_sampler(fb, shots=4)(c, list(meas))
                t.check(eq(raw, e), lambda: f"device answered {hst} in hexadecimal, sampler for {meas} returned {raw}, expected {e}")
                t.check(csnap(c) == sn, "circuit changed")
                t.check(fb._log[-1][2].get("shots") == 4, lambda: f"shots passed: {fb._log[-1][2]}")
                qc = fb._log[-1][0]
                t.check({qc.find_bit(i.qubits[0]).index for i in qc.data if i.operation.name == "measure"} >= set(meas), "not all requested qubits are measured")
                t.trans()
            t.state(str(hst))
        t.trace()
        t.outcome("qiskit device answers")
    elif k == "script":
        n, prog = SCRIPT[d["i"]]
        v = ref.run(rprog(prog), n)
        for meas in subsets(n):
            e = marginal(v, meas)
            c = circ(prog, n)
            sn = csnap(c)
            for N in (1, 10, 1000):
                for sm in (vqe.get_measurement_sampler(N), vqe.get_state_vector_sampler(N), vqe.get_measurement_sampler(N, {"backend": "numpy"}), vqe.get_measurement_sampler(N, run_options={})):
                    if N == 1000 and len(meas) > 2:
                        continue
                    with rng.active(rng.Script(u=lambda s: 0.43, idx=lambda s, m: [i for i in range(m)][0])):
                        r = sm(c, meas)
                    well(t, r, meas, f"{prog} {meas} {N} shots")
                    t.check(eq(r, e), lambda: f"{N} shots of {prog} measuring {meas}: {r}, expected {e}")
                    t.trans()
            t.check(csnap(c) == sn, lambda: f"the circuit was changed to {c!r}")
            t.trace()
            t.state((d["i"], meas))
        t.outcome("deterministic, many shots")
    elif k == "options":
        # the run options reach the run (the backend named in them answers)
        from blueqat import BlueqatGlobalSetting
        from blueqat.backends.numpy_backend import NumPyBackend
        seen = []

        class Recorder(NumPyBackend):
            def run(self, gates, n_qubits, *args, **kwargs):
                seen.append((args, dict(kwargs)))
                return super().run(gates, n_qubits, *args, **kwargs)
        BlueqatGlobalSetting.register_backend("verif_recorder", Recorder)
        try:
            for n, prog in SCRIPT:
                for meas in subsets(n):
                    for opts in ({"backend": "verif_recorder"}, {"backend": "verif_recorder", "ignore_global": True}, {"backend": "verif_recorder", "ignore_global": False}):
                        for N in (1, 4):
                            del seen[:]
                            keep = dict(opts)
                            with rng.active(rng.Script(u=lambda s: 0.43, idx=lambda s, m: 0)):
                                r = vqe.get_measurement_sampler(N, opts)(circ(prog, n), meas)
                            well(t, r, meas, f"{prog} {meas} {N} shots {opts}")
                            t.check((seen or not meas) and opts == keep, lambda: f"sampler with run options {keep}: the backend named there ran {len(seen)} times; options now {opts}")
                            t.check(all(x[1].get(a) == b for x in seen for a, b in opts.items() if a != "backend"), lambda: f"run options {opts}: the run got {seen}")
                            t.trans(), t.trace()
                    t.state((n, str(prog), meas))
        finally:
            BlueqatGlobalSetting.unregister_backend("verif_recorder")
        t.outcome("run options")
    else:
        # one sampler object for several circuits and subsets in every order, options untouched
        opts = {"backend": "numpy"}
        jobs = [(2, [["x", [], 0]], (0, 1)), (2, [["x", [], 1]], (1,)), (3, [["x", [], 2]], (2, 0)), (1, [], (0,)), (3, [["x", [], 1], ["cx", [], ["t", [1, 2]]]], (0, 2, 1)), (2, [["x", [], 0]], ())]
        sms = [vqe.get_measurement_sampler(3, opts), vqe.get_measurement_sampler(2), vqe.get_state_vector_sampler(3), vqe.non_sampling_sampler, vqe.get_qiskit_sampler(exact_device(), shots=8)]
        for order in itertools.permutations(range(len(jobs)), 4):
            for sm in sms[:4] if sum(order) % 5 else sms:
                for i in order:
                    n, prog, meas = jobs[i]
                    with rng.active(rng.Script(u=lambda s: 0.6, idx=lambda s, m: 0)):
                        r = sm(circ(prog, n), meas)
                    t.check(eq(r, marginal(ref.run(rprog(prog), n), meas)), lambda: f"jobs {order}: {prog} {meas} gives {r}")
                    t.trans()
            t.check(opts == {"backend": "numpy"}, lambda: f"run options changed to {opts}")
            t.state(order)
        t.trace()
        t.outcome("reuse")
