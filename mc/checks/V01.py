"""Energies of every Pauli string and small sums, on generic and stabilizer states, through every sampler (all outcomes of the random ones)."""
import itertools, math
import numpy as np
from mc import palg, ref, rng
from mc.build import circ, rprog, generic_prefix, add
from mc.vq import exact_device, csnap, DY, exp_h
from mc.checks.P03 import mk, FMT
from blueqat import Circuit, vqe, pauli as bp

BOUNDS = {
 "quick": "sparse (7 formats, own matrix function) and non-sampling energies: all strings n<=4 on a generic state, all strings n<=3 on every basis state, all 2-term sums n=2 (x 3 coefficient pairs) and all 3-subsets of 12 strings n=3, un-simplified words, constants, larger circuits; "
          "sampling energies: 16 stabilizer programs n<=3 x all strings (and sums of two), every outcome of 1 and 2 shots of the measurement sampler, all multinomial outcomes of the state-vector sampler, an exact Qiskit device; objectives over parameter grids and call orders; n=5..9 with sums of 1..30 terms (all exact ways), coefficients 2^-60..2^60 judged relatively; every outcome of one shot (and a script of 8) on 5-7 qubit stabilizer programs x 20 strings through both samplers",
 "thorough": "all strings n=5, all 3-subsets of the 64 strings n=3, 3 shots"}


class An(vqe.AnsatzBase):
    def __init__(self, h, n=None, f=None, np_=0):
        super().__init__(h, np_)
        if n is not None:
            self.n_qubits = n
        self.f = f

    def get_circuit(self, params):
        return self.f(params)


def strs(n):
    return ["".join(w) for w in itertools.product("IXYZ", repeat=n)]


S3 = ["", "X", "Y", "IY", "ZZ", "XYZ", "YY", "IIX", "YXI", "ZIY", "YYY", "XX"]


def cases(tier):
    out = []
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for h in itertools.product("IXYZ", repeat=max(0, n - 1)):
            out.append(dict(kind="str", n=n, head="".join(h)))
    for i in range(16):
        out.append(dict(kind="sum2", i=i))
    L = S3 if tier == "quick" else strs(3)
    for i in range(len(L)):
        out.append(dict(kind="sum3", i=i, tier=tier))
    for h in itertools.product(["X0", "Y0", "Z0", "Y1", "Z2"], repeat=2):
        out.append(dict(kind="word", head=list(h)))
    for n in DY:
        for i in range(len(DY[n])):
            for l in "IXYZ":
                out.append(dict(kind="sample", n=n, i=i, first=l, shots=2 if tier == "quick" else 3))
            out.append(dict(kind="qiskit", n=n, i=i))
    for i in range(len(OBJ)):
        out.append(dict(kind="obj", i=i))
    out.append(dict(kind="wide"))
    for n in (5, 6, 7, 8, 9):
        for i in range(4):
            out.append(dict(kind="big", n=n, i=i))
    for n in (5, 6, 7):
        for i in range(4):
            out.append(dict(kind="bigs", n=n, i=i))
    out.append(dict(kind="scale"))
    return out


_v = {}


def vec(prog, n):
    k = (str(prog), n)
    if k not in _v:
        _v[k] = ref.run(rprog(prog), n)
    return _v[k]


def state_of(a):
    return (type(a).__name__, a.n_qubits, a.n_params, a.hamiltonian, repr(a.hamiltonian))


def energies(t, H, hd, prog, n, fmts=("csc",)):
    """all exact energies of H on the program's state"""
    want = exp_h(hd, vec(prog, n), n)
    c = circ(prog, n)
    if len(prog) % 2:
        c.run()
    a = An(H, max(n, H.n_qubits))
    st, sn = state_of(a), csnap(c)
    tol = 1e-8 * (1 + abs(want))
    for s in (vqe.non_sampling_sampler, lambda c, m: vqe.non_sampling_sampler(c, m)):
        e = a.get_energy(c, s)
        t.check(abs(e - want) < tol and np.isreal(e), lambda: f"get_energy of {H!r} on {prog} ({n} qubits) = {e}, expected {want}")
    for f in fmts:
        if f is None:
            a.make_sparse()
        elif callable(f):
            a.make_sparse(make_method=f)
        else:
            a.make_sparse(f)
        e = a.get_energy_sparse(c)
        t.check(abs(e - want) < tol, lambda: f"get_energy_sparse ({f}) of {H!r} on {prog} ({n} qubits) = {e}, expected {want}")
    t.check(state_of(a) == st and csnap(c) == sn and a.hamiltonian is H, lambda: f"energy of {H!r} changed the ansatz or the circuit {c!r}")
    m = H.to_matrix(n, sparse="csr")
    e = vqe.sparse_expectation(m, c.run())
    t.check(abs(e - want) < tol, lambda: f"sparse_expectation of {H!r} = {e}, expected {want}")
    t.trans(3 + len(fmts)), t.trace()
    t.state((repr(H), str(prog)))


def bigw(n, j):
    """a string of 1..n operators, spread over n qubits"""
    m = 1 + (j * 5) % n
    qs = sorted({(q * (2 * j + 3) + j) % n for q in range(m)} | ({0, n - 1} if j % 3 == 0 else set()))
    return {q: "XYZ"[(q + j + j // 3) % 3] for q in qs}


def bigt(w, c):
    return bp.Term(tuple(getattr(bp, o)[q] for q, o in w.items()), c)


def big(t, n, i):
    prog = generic_prefix(n)
    for j in range(12):
        H = bigt(bigw(n, j + 12 * i), 1.5 - j / 4 or 2).to_expr()
        energies(t, H, palg.of(H), prog, n, ("csr",) if j % 4 else (None,) if n < 9 else ("coo",))
        if j % 5 == 0:
            energies(t, H, palg.of(H), prog + [["cx", [], ["t", [n - 1, n]]], ["ry", [0.4], n]], n + 1)
    for k in (2, 5, 13, 30):
        H = bp.Expr(tuple(bigt(bigw(n, j * 3 + i), (j - 3.5) / 4) for j in range(k)) + ((bp.Term((), 0.75),) if k % 2 else ()))
        energies(t, H, palg.of(H), prog, n, ("csc", "csr", "lil"))
        a = An(H, n, lambda p: circ(prog, n).ry(p[0])[n - 1].rz(p[1])[0], 2)
        for p in ((0.3, -0.8), (1.1, 0.2)):
            v = vec(prog + [["ry", [p[0]], n - 1], ["rz", [p[1]], 0]], n)
            want = exp_h(palg.of(H), v, n)
            for ob in (a.get_objective(), a.get_objective(vqe.non_sampling_sampler)):
                e = ob(p)
                t.trans()
                t.check(abs(e - want) < 1e-8 * (1 + abs(want)), lambda: f"objective of {H!r} at {p} = {e}, expected {want}")
    t.outcome("many qubits and terms")


BIGS = [lambda n: [["h", [], 0]] + [["cx", [], ["t", [q, q + 1]]] for q in range(n - 1)], lambda n: [["x", [], q] for q in range(0, n, 2)] + [["h", [], 1], ["cx", [], ["t", [1, n - 1]]], ["s", [], 1]],
        lambda n: [["h", [], q] for q in range(n)] + [["cz", [], ["t", [q, q + 1]]] for q in range(n - 1)], lambda n: [["x", [], n - 1], ["h", [], n - 2], ["s", [], n - 2]]]


def bigs(t, n, i):
    """every outcome of one shot on a stabilizer program; 8 shots that all answer alike"""
    prog = BIGS[i](n)
    dev = exact_device()
    for j in range(20):
        w = bigw(n, j)
        if len(w) > 6:
            w = dict(list(w.items())[-6:])
        H = bigt(w, 1.5) + 0.25
        want = exp_h(palg.of(H), vec(prog, n), n)
        for mk_ in (vqe.get_measurement_sampler, vqe.get_state_vector_sampler):
            a, c = An(H, n), circ(prog, n)
            sn = csnap(c)
            tot = mean = 0.0
            for e, wgt, path in rng.explore(lambda: a.get_energy(c, mk_(1)), 2):
                tot += wgt
                mean += wgt * e
                t.trans()
                t.check(abs(abs(e - 0.25) - 1.5) < 1e-9, lambda: f"one shot of {H!r} gives {e}")
            t.check(abs(tot - 1) < 1e-9 and abs(mean - want) < 1e-7, lambda: f"mean energy of {H!r} on {prog} over every outcome of one shot: {mean}, expected {want}")
            t.check(csnap(c) == sn, lambda: f"the sampler changed the circuit {prog}")
            with rng.active(rng.Script(u=lambda s: 0.43, idx=lambda s, m: 0)):
                e = a.get_energy(c, mk_(8))
            t.check(abs(abs(e - 0.25) - 1.5) < 1e-9, lambda: f"8 equal shots of {H!r} give {e}")
        if j < 8:
            H2 = H + bigt(bigw(n, j + 7), -0.5)
            e = An(H2, n).get_energy(circ(prog, n), vqe.get_qiskit_sampler(dev, shots=4096))
            w2 = exp_h(palg.of(H2), vec(prog, n), n)
            t.check(abs(e - w2) < 1e-7, lambda: f"energy of {H2!r} on {prog} through an exact Qiskit device: {e}, expected {w2}")
        t.trace()
        t.state((n, i, str(w)))
    t.outcome("sampling, many qubits")


def scale(t):
    for j in (-60, -40, -20, 20, 60):
        for w in ("Z", "IY", "XZ", "YYX"):
            n = 3
            key, _ = palg.word([(o, q) for q, o in enumerate(w)])
            H = mk(w, 0.75 * 2.0 ** j).to_expr()
            want = exp_h({key: 0.75}, vec(generic_prefix(n), n), n) * 2.0 ** j
            a, c = An(H, n), circ(generic_prefix(n), n)
            a.make_sparse()
            es = [a.get_energy(c, vqe.non_sampling_sampler), a.get_energy_sparse(c), vqe.sparse_expectation(H.to_matrix(n, sparse="csc"), c.run())]
            a.make_sparse("csr")
            es.append(a.get_energy_sparse(c))
            t.check(all(abs(e - want) <= 1e-7 * abs(want) for e in es), lambda: f"energies of {H!r}: {es}, expected {want}")
            t.trans(4), t.trace()
            t.state((j, w))
    t.outcome("coefficient scales")


def run_case(t, d):
    k = d["kind"]
    if k == "str":
        n = d["n"]
        for l in "IXYZ":
            w = d["head"] + l
            key, _ = palg.word([(o, q) for q, o in enumerate(w)])
            H = mk(w, -1.3).to_expr()
            energies(t, H, {key: -1.3}, generic_prefix(n), n, FMT[1:] + [None, lambda h: h.to_matrix(n, sparse="csr")])
            energies(t, H + 0.75, palg.add({key: -1.3}, {(0, 0): 0.75}), generic_prefix(n + 1), n + 1)
            if n < 4:
                for b in range(2 ** n):
                    energies(t, H, {key: -1.3}, [["x", [], q] for q in range(n) if b >> q & 1] + [["rx", [0.4], n - 1], ["rz", [0.3], n - 1]], n)
        t.outcome("strings")
    elif k == "sum2":
        S = strs(2)
        a = S[d["i"]]
        for b in S:
            for ca, cb in ((1.0, 1.0), (0.5, -2.0), (-1, 3)):
                H = bp.Expr((mk(a, ca), mk(b, cb)))
                energies(t, H, palg.of(H), generic_prefix(2), 2)
                if ca == 0.5:
                    energies(t, H, palg.of(H), generic_prefix(3), 3, ("csr",))
        t.outcome("sums of two")
    elif k == "sum3":
        L = S3 if d["tier"] == "quick" else strs(3)
        for b, c in itertools.combinations(L, 2):
            H = bp.Expr((mk(L[d["i"]], 1.5), mk(b, -0.25), mk(c, 1)))
            energies(t, H, palg.of(H), generic_prefix(3), 3)
        t.outcome("sums of three")
    elif k == "word":
        for r in (0, 1, 2):
            for rest in itertools.product(["X0", "Y0", "Z0", "Y1", "Z2"], repeat=r):
                w = tuple(d["head"]) + rest
                key, c = palg.word([(x[0], int(x[1])) for x in w])
                if abs(c.imag) > 1e-9:
                    continue
                o = bp.Term(tuple(getattr(bp, x[0])[int(x[1])] for x in w), 2.0)
                H = bp.Expr((o, bp.Term((bp.Z[2],), 0.5)))
                energies(t, H, palg.of(H), generic_prefix(3), 3)
        t.outcome("un-simplified")
    elif k == "big":
        big(t, d["n"], d["i"])
    elif k == "bigs":
        bigs(t, d["n"], d["i"])
    elif k == "scale":
        scale(t)
    elif k == "sample":
        sampling(t, d)
    elif k == "qiskit":
        n = d["n"]
        prog = DY[n][d["i"]]
        dev = exact_device()
        sm = vqe.get_qiskit_sampler(dev, shots=4096)
        for w in strs(n) if n < 3 else strs(3)[::3]:
            for H in (mk(w, 1.5).to_expr(), mk(w, 1.5) + mk("Y" * n, -0.5) + 0.25):
                a = An(H)
                c = circ(prog, n)
                sn = csnap(c)
                e = a.get_energy(c, sm)
                want = exp_h(palg.of(H), vec(prog, n), n)
                t.check(abs(e - want) < 1e-7, lambda: f"energy of {H!r} on {prog} through an exact Qiskit device: {e}, expected {want}")
                t.check(csnap(c) == sn, lambda: f"the circuit {prog} was changed to {c!r}")
                t.trans(), t.trace()
            t.state((w, n, d["i"]))
        t.outcome("qiskit device")
    elif k == "obj":
        objective(t, OBJ[d["i"]])
    else:
        for H in (bp.Z[0] * bp.Z[5] * 0.5 + bp.X[3], bp.Y[7] * bp.Y[0] + bp.X[6] * bp.Y[2] * bp.Z[4], bp.Y[8].to_expr()):
            n = H.n_qubits
            prog = [["ry", [0.2 + 0.3 * i], i] for i in range(n)] + [["rz", [0.9 - 0.2 * i], i] for i in range(n)] + [["cx", [], ["t", [i, i + 1]]] for i in range(n - 1)]
            energies(t, H, palg.of(H), prog, n)
        for H in (bp.Expr.zero(), bp.Expr.from_number(2.5), bp.X[0] - bp.X[0] + 1, bp.Z[0] - bp.Z[0]):
            energies(t, H, palg.of(H), generic_prefix(2), 2)
        t.outcome("wide")


def sampling(t, d):
    n, prog = d["n"], DY[d["n"]][d["i"]]
    for rest in itertools.product("IXYZ", repeat=n - 1):
        w = d["first"] + "".join(rest)
        Hs = [mk(w, 1.5).to_expr()] + ([mk(w, 1.5) + mk("Y" * n, -0.5) + 0.25] if n < 3 else [])
        for H in Hs:
            want = exp_h(palg.of(H), vec(prog, n), n)
            draws = sum(len(m.ops) for m in H.simplify())
            for mkk in ("meas", "sv", "opt"):
                for shots in range(1, d["shots"] + 1):
                    if 2 ** (draws * shots) > 600 and shots > 1:
                        continue
                    if mkk == "opt" and shots > 1:
                        continue
                    sm = vqe.get_measurement_sampler(shots) if mkk == "meas" else vqe.get_state_vector_sampler(shots) if mkk == "sv" else vqe.get_measurement_sampler(shots, {"backend": "numpy", "ignore_global": True})
                    a = An(H)
                    c = circ(prog, n)
                    if shots == 1:
                        c.run()
                    sn, st = csnap(c), state_of(a)
                    tot = mean = 0.0
                    for e, wgt, path in rng.explore(lambda: a.get_energy(c, sm), 2):
                        tot += wgt
                        mean += wgt * e
                        t.trans()
                        t.check(abs(e) <= 2.5, lambda: f"energy {e} of {H!r}")
                        t.check(csnap(c) == sn, lambda: f"{mkk} sampler changed the circuit {prog} to {c!r}")
                    t.trace()
                    t.check(abs(tot - 1) < 1e-9 and abs(mean - want) < 1e-7, lambda: f"mean energy of {H!r} on {prog} over every outcome of {shots} shot(s) of the {mkk} sampler: {mean}, expected {want}")
                    t.check(state_of(a) == st, "the ansatz was changed")
        t.state((w, n, d["i"]))
    t.outcome("sampling")


def f_ry(p):
    return Circuit(2).ry(p[0])[0].rz(p[1])[0].cx[0, 1].rx(p[0] - p[1])[1]


def f_grow(p):
    return Circuit().u3(p[0], p[1], 0.4)[0].cx[0, 2].ry(p[1])[2].h[1].rz(0.3)[1]


def f_shared():
    base = Circuit(3).h[0].cx[0, 1]
    base.make_cache()

    def f(p):
        c = base.copy()
        c.ry(p[0])[2].rz(p[1])[2].cx[2, 0]
        return c
    return f


OBJ = [(lambda: An(bp.X[0] * bp.Y[1] - 0.5 * bp.Z[0] + 2, 2, f_ry, 2), 2, f_ry), (lambda: An(bp.Y[0] + bp.Y[1] * bp.Z[0], 2, f_ry, 2), 2, f_ry), (lambda: An(bp.Y[2] * bp.X[0] + 0.7 * bp.X[1] * bp.Z[2], 3, f_grow, 2), 3, f_grow),
       (lambda: An(bp.Z[2] + bp.Y[0] * 0.25 + bp.X[1] * bp.X[0], 3, f_shared(), 2), 3, f_shared()), (lambda: An(bp.Y[1].to_expr(), 3, f_grow, 2), 3, f_grow)]


def objective(t, o):
    mkA, n, f = o
    grid = [(0.3, -1.1), (1.7, 0.2), (0.3, -1.1), (-2.0, 3.0), (0.0, 0.0)]
    want = {}
    for p in grid:
        v = f(p).run()
        want[p] = exp_h(palg.of(mkA().hamiltonian), v, n)
    for order in itertools.permutations(range(4), 3):
        a = mkA()
        st = state_of(a)
        objs = [a.get_objective(), a.get_objective(vqe.non_sampling_sampler), a.get_objective(sampler=None)]
        a2 = mkA()
        a2.make_sparse("csr")
        objs.append(a2.get_objective())
        for i in order:
            for ob in objs:
                for p in (grid[i], np.array(grid[i]), list(grid[i])):
                    e = ob(p)
                    t.check(abs(e - want[grid[i]]) < 1e-8, lambda: f"objective of {a.hamiltonian!r} at {p} (call order {order}) = {e}, expected {want[grid[i]]}")
                    t.trans()
        t.check(state_of(a) == st, "the ansatz was changed")
        t.trace()
        t.state((repr(a.hamiltonian), order))
    t.outcome("objectives")
