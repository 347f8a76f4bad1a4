"""QAOA circuits: state of the real circuit against exact exponentials for every configuration and call history."""
import itertools, math
import numpy as np
from mc import palg, ref
from mc.build import circ, rprog, generic_prefix, add
from mc.vq import csnap, exp_h
from mc.checks.P03 import mk
from mc.checks.P05 import ev
from blueqat import Circuit, vqe, pauli as bp

BOUNDS = {
 "quick": "all strings n<=3 and all commuting pairs/triples over n=2 strings (triples of a 10-string subset, n=3), constants, un-simplified terms; steps 1-3 x parameter grids (lists, tuples, arrays) x 7 initial circuits (smaller, equal, larger, without gates) x 7 mixers; all call histories of length 4 over 12 actions (build, run, modify result, energies, objective, change caller's objects); "
          "all non-commuting pairs rejected; n=4..8: rings, chains, stars, all-pairs and field Hamiltonians (up to 36 terms, Z and X type, 4 mixed-commuting families), 1..6 steps, with and without initial circuits and mixers; one anticommuting term at every place rejected",
 "thorough": "all commuting triples n=3 subset of 24 strings, histories of length 5"}
STEP_PARAMS = {1: [(0.31, -0.47), (0.0, 0.2), (1.3, 0.0), (-0.6, 2.2)], 2: [(0.31, -0.2, 0.47, 0.15), (0.5, 0.25, -0.1, 0.3)], 3: [(0.31, -0.2, 0.1, 0.47, 0.15, -0.9)]}
INITS = [None, (1, [["ry", [0.7], 0], ["rz", [0.4], 0]]), (2, generic_prefix(2)), (3, generic_prefix(3)), (4, [["h", [], 0], ["cx", [], ["t", [0, 3]]], ["ry", [0.6], 2], ["rz", [0.5], 3]]), (0, []), (3, [])]
MIXERS = [None, [("X", 1.0)], [("XX", 0.5), ("YY", 0.5)], [("YY", -1.0), ("Z", 0.3), ("IX", 2)], [("Y", 1.0), ("X", 1.0)], [("IIX", 1.0), ("XIX", 0.7)], [("XYZ", 0.9)]]


def strs(n):
    return ["".join(w) for w in itertools.product("IXYZ", repeat=n)]


def kc(w):
    return palg.word([(o, q) for q, o in enumerate(w)])[0]


def commute(a, b):
    return palg.smul(kc(a), kc(b))[1] == palg.smul(kc(b), kc(a))[1]


S3 = ["Z", "ZZ", "IZZ", "X", "XX", "YY", "ZIZ", "XXX", "YYZ", ""]


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for h in itertools.product("IXYZ", repeat=max(0, n - 1)):
            out.append(dict(kind="str", n=n, head="".join(h)))
    for i in range(16):
        out.append(dict(kind="pair", i=i))
    L = S3 if tier == "quick" else S3 + strs(3)[5::4]
    for a, b in itertools.combinations(range(len(L)), 2):
        if commute(L[a], L[b]):
            out.append(dict(kind="triple", a=a, b=b, tier=tier))
    for i in range(len(INITS)):
        for m in range(len(MIXERS)):
            out.append(dict(kind="conf", init=i, mixer=m))
    for a, b in itertools.product(range(len(ACTS)), repeat=2):
        out.append(dict(kind="hist", head=[a, b], depth=4 if tier == "quick" else 5))
    out.append(dict(kind="reject"))
    out.append(dict(kind="misc"))
    for n in (4, 5, 6, 7, 8):
        for i in range(6):
            out.append(dict(kind="big", n=n, i=i))
    return out


def expected(terms, step, params, init, mixer):
    """terms/mixer: list of (string, coeff)"""
    nh = max([palg.qubits({kc(w): 1}) for w, _ in terms] + [0])
    if init is None:
        n = nh
        v = np.ones(2 ** n, complex) / math.sqrt(2 ** n)
    else:
        n = max(nh, init[0], max([palg.qubits({kc(w): 1}) for w, _ in mixer], default=0) if mixer else 0)
        v = ref.run(rprog(init[1]), n)
    for k in range(step):
        beta, gamma = float(params[k]), float(params[step + k])
        for w, c in terms:
            v = ev(kc(w), 2 * math.pi * gamma * c, v)
        if mixer is None:
            for q in range(n):
                v = ref.gate(v, "rx", [beta * math.pi], (q,))
        else:
            for w, c in mixer:
                v = ev(kc(w), math.pi * beta * c, v)
    return n, v


def ansatz(terms, step, init, mixer, form=0):
    H = bp.Expr(tuple(mk(w, c) for w, c in terms))
    kw = {}
    if init is not None:
        kw["init_circuit"] = circ(init[1], init[0])
    if mixer is not None:
        ms = [mk(w, c) for w, c in mixer]
        kw["mixer"] = bp.Expr(tuple(ms)) if form else ms
    return vqe.QaoaAnsatz(H, step, **kw), kw


def snap(a):
    return (a.n_qubits, a.n_params, a.step, repr(a.hamiltonian), csnap(a.init_circuit), repr(a.mixer))


def verify(t, a, terms, step, init, mixer, params, what=""):
    n, v = expected(terms, step, params, init, mixer)
    p0 = repr(params)
    c = a.get_circuit(params)
    t.trans(), t.trace()
    t.check(isinstance(c, Circuit) and repr(params) == p0, lambda: f"get_circuit changed its parameters to {params!r}")
    got = c.run()
    m = c.n_qubits
    t.check(m >= a.n_qubits or mixer is not None or m >= n, lambda: f"circuit of {m} qubits for an ansatz of {a.n_qubits}")
    if m < n:       # constant or empty parts need no qubit
        w = np.zeros(2 ** n, complex)
        w[:2 ** m] = got
        got = w
    t.check(ref.same(got, v, 1e-7), lambda: f"{what} QAOA of {terms}, steps {step}, init {init}, mixer {mixer}, params {list(params)}: overlap {abs(np.vdot(v, got)) if len(v) == len(got) else (len(v), len(got))}")
    t.state((str(terms), step, str(init), str(mixer), str(list(params))))
    return c


def pad(n, **ops):
    return "".join(ops.get(f"q{q}", "I") for q in range(n)).rstrip("I")


def two(n, a, b, o="Z", p=None):
    return pad(n, **{f"q{a}": o, f"q{b}": p or o})


def big_terms(n, i):
    if i == 0:
        return [(two(n, q, (q + 1) % n), 0.5 - 0.2 * q) for q in range(n)] + [(pad(n, **{f"q{q}": "Z"}), 0.3 * q - 0.7) for q in range(n)]
    if i == 1:
        return [(two(n, a, b), (a - 2 * b) / 7) for a, b in itertools.combinations(range(n), 2)] + [("", -1.5)]
    if i == 2:
        return [(two(n, 0, q, "X"), 0.4 + q / 5) for q in range(1, n)] + [(pad(n, **{f"q{n - 1}": "X"}), -1.1)]
    if i == 3:
        return [("X" * n, 0.5), (two(n, 0, n - 1), -0.8), (two(n, 1, n - 2) if n > 3 and n != 3 else "ZZ", 0.6), (two(n, 0, 1), 1.2)]
    if i == 4:
        return [(pad(n, **{f"q{q}": "XYZ"[q % 3]}), 0.7 - 0.3 * q) for q in range(n)] + [(two(n, 0, n - 1, "X", "XYZ"[(n - 1) % 3]), 0.45)]
    return [(two(n, q, q + 1, "Y"), 0.2 * q - 0.5) for q in range(n - 1)] + [("Y" * n, 0.9), (pad(n, **{f"q{n // 2}": "Y"}), 0.35)]


def big(t, n, i):
    terms = big_terms(n, i)
    wide_init = (n, [["ry", [0.3 + 0.15 * q], q] for q in range(n)] + [["rz", [0.5 - 0.1 * q], q] for q in range(n)] + [["cx", [], ["t", [q, q + 1]]] for q in range(n - 1)])
    mixers = [[(pad(n, **{f"q{q}": "X"}), 0.5 + 0.1 * q) for q in range(n)], [(two(n, q, q + 1, "X"), 0.5) for q in range(n - 1)] + [(two(n, q, q + 1, "Y"), 0.5) for q in range(n - 1)]]
    for step in (1, 2, 4, 6):
        params = tuple((0.31 + 0.17 * s) * (-1) ** s for s in range(step)) + tuple(0.47 - 0.13 * s for s in range(step))
        for init, mixer in ((None, None), (wide_init, None), (wide_init, mixers[0]), (wide_init, mixers[1]), ((n + 1, generic_prefix(2)), None), (INITS[2], mixers[0])):
            if step == 4 and init is not None and mixer is None:
                continue
            a, _ = ansatz(terms, step, init, mixer, step % 2)
            t.check(a.n_params == 2 * step, lambda: f"n_params {a.n_params} for {step} steps")
            c = verify(t, a, terms, step, init, mixer, params if step % 2 else list(params))
            if step == 2:
                v = expected(terms, step, params, init, mixer)[1]
                w = exp_h(palg.of(a.hamiltonian), v, int(math.log2(len(v))))
                for e in (a.get_energy(c, vqe.non_sampling_sampler), a.get_objective(vqe.non_sampling_sampler)(params)) + ((a.get_objective()(params),) if mixer is None or len(v) == 2 ** a.n_qubits else ()):
                    t.check(abs(e - w) < 1e-8 * (1 + abs(w)), lambda: f"energy {e} of {terms} at {params}, expected {w}")
    # the order in which the commuting terms are written does not matter
    for L in (terms[::-1], terms[1:] + terms[:1]):
        a, _ = ansatz(L, 2, wide_init, None)
        verify(t, a, terms, 2, wide_init, None, STEP_PARAMS[2][0], "reordered")
    for pos in range(len(terms)):
        for bad in "XYZ":
            w = pad(n, **{f"q{pos % n}": bad})
            L = [x for x in terms if x[0] != w]
            L = L[:pos] + [(w, 0.5)] + L[pos:]
            ok = all(commute(w, x) for x, _ in L)
            try:
                ansatz(L, 1, None, None)
                t.check(ok, lambda: f"non-commuting Hamiltonian {L} accepted")
            except ValueError:
                t.check(not ok, f"commuting Hamiltonian {L} rejected")
            t.trans()
    t.outcome("many qubits and terms")


def run_case(t, d):
    k = d["kind"]
    if k == "str":
        for l in "IXYZ":
            w = d["head"] + l
            for step in (1, 2, 3):
                terms = [(w, 0.8)]
                a, _ = ansatz(terms, step, None, None)
                t.check(a.n_params == 2 * step and a.n_qubits == palg.qubits({kc(w): 1}), lambda: f"{w}: n_params {a.n_params}, n_qubits {a.n_qubits}")
                for p in STEP_PARAMS[step]:
                    verify(t, a, terms, step, None, None, p)
                    verify(t, a, terms, step, None, None, list(p))
                    verify(t, a, terms, step, None, None, np.array(p))
            terms = [(w, -0.3), ("", 1.7)]
            a, _ = ansatz(terms, 1, INITS[3], None)
            verify(t, a, terms, 1, INITS[3], None, STEP_PARAMS[1][0])
        t.outcome("one term")
    elif k == "big":
        big(t, d["n"], d["i"])
    elif k == "pair":
        S = strs(2)
        a0 = S[d["i"]]
        for b in S:
            if a0 == b:
                continue
            terms = [(a0, 0.7), (b, -0.45)]
            if not commute(a0, b):
                try:
                    ansatz(terms, 1, None, None)
                    t.check(False, f"non-commuting Hamiltonian {terms} accepted")
                except ValueError:
                    t.trans()
                continue
            for init in (None, INITS[2], INITS[4]):
                for step in (1, 2):
                    a, _ = ansatz(terms, step, init, None)
                    for p in STEP_PARAMS[step]:
                        verify(t, a, terms, step, init, None, p)
        t.outcome("two terms")
    elif k == "triple":
        L = S3 if d["tier"] == "quick" else S3 + strs(3)[5::4]
        for c in L[d["b"] + 1:]:
            ws = [L[d["a"]], L[d["b"]], c]
            if len({kc(w) for w in ws}) < 3:
                continue
            terms = list(zip(ws, (0.5, -0.8, 1.1)))
            ok = all(commute(x, y) for x, y in itertools.combinations(ws, 2))
            try:
                a, _ = ansatz(terms, 2, None, None)
                t.check(ok, lambda: f"non-commuting {terms} accepted")
            except ValueError:
                t.check(not ok, f"commuting {terms} rejected")
                continue
            for p in STEP_PARAMS[2]:
                verify(t, a, terms, 2, None, None, p)
        t.outcome("three terms")
    elif k == "conf":
        init, mixer = INITS[d["init"]], MIXERS[d["mixer"]]
        if init is None and mixer is not None:
            for form in (0, 1):
                try:
                    ansatz([("ZZ", 1.0)], 1, None, mixer, form)
                    t.check(False, f"mixer {mixer} without init_circuit accepted")
                except ValueError:
                    t.trans()
            t.outcome("configurations")
            return
        for terms in ([("Z", 1.0)], [("ZZ", 0.5), ("Z", -0.25), ("", 0.3)], [("IZZ", 0.9), ("ZIZ", -0.4)], [("YY", 0.6), ("XX", 0.2)], [("IIZ", 0.5)], [("YX", 0.31)]):
            for step in (1, 2, 3):
                for form in (0, 1) if mixer else (0,):
                    a, kw = ansatz(terms, step, init, mixer, form)
                    n = expected(terms, 0, (), init, None)[0]
                    t.check(a.n_qubits == n and a.n_params == 2 * step, lambda: f"{terms} with init {init}: n_qubits {a.n_qubits}, expected {n}")
                    sn = snap(a)
                    i0 = csnap(kw["init_circuit"]) if init else None
                    for p in STEP_PARAMS[step]:
                        c = verify(t, a, terms, step, init, mixer, p)
                        e = a.get_energy(c, vqe.non_sampling_sampler)
                        v = expected(terms, step, p, init, mixer)[1]
                        hd = palg.of(a.hamiltonian)
                        w = exp_h(hd, v, int(math.log2(len(v))))
                        t.check(abs(e - w) < 1e-8, lambda: f"energy {e} of {terms} at {p}, expected {w}")
                        if mixer is None or len(v) == 2 ** a.n_qubits:
                            e2 = a.get_objective()(p)
                            t.check(abs(e2 - w) < 1e-8, lambda: f"sparse objective {e2} of {terms} at {p}, expected {w}")
                        e3 = a.get_objective(vqe.non_sampling_sampler)(p)
                        t.check(abs(e3 - w) < 1e-8, lambda: f"objective {e3} of {terms} at {p}, expected {w}")
                    t.check(snap(a) == sn and (init is None or csnap(kw["init_circuit"]) == i0), "building circuits changed the ansatz")
        t.outcome("configurations")
    elif k == "hist":
        for rest in itertools.product(range(len(ACTS)), repeat=d["depth"] - 2):
            hist(t, [*d["head"], *rest])
        t.outcome("histories")
    elif k == "reject":
        S = strs(3)
        for a, b in itertools.product(S[1:], S[1:]):
            if a == b:
                continue
            H = bp.Expr((mk("ZIZ", 1.0), mk(a, 0.5), mk(b, 2.0)))
            ok = commute(a, b) and commute("ZIZ", a) and commute("ZIZ", b)
            if len({kc("ZIZ"), kc(a), kc(b)}) < 3:
                continue
            try:
                vqe.QaoaAnsatz(H)
                t.check(ok, lambda: f"non-commuting {H!r} accepted")
            except ValueError:
                t.check(not ok, f"commuting {H!r} rejected")
            t.trans()
        t.state("reject")
        t.outcome("commutation")
    else:
        misc(t)


def misc(t):
    # un-simplified and Term Hamiltonians, default step
    for H, terms in ((bp.Z[0] * bp.Z[1], [("ZZ", 1.0)]), (bp.Expr((bp.Term((bp.X[0], bp.Z[0], bp.X[0]), 0.5), mk("IZ", 1.0))), [("Z", -0.5), ("IZ", 1.0)]), (bp.Expr((mk("Z", 1.0), mk("Z", 0.5), mk("ZZ", -1.0))), [("Z", 1.5), ("ZZ", -1.0)]),
                     (bp.qubo_bit(0) * bp.qubo_bit(2), [("", 0.25), ("Z", -0.25), ("IIZ", -0.25), ("ZIZ", 0.25)]), (3 * bp.qubo_bit(1) + bp.qubo_bit(0) * bp.qubo_bit(1), [("", 1.75), ("IZ", -1.75), ("Z", -0.25), ("ZZ", 0.25)]),
                     (bp.X[0] + bp.Z[1] - bp.X[0] + bp.Z[0], [("IZ", 1.0), ("Z", 1.0)]), (bp.Expr((mk("X", 1.0), mk("Z", 1.0), mk("X", -1.0))), [("Z", 1.0)])):
        a = vqe.QaoaAnsatz(H)
        t.check(a.step == 1 and a.n_params == 2, "default step")
        for p in STEP_PARAMS[1]:
            verify(t, a, terms, 1, None, None, p, repr(H))
        a = vqe.QaoaAnsatz(H, step=2)
        for p in STEP_PARAMS[2]:
            verify(t, a, terms, 2, None, None, p, repr(H))
    # imaginary terms rejected
    for H in (1j * bp.Z[0] + bp.Z[1], bp.Expr((mk("Z", 1 + 1j),))):
        try:
            vqe.QaoaAnsatz(H)
            t.check(False, f"{H!r} accepted")
        except ValueError:
            t.trans()
    t.outcome("misc")


CONF = ([("ZZ", 0.5), ("IZ", -0.25)], 2, (3, generic_prefix(3)), [("XX", 0.5), ("IIX", 1.0)])
PA, PB = [0.31, -0.2, 0.47, 0.15], np.array([0.9, 0.1, -0.3, 0.8])
ACTS = ["cA", "cB", "runA", "modA", "eA", "objA", "objB", "sparse", "params", "last", "vqe", "samp"]


def hist(t, seq):
    terms, step, init, mixer = CONF
    if sum(seq) % 2:
        mixer = None
    a, kw = ansatz(terms, step, init, mixer)
    sn = snap(a)
    live = []
    pa, pb = list(PA), PB.copy()
    for i in seq:
        o = ACTS[i]
        t.trans()
        if o == "cA":
            live.append((a.get_circuit(pa), PA))
        elif o == "cB":
            live.append((a.get_circuit(pb), PB))
        elif o == "runA":
            c = a.get_circuit(pa)
            v = c.run()
            v *= 0
            live.append((c, PA))
        elif o == "modA":
            c = a.get_circuit(pa)
            c.h[:]
            c.x[4]
            c.run()
        elif o == "eA":
            a.get_energy(a.get_circuit(pa), vqe.non_sampling_sampler)
        elif o == "objA":
            a.get_objective(vqe.non_sampling_sampler)(pa)
        elif o == "objB":
            a.get_objective()(pb)
        elif o == "sparse":
            a.make_sparse("csr")
        elif o == "params":
            pa.append(5), pa.pop()
            a.get_circuit(np.array(pa))
        elif o == "last":
            if live:
                live[-1][0].run()
        elif o == "vqe":
            vqe.Vqe(a, minimizer=lambda f, n: [f([0.1] * n) * 0 + 0.2] * n).run()
        elif o == "samp":
            vqe.non_sampling_sampler(a.get_circuit(pb), (0, 1))
    t.check(snap(a) == sn, lambda: f"after {[ACTS[i] for i in seq]} the ansatz is {snap(a)}")
    t.check(pa == PA and np.array_equal(pb, PB), "parameters changed")
    for c, p in live + [(a.get_circuit(PA), PA), (a.get_circuit(PB), PB)]:
        key = (mixer is None, p is PA)
        if key not in _memo:
            _memo[key] = expected(terms, step, p, init, mixer)[1]
        t.check(ref.same(c.run(), _memo[key]), lambda: f"after {[ACTS[i] for i in seq]}: circuit for {p} is another")
    t.trace()
    t.state(tuple(seq))


_memo = {}
