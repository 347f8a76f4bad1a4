"""VQE driver and result object: all call sequences of get_probs/probs/most_common against a small state model, all evaluation orders of scripted minimisers."""
import contextlib, io, itertools, math, warnings
import numpy as np
import scipy.optimize as so
from mc import palg, ref, rng
from mc.build import circ, generic_prefix
from mc.vq import csnap, exp_h, marginal
from mc.checks.P03 import mk
from mc.checks.V03 import expected, ansatz
from blueqat import Circuit, vqe, pauli as bp

BOUNDS = {
 "quick": "all sequences of length <=3 of 22 calls (get_probs with every combination of 3 samplers x rerun x store, positional and by keyword; probs; most_common n=0..9) x 3 driver samplers x 2 circuits; most_common on all distributions of <=4 outcomes over seven 4-value weight alphabets (also differences of 1e-2..1e-12 and tiny weights), of 8..256 outcomes in 4 orders x 6 weightings; 20-evaluation runs with 6..12 parameters; "
          "all evaluation sequences of length <=3 over 4 parameter vectors x 4 containers x 8 ansatz/sampler configurations; SciPy wrapper on 8 methods and a recording method, all initial points of a 3-point grid",
 "thorough": "call sequences of length 4, evaluation sequences of length 4"}
SAMP = [None, "A", "B"]
CALLS = [("g", s, r, st) for s in (None, "A", "B") for r in (None, True, False) for st in (True, False)] + [("p",), ("m", 1), ("m", 3), ("mm",)]
CIRCS = [(2, [["ry", [0.9], 0], ["ry", [2.0], 1]]), (3, generic_prefix(3))]


def cases(tier):
    out = []
    dep = 3 if tier == "quick" else 4
    for ci in range(len(CIRCS)):
        for drv in SAMP:
            for a in range(len(CALLS)):
                out.append(dict(kind="calls", circ=ci, drv=drv, head=a, depth=dep if ci == 0 or tier != "quick" else 2))
    for n in range(0, 5):
        out.append(dict(kind="common", n=n))
        for w in range(1, len(WEIGHTS)):
            out.append(dict(kind="common", n=n, w=w))
    for c in range(len(CONF)):
        for a in range(4):
            out.append(dict(kind="run", conf=c, head=a, depth=3 if tier == "quick" else 4))
    for c in range(len(CONF)):
        out.append(dict(kind="scipy", conf=c))
        out.append(dict(kind="default", conf=c))
    for n in (3, 4, 5, 6, 8):
        out.append(dict(kind="commonbig", n=n))
    for step in (3, 4, 6):
        for i in range(3):
            out.append(dict(kind="runbig", step=step, i=i))
    out.append(dict(kind="fresh"))
    return out


class Samplers:
    """two samplers whose every answer is a new, recognisable distribution"""
    def __init__(self):
        self.log = []

    def make(self, name):
        if name is None:
            return None

        def f(circuit, meas):
            k = len(self.log)
            n = circuit.n_qubits
            keys = [tuple(i >> b & 1 for b in range(n)) for i in range(2 ** n)]
            w = [((i * 5 + 3 * k + (name == "A")) % 7) + 1 for i in range(2 ** n)]
            d = {key: x / sum(w) for key, x in zip(keys, w)}
            self.log.append((name, csnap(circuit), tuple(meas), d))
            return dict(d)
        return f


def apply(res, S, call):
    if call[0] == "g":
        _, s, r, st = call
        kw = {}
        if s is not None:
            kw["sampler"] = S[s]
        if r is not None:
            kw["rerun"] = r
        if not st:
            kw["store"] = False
        return res.get_probs(**kw)
    if call[0] == "p":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return res.probs
    if call[0] == "m":
        return res.most_common(call[1])
    return res.most_common()


def same_dist(a, b, tol=1e-10):
    return isinstance(a, dict) and all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


# weight alphabets: also probabilities that differ only slightly, or are all tiny
WEIGHTS = [[0.0, 0.1, 0.25, 0.5]] + [[0.25 - e, 0.25, 0.25 + e, 0.25 + 2 * e] for e in (1e-2, 1e-4, 1e-7, 1e-12)] + [[1e-3, 1e-5, 1e-9, 2e-9], [1e-13, 3e-13, 1.0, 1e-20]]


def common_ok(got, dist, n, tol=1e-10):
    """got lists n most probable (outcome, p) of dist"""
    dist = {k: v for k, v in dist.items()}
    if not isinstance(got, tuple) or len(got) != min(n, len(dist)):
        return False
    if len({k for k, _ in got}) != len(got) or any(k not in dist or abs(dist[k] - p) > tol for k, p in got):
        return False
    ps = [p for _, p in got]
    return all(x >= y for x, y in zip(ps, ps[1:])) and all(abs(x - y) <= tol for x, y in zip(ps, sorted(dist.values(), reverse=True)))


def calls(t, d):
    n, prog = CIRCS[d["circ"]]
    exact = {k: v for k, v in marginal(ref.run([], n) if not prog else circ(prog, n).run(), range(n)).items() if v}
    from mc.build import rprog
    exact = {k: v for k, v in marginal(ref.run(rprog(prog), n), range(n)).items() if v > 1e-15}
    depth = d["depth"]
    for L in range(1, depth + 1):
        for rest in itertools.product(range(len(CALLS)), repeat=L - 1):
            seq = [CALLS[d["head"]]] + [CALLS[i] for i in rest]
            sm = Samplers()
            S = {k: sm.make(k) for k in "AB"}
            S[None] = None
            c = circ(prog, n)
            before = csnap(c)
            drv = vqe.Vqe(None, minimizer=lambda f, k: None, sampler=S[d["drv"]])
            res = vqe.VqeResult(drv, [0.5], c)
            stored, seen = None, 0
            for call in seq:
                got = apply(res, S, call)
                t.trans()
                # model
                if call[0] == "g":
                    s, r, st = call[1:]
                    if r is None:
                        r = s is not None
                else:
                    s, r, st = None, False, True
                if stored is not None and not r:
                    exp, ran = stored, None
                else:
                    ran = s if s is not None else d["drv"]
                    exp = None
                calls_made = sm.log[seen:]
                seen = len(sm.log)
                if exp is not None or ran is None:
                    t.check(not calls_made, lambda: f"{seq}: sampler {calls_made[0][0]} was called by {call}")
                    exp = exact if exp is None else exp
                else:
                    t.check([x[0] for x in calls_made] == [ran], lambda: f"driver sampler {d['drv']}, {seq}: {call} called samplers {[x[0] for x in calls_made]}, expected one call of {ran}")
                    exp = calls_made[0][3]
                    t.check(calls_made[0][1] == before and calls_made[0][2] == tuple(range(n)), lambda: f"{seq}: sampler was given {calls_made[0][1:3]}")
                if st:
                    stored = exp
                if call[0] in "gp":
                    t.check(same_dist(got, exp), lambda: f"driver sampler {d['drv']}, {seq}: {call} = {got}, expected {exp}")
                else:
                    k = call[1] if call[0] == "m" else 1
                    t.check(common_ok(got, exp, k), lambda: f"{seq}: {call} = {got}, probabilities {exp}")
            t.check(csnap(c) == before and res.circuit is c and res.vqe is drv and res.params == [0.5], "reading probabilities changed the result")
            t.state((d["circ"], d["drv"], tuple(seq)))
        t.trace()
    t.outcome(f"calls, driver sampler {d['drv']}")


class Fixed(vqe.AnsatzBase):
    """two-parameter ansatz, not of the library"""
    def __init__(self, h, n):
        super().__init__(h, 2)
        self.n_qubits = n

    def get_circuit(self, params):
        return circ(FIXED(params), self.n_qubits)


FIXED = lambda p: [["ry", [float(p[0])], 0], ["rx", [float(p[1])], 1], ["cx", [], ["t", [0, 1]]], ["rz", [float(p[0]) + 0.3], 1]]
HS = [[("ZZ", 0.5), ("Z", -0.25), ("", 0.3)], [("XX", 1.0), ("YY", -0.4)], [("IZZ", 0.9), ("ZIZ", -0.4)]]
CONF = [("qaoa", 0, 1, None), ("qaoa", 0, 1, "exact"), ("qaoa", 1, 1, None), ("qaoa", 2, 1, "exact"), ("qaoa", 0, 2, None), ("fixed", 0, 1, None), ("fixed", 1, 1, "exact"), ("qaoa3", 0, 1, None)]
PTS = {2: [(0.31415926535, -0.4712388980384), (0.0, 0.2), (1.3, 0.0), (-0.6, 2.2)], 4: [(0.314159265, -0.2, 0.4712388, 0.150001), (0.5, 0.25, -0.1, 0.3), (0, 0, 0, 0), (1.1, 0.2, 0.9, -2.0)]}
WRAP = [list, tuple, np.array, lambda p: np.array(p, dtype=float)[::1]]


def setup(conf):
    kind, hi, step, smp = CONF[conf]
    terms = HS[hi]
    H = bp.Expr(tuple(mk(w, c) for w, c in terms))
    hd = palg.of(H)
    if kind == "fixed":
        from mc.build import rprog
        n = 2
        a = Fixed(H, n)
        st = lambda p: (n, ref.run(rprog(FIXED(p)), n))
    else:
        init = (3, generic_prefix(3)) if kind == "qaoa3" else None
        a, _ = ansatz(terms, step, init, None)
        st = lambda p: expected(terms, step, p, init, None)
    cache = {}

    def energy(p):
        k = tuple(float(x) for x in p)
        if k not in cache:
            n, v = st(k)
            cache[k] = exp_h(hd, v, n)
        return cache[k]
    return a, energy, st, (vqe.non_sampling_sampler if smp else None), 2 * step


def run(t, d):
    a, energy, st, smp, npar = setup(d["conf"])
    pts = PTS[npar]
    earlier = []
    for L in range(1, d["depth"] + 1):
        for rest in itertools.product(range(4), repeat=L - 1):
            seq = [d["head"], *rest]
            wrap = WRAP[sum(seq) % 4]
            final = wrap(pts[seq[-1]])
            log = []

            def minimizer(f, n):
                t.check(n == npar, lambda: f"minimiser was asked for {n} parameters instead of {npar}")
                for i in seq:
                    log.append((pts[i], f(wrap(pts[i]))))
                return final
            v = vqe.Vqe(a, minimizer=minimizer, sampler=smp) if smp else vqe.Vqe(a, minimizer)
            if L == 2 or L == 1 and d["head"] % 2:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    r = v.run(verbose=True)
                t.check(buf.getvalue().count("params:") == len(seq) and buf.getvalue().count("val:") == len(seq), lambda: f"verbose printed {buf.getvalue()!r}")
            else:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    r = v.run()
                t.check(not buf.getvalue(), "run printed")
            t.trans(len(seq)), t.trace()
            for p, e in log:
                t.check(isinstance(e, (float, np.floating)) and abs(e - energy(p)) < 1e-8, lambda: f"{CONF[d['conf']]}: objective({p}) = {e}, expected {energy(p)}")
            t.check(isinstance(r, vqe.VqeResult) and r.vqe is v and v.sampler is smp and v.ansatz is a, "result of another run")
            t.check(len(r.params) == npar and all(float(x) == float(y) for x, y in zip(r.params, final)), lambda: f"minimiser returned {final}, result has {r.params}")
            t.check(csnap(r.circuit) == csnap(a.get_circuit(pts[seq[-1]])), "result circuit is not the ansatz circuit of its parameters")
            n, w = st(pts[seq[-1]])
            t.check(ref.same(r.circuit.run(), w), "result circuit prepares another state")
            ex = {k: x for k, x in marginal(w, range(n)).items() if x > 1e-15}
            t.check(same_dist(r.get_probs(), ex), lambda: f"probabilities {r.get_probs()}, expected {ex}")
            for k in (1, 2, 2 ** n + 1):
                g = r.most_common(k)
                t.check(all(abs(x[1] - y) < 1e-9 for x, y in zip(g, sorted(ex.values(), reverse=True))) and len(g) <= k and all(abs(ex.get(b, 0) - p) < 1e-9 for b, p in g), lambda: f"most_common({k}) = {g} of {ex}")
            earlier.append((r, pts[seq[-1]], csnap(r.circuit)))
            t.state((d["conf"], tuple(seq)))
    for r, p, s in earlier:       # results of earlier runs are unaffected by later ones
        t.check(csnap(r.circuit) == s and all(float(x) == float(y) for x, y in zip(r.params, p)), "a later run changed an earlier result")
        n, w = st(p)
        t.check(same_dist(r.get_probs(), {k: x for k, x in marginal(w, range(n)).items() if x > 1e-15}), "a later run changed earlier probabilities")
    t.outcome(f"runs of {CONF[d['conf']]}")


def run_case(t, d):
    k = d["kind"]
    if k == "calls":
        calls(t, d)
    elif k == "common":
        n = d["n"]
        keys = [tuple(i >> b & 1 for b in (1, 0)) for i in range(4)][:n]
        for ws in itertools.product(WEIGHTS[d.get("w", 0)], repeat=n):
            for order in itertools.permutations(range(n)) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]:
                dist = {keys[i]: ws[i] for i in order}
                v = vqe.Vqe(None, lambda f, m: None, lambda c, m: dict(dist))
                r = vqe.VqeResult(v, [], Circuit(2))
                for m in range(0, 6):
                    g = r.most_common(m)
                    t.check(common_ok(g, dist, m, 0), lambda: f"most_common({m}) of {dist} = {g}")
                t.check(common_ok(r.most_common(), dist, 1, 0) and common_ok(r.most_common(n=2), dist, 2, 0), "most_common()")
                t.check(r.get_probs() == dist, "most_common changed the probabilities")
                t.trans()
            t.state(ws)
        t.trace()
        t.outcome("most common")
    elif k == "commonbig":
        n = d["n"]
        N = 2 ** n
        keys = [tuple(i >> b & 1 for b in range(n)) for i in range(N)]
        for wi, f in enumerate((lambda i: (i * 37 % N + 1), lambda i: 1.0, lambda i: 2.0 ** -((i * 5) % N % 60), lambda i: [0, 1, 3, 3, 2][i % 5], lambda i: 1 + 1e-9 * ((i * 11) % N), lambda i: float(i == N - 2 or i == 3) + 1e-12 * i)):
            ws = [f(i) for i in range(N)]
            tot = sum(ws)
            for order in (range(N), range(N - 1, -1, -1), sorted(range(N), key=lambda i: ws[i]), sorted(range(N), key=lambda i: (i * 7) % N)):
                dist = {keys[i]: ws[i] / tot for i in order}
                r = vqe.VqeResult(vqe.Vqe(None, lambda f, m: None, lambda c, m: dict(dist)), [], Circuit(n))
                for m in (0, 1, 2, 3, 5, 10, N // 2, N - 1, N, N + 3):
                    g = r.most_common(m)
                    t.check(common_ok(g, dist, m, 0), lambda: f"most_common({m}) of {dist} = {g}")
                t.check(common_ok(r.most_common(), dist, 1, 0) and r.get_probs() == dist, "most_common()")
                t.trans()
            t.state((n, wi))
        t.trace()
        t.outcome("most common of many")
    elif k == "runbig":
        step = d["step"]
        terms = HS[d["i"]]
        init = (3, generic_prefix(3)) if d["i"] == 1 else None
        a, _ = ansatz(terms, step, init, None)
        hd = palg.of(a.hamiltonian)
        pts = [[round(0.9 * math.sin(1.3 * j * (q + 1) + q), 3) for q in range(2 * step)] for j in range(20)]
        for smp in (None, vqe.non_sampling_sampler):
            def mini(f, k):
                t.check(k == 2 * step, lambda: f"{k} parameters")
                for p in pts:
                    e = f(np.array(p))
                    n, v = expected(terms, step, p, init, None)
                    t.trans()
                    t.check(abs(e - exp_h(hd, v, n)) < 1e-8, lambda: f"objective({p}) = {e}, expected {exp_h(hd, v, n)}")
                return np.array(pts[7])
            r = vqe.Vqe(a, mini, smp).run()
            n, v = expected(terms, step, pts[7], init, None)
            t.check(list(r.params) == pts[7] and ref.same(r.circuit.run(), v), "result of another point")
            t.check(same_dist(r.get_probs(), {k: x for k, x in marginal(v, range(n)).items() if x > 1e-15}), "probabilities")
            t.trace()
        t.state((step, d["i"]))
        t.outcome("many evaluations")
    elif k == "run":
        run(t, d)
    elif k == "scipy":
        a, energy, st, smp, npar = setup(d["conf"])
        # a method object sees exactly what the caller configured
        seen = {}

        def method(fun, x0, args=(), **kw):
            seen.update(x0=np.array(x0), kw=kw)
            for p in PTS[npar]:
                e = fun(np.array(p))
                t.check(abs(e - energy(p)) < 1e-8, lambda: f"objective({p}) = {e}, expected {energy(p)}")
            return so.OptimizeResult(x=np.array(PTS[npar][1]), fun=0.0, success=True)
        mini = vqe.get_scipy_minimizer(method=method, options={"zig": 3}, bounds=[(0, 1)] * npar)
        got = set()

        def one():
            seen.clear()
            r = vqe.Vqe(a, mini, smp).run()
            t.check(list(r.params) == list(PTS[npar][1]), lambda: f"parameters {r.params}")
            t.check(seen["kw"].get("zig") == 3 and seen["kw"].get("bounds") is not None, lambda: f"method received {seen['kw']}")
            t.check(seen["x0"].shape == (npar,) and np.all(seen["x0"] >= 0) and np.all(seen["x0"] < 1), lambda: f"initial point {seen['x0']}")
            return tuple(seen["x0"])
        for x0, w, path in rng.explore(one, grid=3 if npar == 2 else 2):
            got.add(x0)
            t.trans(), t.state((d["conf"], x0))
        t.check(len(got) == (9 if npar == 2 else 16), lambda: f"initial points do not follow the random source: {sorted(got)}")
        for m in ("Powell", "Nelder-Mead", "COBYLA", "BFGS", "CG", "L-BFGS-B", "SLSQP", "TNC"):
            best = []
            inner = vqe.get_scipy_minimizer(method=m, options={"maxiter": 5}, **({} if m != "SLSQP" else {"tol": 1e-3}))

            def spy(f, n):
                def g(p):
                    e = f(p)
                    best.append((np.array(p, float).copy(), e))
                    return e
                x = inner(g, n)
                best.append(np.array(x, float).copy())
                return x
            r = vqe.Vqe(a, spy, smp).run()
            t.trans(len(best)), t.trace()
            t.check(np.array_equal(np.asarray(r.params, float), best[-1]), f"{m}: parameters {r.params}")
            for p, e in best[:-1][:6]:
                t.check(abs(e - energy(p)) < 1e-8, lambda: f"{m}: objective({p}) = {e}, expected {energy(p)}")
            e1 = energy(r.params)
            t.check(e1 <= best[0][1] + 1e-6, lambda: f"{m}: energy {e1} at the result is above {best[0][1]} at the start")
        t.outcome("SciPy minimisers")
    elif k == "default":
        a, energy, st, smp, npar = setup(d["conf"])
        starts = []
        orig = a.get_circuit
        if npar == 4:
            starts = None

        def one():
            first = []

            def spy(params):
                first.append(tuple(float(x) for x in params))
                return orig(params)
            a.get_circuit = spy
            r = vqe.Vqe(a, sampler=smp).run()
            del a.get_circuit
            return first[0], r
        for (p0, r), w, path in rng.explore(one, grid=2 if npar == 2 else 1):
            t.trans(), t.state((d["conf"], p0))
            t.check(len(p0) == npar and all(0 <= x < 1 for x in p0), lambda: f"initial point {p0}")
            e0, e1 = energy(p0), energy(r.params)
            t.check(e1 <= e0 + 1e-9, lambda: f"energy {e1} of the result is above {e0} at the start")
            n, w_ = st(r.params)
            t.check(ref.same(r.circuit.run(), w_), "result circuit prepares another state")
            t.check(same_dist(r.get_probs(), {k: x for k, x in marginal(w_, range(n)).items() if x > 1e-15}, 1e-9), "probabilities")
        t.trace()
        t.outcome("default minimiser")
    else:
        # two drivers and results in use at once do not share anything
        for order in itertools.permutations(range(4)):
            sm = Samplers()
            A, B = sm.make("A"), sm.make("B")
            c1, c2 = circ(*reversed(CIRCS[0])), circ(*reversed(CIRCS[1]))
            r = [vqe.VqeResult(vqe.Vqe(None, len, A), [1], c1), vqe.VqeResult(vqe.Vqe(None, len, B), [2], c2), vqe.VqeResult(vqe.Vqe(None, len), [3], c1), vqe.VqeResult(vqe.Vqe(None, len), [4], c2)]
            got = {i: r[i].get_probs() for i in order}
            for i in order:
                t.check(r[i].get_probs() == got[i], "result shares probabilities")
            t.check([x[0] for x in sm.log] == [("A", "B")[i] for i in order if i < 2], "samplers shared")
            t.check(same_dist(got[2], dict(expect_of(c1))) and same_dist(got[3], dict(expect_of(c2))), "probabilities shared")
            t.trans(4), t.state(order)
        t.trace()
        t.outcome("independent results")


def expect_of(c):
    return marginal(c.run(), range(c.n_qubits))
