"""Gate semantics of the default simulator."""
import itertools, math
import numpy as np
from mc import ref
from mc.build import circ, rprog, instances, targets, generic_prefix, long_alphabet, PARAMS, pf, PI, near_params
from blueqat import Circuit

BOUNDS = {
 "quick": "BFS of all Clifford-reachable states n<=2 (6+60) and of 8 basis states + generic states n=3, every gate instance from each; "
          "all depth-2 programs n=3, all depth-3 programs n=2; parameter grids (81 values; 9^2; 7^3); every parameter 2^-5..2^-24 beside each multiple of a quarter turn up to 9; n=4..10 every gate x every target tuple (two-qubit), n=4..7 (three-qubit); sliced targets; programs of 40 gates (every pair of gates repeated) and every gate repeated 1..32 times; n=13 and 17 spot targets",
 "thorough": "as quick plus 1080 Clifford states n=3, all depth-3 programs n=3, finer parameter grids, n up to 12 with all target tuples, n=16 and 19"}
NAMES = ref.UNITARY + ['ccz']
GRID1 = [k * PI / 8 for k in range(-34, 35)] + [1e-9, -1e-9, 1e-3, 1, 2, -3, 7.3, -9.1, 100.0, -1000.5, ["f64", 0.3], ["f32", 0.5], ["i64", 2]]
G2 = [0.0, PI / 2, -PI / 2, PI, 2 * PI, 0.7, -1.9, 5.5, 3]
G3 = [0.0, PI / 2, PI, -PI / 2, 0.7, -4.1, 7.5]
ZERO = {0: [[]], 1: [[0.7], [PI]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}


def one(t, prog, n0, vec0=None, nskip=0, norm=True):
    """run prog on the real simulator and compare with the reference (vec0: reference state after nskip ops)"""
    c = circ(prog, n0)
    got = c.run()
    rp = rprog(prog)
    n = ref.n_of(rp, n0)
    exp = ref.run(rp[nskip:], n, vec0)
    t.trans(len(prog) - nskip)
    t.trace()
    if isinstance(got, np.ndarray) and got.shape == exp.shape and ref.same(got, exp):
        return exp
    t.check(False, f"program {prog} on {n} qubits: simulator {np.round(np.asarray(got), 4).tolist()[:8]} reference {np.round(exp, 4).tolist()[:8]}")


def clifford_gens(n):
    g = [["h", [], q] for q in range(n)] + [["s", [], q] for q in range(n)]
    g += [["cx", [], ["t", [a, b]]] for a in range(n) for b in range(n) if a != b]
    return g


def clifford_states(n):
    """BFS in the reference: list of (program, vec)"""
    v0 = ref.run([], n)
    seen = {ref.key(v0): ([], v0)}
    frontier = [([], v0)]
    while frontier:
        nf = []
        for pr, v in frontier:
            for g in clifford_gens(n):
                w = ref.run([g], n, v)
                k = ref.key(w)
                if k not in seen:
                    seen[k] = (pr + [g], w)
                    nf.append(seen[k])
        frontier = nf
    return list(seen.values())


def multi_targets(name, n):
    s = lambda a, b, c=None: ["s", a, b, c]
    if name in ref.ONE:
        return [s(None, None), s(1, None), s(None, None, -1), s(None, None, 2), ["t", [n - 1, 0]], ["t", [0, 0]], ["t", [0, s(0, 2), 1]],
                ["t", list(range(n))], -1, ["t", []]]
    if name in ref.TWO:
        return [["t", [s(0, n - 1), s(1, n)]], ["t", [s(None, -1), s(1, None)]], ["t", [s(1, n), s(0, n - 1)]], ["t", [-1, 0]],
                ["t", [s(0, n, 2), s(1, n, 2)]] if n % 2 == 0 else ["t", [s(0, n - 1, 2), s(1, n, 2)]], ["t", [s(None, None, -1), s(None, None)]] if n % 2 == 0 else ["t", [0, -1]]]
    return [["t", [0, 1, 2]], ["t", [2, 0, 1]]]


def cases(tier):
    out = []
    for n in (1, 2):
        m = len(clifford_states(n))
        for i in range(0, m, 2):
            out.append(dict(kind="bfs", n=n, lo=i, hi=min(m, i + 2)))
    if tier == "thorough":
        for i in range(0, 1080, 9):
            out.append(dict(kind="bfs", n=3, lo=i, hi=i + 9))
    for b in range(8):
        out.append(dict(kind="basis", n=3, b=b))
    for nm in NAMES:
        k = ref.NPARAM[nm]
        if k:
            out.append(dict(kind="grid", name=nm, fine=tier == "thorough"))
            out.append(dict(kind="near", name=nm, fine=tier == "thorough"))
    I3 = instances(NAMES, 3)
    for a in range(0, len(I3), 3):
        out.append(dict(kind="seq2", lo=a, hi=min(len(I3), a + 3)))
    I2 = instances([x for x in NAMES if x not in ref.THREE and x != 'ccz'], 2, ZERO)
    for a in range(len(I2)):
        out.append(dict(kind="seq3", n=2, a=a))
    if tier == "thorough":
        for a in range(len(instances(NAMES, 3, ZERO))):
            out.append(dict(kind="seq3", n=3, a=a))
    for n in range(4, 11 if tier == "quick" else 13):
        for nm in NAMES:
            out.append(dict(kind="big", n=n, name=nm, full=tier == "thorough"))
    for n in (3, 4, 5):
        for nm in NAMES:
            out.append(dict(kind="multi", n=n, name=nm))
    for nm in NAMES:
        out.append(dict(kind="huge", n=16 if tier == "thorough" else 13, name=nm, full=tier == "thorough"))
        out.append(dict(kind="huge", n=17 if tier == "quick" else 19, name=nm, full=False))
    for nm in NAMES:
        if ref.NPARAM[nm]:
            out.append(dict(kind="kw", name=nm))
    A = long_alphabet(NAMES)
    for a in range(len(A)):
        out.append(dict(kind="long", a=a, rep=20 if tier == "quick" else 60))
    for n in range(0, 4):
        out.append(dict(kind="empty", n=n))
    out.sort(key=lambda d: {"seq3": 0, "bfs": 1, "big": 1, "huge": 0}.get(d["kind"], 2))
    return out


_cache = {}
def memo(k, f):
    if k not in _cache:
        _cache[k] = f()
    return _cache[k]


def prefix_vec(n):
    return memo(("gp", n), lambda: (generic_prefix(n), ref.run(generic_prefix(n), n)))


def run_case(t, d):
    k = d["kind"]
    if k == "bfs":
        n = d["n"]
        sts = memo(("cl", n), lambda: clifford_states(n))
        inst = memo(("in", n), lambda: instances([x for x in NAMES if ref.NPARAM[x] >= 0 and (n > 2 or (x not in ref.THREE and x != 'ccz')) and (n > 1 or x in ref.ONE)], n, ZERO))
        for pr, v in sts[d["lo"]:d["hi"]]:
            t.state(ref.key(v))
            for g in inst:
                w = one(t, pr + [g], n, v, len(pr))
                t.state(ref.key(w))
        t.sample(dict(kind=k, prefix=sts[d["lo"]][0], then="each gate instance"))
        t.outcome("bfs")
    elif k == "basis":
        n, b = d["n"], d["b"]
        pr = [["x", [], q] for q in range(n) if b >> q & 1]
        v = ref.run(pr, n)
        for g in instances(NAMES, n):
            t.state(ref.key(one(t, pr + [g], n, v, len(pr))))
        t.outcome("basis")
    elif k == "grid":
        nm = d["name"]
        np_ = ref.NPARAM[nm]
        fine = d["fine"]
        if np_ == 1:
            g = [[x] for x in GRID1 + ([j * PI / 48 for j in range(-200, 200)] if fine else [])]
        elif np_ == 2:
            g = [list(x) for x in itertools.product(G2 + ([j * PI / 6 for j in range(-13, 13)] if fine else []), repeat=2)]
        else:
            g = [list(x) for x in itertools.product(G3 + ([j * PI / 4 for j in range(-9, 10)] if fine else []), repeat=3)]
        n = 2
        pr, v = prefix_vec(n)
        for p in g:
            for tg in (targets(nm, n) if np_ == 1 else targets(nm, n)[:1]):
                t.state(ref.key(one(t, pr + [[nm, p, tg]], n, v, len(pr))))
        t.sample([nm, g[0], targets(nm, n)[0]])
        t.outcome("grid " + nm)
    elif k == "near":
        # angles just beside the multiples of a quarter turn, one parameter at a time, and as a sum of two parameters
        nm = d["name"]
        pr, v = prefix_vec(2)
        for i, p in enumerate(near_params(ref.NPARAM[nm], range(-9, 10), range(3, 26) if d["fine"] else (5, 9, 13, 16, 19, 22, 24))):
            one(t, pr + [[nm, p, targets(nm, 2)[0]]], 2, v, len(pr))
            t.state((nm, i))
        t.outcome("near " + nm)
    elif k == "seq2":
        I3 = memo("I3", lambda: instances(NAMES, 3))
        pr, v = prefix_vec(3)
        for a in I3[d["lo"]:d["hi"]]:
            va = ref.run(rprog([a]), 3, v)
            for b in I3:
                w = one(t, pr + [a, b], 3, va, len(pr) + 1)
                t.state(ref.key(w))
        t.outcome("seq2")
    elif k == "seq3":
        n = d["n"]
        I = memo(("I", n), lambda: instances([x for x in NAMES if n > 2 or (x not in ref.THREE and x != 'ccz')], n, ZERO))
        a = I[d["a"]]
        va = ref.run([a], n)
        for b in I:
            vb = ref.run([b], n, va)
            for c in I:
                w = one(t, [a, b, c], n, vb, 2)
                t.state(ref.key(w, 5))
        t.sample([a, I[0], I[-1]])
        t.outcome("seq3")
    elif k in ("big", "huge"):
        n, nm = d["n"], d["name"]
        pr, v = prefix_vec(n)
        tg = targets(nm, n)
        if k == "huge":
            tg = [x for x in tg if not isinstance(x, list) or all(abs(a - b) in (1, n - 1) for a, b in zip(x[1], x[1][1:]))]
            if not d["full"]:
                tg = [tg[0], tg[len(tg) // 2], tg[-1]]
        elif len(tg) > 400 and not d["full"]:
            tg = tg[::len(tg) // 200]
        base = circ(pr, n)
        base.run()                      # shared prefix is simulated once; copies continue from it
        for x in tg:
            p = PARAMS[ref.NPARAM[nm]][0]
            g = [nm, p, x]
            c = base.copy()
            from mc.build import add
            got = add(c, g).run()
            exp = ref.run([g], n, v)
            t.trans()
            t.trace()
            t.check(got.shape == exp.shape and ref.same(got, exp), lambda: f"{g} on {n} qubits differs from reference after generic prefix")
            t.state((n, nm, str(x)))
        t.outcome(f"n={n}")
    elif k == "kw":
        # parameters given by the documented names, in every order and mixed with positional ones; wrappers used several times
        nm = d["name"]
        m = ref.NPARAM[nm]
        names = {1: ["lambd"] if nm in ("u1", "cu1") else ["theta"], 2: ["phi", "lambd"], 3: ["theta", "phi", "lambd"]}[m]
        pr, v = prefix_vec(3)
        for p in itertools.permutations([0.7, -1.3, 2.1], m):
            for tg in targets(nm, 3):
                exp = ref.run([[nm, list(p), tg]], 3, v)
                for npos in range(m + 1):
                    for order in itertools.permutations(range(npos, m)):
                        c = circ(pr, 3)
                        r = getattr(c, nm)(*p[:npos], **{names[i]: p[i] for i in order})[ref.to_py(tg)]
                        got = c.run()
                        t.check(r is c and ref.same(got, exp), lambda: f"{nm} with {p[:npos]} and keywords {[names[i] for i in order]} on {tg} acts differently from {nm}{p}")
                        t.trans(), t.trace()
                c = circ(pr, 3)
                w = getattr(c, nm)(*p)
                c.h[0]
                w[ref.to_py(tg)]
                c.x[1]
                str(w)
                w[ref.to_py(tg)]
                g = [nm, list(p), tg]
                t.check(ref.same(c.run(), ref.run([["h", [], 0], g, ["x", [], 1], g], 3, v)), lambda: f"{nm}{p} selected twice through one object on {tg}")
                t.trans(2), t.trace()
        t.outcome("keywords")
    elif k == "long":
        A = long_alphabet(NAMES)
        a = A[d["a"]]
        for b in A:
            prog = [["h", [], 0], ["ry", [0.4], 1]] + [a, b] * d["rep"]
            t.state(ref.key(one(t, prog, 3)))
        for r in range(1, 33):
            prog = [["h", [], ["s", None, None, None]], ["rz", [0.4], 1], ["ry", [0.3], 2]] + [a] * r
            t.state(ref.key(one(t, prog, 3)))
        t.outcome("long programs")
    elif k == "multi":
        n, nm = d["n"], d["name"]
        pr, v = prefix_vec(n)
        for p in PARAMS[ref.NPARAM[nm]]:
            for x in multi_targets(nm, n):
                t.state(ref.key(one(t, pr + [[nm, p, x]], n, v, len(pr))))
        t.outcome("multi")
    elif k == "empty":
        n = d["n"]
        got = Circuit(n).run()
        t.trace()
        t.trans()
        t.check(ref.same(got, ref.run([], n)), f"empty circuit on {n} qubits gives {got}")
        t.state(("empty", n))
