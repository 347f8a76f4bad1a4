"""Measurement and reset: every branch of the random source explored on the real simulator."""
import itertools, math
import numpy as np
from mc import ref, rng, dist
from mc.build import circ, rprog, add, generic_prefix
from blueqat import Circuit

A = 2 * math.pi / 3            # ry(A)|0> gives 0 with probability 1/4
BOUNDS = {
 "quick": "all programs of length <=4 (the longest ending in a measurement or reset) over 15 operations on 2 qubits; 13 entangled 3-qubit preparations x 64 measurement/reset suffixes x 4 second suffixes, 4/5 qubit chains with every ordered pair/slice; every branch explored "
          "(4-cell random source, exact for probabilities k/4); entangled states n=7..10 (13: some) x ordered pairs of measured/reset qubits; single measurements/resets of generic states n=1..6 with a 256-cell source (n=7..10: 16 cells; n=12, 17: 5 qubits, 4 cells); extreme draws on basis states; outcomes of probability 1e-1..4e-12: the draw at which the outcome changes located by bisection",
 "thorough": "length <=5 on 2 qubits, all pairs of the 64 suffixes, 1024-cell source"}


def s(a=None, b=None, c=None):
    return ["s", a, b, c]


OPS2 = [["h", [], 0], ["h", [], 1], ["x", [], 0], ["ry", [A], 1], ["cx", [], ["t", [0, 1]]], ["cx", [], ["t", [1, 0]]], ["s", [], 0],
        ["m", [], 0], ["m", [], 1], ["measure", [], s()], ["measure", [], ["t", [1, 0]]], ["reset", [], 0], ["reset", [], 1], ["reset", [], s()],
        ["cz", [], ["t", [0, 1]]]]
h = lambda q: ["h", [], q]
cx = lambda a, b: ["cx", [], ["t", [a, b]]]
PREP3 = [
    [h(0), cx(0, 1), cx(1, 2)], [h(0), h(1), h(2)], [["ry", [A], 0], ["ry", [-A], 1], ["h", [], 2]], [h(0), cx(0, 2), ["x", [], 1]],
    [h(2), cx(2, 0), ["ry", [A], 1]], [["x", [], s()]], [["ry", [A], 0], cx(0, 1), cx(0, 2)], [h(0), h(1), ["ccx", [], ["t", [0, 1, 2]]]],
    [["ry", [A], 2], ["ch", [], ["t", [2, 0]]], cx(0, 1)], [h(0), ["cs" if False else "s", [], 0], h(1), cx(1, 2), ["cz", [], ["t", [0, 1]]]],
    [h(1), ["cswap", [], ["t", [1, 0, 2]]], ["rx", [A], 0]], [["u3", [A, 0.3, 1.1], 1], cx(1, 0), h(2)], [h(0), ["cry", [A], ["t", [0, 1]]], ["x", [], 2]]]
TG = [0, 1, 2, -1, s(), s(1), s(None, 2), s(None, None, -1), s(None, None, 2), ["t", [0, 2]], ["t", [2, 0]], ["t", [1, 1]], ["t", [2, 0, 1]],
      ["t", [s(1), 0]], ["t", [0, 1, 0]], ["t", []]]
SUF = [[[nm, [], t]] for nm in ("m", "reset") for t in TG] + \
      [[["m", [], a], h(b), ["m", [], c]] for a, b, c in ((0, 0, 0), (0, 1, 0), (1, 1, 1), (2, 0, 2), (0, 0, s()), (s(), 1, 1), (s(), s(), s()), (1, 2, 2))] + \
      [[["m", [], a], cx(a, b), ["m", [], b]] for a in range(3) for b in range(3) if a != b] + \
      [[["reset", [], a], h(a), ["m", [], s()]] for a in range(3)] + [[["m", [], a], ["reset", [], a], ["m", [], b]] for a in range(3) for b in range(3)] + \
      [[["reset", [], a], ["x", [], a], cx(a, b), ["m", [], b]] for a, b in ((0, 1), (1, 2), (2, 0), (0, 2), (1, 0), (2, 1))]


def cases(tier):
    out = []
    L = 4 if tier == "quick" else 5
    for a in range(len(OPS2)):
        for b in range(len(OPS2)):
            out.append(dict(kind="seq", a=a, b=b, depth=L))
    for p in range(len(PREP3)):
        for i in range(len(SUF)):
            out.append(dict(kind="p3", p=p, i=i, full=tier == "thorough"))
    for n in (4, 5):
        for nm in ("m", "reset"):
            out.append(dict(kind="chain", n=n, name=nm))
    for n in range(1, 7):
        out.append(dict(kind="generic", n=n, grid=256 if tier == "quick" else 1024))
    for n in range(7, 11):
        out.append(dict(kind="generic", n=n, grid=16))
        out.append(dict(kind="wide", n=n))
    for n in (12, 17):
        out.append(dict(kind="generic", n=n, grid=4, some=True))
    out.append(dict(kind="wide", n=13, some=True))
    out.append(dict(kind="extreme"))
    for n in (1, 2):
        out.append(dict(kind="partial", n=n))
    for i in range(len(TINY)):
        out.append(dict(kind="tiny", i=i))
    return out


# probabilities of one outcome; the draws at which the outcome changes are located exactly
TINY = [0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 4e-12]


class Draws(rng.Script):
    """answers every uniform draw by `x`; a weighted choice is resolved by its cumulative weights"""
    def __init__(self, xs):
        super().__init__()
        self.xs = list(xs)
        self.n = 0

    def u(self):
        self.n += 1
        return self.xs[min(self.n, len(self.xs)) - 1]

    def idx(self, n, weights=None):
        x = self.u()
        c = 0.0
        for i in range(n - 1):
            c += 1.0 / n if weights is None else weights[i]
            if x < c:
                return i
        return n - 1


def tiny(t, p):
    """the set of draws giving each outcome has that outcome's Born probability, however small"""
    last = 1 - 2.0 ** -53
    for q in (p, 1 - p):
        th = 2 * math.atan2(math.sqrt(1 - p if q != p else p), math.sqrt(p if q != p else 1 - p))      # probability of 1 is q
        for n, pre, k in ((1, [["ry", [th], 0]], 0), (2, [["ry", [th], 0], cx(0, 1)], 1), (2, [["ry", [th], 1], h(0)], 1), (3, [["ry", [th], 2], cx(2, 0), ["rz", [0.4], 2]], 0)):
            v = ref.run(rprog(pre), n)
            for nm in ("m", "reset"):
                prog = pre + [[nm, [], k]]
                br = [(pr, b, x) for pr, b, x in ref.branches(rprog(prog), n)]
                one = circ(prog, n)

                def outcome(u):
                    src = Draws([u])
                    with rng.active(src):
                        vec, sh = one.run(shots=1, returns="statevector_and_shots")
                    t.trace(), t.trans()
                    t.check(src.n == 1, lambda: f"{prog}: {src.n} draws for one {nm}")
                    bits = next(iter(sh))
                    f = [j for j, (pr, b, x) in enumerate(br) if "".join(map(str, b)) == bits and abs(abs(np.vdot(vec, x)) - 1) < 1e-3]
                    t.check(len(f) >= 1, lambda: f"{prog} with draw {u}: {sh} {vec} is no outcome")
                    # for a reset the two branches may be the same state; tell them apart by nothing then
                    return tuple(f)
                a, b = outcome(0.0), outcome(last)
                pa = sum(br[j][0] for j in a)
                if len(a) == len(br):
                    continue
                t.check(a != b, lambda: f"{prog}: draws 0 and {last} give the same outcome, although the other has probability {1 - pa:.3g}")
                lo, hi = 0.0, last
                # the smaller side is located with a relative precision of 1e-4
                while True:
                    if hi - lo <= max(1e-4 * min(max(lo, 1e-300), 1 - hi), 2.0 ** -52):
                        break
                    mid = (lo + hi) / 2 if lo > 1e-3 else max(math.sqrt(max(lo, 1e-18) * hi), lo + (hi - lo) * 1e-3) if hi < 1 - 1e-3 else (lo + hi) / 2
                    if not lo < mid < hi:
                        break
                    c = outcome(mid)
                    t.check(c in (a, b), lambda: f"{prog} with draw {mid}: a third outcome")
                    if c == a:
                        lo = mid
                    else:
                        hi = mid
                got = (lo + hi) / 2
                tol = 1e-3 * min(pa, 1 - pa) + 4e-16
                t.check(abs(got - pa) < tol, lambda: f"{prog}: the outcome of draw 0 comes for all draws up to {got!r}, its probability is {pa!r} (other outcome {1 - pa:.6g})")
                t.state((p, q, n, k, nm))
    t.outcome("thresholds")


def best_grid(prog, n):
    """smallest exact grid, or None; bounded number of paths"""
    m = sum(len(ref.elementary(o[0], ref.to_py(o[2]), n)) for o in prog if o[0] in ("m", "measure", "reset"))
    if m > 8:
        return None
    pr = dist.cond_probs(rprog(prog), n)
    for g in (2, 4):
        if g ** m <= 260 and dist.on_grid(pr, g):
            return g
    return None


def explore(t, prog, n, grid=None, base=None, vec0=None):
    """all branches of running prog; compares with the reference. base: circuit already holding a prefix (cached state)"""
    grid = grid or best_grid(prog, n)
    if grid is None:
        t.outcome("outside the bounds (grid or path count)")
        return
    got = dist.Dist()
    paths = 0

    def go():
        c = circ(prog, n) if base is None else base.copy()
        if base is not None:
            for op in prog:
                add(c, op)
        return c.run(shots=1, returns="statevector_and_shots")
    for (vec, shots), w, path in rng.explore(go, grid):
        t.check(len(shots) == 1 and sum(shots.values()) == 1, lambda: f"{prog}: one shot gave {shots}")
        nrm = float(np.linalg.norm(vec))
        t.check(abs(nrm - 1) < 1e-8, lambda: f"{prog} branch {path}: norm {nrm}")
        got.add(next(iter(shots)), vec, w)
        paths += 1
    t.trace(paths)
    t.trans(paths)
    exp = dist.reference(rprog(prog), n, vec0)
    d = got.diff(exp)
    t.check(d is None, lambda: f"{prog} on {n} qubits: simulator (first) and Born rule (second) differ: {d}")
    for label, l in exp.items.items():
        for v, w in l:
            t.state((label, ref.key(v, 5)))
    t.outcome(f"{exp.count()} branches")
    return exp


def run_case(t, d):
    k = d["kind"]
    if k == "seq":
        a, b = OPS2[d["a"]], OPS2[d["b"]]
        for r in range(0, d["depth"] - 1):
            for rest in itertools.product(OPS2, repeat=r):
                prog = [a, b] + list(rest)
                if not any(x[0] in ("m", "measure", "reset") for x in prog):
                    continue
                if r >= 2 and prog[-1][0] not in ("m", "measure", "reset"):
                    continue
                explore(t, prog, 2)
        t.sample([a, b])
    elif k == "p3":
        pre = PREP3[d["p"]]
        suf2 = [[]] + ([x for x in SUF] if d["full"] else SUF[::16])
        for s2 in suf2:
            prog = pre + SUF[d["i"]] + s2
            explore(t, prog, 3)
    elif k == "chain":
        n, nm = d["n"], d["name"]
        pre = [h(0)] + [cx(q, q + 1) for q in range(n - 2)] + [["ry", [A], n - 1], ["ry", [A], 0] if False else h(n - 2)]
        tg = [["t", [a, b]] for a in range(n) for b in range(n)] + [s(a, b, c) for a in (None, 0, 1, -2) for b in (None, 2, -1) for c in (None, 2, -1)]
        for x in tg:
            prog = pre + [[nm, [], x]]
            explore(t, prog, n)
            explore(t, prog + [h(0), ["m", [], ["t", [0, n - 1]]]], n)
    elif k == "generic":
        n, g = d["n"], d["grid"]
        pre = generic_prefix(n)
        v = ref.run(pre, n)
        base = circ(pre, n)
        base.run()
        for nm in ("m", "reset"):
            for q in (0, 1, n // 2, n - 2, n - 1) if d.get("some") else range(n):
                exp = dist.reference([[nm, [], q]], n, v)
                got = dist.Dist()

                def go():
                    c = base.copy()
                    add(c, [nm, [], q])
                    return c.run(shots=1, returns="statevector_and_shots")
                for (vec, shots), w, path in rng.explore(go, g):
                    got.add(next(iter(shots)), vec, w)
                    t.trace(), t.trans()
                df = got.diff(exp, wtol=1.01 / g)
                t.check(df is None, lambda: f"{nm}[{q}] on a generic {n}-qubit state: {df}")
                t.state((n, nm, q))
        t.outcome("generic")
    elif k == "wide":
        # GHZ-like and product states on many qubits; all ordered pairs of measured/reset qubits, long selections
        n = d["n"]
        pre = [h(n - 1)] + [cx(n - 1, q) for q in range(0, n - 1, 2)] + [h(1), cx(1, 3), ["ry", [A], 5]]
        base = circ(pre, n)
        base.run()
        v = ref.run(rprog(pre), n)
        for a in range(n):
            for b in range(n):
                for nm in ("m", "reset"):
                    if d.get("some") and (a, b) not in ((0, n - 1), (n - 1, 3), (4, 4), (n - 2, 1)):
                        continue
                    if (a + b) % 3 == 0 or a == n - 1 or b == n - 1:
                        explore(t, [[nm, [], ["t", [a, b]]], ["m", [], b]], n, 4, base, v)
        for nm in ("m", "reset"):
            for x in (s(0, 3), s(n - 1, n - 4, -1), s(None, None, 4), ["t", [n - 1, 0, s(1, 3)]]):
                explore(t, [[nm, [], x]], n, 4, base, v)
        for tail in ([["x", [], 2], ["m", [], ["t", [n - 1, 2, 1]]]], [["m", [], 0], cx(0, n - 2), ["m", [], n - 2]], [["reset", [], n - 1], cx(n - 1, 0), ["m", [], ["t", [0, 2]]]]):
            explore(t, tail, n, 4, base, v)
    elif k == "extreme":
        # outcomes of probability zero never occur, however extreme the draw
        for n in (1, 2, 3):
            for b in range(2 ** n):
                for nm in ("m", "reset"):
                    for u in (0.0, 1 - 2.0 ** -53, 5e-324):
                        prog = [["x", [], q] for q in range(n) if b >> q & 1] + [[nm, [], s()]]
                        with rng.active(rng.Script(u=lambda _: u, idx=lambda _, m: 0 if u < .5 else m - 1)):
                            vec, sh = circ(prog, n).run(shots=1, returns="statevector_and_shots")
                        bits = "".join(str(b >> q & 1) if nm == "m" else "0" for q in range(n))
                        exp = ref.run([], n) if nm == "reset" else ref.run(prog[:-1], n)
                        t.check(dict(sh) == {bits: 1} and ref.same(vec, exp), lambda: f"{prog} with draw {u}: {sh} {vec}")
                        t.trace(), t.trans()
                        t.state((n, b, nm))
        t.outcome("extreme draws")
    elif k == "tiny":
        tiny(t, TINY[d["i"]])
    elif k == "partial":
        # very unequal probabilities: the rare branch must still be the normalised projection
        n = d["n"]
        for th in (1e-3, 0.02, 0.2, 3e-4, math.pi - 0.2, math.pi - 1e-3, math.pi - 0.02):
            for nm in ("m", "reset"):
                pre = [["ry", [th], 0]] + ([h(1), ["cry", [0.7], ["t", [0, 1]]]] if n == 2 else [])
                br = ref.branches(rprog(pre) + [[nm, [], 0]], n)
                for u in (1e-9, 0.5, 1 - 1e-9):
                    with rng.active(rng.Script(u=lambda _: u, idx=lambda _, m: 0 if u < .5 else m - 1)):
                        vec, sh = circ(pre + [[nm, [], 0]], n).run(shots=1, returns="statevector_and_shots")
                    bits = next(iter(sh))
                    ok = any("".join(map(str, b)) == bits and ref.same(vec, v, 1e-7) for p, b, v in br)
                    t.check(ok, lambda: f"ry({th}) then {nm} with draw {u}: {sh} {vec}")
                    t.trace(), t.trans()
                    t.state((n, th, nm, bits))
