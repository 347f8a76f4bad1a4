"""Bit-string conversion and removal of the global phase on every small input; ignore_global over all option sequences of real runs."""
import itertools, collections, math, cmath
import numpy as np
from mc import numba_stub
numba_stub.install()
from mc import ref, rng
from mc.build import circ, rprog, add, generic_prefix
from blueqat import Circuit
from blueqat.utils import to_inttuple, ignore_global_phase

s = lambda a=None, b=None, c=None: ["s", a, b, c]
AMP = [0, 1, -1, 1j, 0.5 - 2e-3j, -0.7 + 4e-3j, 0.6 - 0.8j, -2e-3 + 1e-3j, 1e-5j, -3.0, 1e-9j, -1e-13, -1j, 0.5, -0.4 - 1e-4j, 0.3 + 1e-6j, 1e-3 - 0.8j, 2e-5 - 1e-7j, -1e-7 + 0.3j]
BOUNDS = {
 "quick": "to_inttuple: every bit string of length <=12, every dict/Counter over every subset of the strings of length <=2 (and of length 3 up to 3 keys), every string of length <=4 with one character outside 01, foreign types; "
          "ignore_global_phase: all vectors of length 1, 2, 4 over 19 amplitudes (length 4: 8), position of the first non-zero up to 64, and beside the powers of two up to 2^14; "
          "ignore_global runs: 24 programs x every sequence of 3 of 9 actions (run with/without the option, positional, with shots, returns, append, copy), on the default and the numba simulator; measured programs with every random outcome",
 "thorough": "bit strings <=16, 15 amplitudes at length 4, action sequences of length 4"}

PROGS = [(0, []), (1, []), (3, []), (1, [["rz", [0.7], 0]]), (1, [["x", [], 0], ["rz", [1.1], 0]]), (1, [["y", [], 0]]), (2, [["h", [], s()], ["u3", [0.3, 0.4, 0.9], 1]]),
         (2, [["x", [], 1], ["u1", [0.8], 1]]), (2, [["ry", [1e-3], 0], ["u2", [0.2, 1.7], 1], ["cx", [], ["t", [1, 0]]]]), (3, generic_prefix(3)), (3, [["y", [], s()], ["rzz", [0.9], ["t", [0, 2]]]]),
         (4, [["x", [], 3], ["rz", [-0.6], 3], ["h", [], 2], ["s", [], 2]]), (2, [["rx", [math.pi], s()], ["rz", [0.3], 0]]), (5, [["y", [], 4], ["tdg", [], 4], ["cu3", [0.4, 0.5, 0.6], ["t", [4, 0]]]]),
         (1, [["rx", [2e-5], 0], ["x", [], 0]]), (1, [["rx", [2e-5], 0], ["rz", [0.9], 0]])]
MEAS = [(1, [["h", [], 0], ["rz", [0.7], 0], ["m", [], 0]]), (2, [["h", [], 0], ["y", [], 1], ["m", [], 0], ["rz", [0.4], 0]]), (2, [["y", [], s()], ["m", [], s()]]), (2, [["h", [], s()], ["rz", [0.7], 0], ["reset", [], 0], ["y", [], 0]]),
        (2, [["u2", [0.3, 0.7], 0], ["cx", [], ["t", [0, 1]]], ["m", [], ["t", [1, 0]]], ["rz", [1.9], s()]])]
ACTS = ["run", "ig", "igF", "pos", "sv1", "both", "app", "cache", "copy"]


def cases(tier):
    out = []
    for n in range(0, 13 if tier == "quick" else 17):
        out.append(dict(kind="bits", n=n))
    for m in range(1, 2 ** 7):
        out.append(dict(kind="map", keys=[b for i, b in enumerate(["", "0", "1", "00", "01", "10", "11"]) if m >> i & 1]))
    for r in (1, 2, 3):
        for ks in itertools.combinations([format(i, "03b") for i in range(8)], r):
            out.append(dict(kind="map", keys=list(ks)))
    out.append(dict(kind="reject"))
    out.append(dict(kind="vec", n=1, head=[]))
    for a in range(len(AMP)):
        out.append(dict(kind="vec", n=2, head=[a]))
    R = 8 if tier == "quick" else 15
    for a, b in itertools.product(range(R if tier != "quick" else 12), repeat=2):
        out.append(dict(kind="vec", n=4, head=[a, b], R=R))
    out.append(dict(kind="long"))
    L = 3 if tier == "quick" else 4
    for be in (None, "numba"):
        for i in range(len(PROGS)):
            for a in ACTS:
                out.append(dict(kind="run", prog=i, head=a, depth=L, backend=be))
        for i in range(len(MEAS)):
            out.append(dict(kind="meas", prog=i, backend=be))
    return out


def run_case(t, d):
    {"bits": bits, "map": maps, "reject": reject, "vec": vecs, "long": long_, "run": runs, "meas": meas}[d["kind"]](t, d)


def bits(t, d):
    n = d["n"]
    for i in range(2 ** n):
        b = format(i, f"0{n}b") if n else ""
        r = to_inttuple(b)
        t.check(type(r) is tuple and r == tuple(ord(c) - 48 for c in b) and all(type(x) is int for x in r), lambda: f"to_inttuple({b!r}) = {r!r}")
        t.state(b)
    t.trans(2 ** n), t.trace(2 ** n)
    t.sample(dict(bits=b, result=list(r)))
    t.outcome("strings")


def maps(t, d):
    ks = d["keys"]
    exp = lambda k: tuple(map(int, k))
    for vals in ([1] * len(ks), list(range(len(ks))), [7 * i + 3 for i in range(len(ks))], [-i for i in range(len(ks))], [0.25 * i for i in range(len(ks))], [10 ** 20 + i for i in range(len(ks))]):
        for cont in (dict, collections.Counter):
            for order in (list(zip(ks, vals)), list(zip(ks, vals))[::-1]):
                src = cont()
                for k, v in order:
                    src[k] = v
                before = list(src.items())
                r = to_inttuple(src)
                t.check(isinstance(r, cont) and isinstance(r, collections.Counter) == (cont is collections.Counter) and r is not src, lambda: f"{src!r} gives a {type(r).__name__}")
                t.check(len(r) == len(src) and all(k in r and r[k] == v and type(r[k]) is type(v) for k, v in ((exp(k), v) for k, v in before)), lambda: f"to_inttuple({src!r}) = {r!r}")
                t.check(list(src.items()) == before, "the input was changed")
                t.trans(), t.trace()
                t.state((cont.__name__, tuple(before)))
    for vals in (["a"] * len(ks), [None] * len(ks), [(1, 2)] * len(ks)):
        src = dict(zip(ks, vals))
        r = to_inttuple(src)
        t.check(type(r) is dict and r == {exp(k): v for k, v in src.items()}, lambda: f"{src!r} -> {r!r}")
    t.outcome("containers")


def reject(t, d):
    def bad(x):
        try:
            r = to_inttuple(x)
        except ValueError:
            t.trans(), t.trace()
            t.state(repr(x))
            return
        t.check(False, f"to_inttuple({x!r}) = {r!r} instead of ValueError")
    for ch in "23456789 aAxX-+._\n\t,[](){}#\"'":
        for n in range(1, 5):
            for pos in range(n):
                for i in range(2 ** (n - 1)):
                    w = format(i, f"0{n - 1}b") if n > 1 else ""
                    w = w[:pos] + ch + w[pos:]
                    bad(w)
                    if n < 4:
                        bad({w: 1}), bad(collections.Counter({w: 2})), bad({"0" * n: 1, w: 3}), bad({w: 3, "1": 1})
    for x in (None, 0, 1, 101, 1.0, b"01", bytearray(b"01"), ["0", "1"], ("0", "1"), {"0", "1"}, frozenset(["01"]), [], (), object(), Circuit(1), iter("01"), np.array([0, 1])):
        bad(x)
    t.outcome("rejections")


def canon_check(t, vec, got, what, tol=1e-9):
    """got = vec * unit number, first non-zero amplitude real positive"""
    vec = np.asarray(vec, complex)
    got = np.asarray(got)
    nz = [i for i, a in enumerate(vec) if abs(a) > 1e-6]
    if not nz:
        t.check(got.shape == vec.shape and np.allclose(np.abs(got), np.abs(vec), atol=1e-12), lambda: f"{what}: {vec} became {got}")
        return
    k = nz[0]
    exp = vec * (abs(vec[k]) / vec[k])
    t.check(got.shape == vec.shape and np.max(np.abs(got - exp)) < tol * max(1, np.max(np.abs(vec))) and abs(got[k].imag) < tol and got[k].real > 0, lambda: f"{what}: {vec} became {got}, expected {exp}")


def vecs(t, d):
    n, head = d["n"], d["head"]
    R = AMP[:d.get("R", len(AMP))]
    for rest in itertools.product(R, repeat=n - len(head)):
        v = np.array([AMP[i] for i in head] + list(rest), dtype=complex)
        if not any(abs(v)):
            r = ignore_global_phase(v.copy())
            t.check(r is not None and not np.any(r), lambda: f"zero vector became {r}")
            continue
        r = ignore_global_phase(v.copy())
        t.check(isinstance(r, np.ndarray), f"returned {r!r}")
        canon_check(t, v, r, "ignore_global_phase")
        r2 = ignore_global_phase(r.copy())
        t.check(np.allclose(r, r2, atol=1e-12), lambda: f"not idempotent on {v}")
        t.trans(2), t.trace()
        t.state(v.tobytes())
    t.outcome("vectors")


def long_(t, d):
    for n in range(1, 7):
        for k in range(2 ** n):
            for th in (0, 0.3, math.pi / 2, 2.5, math.pi, -1.0, 3e-3, -2e-4, math.pi - 4e-3, math.pi + 1e-4, 1e-6, math.pi / 2 + 2e-3, 5.0):
                for m in (1.0, 0.5, 1e-3, 1e-5):
                    for tail in (0, 0.7j, -1):
                        v = np.zeros(2 ** n, complex)
                        v[k] = m * cmath.exp(1j * th)
                        v[k + 1:] = tail
                        canon_check(t, v, ignore_global_phase(v.copy()), "ignore_global_phase")
                        t.trans(), t.trace()
        t.state(n)
    for n in range(7, 15):
        for k in sorted({x for b in range(n + 1) for x in (2 ** b - 1, 2 ** b, 2 ** b + 1, 2 ** n - 2 ** b)} | {100, 101, 2 ** n - 1}):
            if 0 <= k < 2 ** n:
                for th, tail in ((0.3, 0), (math.pi, 0.7j), (-1.0, -1)):
                    v = np.zeros(2 ** n, complex)
                    v[k] = 0.5 * cmath.exp(1j * th)
                    v[k + 1:] = tail
                    canon_check(t, v, ignore_global_phase(v.copy()), "ignore_global_phase")
                    t.trans(), t.trace()
        t.state(n)
    t.outcome("positions")


def norm(v):
    nz = [i for i, a in enumerate(v) if abs(a) > 1e-7]
    return v * (abs(v[nz[0]]) / v[nz[0]])


def runs(t, d):
    n0, prog0 = PROGS[d["prog"]]
    kw0 = {} if d["backend"] is None else {"backend": d["backend"]}
    for rest in itertools.product(ACTS, repeat=d["depth"] - 1):
        seq = [d["head"], *rest]
        c = circ(prog0, n0)
        prog, n = list(prog0), ref.n_of(prog0, n0)
        for k, a in enumerate(seq):
            t.trans()
            if a == "app":
                op = ["rz", [0.3 + k], 0] if k % 2 else ["u3", [0.4 + k, 0.2, 0.9], 0]
                add(c, op)
                prog.append(op)
                n = max(n, 1)
                continue
            if a == "copy":
                c = c.copy()
                continue
            if a == "cache":
                c.make_cache(**kw0)
                continue
            # the gates' own phase is fixed by a fresh run (which phase is the simulator's choice, removing it is not)
            f = circ(prog, n).run(**kw0)
            if a == "run":
                got, want = c.run(**kw0), None
            elif a == "igF":
                got, want = c.run(ignore_global=False, **kw0), None
            elif a == "ig":
                got, want = c.run(ignore_global=True, **kw0), 1
            elif a == "sv1":
                got, want = c.run(shots=1, returns="statevector", ignore_global=True, **kw0), 1
            elif a == "pos":
                got, want = c.run(returns="statevector", ignore_global=True, shots=1, **kw0), 1
            else:
                got, cnt = c.run(shots=2, returns="statevector_and_shots", ignore_global=True, **kw0)
                want = 1
                t.check(n == 0 or dict(cnt) == {"0" * n: 2}, lambda: f"{prog}: counts {cnt}")
            t.trace()
            t.check(ref.same(got, ref.run(rprog(prog), n)), lambda: f"{seq}[{k}] of {prog}: {got}")
            if want:
                canon_check(t, f, got, f"{seq}[{k}] of {prog}, ignore_global=True", 1e-8)
            else:
                t.check(np.max(np.abs(got - f)) < 1e-8, lambda: f"{seq}[{k}] of {prog}: ignore_global not requested but {got} differs from a fresh run's {f}")
            got *= 0.123      # the caller's own
        t.state((str(prog), n, tuple(seq)))
    t.outcome("runs")


def meas(t, d):
    n, prog = MEAS[d["prog"]]
    kw = {} if d["backend"] is None else {"backend": d["backend"]}
    for shots in (1, 2):
        for returns in ("shots", "statevector", "statevector_and_shots"):
            res = []
            for ig in (False, True, None):
                l = {}
                opt = dict(kw) if ig is None else dict(kw, ignore_global=ig)
                for r, w, path in rng.explore(lambda: circ(prog, n).run(shots=shots, returns=returns, **opt), 4):
                    v, c = (r if returns == "statevector_and_shots" else (r, None) if returns == "statevector" else (None, r))
                    l[tuple(path)] = (v, dict(c) if c is not None else None, w)
                    t.trace(), t.trans(shots)
                res.append(l)
            off, on, df = res
            t.check(set(off) == set(on) == set(df), lambda: f"{prog}: the random source is used differently with ignore_global")
            for p in off:
                t.check(off[p][1] == on[p][1] == df[p][1], lambda: f"{prog} shots={shots} draws {p}: counts {off[p][1]} / {on[p][1]} / {df[p][1]}")
                if off[p][0] is not None:
                    canon_check(t, off[p][0], on[p][0], f"{prog} draws {p}, ignore_global=True", 1e-8)
                    t.check(np.max(np.abs(off[p][0] - df[p][0])) < 1e-9, lambda: f"{prog} draws {p}: default differs from ignore_global=False")
                t.state((d["prog"], shots, returns, p))
    # later runs, every outcome sequence
    for opts in itertools.product((False, True), repeat=3):
        def go():
            c = circ(prog, n)
            return [c.run(shots=1, returns="statevector_and_shots", ignore_global=o, **kw) for o in opts]
        br = [("".join(map(str, b)), v) for p, b, v in ref.branches(rprog(prog), n)]
        for r, w, path in rng.explore(go, 2):
            for o, (v, c) in zip(opts, r):
                t.check(any((b in c or not c) and ref.same(v, e) for b, e in br), lambda: f"{prog} {opts} draws {path}: {v} with {c}")
                if o:
                    canon_check(t, v, v, f"{prog} {opts}", 1e-8)
            t.trace(), t.trans(3)
    t.outcome("measured runs")
