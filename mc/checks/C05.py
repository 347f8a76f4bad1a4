"""Shots: every outcome sequence over N shots (and over several runs) explored on the real simulator."""
import itertools, math, collections, warnings
import numpy as np
from mc import ref, rng, dist
from mc.build import circ, rprog, add, long_alphabet
from mc.checks.C04 import s, h, cx, A, PREP3, SUF, OPS2
from blueqat import Circuit

BOUNDS = {
 "quick": "all programs of length <=3 over 15 operations on 2 qubits (<=1100 paths) and 13x64 three-qubit programs, N=1..3 shots and two consecutive runs (every outcome sequence); all shots x returns combinations incl. defaults and positional use; "
          "basis-state keys n=1..12; scripted draws for N up to 4099; runs of up to 4100 shots differing in one draw; registers of 9-13 qubits and programs of up to 60 gates around measurements, every outcome sequence for N=1..2",
 "thorough": "length <=4, N up to 5, three consecutive runs"}


def cases(tier):
    out = []
    L = 3 if tier == "quick" else 4
    for a in range(len(OPS2)):
        for b in range(len(OPS2)):
            out.append(dict(kind="seq", a=a, b=b, depth=L, N=3 if tier == "quick" else 5))
    for p in range(len(PREP3)):
        for i in range(0, len(SUF), 8):
            out.append(dict(kind="p3", p=p, lo=i, N=2 if tier == "quick" else 4))
    for n in range(1, 13):
        out.append(dict(kind="keys", n=n))
    for n in (9, 10, 11, 13):
        out.append(dict(kind="wide", n=n))
    for r in range(12):
        out.append(dict(kind="long", r=r))
    for n in (6, 8, 10):
        out.append(dict(kind="distinct", n=n))
    for N in (1025, 2200, 4100):
        for part in range(4):
            out.append(dict(kind="flip", N=N, part=part))
    for i in range(len(OPTPROGS)):
        out.append(dict(kind="opts", i=i))
        out.append(dict(kind="many", i=i))
    return out


OPTPROGS = [(2, [["x", [], 1], ["m", [], s()]]), (1, [h(0), ["m", [], 0]]), (2, [h(0), ["m", [], 0], cx(0, 1), h(0)]), (3, [["x", [], 0], h(1)]),
            (2, [h(0), ["reset", [], 0], ["m", [], s()]]), (3, [h(0), cx(0, 2), ["m", [], ["t", [2, 0]]], ["x", [], 1], ["m", [], 1]]), (1, [["x", [], 0], ["m", [], 0], ["m", [], 0]]),
            (4, [h(3), ["m", [], 3], ["m", [], 0], h(3), ["m", [], 3]])]


def draws(prog, n):
    return sum(len(ref.elementary(o[0], ref.to_py(o[2]), n)) for o in prog if o[0] in ("m", "measure", "reset"))


def grid_for(prog, n, total):
    m = draws(prog, n) * total
    pr = dist.cond_probs(rprog(prog), n)
    for g in (1, 2, 4):
        if g ** m <= 1100 and (dist.on_grid(pr, g)):
            return g
    return None


def product(single, N):
    """distribution of the histogram of N independent draws from single: {bits: p}"""
    d = {(): 1.0}
    for _ in range(N):
        nd = collections.defaultdict(float)
        for k, p in d.items():
            for b, q in single.items():
                nd[tuple(sorted(k + (b,)))] += p * q
        d = nd
    return d


def single(prog, n):
    d = collections.defaultdict(float)
    for p, bits, v in ref.branches(rprog(prog), n):
        d["".join(map(str, bits))] += p
    return d


def hist(sh):
    return tuple(sorted(sh.elements()))


def close(a, b):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-9 for k in set(a) | set(b))


def many_shots(t, prog, n, N):
    g = grid_for(prog, n, N)
    if g is None:
        t.outcome("outside the bounds")
        return
    got = collections.defaultdict(float)
    for sh, w, path in rng.explore(lambda: circ(prog, n).run(shots=N), g):
        t.check(sum(sh.values()) == N and all(len(k) == n and set(k) <= {"0", "1"} for k in sh), lambda: f"{prog} shots={N}: {sh}")
        got[hist(sh)] += w
        t.trace(), t.trans(N)
    exp = product(single(prog, n), N)
    t.check(close(got, exp), lambda: f"{prog} shots={N}: histogram distribution {dict(got)} expected {dict(exp)}")
    for k in got:
        t.state(k)
    t.outcome(f"N={N}")


def two_runs(t, prog, n, N1, N2, via):
    g = grid_for(prog, n, N1 + N2)
    if g is None:
        return
    got = collections.defaultdict(float)

    def go():
        c = circ(prog, n)
        r1 = c.run(shots=N1)
        c2 = c if via == "same" else c.copy()
        r2 = c2.run(shots=N2)
        return r1, r2
    for (r1, r2), w, path in rng.explore(go, g):
        got[(hist(r1), hist(r2))] += w
        t.trace(), t.trans(N1 + N2)
    s1 = single(prog, n)
    e1, e2 = product(s1, N1), product(s1, N2)
    exp = {(a, b): p * q for a, p in e1.items() for b, q in e2.items()}
    t.check(close(got, exp), lambda: f"{prog}: runs with {N1} and {N2} shots ({via}) not independent: {dict(got)} expected {exp}")


def last_state(t, prog, n, N):
    g = grid_for(prog, n, N)
    if g is None:
        return
    br = [("".join(map(str, b)), v) for p, b, v in ref.branches(rprog(prog), n)]
    for (vec, sh), w, path in rng.explore(lambda: circ(prog, n).run(shots=N, returns="statevector_and_shots"), g):
        t.check(sum(sh.values()) == N, f"{prog}: {N} shots gave {sh}")
        t.check(any(b in sh and ref.same(vec, v) for b, v in br), lambda: f"{prog} shots={N}: state {vec} does not belong to any observed shot {sh}")
        t.trace(), t.trans(N)


def long_marginal(t, prog, n):
    """the shots of a program with one measurement: both outcomes, in every order over three shots, at draws around the exact threshold"""
    br = {"".join(map(str, b)): (p, v) for p, b, v in ref.branches(rprog(prog), n)}
    for pat in itertools.product((1e-7, 1 - 1e-7), repeat=3):
        seq = iter(pat)
        last = []

        def u(_):
            last.append(next(seq))
            return last[-1]
        with rng.active(rng.Script(u=u, idx=lambda _, m: 0 if u(0) < .5 else m - 1)):
            vec, sh = circ(prog, n).run(shots=3, returns="statevector_and_shots")
        t.check(sum(sh.values()) == 3 and set(sh) <= set(br), lambda: f"{prog}: shots {sh}")
        t.check(any(k in sh and ref.same(vec, v) for k, (p, v) in br.items()), lambda: f"{prog}: state {vec} belongs to no observed shot {sh}")
        nlow = sum(1 for x in pat if x < .5)
        t.check(len(br) < 2 or sorted(sh.values()) == sorted(x for x in (nlow, 3 - nlow) if x), lambda: f"{prog}: draws {pat} gave {sh}")
        t.trace(), t.trans(3)
        t.state((str(prog)[:80], pat, str(sorted(sh.items()))))


def battery(t, prog, n, N):
    for k in range(1, N + 1):
        many_shots(t, prog, n, k)
    two_runs(t, prog, n, 1, 1, "same")
    two_runs(t, prog, n, 2, 1, "copy")
    last_state(t, prog, n, 2)


def run_case(t, d):
    k = d["kind"]
    if k == "seq":
        for r in range(d["depth"] - 1):
            for rest in itertools.product(OPS2, repeat=r):
                prog = [OPS2[d["a"]], OPS2[d["b"]]] + list(rest)
                battery(t, prog, 2, d["N"])
        t.sample([OPS2[d["a"]], OPS2[d["b"]]])
    elif k == "p3":
        for sf in SUF[d["lo"]:d["lo"] + 8]:
            battery(t, PREP3[d["p"]] + sf, 3, d["N"])
    elif k == "wide":
        n = d["n"]
        x = lambda q: ["x", [], q]
        for prog in ([h(n - 1), cx(n - 1, 2), ["m", [], s()]], [x(1), h(8), ["m", [], 8], ["m", [], 1]], [x(n - 2), h(n - 1), ["m", [], ["t", [n - 1, n - 2, 0]]]],
                     [h(0), cx(0, n - 1), x(8), ["m", [], n - 1], x(n - 1), h(n - 1), ["m", [], n - 1]], [x(n - 1), x(2), h(1), ["reset", [], n - 1], ["m", [], s(1)]],
                     [x(s(None, None, 2) if False else n - 1), ["ry", [A], n - 3], ["m", [], -3], ["m", [], -1]]):
            battery(t, prog, n, 2)
            last_state(t, prog, n, 3)
        t.outcome("wide")
    elif k == "long":
        al = long_alphabet([g for g in ref.UNITARY])
        r = d["r"] * 3 % len(al)
        al = al[r:] + al[:r]
        inv = [["h", [], 0], cx(0, 2)]
        for body in (al[:17], al, al + al[:20]):
            # a long prefix, its exact effect undone by resets, then a short measured part whose branches are enumerable
            cand = [body + [["reset", [], q] for q in ()] + [["m", [], q]] for q in range(3)]
            for prog in cand:
                long_marginal(t, prog, 3)
            clif = [g for g in body if g[0] in ("h", "x", "y", "z", "s", "sdg", "cx", "cy", "cz", "swap", "i")] * 5
            for prog in ([*clif, ["m", [], 0], ["m", [], s(1)]], clif[:9] + [["m", [], 1]] + clif + [["m", [], ["t", [2, 0]]]], inv + [["m", [], 2]] + clif + [["reset", [], 1]] + clif[::-1] + [["m", [], 0]]):
                many_shots(t, prog, 3, 2)
                if len(body) == 17:
                    two_runs(t, prog, 3, 1, 1, "same")
                    last_state(t, prog, 3, 2)
        t.outcome("long")
    elif k == "keys":
        n = d["n"]
        pats = range(2 ** n) if n <= 6 else [0, 1, 2 ** n - 1, 1 << (n - 1), 0b1011, 5 << (n - 4)] + [1 << q for q in range(n)]
        for b in pats:
            prog = [["x", [], q] for q in range(n) if b >> q & 1]
            c = circ(prog, n)
            c.m[:]
            r = c.run(shots=2)
            key = "".join(str(b >> q & 1) for q in range(n))
            t.check(dict(r) == {key: 2}, lambda: f"basis state {b} on {n} qubits: {r}, expected {key}")
            r = circ(prog, n).m[0].run(shots=1)
            t.check(dict(r) == {key[0] + "0" * (n - 1): 1}, lambda: f"unmeasured qubits in {r}")
            t.trace(2), t.trans(3)
            t.state((n, b))
        t.outcome("keys")
    elif k == "opts":
        n, prog = OPTPROGS[d["i"]]
        br = [("".join(map(str, b)), v) for p, b, v in ref.branches(rprog(prog), n)]
        labels = {b for b, _ in br}

        def is_state(v):
            return isinstance(v, np.ndarray) and any(ref.same(v, w) for _, w in br)

        def is_hist(h_, N):
            return isinstance(h_, collections.Counter) and sum(h_.values()) == N and set(h_) <= labels
        for pos in (False, True):
            for shots in (None, 1, 2, 7):
                for ret in (None, "statevector", "shots", "statevector_and_shots", "_inner_ctx"):
                    for how in ("run", "run_with_numpy", "backend"):
                        def go():
                            c = circ(prog, n)
                            f = c.run if how == "run" else c.run_with_numpy if how == "run_with_numpy" else (lambda *a, **kw: c.run(*a, backend="numpy", **kw))
                            if pos:
                                return f(shots, ret)
                            kw = {}
                            if shots is not None:
                                kw["shots"] = shots
                            if ret is not None:
                                kw["returns"] = ret
                            return f(**kw)
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            r = go()
                        eff = ret or ("statevector" if shots is None else "shots")
                        N = shots if shots is not None else (1 if eff in ("statevector", "_inner_ctx") else 1024)
                        if eff == "statevector":
                            ok = is_state(r)
                        elif eff == "shots":
                            ok = is_hist(r, N)
                        elif eff == "statevector_and_shots":
                            ok = isinstance(r, tuple) and len(r) == 2 and is_state(r[0]) and is_hist(r[1], N)
                        else:
                            ok = not isinstance(r, (np.ndarray, collections.Counter, tuple))
                        t.check(ok, lambda: f"{prog}: run(shots={shots}, returns={ret}, positional={pos}, {how}) gave {r!r}")
                        t.trace(), t.trans()
                        t.state((shots, ret, pos, how))
        for bad in ("", "Statevector", "counts", "shots ", 1, "_inner"):
            for shots in (None, 1, 3):
                c = circ(prog, n)
                try:
                    r = c.run(shots=shots, returns=bad)
                    t.check(False, f"unknown returns {bad!r} accepted: {r!r}")
                except (ValueError, TypeError) as ex:
                    t.check(isinstance(ex, ValueError), f"returns={bad!r}: {ex!r}")
                t.check(is_state(c.run()), "run after rejected returns")
                t.trace()
        r = circ(prog, n).run(shots=0, returns="shots")
        t.check(sum(r.values()) == 0, f"zero shots: {r}")
        t.outcome("options")
    elif k == "distinct":
        # histograms of hundreds of different outcomes
        n = d["n"]
        for N in (40, 300, 700):
            x = [12345 + N]

            def u(_):
                x[0] = (1103515245 * x[0] + 12345) % 2 ** 31
                return x[0] / 2 ** 31
            for prog in ([["h", [], s()], ["m", [], s()]], [["h", [], s()], ["m", [], s(None, None, -1)], ["reset", [], 0], ["m", [], 0]]):
                with rng.active(rng.Script(u=u, idx=lambda _, m: int(u(_) * m))):
                    r = circ(prog, n).run(shots=N)
                t.check(sum(r.values()) == N and all(len(b) == n and set(b) <= {"0", "1"} for b in r), lambda: f"{prog} on {n} qubits, shots={N}: {sum(r.values())} counts")
                t.check(len(r) > min(N, 2 ** (n - 1)) / 4, lambda: f"{prog} on {n} qubits, shots={N}: only {len(r)} different outcomes")
                t.trace(), t.trans(N)
                t.state((n, N, len(r)))
        t.outcome("many outcomes")
    elif k == "flip":
        # another outcome of one single draw changes one shot at most
        N = d["N"]
        pos = sorted({p + j for p in [2 ** e for e in range(13)] + list(range(0, N, 500)) for j in (-1, 0, 1)} | set(range(0, N, 61)))
        for prog, n in (([["h", [], 0], ["m", [], 0]], 1), ([["h", [], 0], ["reset", [], 0], ["h", [], 0], ["m", [], 0]], 1)):
            def go(p):
                cnt = itertools.count()
                with rng.active(rng.Script(u=lambda _: 0.9 if next(cnt) == p else 0.1, idx=lambda _, m: m - 1 if next(cnt) == p else 0)):
                    return dict(circ(prog, n).run(shots=N))
            base = go(-1)
            t.check(len(base) == 1 and sum(base.values()) == N, lambda: f"{prog} shots={N}: every shot gets the same draws, the histogram is {base}")
            b, = base
            for p in [p for p in pos if 0 <= p < N * (len(prog) - 1)][d["part"]::4]:
                r = go(p)
                t.check(sum(r.values()) == N and r.get(b, 0) >= N - 1, lambda: f"{prog} shots={N}: another outcome of the random draw number {p} alone changes {N - r.get(b, 0)} shots: {r}")
                t.trace(), t.trans(N)
                t.state((N, len(prog), p))
        t.outcome("one draw")
    elif k == "many":
        n, prog = OPTPROGS[d["i"]]
        labels = {"".join(map(str, b)) for p, b, v in ref.branches(rprog(prog), n)}
        for N in (5, 16, 100, 257, 1024, 4099):
            for k, pat in enumerate((lambda i: 0.1, lambda i: 0.9, lambda i: 0.1 + 0.8 * (i % 2), lambda i: 0.1 + 0.8 * (i % 3 == 0), lambda i: (i * 0.6180339887) % 1)):
                if N > 2000 and k not in (0, 4):
                    continue
                cnt = itertools.count()
                with rng.active(rng.Script(u=lambda _: pat(next(cnt)), idx=lambda _, m: int(pat(next(cnt)) * m))):
                    r = circ(prog, n).run(shots=N)
                t.check(sum(r.values()) == N and set(r) <= labels, lambda: f"{prog} shots={N}: {r}")
                t.check(k > 1 or len(r) == 1, lambda: f"{prog} shots={N}: every shot gets the same draws, the histogram is {r}")
                t.trace(), t.trans(N)
                t.state((d["i"], N, str(sorted(r.items()))))
        t.outcome("many shots")
