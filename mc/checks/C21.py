"""The qgate backend against the circuit's semantics; qgate itself is a stand-in (mc/qgate_stub.py)."""
import collections, itertools, math, random, warnings
import numpy as np
from mc import qgate_stub
qgate_stub.install()
from mc import ref, rng, dist
from mc.build import circ, rprog, instances, targets, generic_prefix, near_params
from mc.checks.C01 import multi_targets, GRID1, G2, G3
from mc.checks.C04 import PREP3, SUF, TG, s, h, cx
from blueqat import Circuit
from blueqat.gate import Gate

BOUNDS = {
 "quick": "every gate qgate is given (26 names) x all target tuples n<=4, negative and sliced targets, after a generic preparation; parameter grids (82; 9^2; 7^3; angles beside the quarter turns); all pairs of instances n=2; programs of 13 gates; "
          "13 preparations x 16 final measurements x shots 1, 2, 3 x both sampling methods, and x all measurement-only suffixes with returns='statevector_and_shots', mid-circuit measurements included: exact outcome distributions by enumeration of every draw; all single qubits and ordered pairs measured on 5 to 12 qubits; unsupported operations; all option combinations",
 "thorough": "plus all pairs n=3 and all pairs of final measurements"}
ASSUMPTIONS = ["qgate's registers, operators, simulators and sampling pools behave like the stand-in mc/qgate_stub.py (qgate is not installed here); its U2 and U gates carry the phase convention of blueqat's u2 and u3",
               "reference model mc/ref.py is correct"]
GOOD = [g for g in ref.UNITARY if g not in ("cy", "ch", "cswap", "rxx", "ryy", "rzz", "ccz")]
BAD = ["cy", "ch", "cswap", "rxx", "ryy", "rzz", "reset"]
ZERO = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}
PREPS = [p for p in PREP3 if all(o[0] in GOOD for o in p)]
FINAL = [[["m", [], t]] for t in TG if t != ["t", []]] + [[["m", [], 0], ["m", [], 2]], [["m", [], 2], ["m", [], 0], ["m", [], 0]], [["m", [], 1], h(0), ["m", [], 0]], [["m", [], 1], cx(1, 2), ["m", [], 2]],
                                                         [["m", [], s()], ["i", [], 1]], [["m", [], 0], ["cz", [], ["t", [0, 1]]]]]
MID = [x for x in SUF if all(o[0] in ("m", "h", "cx", "x") for o in x)]


def cases(tier):
    out = []
    for nm in GOOD:
        for n in (1, 2, 3, 4):
            out.append(dict(kind="gate", name=nm, n=n))
        if ref.NPARAM[nm]:
            out.append(dict(kind="grid", name=nm))
        out.append(dict(kind="long", name=nm))
    for n in (2,) if tier == "quick" else (2, 3):
        for a in range(len(pairs(n))):
            out.append(dict(kind="pair", a=a, n=n))
    for p in range(len(PREPS)):
        out.append(dict(kind="final", p=p, full=tier != "quick"))
        out.append(dict(kind="sv", p=p))
        out.append(dict(kind="mid", p=p))
    for n in (5, 6, 8, 11, 12):
        out.append(dict(kind="wide", n=n))
    for nm in BAD:
        out.append(dict(kind="bad", name=nm))
    for k in range(4):
        out.append(dict(kind="opts", k=k))
    return out


def pairs(n):
    return instances([x for x in GOOD if n > 2 or x not in ref.THREE], n, ZERO)


def run(c, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return c.run(backend="qgate", **k)


def same_state(t, prog, n, must=True):
    c = circ(prog, n)
    before = str(c)
    n = ref.n_of(rprog(prog), n)
    t.trans(len(prog)), t.trace()
    try:
        v = run(c)
    except Exception as ex:
        t.check(not must, lambda: f"{prog} on {n} qubits: qgate backend raised {ex!r}")
        t.outcome("refused")
        return
    e = ref.run(rprog(prog), n)
    t.check(np.shape(v) == e.shape and ref.same(v, e, 1e-7), lambda: f"{prog} on {n} qubits: qgate is given a program for {np.round(v, 4)}, circuit is {np.round(e, 4)}")
    t.check(str(c) == before and c.n_qubits == n, lambda: f"{prog}: the circuit was changed to {c}")
    t.state(str(prog))


def law(t, prog, n, exp, key=None, late=None, **opts):
    """exact distribution of what run() returns"""
    got = dist.Dist()
    # bit by bit sampling draws real numbers: exact on a grid for stabilizer states only, otherwise the outcomes must be possible ones
    exact = opts.get("sampling") != "blueqat" or all(o[0] in ("h", "x", "cx", "cz", "s", "i", "m") for o in prog)
    for r, w, _ in rng.explore(lambda: run(circ(prog, n), **opts), grid=4):
        if isinstance(r, tuple):
            v, r = r
        else:
            v = None
        t.check(isinstance(r, collections.Counter), lambda: f"{prog} {opts}: {r!r}")
        got.add(str(sorted(r.items())), v, w)
        t.trans()
    t.trace()
    d = got.diff(exp, 1e-7) if exact else next((f"{x} is not possible" for x in got.items if x not in exp.items), None)
    if d is not None and late is not None and got.diff(late, 1e-7) is not None:
        key = None          # not the recorded finding either
    t.check(d is None, lambda: f"{prog} on {n} qubits, {opts}: qgate backend (first) and circuit (second): {d}", key=key)
    t.state((str(prog), str(opts)))


def shots_law(prog, n, N):
    one = collections.Counter()
    for p, b, v in ref.branches(rprog(prog), n):
        one["".join(map(str, b))] += p
    d = dist.Dist()
    for combo in itertools.product([(b, p) for b, p in one.items() if p > 1e-12], repeat=N):
        d.add(str(sorted(collections.Counter(b for b, _ in combo).items())), None, math.prod(p for _, p in combo))
    return d


def touched_later(prog):
    """a gate other than a diagonal or control use acts on a qubit after its measurement, or it is measured and changed"""
    seen = set()
    for nm, _, ex in rprog(prog):
        n = ref.n_of(rprog(prog), 3)
        for qs in ref.elementary(nm, ref.to_py(ex), n):
            if nm in ("m", "measure"):
                seen |= set(qs)
            elif nm in ("i", "z", "s", "t", "sdg", "tdg", "rz", "phase", "u1", "cz", "crz", "cphase", "cu1"):
                pass
            elif set(qs[-1:]) & seen:
                return True
    return False


def run_case(t, d):
    k = d["kind"]
    if k in ("gate", "long"):
        nm = d["name"]
        if k == "long":
            n = 3
            prog = generic_prefix(3)
            alpha = [["h", [], 1], ["s", [], 2], ["cx", [], ["t", [2, 0]]], ["rx", [0.4], 1], ["crz", [1.1], ["t", [1, 2]]], ["tdg", [], 0],
                     ["swap", [], ["t", [0, 2]]], ["ry", [-0.8], 2], ["ccx", [], ["t", [2, 0, 1]]], ["u3", [0.2, 0.5, -1.0], 0], ["cz", [], ["t", [0, 1]]], ["sdg", [], s()]]
            for tg in targets(nm, 3):
                same_state(t, prog + alpha[:6] + [[nm, ZERO[ref.NPARAM[nm]][0], tg]] + alpha[6:12], n)
            t.outcome("long programs")
            return
        n = d["n"]
        pre = generic_prefix(n)
        for pp in ZERO[ref.NPARAM[nm]]:
            for tg in targets(nm, n):
                same_state(t, pre + [[nm, pp, tg]], n)
            for tg in multi_targets(nm, n) if n > 2 else ():
                same_state(t, pre + [[nm, pp, tg]], n, must=nm not in ("swap", "ccx", "toffoli"))
        t.outcome("gate")
    elif k == "grid":
        nm = d["name"]
        m = ref.NPARAM[nm]
        pre = generic_prefix(2)
        for pp in itertools.product({1: GRID1, 2: G2, 3: G3}[m], repeat=m):
            same_state(t, pre + [[nm, list(pp), targets(nm, 2)[-1]]], 2)
        for pp in near_params(m):
            same_state(t, pre + [[nm, pp, targets(nm, 2)[0]]], 2)
        t.outcome("parameters")
    elif k == "pair":
        L = pairs(d["n"])
        for b in L:
            same_state(t, generic_prefix(d["n"])[:5] + [L[d["a"]], b], d["n"])
        t.outcome("pairs")
    elif k == "final":
        for i, f in enumerate(FINAL):
            for N in (1, 2, 3):
                for how in ({}, {"sampling": "qgate"}, {"sampling": "blueqat"}, {"returns": "shots", "runtime": "py"}):
                    if N == 3 and how or N == 2 and how.get("runtime"):
                        continue
                    law(t, PREPS[d["p"]] + f, 3, shots_law(PREPS[d["p"]] + f, 3, N), shots=N, **how)
            if d["full"]:
                for g in FINAL:
                    if not touched_later(f + g):
                        law(t, PREPS[d["p"]] + f + g, 3, shots_law(PREPS[d["p"]] + f + g, 3, 2), shots=2)
        t.outcome("final measurements")
    elif k == "mid":
        for f in MID:
            prog = PREPS[d["p"]] + f
            end = [o for o in prog if o[0] != "m"] + [o for o in prog if o[0] == "m"]
            law(t, prog, 3, shots_law(prog, 3, 1), shots=1, key="sampled-at-the-end" if touched_later(f) else None, late=shots_law(end, 3, 1))
        t.outcome("measurements inside the program, sampled")
    elif k == "sv":
        for f in MID + FINAL:
            prog = PREPS[d["p"]] + f
            e = dist.Dist()
            for p, b, v in ref.branches(rprog(prog), 3):
                e.add(str([("".join(map(str, b)), 1)]), v, p)
            for o in ({}, {"shots": 1}):
                law(t, prog, 3, e, returns="statevector_and_shots", **o)
            got, exp = dist.Dist(), dist.Dist()
            for v, w, _ in rng.explore(lambda: run(circ(prog, 3), returns="statevector")):
                got.add("", v, w)
            for p, b, v in ref.branches(rprog(prog), 3):
                exp.add("", v, p)
            df = got.diff(exp, 1e-7)
            t.check(df is None, lambda: f"{prog}: {df}")
        t.outcome("state and shots")
    elif k == "wide":
        wide(t, d["n"])
    elif k == "bad":
        nm = d["name"]
        for n in (1, 2, 3):
            for tg in targets(nm, n):
                for pp in ZERO[ref.NPARAM[nm]]:
                    if nm == "reset":
                        prog = [["x", [], tg], [nm, pp, tg]]
                        try:
                            v = run(circ(prog, n))
                        except Exception:
                            t.outcome("refused")
                            continue
                        t.check(ref.same(v, ref.run([], n)), lambda: f"{prog}: {v}")
                    else:
                        same_state(t, generic_prefix(n) + [[nm, pp, tg]], n, must=False)
                    t.trans(), t.trace()
        t.state(nm)

        class Odd(Gate):
            lowername = "odd"
        try:
            v = run(Circuit(1, [Odd(0)]))
        except Exception:
            t.outcome("unknown gate refused")
        else:
            t.check(False, f"a gate qgate does not know was left out: {v}")
    elif k == "opts":
        options(t, d["k"])


def wide(t, n):
    """every single and every pair of qubits measured on a wide register; one-hot, full and entangled contents"""
    sets = [(a,) for a in range(n)] + list(itertools.permutations(range(n), 2)) + [tuple(range(n)), tuple(range(n))[::-1], tuple(range(0, n, 2)), tuple(range(n - 1, 0, -3)), (0, 0, n - 1)]
    for qs in sets:
        for pre in ([["x", [], qs[-1]]], [["x", [], ["t", list(range(n))]], ["x", [], qs[0]]], [h(qs[0]), ["cx", [], ["t", [qs[0], (qs[0] + 1) % n]]]]):
            prog = pre + [["m", [], ["t", list(qs)]]]
            for how in ({}, {"sampling": "blueqat"}) if len(qs) < 4 else ({},):
                law(t, prog, n, shots_law(prog, n, 1), shots=1, **how)
            e = dist.Dist()
            for p, b, v in ref.branches(rprog(prog), n):
                e.add(str([("".join(map(str, b)), 1)]), v, p)
            law(t, prog, n, e, returns="statevector_and_shots")
    t.outcome("wide registers")


def options(t, k):
    prog = [[["x", [], 1], ["m", [], s()]], [h(0), cx(0, 2), ["m", [], 2]], [["ry", [0.7], 0], ["m", [], 0]], [["x", [], 2], ["cx", [], ["t", [2, 0]]], ["m", [], ["t", [2, 0]]]]][k]
    n = 3
    br = [("".join(map(str, b)), v) for p, b, v in ref.branches(prog, n)]
    labels = {b for b, _ in br}
    log = qgate_stub.Simulator.LOG
    for kind in (None, "cpu", "cuda", "py", "gpu", ""):
        for ret in (None, "statevector", "shots", "statevector_and_shots", "counts", "Shots"):
            for shots in (None, 1, 2, 5):
                for prep in (None, "static"):
                    for u in (0.1, 0.9):
                        kw = {a: b for a, b in (("runtime", kind), ("returns", ret), ("shots", shots), ("circuit_prep", prep)) if b is not None}
                        del log[:]
                        t.trans(), t.trace()
                        t.state((k, str(kw)))
                        eff = ret or ("shots" if shots else "statevector")
                        bad = kind in ("gpu", "") or ret in ("counts", "Shots") or ret == "statevector_and_shots" and shots in (2, 5)
                        if eff == "shots" and not shots:
                            continue
                        try:
                            with rng.active(rng.Script(u=lambda _: u, idx=lambda _, m: int(u * m))):
                                r = run(circ(prog, n), **kw)
                        except Exception as ex:
                            t.check(bad, lambda: f"{prog} {kw}: {ex!r}")
                            continue
                        t.check(not bad, lambda: f"{prog} accepted {kw}: {r!r}")
                        t.check([x[0] for x in log] == [kind or "cpu"], lambda: f"{kw}: simulators used {log}")
                        t.check(log[0][1].get("circuit_prep") == (prep or "dynamic"), lambda: f"{kw}: simulators used {log}")
                        if eff == "statevector":
                            t.check(any(ref.same(r, v, 1e-7) for _, v in br), lambda: f"{prog} {kw}: {r}")
                        elif eff == "shots":
                            t.check(sum(r.values()) == shots and len(r) > 0 and (shots < 2 or len(labels) > 1 or len(r) == 1) and all(len(x) == n for x in r), lambda: f"{prog} {kw}: {r}")
                        else:
                            v, r = r
                            t.check(sum(r.values()) == 1 and any(r.get(b) and ref.same(v, w, 1e-7) for b, w in br), lambda: f"{prog} {kw}: {r} {v}")
    # runs do not disturb each other: same circuit twice, through the same backend object, and a grown one
    c = circ(prog, n)
    b = c._backends.get("qgate") if hasattr(c, "_backends") else None
    for step in range(3):
        with rng.active(rng.Script(u=lambda _: 0.3, idx=lambda _, m: 0)):
            r = run(c, shots=2)
            t.check(sum(r.values()) == 2 and all(len(x) == c.n_qubits for x in r), lambda: f"run {step} of {prog}: {r}")
            c.x[c.n_qubits]
    t.outcome("options")
