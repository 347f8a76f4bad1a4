"""Index / slice semantics and qubit growth."""
import itertools, re
import numpy as np
from mc import ref
from mc.build import circ
from blueqat import Circuit

BOUNDS = {
 "quick": "declared sizes 0..5; ints -5..5; slices start/stop in None,-6..7, step in None,+-1..4; pairs and triples (tuples) over a 33 expression alphabet; "
          "24 wide expressions (indices to 12, sizes 0, 9, 12) alone and paired; joins (+, += and reversed) of two of 10 circuits (empty, of 9 and 13 gates, wider, negative and open targets) with growth and runs between; two-qubit control/target expressions over the same alphabet squared; growth sequences of 3 (with intermediate runs) and 4 operations over 14 expressions",
 "thorough": "sizes 0..8, slices start/stop -8..10 step +-1..5, otherwise as quick"}
TH = 0.9


def s(a=None, b=None, c=None):
    return ["s", a, b, c]


def slices(tier):
    lo, hi, st = (-6, 8, 5) if tier == "quick" else (-8, 11, 6)
    vals = [None] + list(range(lo, hi))
    steps = [None] + [k for k in range(-st + 1, st) if k]
    return [s(a, b, c) for a in vals for b in vals for c in steps]


ALPHA = [-5, -3, -2, -1, 0, 1, 2, 3, 5] + [s(), s(1), s(None, 2), s(None, -1), s(-2), s(1, 3), s(0, 2), s(2, 4), s(None, None, 2), s(1, None, 2),
         s(None, None, -1), s(3, None, -1), s(3, 0, -1), s(None, 1, -1), s(-1, -4, -1), s(2, 1), s(0, 0), s(4, 6), s(1, 4, 2), s(5, 2), s(7), s(-9, 9)] + [["t", []], ["t", [1, 0]]]
WIDE = [8, 9, 10, 11, 12, -9, -10, -12, s(), s(8, 12), s(9, None), s(None, 11), s(10, 8, -1), s(None, None, -3), s(0, 13, 6), s(-11, None, 5), s(11, None, -4), s(None, 2, -2), s(-3, -1), ["t", [12, 0, 11, 1, 10, 2, 9]], ["t", list(range(10))], s(1, 11), s(2, 12), s(9, -10, -1)]
GROW = [0, 2, -1, -2, s(), s(1, 3), s(None, None, -1), s(2), s(None, -1), 4, ["t", [0, -1]], s(3, 0, -1), ["t", [s(0, 1), 3]], s(0, 5, 2)]


def cases(tier):
    out = []
    ns = range(0, 6 if tier == "quick" else 9)
    for n in ns:
        for a in range(-5, 6):
            out.append(dict(kind="one", n=n, ex=[a]))
        sl = slices(tier)
        for i in range(0, len(sl), 11):
            out.append(dict(kind="one", n=n, ex=sl[i:i + 11]))
        for a in ALPHA:
            out.append(dict(kind="tup", n=n, a=a, deep=True))
            out.append(dict(kind="pair", n=n, a=a))
    for n in (0, 1, 3):
        for a, b in itertools.product(GROW, repeat=2):
            out.append(dict(kind="grow", n=n, ops=[a, b], deep=True))
    for n in range(0, 4):
        out.append(dict(kind="join", n=n))
    for n in (0, 9, 12):
        for i in range(len(WIDE)):
            out.append(dict(kind="wide", n=n, i=i))
    for n in range(0, 4):
        out.append(dict(kind="wrap", n=n))
    out.append(dict(kind="npint"))
    out.append(dict(kind="reject"))
    for n in range(0, 4):
        out.append(dict(kind="nested", n=n))
    return out


QRE = re.compile(r"q\[(-?\d+)\]")


def qasm_targets(c):
    return [tuple(int(x) for x in QRE.findall(l.split("->")[0])) for l in c.to_qasm(output_prologue=False).splitlines() if l.strip()]


def observe(t, prog, n0, mid=()):
    """program of ops; runs after op indices in mid as well.  Compare n_qubits, exported targets and state."""
    c = Circuit(n0)
    names = {'ry': ["ry", [TH]], 'cx': ["cx", []], 'cry': ["cry", [TH]], 'rx': ["rx", [0.4]]}
    n = n0
    rp = []
    try:
        for k, (nm, ex) in enumerate(prog):
            op = names[nm] + [ex]
            py = ref.to_py(ex)
            w = getattr(c, nm)
            (w(*op[1]) if op[1] else w)[py]
            rp.append(op)
            n = max(n, ref.grow(py))
            t.trans()
            t.check(c.n_qubits == n, lambda: f"Circuit({n0}) after {rp}: n_qubits={c.n_qubits}, expected {n}")
            if k in mid:
                exp = ref.run(rp, n)
                got = c.run()
                t.check(ref.same(got, exp), lambda: f"intermediate run of {rp} on {n} qubits differs")
        bad = False
    except ref.Bad:
        bad = True
    t.trace()
    if not bad:
        try:
            el = [(nm, ref.elementary(nm, ref.to_py(ex), n)) for nm, ex in prog]
        except ref.Bad:
            bad = True
    if bad:
        ok = True
        for f in (lambda: c.run(), lambda: c.to_qasm()):
            try:
                f()
                ok = False
            except Exception:
                pass
        t.check(ok, lambda: f"Circuit({n0}) with {prog}: invalid targets executed or exported without error")
        t.outcome("rejected")
        return
    exp = ref.run(rp, n)
    got = c.run()
    t.check(got.shape == exp.shape and ref.same(got, exp), lambda: f"Circuit({n0}) with {prog} on {n} qubits: state differs from selecting {el}")
    want = [q for _, qs in el for q in qs]
    t.check(qasm_targets(c) == want, lambda: f"Circuit({n0}) with {prog}: exported targets {qasm_targets(c)} expected {want}")
    t.state((n0, n, str(prog)))
    t.outcome(f"{len(want)} elementary operations")


def run_case(t, d):
    k = d["kind"]
    if k == "one":
        for ex in d["ex"]:
            observe(t, [("ry", ex)], d["n"])
        t.sample(dict(n=d["n"], targets=d["ex"][:2]))
    elif k == "tup":
        for b in ALPHA:
            if isinstance(d["a"], list) and d["a"][0] == "t" or isinstance(b, list) and b[0] == "t":
                continue
            observe(t, [("ry", ["t", [d["a"], b]])], d["n"])
            if d["deep"]:
                for e in ALPHA[:20]:
                    observe(t, [("ry", ["t", [d["a"], b, e]])], d["n"])
    elif k == "pair":
        for b in ALPHA:
            observe(t, [("ry", s()), ("cx", ["t", [d["a"], b]])], d["n"])
    elif k == "nested":
        n = d["n"]
        for a in (["t", [0, 1]], ["t", [1]], ["t", [s(0, 2), 3]], ["t", [-1, 0]]):
            observe(t, [("ry", ["t", [a, 2]])], n)
            for b in (["t", [2, 3]], ["t", [s(2, 4), 0]], s(2, 4), 3):
                observe(t, [("ry", s()), ("cx", ["t", [a, b]])], n)
    elif k == "grow":
        n, ops = d["n"], d["ops"]
        for e in GROW:
            prog = [("ry", ops[0]), ("rx", ops[1]), ("ry", e)]
            for mid in ((), (0,), (0, 1, 2)):
                # an intermediate run needs valid targets at that time
                try:
                    m = n
                    for i in mid:
                        m = max([n] + [ref.grow(ref.to_py(x[1])) for x in prog[:i + 1]])
                        for x in prog[:i + 1]:
                            ref.select(ref.to_py(x[1]), m)
                except ref.Bad:
                    continue
                observe(t, prog, n, mid)
            if d["deep"]:
                for f in GROW:
                    observe(t, prog + [("rx", f)], n)
        t.sample(dict(n=n, prog=ops))
    elif k == "join":
        joins(t, d["n"])
    elif k == "wide":
        n, a = d["n"], WIDE[d["i"]]
        observe(t, [("ry", a)], n)
        for b in WIDE:
            observe(t, [("ry", ["t", [a, b]])], n)
            observe(t, [("ry", a), ("rx", b)], n)
            observe(t, [("ry", a), ("cx", ["t", [a, b]])], n)
            observe(t, [("rx", b), ("ry", ["t", [a, 3, b, 10, -1]])], n, (0, 1) if n else ())
    elif k == "wrap":
        wraps(t, d["n"])
    elif k == "npint":
        for typ in (np.int64, np.int32, np.uint8, bool):
            for v in (0, 1):
                c = Circuit().ry(TH)[typ(v)]
                t.check(c.n_qubits == v + 1 and ref.same(c.run(), ref.run([["ry", [TH], v]], v + 1)), f"{typ.__name__}({v}) index")
                t.trans(), t.trace()
            c = Circuit().ry(TH)[typ(0):typ(1)]
            t.check(c.n_qubits == 1 and ref.same(c.run(), ref.run([["ry", [TH], 0]], 1)), "numpy slice bounds")
        t.state("npint")
    elif k == "reject":
        for bad in (1.0, "0", None, [0, 1], 1j, (0, 1.5), (0, None), np.float64(1), slice(0.5, 2), slice(None, None, 0), {0}):
            for pre in (0, 3):
                ok = False
                try:
                    c = Circuit(pre)
                    c.x[bad]
                    c.run()
                except Exception:
                    ok = True
                t.check(ok, f"index {bad!r} accepted on Circuit({pre})")
                t.trans(), t.trace()
        for bad in (0, (0,), (0, 1, 2), slice(0, 2), (slice(0, 2), slice(0, 3)), (0, 0), (slice(0, 2), slice(0, 2)), (1, -2), (), "01", (0, None)):
            ok = False
            try:
                c = Circuit(3)
                c.cx[bad]
                c.run()
            except Exception:
                ok = True
            t.check(ok, f"two-qubit target {bad!r} accepted on Circuit(3)")
            t.trans(), t.trace()
        t.state("reject")


JOIN = [(0, []), (2, []), (5, []), (0, [["ry", [TH], 1]]), (4, [["ry", [TH], 0]]), (3, [["ry", [TH], s(None, -1)], ["cx", [], ["t", [-1, 0]]]]), (1, [["ry", [TH], -1]]), (0, [["rx", [0.4], s()]]), (0, [["ry", [TH], 0], ["x", [], -1]] * 6 + [["h", [], 1]]), (6, [["rx", [0.4], s(None, None, 2)]] * 9)]


def joins(t, n0):
    """sizes of joined circuits: + and += with empty, wider and narrower circuits, before and after runs and growth"""
    for steps in itertools.product(itertools.product(("+", "+=", "r+"), range(len(JOIN))), repeat=2):
        for grown in (None, 2, s(1, 3)):
            for mid in (False, True):
                c, prog, n = Circuit(n0), [], n0
                for how, j in steps:
                    m, p = JOIN[j]
                    o = circ(p, m)
                    m = ref.n_of(p, m)
                    if mid:
                        try:
                            exp = ref.run(prog, n)
                        except ref.Bad:
                            pass
                        else:
                            t.check(ref.same(c.run(), exp), lambda: f"intermediate run before joining {steps}")
                    if how == "+":
                        c, prog = c + o, prog + p
                    elif how == "r+":
                        c, prog = o + c, p + prog
                    else:
                        c += o
                        prog = prog + p
                    n = max(n, m)
                    t.check(c.n_qubits == n and o.n_qubits == m, lambda: f"Circuit({n0}) joined with {[(h, JOIN[i]) for h, i in steps]}: {c.n_qubits} qubits, expected {n}")
                    t.trans()
                if grown is not None:
                    c.ry(TH)[ref.to_py(grown)]
                    prog = prog + [["ry", [TH], grown]]
                    n = max(n, ref.grow(ref.to_py(grown)))
                    t.check(c.n_qubits == n, lambda: f"Circuit({n0}) joined with {steps}, then {grown}: {c.n_qubits} qubits, expected {n}")
                t.trace()
                try:
                    exp = ref.run(prog, n)
                except ref.Bad:
                    continue
                got = c.run()
                t.check(got.shape == exp.shape and ref.same(got, exp), lambda: f"Circuit({n0}) joined with {[(h, JOIN[i]) for h, i in steps]}, then {grown}: state differs on {n} qubits")
                t.state((n, str(prog)))
    t.outcome("joined circuits")


def wraps(t, n0):
    """selections through gate objects obtained before the circuit grew, and used several times"""
    E = [0, 2, -1, s(), s(None, -1), s(-2), s(None, None, -1), ["t", [1, -1]], s(3, 5)]
    for a, b, e in itertools.product(E, repeat=3):
        c = Circuit(n0)
        w, u = c.ry(TH), c.rx(0.4)
        prog = [["ry", [TH], a], ["rx", [0.4], b], ["ry", [TH], e], ["rx", [0.4], e]]
        n = n0
        for k, o in enumerate(prog):
            (w if o[0] == "ry" else u)[ref.to_py(o[2])]
            n = max(n, ref.grow(ref.to_py(o[2])))
            t.check(c.n_qubits == n, lambda: f"Circuit({n0}), gate objects made first, then {prog[:k + 1]}: {c.n_qubits} qubits, expected {n}")
            t.trans()
        t.trace()
        try:
            exp = ref.run(prog, n)
        except ref.Bad:
            continue
        t.check(ref.same(c.run(), exp), lambda: f"Circuit({n0}), gate objects made first, then {prog}: state differs")
        t.state((n0, str(prog)))
    t.outcome("gate objects")
