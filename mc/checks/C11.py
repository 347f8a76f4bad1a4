"""Rejected operations are transactional; invalid targets are never executed or exported."""
import itertools
import numpy as np
from mc import ref
from mc.build import circ, add, need_ccz, long_alphabet
from blueqat import Circuit, BlueqatGlobalSetting

BOUNDS = {
 "quick": "60+ rejected operations x every position of every length<=3 history over 5 operations x cached/uncached (pairs of rejected operations too); every invalid target of every gate (integers -5..5 and slices) x simulator/QASM/symbolic/ibmq (with and without export) after 3 histories; "
          "every accepted operation of a 200-expression alphabet printed, copied, run, exported; rejected operations inside programs of 34 gates (3 and 10 qubits), invalid targets on 9, 10 and 12 qubits",
 "thorough": "histories of length 4, integers -7..7"}
HOPS = [["h", [], 0], ["cx", [], ["t", [0, 1]]], ["ry", [0.7], ["s", None, None, None]], ["x", [], 2], ["u3", [0.4, 0.3, 0.2], 1]]


class Evil:
    def __index__(self):
        raise RuntimeError("evil index")


def bad_ops():
    """list of (label, function circuit -> adds); the function must raise or add something consistent"""
    L = []
    for nm in ("x", "rx", "cx", "ccx", "m", "reset", "u3", "swap", "cu3", "i", "rzz", "cswap"):
        p = [0.3] * ref.NPARAM[nm]
        for bad in ("1.5", "'0'", "None", "[0]", "1j", "(0, 1.5)", "(0, None)", "(0, 'a')", "slice('a', None)", "slice(0, 1.5)", "(slice(0, 2), object())", "(0, (1, 2.5))", "Evil()", "(5, Evil())", "float('nan')", "{}", "(9, 1.5)",
                    "(9, slice(0, 'z'))", "(0, 1, 'q')", "slice(None, 2.0)", "((0, None), 4)"):
            L.append((f"{nm}{tuple(p)}[{bad}]", lambda c, nm=nm, p=p, bad=bad: _w(c, nm, p)[eval(bad)], False))
    for nm in ref.UNITARY + ["m", "reset"]:
        k = ref.NPARAM[nm]
        x = 7 if nm in ref.ONE or nm in ("m", "reset") else (7, 8) if nm in ref.TWO else (7, 8, 9)
        for cnt in range(0, 5):
            # the surplus positional argument of a parameterless gate is its undocumented `params`
            if cnt == k or (k == 0 and cnt == 1):
                continue
            L.append((f"{nm} with {cnt} parameters", lambda c, nm=nm, cnt=cnt, x=x: _w(c, nm, [0.1] * cnt, True)[x], True))
        if k:
            L.append((f"{nm} with unknown keyword only", lambda c, nm=nm, x=x: getattr(c, nm)(bogus=1)[x], True))
    for nm in ("foo", "H", "run_with_nothing", "cxx", "_h", "gate_h", "measurement"):
        L.append((f"unknown {nm}", lambda c, nm=nm: getattr(c, nm)[0], True))
    return L


def _w(c, nm, p, force=False):
    w = getattr(c, nm)
    return w(*p) if p or force else w


def cases(tier):
    out = []
    L = 3 if tier == "quick" else 4
    N = len(bad_ops())
    for lo in range(0, N, 4):
        out.append(dict(kind="tx", lo=lo, hi=min(N, lo + 4), L=L))
    for nm in ref.UNITARY + ["ccz", "m", "reset"]:
        for n in (1, 2, 3, 4):
            out.append(dict(kind="inv", name=nm, n=n, R=5 if tier == "quick" else 7))
    for nm in ("x", "rx", "cx", "crz", "ccx", "m", "reset", "swap", "cswap", "rxx", "u2"):
        out.append(dict(kind="acc", name=nm))
    for lo in range(0, N, 12):
        out.append(dict(kind="longtx", lo=lo, hi=min(N, lo + 12)))
    for nm in ref.UNITARY + ["ccz", "m", "reset"]:
        out.append(dict(kind="wideinv", name=nm))
    return out


def ident(c):
    return (c.n_qubits, [id(o) for o in c.ops], [str(o) for o in c.ops])


def usable(t, c, prog, n, what):
    got = c.run()
    t.trace()
    t.check(c.n_qubits == n, lambda: f"{what}: n_qubits={c.n_qubits}, expected {n}")
    t.check(ref.same(got, ref.run(prog, n)), lambda: f"{what}: run gives {np.round(got, 3)}")


def run_case(t, d):
    k = d["kind"]
    if k == "tx":
        bad = bad_ops()
        for label, f, must in bad[d["lo"]:d["hi"]]:
            for r in range(d["L"] + 1):
                for prog in (itertools.product(HOPS, repeat=r) if r < 3 else itertools.combinations(HOPS, r)):
                    prog = list(prog)
                    n = ref.n_of(prog)
                    for pos in range(r + 1):
                        for cached in ((False, True) if r <= 2 else (False,)):
                            c = circ(prog[:pos])
                            if cached:
                                c.run()
                            before = ident(c)
                            err = None
                            try:
                                f(c)
                            except Exception as ex:
                                err = ex
                            t.trans()
                            if err is not None:
                                t.check(ident(c) == before, lambda: f"{label} rejected ({err!r}) after {prog[:pos]} but the circuit changed from {before} to {ident(c)}")
                                try:
                                    f(c)
                                except Exception:
                                    pass
                                t.check(ident(c) == before, lambda: f"{label} rejected twice after {prog[:pos]} but the circuit changed")
                                for o in prog[pos:]:
                                    add(c, o)
                                usable(t, c, prog, n, f"{label} rejected at position {pos} of {prog}")
                                t.outcome("rejected " + type(err).__name__)
                            else:
                                t.check(not must, lambda: f"{label} was accepted")
                                # accepted lazily: it has to be reported when executed, and printable
                                t.check(len(c.ops) == pos + 1 and str(c.ops[-1]) is not None and repr(c), "accepted operation")
                                never(t, c, f"{label} after {prog[:pos]}")
                                t.outcome("accepted, rejected at execution")
                    t.state((label, str(prog)))
        t.sample(bad[d["lo"]][0])
    elif k == "inv":
        invalid_targets(t, d["name"], d["n"], d["R"])
    elif k == "acc":
        accepted(t, d["name"])
    elif k == "longtx":
        long_tx(t, d)
    elif k == "wideinv":
        wide_invalid(t, d["name"])


def long_tx(t, d):
    """rejected operations in the middle of long programs on wide registers"""
    al = long_alphabet([x for x in ref.UNITARY])
    for n, prog in ((3, al), (10, al + [["h", [], 9], ["cx", [], ["t", [9, 4]]]])):
        for label, f, must in bad_ops()[d["lo"]:d["hi"]]:
            for pos in (len(prog), 17, 9) if n == 3 else (len(prog),):
                for cached in (False, True):
                    c = circ(prog[:pos], n)
                    if cached:
                        c.run()
                    before = ident(c)
                    err = None
                    try:
                        f(c)
                    except Exception as ex:
                        err = ex
                    t.trans()
                    if err is None:
                        t.check(not must, lambda: f"{label} was accepted")
                        t.check(len(c.ops) == pos + 1 and repr(c), "accepted operation")
                        never(t, c, f"{label} after {pos} gates on {n} qubits", light=True)
                        continue
                    t.check(ident(c) == before, lambda: f"{label} rejected ({err!r}) after {pos} gates on {n} qubits but the circuit changed: {len(c.ops)} gates, {c.n_qubits} qubits")
                    for o in prog[pos:]:
                        add(c, o)
                    usable(t, c, prog, n, f"{label} rejected after {pos} of {len(prog)} gates")
            t.state((label, n))
    t.outcome("long programs")


def wide_invalid(t, nm):
    if nm == "ccz":
        need_ccz()
    p = [0.3, 0.4, 0.5][:ref.NPARAM.get(nm, 0)]
    s = lambda a=None, b=None, c=None: ["s", a, b, c]
    for n in (9, 10, 12):
        if nm in ref.ONE or nm in ("m", "reset"):
            ex = [-n - 1, -n - 2, -100, ["t", [n - 1, -n - 1]], ["t", [0, 1, 2, 3, 4, 5, 6, 7, -n - 3]]]
        elif nm in ref.TWO:
            ex = [["t", [q, q]] for q in range(n)] + [["t", [q, q - n]] for q in range(n)] + [["t", [0, -n - 1]], ["t", [-n - 1, 0]], ["t", [s(0, 5), s(4, 9)]], ["t", [s(0, 6), s(2, 7)]], ["t", [s(), s(None, None, -1)]], ["t", [s(n - 3), s(n - 1, n - 4, -1)]],
                 ["t", [s(0, 4), s(5, 8)]], ["t", [s(None, None, 2), 8]], ["t", [n - 1, s(7)]]]
        else:
            ex = [["t", x] for q in range(n) for x in ([q, q, (q + 1) % n], [q, (q + 1) % n, q], [(q + 1) % n, q, q - n])] + [["t", [0, 1, -n - 1]], ["t", [-n - 1, 1, 8]], ["t", [0, 8, s(7, 9)]]]
        for x in ex:
            py = ref.to_py(x)
            try:
                ref.elementary(nm, py, max(n, ref.grow(py)))
                continue
            except ref.Bad:
                pass
            for pre in ([], [["h", [], 0], ["cx", [], ["t", [0, n - 1]]]]):
                c = circ(pre, n)
                before = ident(c)
                t.trans()
                try:
                    add(c, [nm, p, x])
                except Exception:
                    t.check(ident(c) == before, lambda: f"Circuit({n}).{nm}{x} rejected but the circuit changed")
                    continue
                never(t, c, f"Circuit({n}) with {pre} + {nm}{x}", measured=nm in ("m", "reset"), light=True)
                t.state((nm, n, str(x)))
    t.outcome("wide registers")


def never(t, c, what, measured=False, light=False):
    t.trace()
    for lab, f in (("simulator", lambda: c.run()), ("shots", lambda: c.run(shots=1)), ("QASM export", lambda: c.to_qasm()), ("make_cache", lambda: c.make_cache()),
                   ("unitary", lambda: None if measured else c.to_unitary()), ("copy on simulator", lambda: c.copy().run()),
                   ("ibmq", lambda: c.run_with_ibmq(returns="qiskit_circuit"))):
        if lab == "unitary" and measured or light and lab in ("unitary", "ibmq", "shots"):
            continue
        before = ident(c)
        try:
            r = f()
        except Exception:
            t.check(ident(c) == before, lambda: f"{what}: {lab} changed the circuit")
            continue
        t.check(False, lambda: f"{what}: {lab} executed an operation with invalid targets without error: {r!r}")


def invalid_targets(t, nm, n, R):
    """every target that is invalid on n qubits but does not itself grow the circuit into validity"""
    if nm == "ccz":
        need_ccz()
    p = [0.3, 0.4, 0.5][:ref.NPARAM.get(nm, 0)]
    ints = list(range(-R, R + 1))
    s = lambda a=None, b=None, c=None: ["s", a, b, c]
    if nm in ref.ONE or nm in ("m", "reset"):
        ex = ints + [["t", [a, b]] for a in (0, -1, -2, -5) for b in ints]
    elif nm in ref.TWO:
        small = [-R, -3, -2, -1, 0, 1, 2]
        ex = [["t", [a, b]] for a in ints for b in ints] + [["t", [a]] for a in small] + list(ints) + \
             [["t", [a, b]] for a in (s(), s(0, 2), s(1), s(None, None, -1), ["t", [0, 1]], ["t", []]) for b in (0, s(), s(0, 2), s(1), s(0, 1), ["t", [1, 0]], ["t", [0, -4]], -1)] + \
             [["t", [0, 1, 2]], ["t", []], s(), s(0, 2), ["t", [0, 1, s()]]]
    else:
        small = [-4, -2, -1, 0, 1, 2]
        ex = [["t", [a, b, c]] for a in small for b in small for c in small] + [["t", [a, b]] for a in (-1, 0, 1) for b in (-1, 0, 2)] + [0, ["t", [0, 1, 2, 3]], ["t", [0]], ["t", []], s(0, 3), ["t", [0, 1, s(2, 3)]],
              ["t", [s(0, 1), 1, 2]], ["t", [0, 1, ["t", [2]]]], ["t", [["t", [0, 1]], 2, 3]], ["t", [["t", [0, 1, 2]]]]]
    hist = [[], [["h", [], s()]], [["h", [], 0], ["ry", [0.3], s()]]]
    for x in ex:
        py = ref.to_py(x)
        m = max(n, ref.grow(py))
        try:
            ref.elementary(nm, py, m)
            bad = False
        except ref.Bad:
            bad = True
        if not bad:
            continue
        for hi, pre in enumerate(hist if m == n else hist[:1]):
            c = circ(pre, n)
            if hi == 2:
                c.run()
            before = ident(c)
            try:
                add(c, [nm, p, x])
            except Exception:
                t.check(ident(c) == before, lambda: f"Circuit({n}).{nm}{x} rejected but the circuit changed")
                t.trans()
                continue
            t.trans()
            never(t, c, f"Circuit({n}) with {pre} + {nm}{x}", measured=nm in ("m", "reset"), light=hi > 0)
            t.state((nm, n, str(x)))
        t.outcome("invalid target")


def accepted(t, nm):
    """whatever is accepted can be printed, copied, and (if valid) run and exported"""
    from mc.checks.C02 import ALPHA
    p = [0.3, 0.4, 0.5][:ref.NPARAM.get(nm, 0)]
    exs = list(ALPHA) + [["t", [a, b]] for a in ALPHA for b in ALPHA[::3]] + [["t", [a, b, c]] for a in (0, -1, 2) for b in (1, 0, ["s", 0, 2, None]) for c in (2, 3, -2)] + \
        [["t", [["t", [0, 1]], ["t", [2, 3]]]], ["t", [["t", [["t", [0]], 1]], ["s", 2, 4, None]]]]
    for x in exs:
        for n in (0, 3):
            c = Circuit(n)
            try:
                add(c, [nm, p, x])
            except Exception:
                t.check(ident(c) == (n, [], []), f"Circuit({n}).{nm}{x} rejected but changed")
                continue
            t.trans()
            t.check(isinstance(repr(c), str) and isinstance(str(c.ops[0]), str), "not printable")
            d = c.copy()
            t.check(d.n_qubits == c.n_qubits and len(d.ops) == 1, "copy")
            m = c.n_qubits
            try:
                el = ref.elementary(nm, ref.to_py(x), m)
            except ref.Bad:
                continue
            t.trace()
            q = c.to_qasm(output_prologue=False)
            t.check(isinstance(q, str) and (q.strip() != "") == (len(el) > 0), lambda: f"{nm}{x} on {m} qubits exported as {q!r}")
            for y in (c, d):
                got = y.run()
                m2 = [v for pr, b, v in ref.branches([[nm, p, x]], m)]
                t.check(any(ref.same(got, v) for v in m2), lambda: f"{nm}{x} on {m} qubits ran to {got}")
            t.state((nm, str(x), n))
        t.outcome("accepted")
