"""Time evolution and Pauli circuits of every string: state after the real circuit against the exact exponential / operator."""
import itertools, math
import numpy as np
from mc import palg, ref
from mc.build import circ, rprog, add, generic_prefix
from mc.checks.P03 import mk
from blueqat import pauli as bp, Circuit

BOUNDS = {
 "quick": "all strings n<=4 (n=5: every 4th) x 6 coefficients x 6 times on a generic state, on every basis state and on larger circuits; 2-3 repeated and mixed evolutions in every order over 9 strings; all un-simplified words of length <=4 over 6 operators (evolution and append_to_circuit with both settings); growing circuits; coefficients and times from 2^-40 to 2^40; complex coefficients rejected; n=6..10: every two-operator string with every gap, 3-operator strings with the middle one at every place, 24 strings of 4..10 operators in 3 orders of writing; 12 evolutions in a row",
 "thorough": "all strings n<=5, words of length 5, mixed evolutions over 16 strings"}
CO = [1.0, -0.5, 0.3, 2, np.float64(-1.25), complex(0.7, 0)]
TI = [0.0, 0.37, -1.1, math.pi / 2, 2, np.float64(5.3)]
PRE = [(0, []), (2, [["h", [], 0]]), (4, generic_prefix(4)), (1, [["x", [], 0], ["m", [], 0]])]


def cases(tier):
    out = []
    for n in range(1, 5):
        for h in itertools.product("IXYZ", repeat=max(0, n - 1)):
            out.append(dict(kind="str", n=n, head="".join(h)))
    for i, h in enumerate(itertools.product("IXYZ", repeat=4)):
        if tier == "thorough" or i % 4 == 3:
            out.append(dict(kind="str", n=5, head="".join(h)))
    for a in range(9 if tier == "quick" else 16):
        out.append(dict(kind="mix", a=a, tier=tier))
    A = ["X0", "Y0", "Z0", "X1", "Y1", "Z2"]
    for h in itertools.product(A, repeat=2):
        out.append(dict(kind="word", head=list(h), alpha=A, depth=4 if tier == "quick" else 5))
    out.append(dict(kind="word", head=[], alpha=A, depth=1))
    out.append(dict(kind="grow"))
    out.append(dict(kind="reject"))
    out.append(dict(kind="scale"))
    for n in (6, 7, 8, 9, 10) if tier == "quick" else (6, 7, 8, 9, 10, 11, 12):
        for i in range(3):
            out.append(dict(kind="wide", n=n, i=i))
    return out


MIX = ["X", "Y", "Z", "IY", "XX", "ZZ", "YX", "YIZ", "XYZ", "ZY", "YY", "ZX", "IIX", "YZ", "ZZZ", "YYY"]


def papply(key, v):
    x, z = key
    c = np.arange(len(v))
    out = np.zeros_like(v)
    out[c ^ x] = palg.PH[palg.pc(x & z) % 4] * (1 - 2 * palg.parity(c & z)) * v
    return out


def ev(key, a, v):
    """exp(i a P) v"""
    return math.cos(a) * v + 1j * math.sin(a) * papply(key, v)


def key_of(w):
    return palg.word([(o, q) for q, o in enumerate(w)])[0]


_vec = {}


def vec(prog, n):
    k = (str(prog), n)
    if k not in _vec:
        _vec[k] = ref.run(rprog(prog), n)
    return _vec[k].copy()


def wide(t, n, i):
    p = [["ry", [0.3 + 0.2 * j], j] for j in range(n)] + [["rz", [0.9 - 0.1 * j], j] for j in range(n)] + [["cx", [], ["t", [j, j + 1]]] for j in range(0, n - 1, 2)]
    v0 = vec(p, n)
    a = "XYZ"[i]
    ws = []
    for b in "XYZ":
        for g in range(1, n):
            ws.append({0: a, g: b})
            ws.append({n - 1 - g: a, n - 1: b})
        for m in range(1, n - 1):
            ws.append({0: a, m: b, n - 1: "XYZ"[(i + m) % 3]})
    for j in range(8):
        ws.append({q: "XYZ"[(q * (j + 1) + i + j) % 3] for q in range(n) if (q * 5 + j * 3) % n > j // 2})
    for j, w in enumerate(ws):
        its = list(w.items())
        if j % 3 == 1:
            its = its[::-1]
        elif j % 3 == 2:
            its = its[1::2] + its[::2]
        key = palg.word([(o, q) for q, o in its])[0]
        c, ti = CO[j % 6], TI[1 + j % 5]
        term = bp.Term(tuple(getattr(bp, o)[q] for q, o in its), c)
        q = circ(p, n)
        term.get_time_evolution()(q, ti)
        t.trans(2), t.trace()
        t.check(q.n_qubits == n and ref.same(q.run(), ev(key, complex(c).real * float(ti), v0)), lambda: f"({term!r}).get_time_evolution() for t={ti} on {n} qubits")
        q = circ(p, n)
        term.append_to_circuit(q, *((), (True,), (False,))[j % 3])
        t.check(q.n_qubits == n and ref.same(q.run(), papply(key, v0)), lambda: f"({term!r}).append_to_circuit on {n} qubits")
        t.state((n, str(its)))
    # a long row of evolutions
    q, v = circ(p, n), v0
    for j in range(12):
        w = ws[(j * 11) % len(ws)]
        term = bp.Term(tuple(getattr(bp, o)[x] for x, o in w.items()), CO[j % 6])
        term.get_time_evolution()(q, 0.2 + 0.1 * j)
        v = ev(palg.word([(o, x) for x, o in w.items()])[0], complex(CO[j % 6]).real * (0.2 + 0.1 * j), v)
        t.trans()
        t.check(ref.same(q.run(), v), lambda: f"{j + 1} evolutions in a row on {n} qubits")


def run_case(t, d):
    k = d["kind"]
    if k == "str":
        n = d["n"]
        pre = generic_prefix(n)
        pre2 = generic_prefix(n + 1)
        for l in "IXYZ":
            w = d["head"] + l
            key = key_of(w)
            for i, (c, ti) in enumerate(itertools.product(CO, TI)):
                term = mk(w, c)
                evo = term.get_time_evolution()
                cc = complex(c).real
                m = n + (1 if i % 3 == 0 else 0)
                p = pre2 if m > n else pre
                q = circ(p, m)
                before = [str(g) for g in q.ops]
                r = evo(q, ti)
                got = q.run()
                e = ev(key, cc * float(ti), vec(p, m))
                t.trans(), t.trace()
                t.check(ref.same(got, e), lambda: f"({term!r}).get_time_evolution() for t={ti} on a generic state of {m} qubits: overlap with the exact state is {abs(np.vdot(e, got)):.6g}")
                t.check([str(g) for g in q.ops][:len(before)] == before and q.n_qubits == m, lambda: f"evolution of {term!r} changed the circuit it was appended to: {q!r}")
            # every basis state, one coefficient/time
            term = mk(w, -0.7)
            evo = term.get_time_evolution()
            if n < 4:
                for b in range(2 ** n):
                    p = [["x", [], q] for q in range(n) if b >> q & 1]
                    q = circ(p, n)
                    evo(q, 0.9)
                    e = ev(key, -0.63, vec(p, n))
                    t.trans()
                    t.check(ref.same(q.run(), e), lambda: f"evolution of {term!r} on basis state {b}")
            t.state(w)
        t.outcome("strings")
    elif k == "wide":
        wide(t, d["n"], d["i"])
        t.outcome("many qubits")
    elif k == "mix":
        L = MIX if d["tier"] == "thorough" else MIX[:9]
        evs = [mk(w, c).get_time_evolution() for w, c in zip(L, itertools.cycle(CO))]
        cs = [complex(c).real for _, c in zip(L, itertools.cycle(CO))]
        p = generic_prefix(3)
        for b, c in itertools.product(range(len(L)), repeat=2):
            for idx in ([d["a"], b, c], [b, d["a"], d["a"]]):
                q = circ(p, 3)
                v = vec(p, 3)
                for j, i in enumerate(idx):
                    ti = 0.3 + 0.41 * j
                    evs[i](q, ti)
                    v = ev(key_of(L[i]), cs[i] * ti, v)
                    if j == 1:
                        q.h[1]
                        v = ref.gate(v, "h", [], (1,))
                t.trans(3), t.trace()
                t.check(ref.same(q.run(), v), lambda: f"evolutions of {[L[i] for i in idx]} in this order")
                t.state(tuple(idx))
        t.outcome("several evolutions")
    elif k == "word":
        p = generic_prefix(3)
        for r in range(0, max(1, d["depth"] - 1)):
            for rest in itertools.product(d["alpha"], repeat=r):
                w = tuple(d["head"]) + rest
                ops = [(x[0], int(x[1])) for x in w]
                key, c = palg.word(ops)
                objs = [bp.Term(tuple(getattr(bp, x[0])[int(x[1])] for x in w), 1.0)]
                prod = bp.I.to_term()
                for x in w:
                    prod = prod * getattr(bp, x[0])[int(x[1])]
                objs.append(prod * 1.0)
                objs.append(prod * 2j)
                for o in objs:
                    for sim in (True, False, None):
                        q = circ(p, 3)
                        n0 = len(q.ops)
                        o.append_to_circuit(q) if sim is None else o.append_to_circuit(q, sim)
                        e = papply(key, vec(p, 3))
                        t.trans()
                        got = q.run()
                        t.check(ref.same(got, e), lambda: f"({o!r}).append_to_circuit(simplify={sim}) is not the operator {palg.letters(key, 3)}: added {q.ops[n0:]}")
                        if sim is False:
                            # the simulator's Pauli gates are exact, so the order of the operators shows in the sign
                            t.check(np.allclose(got, c * e, atol=1e-9), lambda: f"({o!r}).append_to_circuit(simplify=False) applies the operators in another order: added {q.ops[n0:]}")
                for o, cc in ((objs[0], c), (prod * 0.5, c * 0.5)):
                    if abs(cc.imag) < 1e-12:
                        q = circ(p, 3)
                        o.get_time_evolution()(q, 0.8)
                        t.check(ref.same(q.run(), ev(key, cc.real * 0.8, vec(p, 3))), lambda: f"evolution of un-simplified {o!r}")
                    else:
                        try:
                            o.get_time_evolution()
                            t.check(False, f"evolution of {o!r}, coefficient {cc}, accepted")
                        except ValueError:
                            pass
                t.trace()
                t.state(w)
        t.outcome("words")
    elif k == "scale":
        p = generic_prefix(2)
        for w in ("X", "IY", "ZZ", "YX"):
            for j in (-40, -27, -14, 14, 27, 40):
                for base in (0.7, -1.3):
                    c = base * 2.0 ** j
                    q = circ(p, 2)
                    mk(w, c).get_time_evolution()(q, 0.9 * 2.0 ** -j)
                    t.trans()
                    t.check(ref.same(q.run(), ev(key_of(w), base * 0.9, vec(p, 2))), lambda: f"evolution of {w} with coefficient {c} for time {0.9 * 2.0 ** -j}")
                    t.state((w, j, base))
            # small angles are small, not zero: 64 of them add up
            q = circ(p, 2)
            f = mk(w, 2.0 ** -20).get_time_evolution()
            for _ in range(64):
                f(q, 2.0 ** 12)
            t.check(ref.same(q.run(), ev(key_of(w), 0.25, vec(p, 2))), lambda: f"64 small evolutions of {w}")
            for ang in (50.0, 1e3, -2e4):
                q = circ(p, 2)
                mk(w, ang).get_time_evolution()(q, 1.0)
                t.check(ref.same(q.run(), ev(key_of(w), ang, vec(p, 2))), lambda: f"evolution of {w} with coefficient {ang}")
        t.trace()
        t.outcome("very small and very large coefficients")
    elif k == "grow":
        for w in ("X", "IY", "IIZ", "XIIY", "IIIIZ", "YIYIY"):
            for n0, p in PRE[:3]:
                key = key_of(w)
                for pos in range(3):
                    q = circ(p, n0)
                    t1 = mk(w, 0.5)
                    n = max(n0, len(w))
                    t1.get_time_evolution()(q, 1.3)
                    t.check(q.n_qubits == n, lambda: f"{t1!r} appended to {n0} qubits gives {q.n_qubits}")
                    t.check(ref.same(q.run(), ev(key, 0.65, vec(p, n))), lambda: f"evolution of {t1!r} on a circuit of {n0} qubits")
                    q = circ(p, n0)
                    if pos == 1:
                        q.run()
                    t1.append_to_circuit(q)
                    t.check(q.n_qubits == n and ref.same(q.run(), papply(key, vec(p, n))), lambda: f"append_to_circuit of {t1!r} on {n0} qubits")
                    t.trans(2), t.trace()
                    t.state((w, n0, pos))
        # identity terms add nothing observable
        for o in (bp.I.to_term(), 2.0 * bp.I, bp.Term((), -0.5), bp.X[0] * bp.X[0] * 3.0, 0 * bp.X[0]):
            for n0, p in PRE[:3]:
                q = circ(p, n0)
                o.to_term().get_time_evolution()(q, 0.7)
                o.to_term().append_to_circuit(q)
                n = max(n0, q.n_qubits)
                t.check(ref.same(q.run(), vec(p, n)), lambda: f"identity term {o!r}")
        # simplify=False keeps unreduced pairs harmless
        o = bp.Term((bp.X[0], bp.X[0], bp.I, bp.Y[1]), 1.0)
        q = circ(PRE[2][1], 4)
        o.append_to_circuit(q, simplify=False)
        t.check(ref.same(q.run(), papply(key_of("IY"), vec(PRE[2][1], 4))), "append_to_circuit(simplify=False) with I")
        # many qubits: wide strings on a product state
        for w in ("Z" * 9, "Y" * 8, "XYZ" * 3, "YIIIIIIIY", "XZIIIIYZX"):
            n = len(w)
            p = [["ry", [0.3 + 0.2 * i], i] for i in range(n)] + [["rz", [0.9 - 0.1 * i], i] for i in range(n)]
            q = circ(p, n)
            mk(w, 0.4).get_time_evolution()(q, 0.9)
            t.check(ref.same(q.run(), ev(key_of(w), 0.36, vec(p, n))), lambda: f"evolution of {w}")
            t.trans()
        t.outcome("growth")
    else:
        for w in ("", "X", "IY", "ZZ", "XYZ"):
            for c in (1j, 1 + 1e-3j, -2j, np.complex128(0.5j), complex(1, -1), 1 + 1e-6j, 1 - 1e-8j, 1e-7j, complex(1e6, 1e-3), 1e-20j):
                for o in (mk(w, c), mk(w, 1.0) * c):
                    try:
                        f = o.get_time_evolution()
                        t.check(False, f"evolution of {o!r} accepted")
                    except ValueError:
                        t.trans()
        for o in (bp.X[0] * bp.Y[0], bp.Z[0] * bp.X[0] * 2, bp.X[0] * bp.Y[0] * bp.Z[1]):
            try:
                o.get_time_evolution()
                t.check(False, f"evolution of {o!r} (imaginary after simplification) accepted")
            except ValueError:
                t.trans()
        t.outcome("rejected")
