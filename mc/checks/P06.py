"""Constructors, queries, printing, copying of Pauli objects, and every call history: no call changes an existing object or a constant."""
import itertools, copy, pickle
import numpy as np
import scipy.sparse
from mc import palg, ref
from mc.palg import of, same
from mc.checks.P01 import snap, PTYPES
from mc.checks.P03 import mk, FMT
from blueqat import pauli as bp, Circuit

BOUNDS = {
 "quick": "constructors: all character strings of length <=5 (both cases, bad characters at every position), all operators n<=12, pairs, numbers, dictionaries; queries/repr/copy/deepcopy/pickle (all protocols) of all strings n<=4 x 14 coefficients, words of length <=4, sums of <=3 terms; character strings, words and sums of 9..100 factors or terms; "
          "all sequences of length 3 over 26 calls x 10 objects (each call made on the shared objects, results then modified), every object and constant re-checked after each sequence",
 "thorough": "character strings <=7, call sequences of length 4"}
COEF = [1.0, -1.0, 0.5, -0.25, 2, -3, 0, 1j, -1j, 1 + 2j, -0.5 - 1j, 1e-7, np.float64(0.1), np.complex128(0.5 - 2j), 1 / 3, 0.1 + 0.2, -123456789.123456789, complex(1 / 3, -0.3000000004), 1e300 / 7, 5e-324, 10 ** 20 + 1]
NS = {"X": bp.X, "Y": bp.Y, "Z": bp.Z, "I": bp.I}


def cases(tier):
    out = [dict(kind="ctor"), dict(kind="numbers")]
    L = 5 if tier == "quick" else 7
    for a in "IXYZixyzA0":
        out.append(dict(kind="chars", head=a, depth=L))
    for n in range(0, 5):
        for h in itertools.product("IXYZ", repeat=max(0, n - 2)):
            out.append(dict(kind="obj", n=n, head="".join(h)))
    for h in itertools.product(["X0", "Y0", "Z1", "I"], repeat=2):
        out.append(dict(kind="words", head=list(h)))
    for n in (9, 10, 11, 12, 16, 26, 33, 64, 100):
        out.append(dict(kind="large", n=n))
    S = ["", "X", "IY", "ZZ", "XY", "IIZ"]
    for a in range(len(S)):
        out.append(dict(kind="sums", a=a))
    for a in range(len(CALLS)):
        for b in range(len(CALLS)):
            out.append(dict(kind="hist", a=a, b=b, depth=3 if tier == "quick" else 4))
    return out


def check_obj(t, o, exp, what=""):
    """queries, printing and copies of o, which denotes exp"""
    sn = snap(o)
    t.trans()
    t.check(same(of(o), exp), lambda: f"{what}: {o!r} is not the expected operator {exp}")
    text = repr(o)
    try:
        back = eval(text, dict(NS))
    except Exception as ex:
        t.check(False, f"{what}: repr {text!r} is not valid source: {ex!r}")
    t.check(back == o and o == back, lambda: f"{what}: {text!r} evaluates to {back!r}, not equal")
    t.check(same(of(back), exp), lambda: f"{what}: {text!r} evaluates to {back!r}")
    if str(o) != text:
        b2 = eval(str(o), dict(NS))
        t.check(b2 == o, lambda: f"{what}: str {str(o)!r}")
    for f in [copy.copy, copy.deepcopy] + [lambda x, p=p: pickle.loads(pickle.dumps(x, p)) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]:
        c = f(o)
        t.check(type(c) is type(o) and snap(c) == sn and c == o and repr(c) == text, lambda: f"{what}: copy of {o!r} is {c!r}")
    # queries
    if isinstance(o, bp.Expr):
        words = [[(p.op, p.n) for p in m.ops if p.op != "I"] for m in o.terms]
        qs = [q for w in words for _, q in w]
        t.check(list(o.coeffs()) == [m.coeff for m in o.terms] and list(iter(o)) == list(o.terms), lambda: f"{what}: coeffs of {o!r}")
        if all(p.op != "I" for m in o.terms for p in m.ops):
            t.check(o.max_n() == max(qs, default=-1) and o.n_qubits == max(qs, default=-1) + 1, lambda: f"{what}: max_n {o.max_n()} n_qubits {o.n_qubits} of {o!r}")
        if o == o.simplify() and len(o.simplify().terms) == len(o.terms) and all(m.coeff for m in o.terms) and snap(o.simplify()) == sn:
            t.check(bool(o.is_identity) is (exp == {(0, 0): 1} or not o.terms), lambda: f"{what}: is_identity of {o!r} is {o.is_identity}")
        t.check(o.to_expr() is o or o.to_expr() == o, "to_expr")
    elif isinstance(o, bp.Term):
        w = [(p.op, p.n) for p in o.ops if p.op != "I"]
        if len(w) == len(o.ops):
            t.check(list(o.n_iter()) == [q for _, q in w] and o.max_n() == max([q for _, q in w], default=-1) and o.n_qubits == o.max_n() + 1, lambda: f"{what}: n_iter/max_n/n_qubits of {o!r}")
            t.check(bool(o.is_identity) is (not w), lambda: f"{what}: is_identity of {o!r}")
        t.check(same(of(o.to_term()), exp) and same(of(o.to_expr()), exp) and isinstance(o.to_expr(), bp.Expr) and isinstance(o.to_term(), bp.Term), lambda: f"{what}: conversions of {o!r}")
    else:
        t.check(same(of(bp.to_term(o)), exp) and same(of(bp.to_expr(o)), exp) and isinstance(bp.to_term(o), bp.Term) and isinstance(bp.to_expr(o), bp.Expr), lambda: f"{what}: conversions of {o!r}")
        t.check(o.n_qubits == (0 if o.op == "I" else o.n + 1) and bool(o.is_identity) is (o.op == "I"), lambda: f"{what}: n_qubits of {o!r}")
    t.check(snap(o) == sn, lambda: f"{what}: {o!r} changed")
    t.state((type(o).__name__, text))


def large(t, n):
    pats = ["IXYZ"[i % 4] for i in range(n)], ["XXY"[i % 3] for i in range(n)], ["I"] * (n - 1) + ["Z"], ["ZYI"[i % 3] for i in range(n)], ["Y"] + ["I"] * (n - 2) + ["X"]
    for pat in pats:
        w = "".join(pat)
        for f, seq in ((bp.term_from_chars, w[::-1]), (bp.Term.from_chars, w)):
            e = {palg.word([(x, q) for q, x in enumerate(seq)])[0]: 1}
            for u in (w, w.lower()):
                check_obj(t, f(u), e, u)
            for bad in (0, n // 2, n):
                try:
                    r = f(w[:bad] + "Q" + w[bad:])
                    t.check(False, f"bad character at {bad} of {n} accepted: {r!r}")
                except ValueError:
                    t.trans()
        fac = [(x, q) for q, x in enumerate(w) if x != "I"]
        for order in (fac, fac[::-1], fac[1::2] + fac[::2], fac + fac[:3], fac + fac[::-1]):
            if not order:
                continue
            key, c = palg.word(order)
            prod = None
            for x, q in order:
                b = getattr(bp, x)[q]
                prod = b if prod is None else prod * b
            o = bp.Term.from_ops_iter([getattr(bp, x)[q] for x, q in order], -0.5)
            check_obj(t, o, {key: c * -0.5}, "from_ops_iter")
            if isinstance(prod, bp.Term):
                check_obj(t, prod.simplify(), {key: c}, "product")
                check_obj(t, prod, {key: c}, "product")
        tot = exp = None
        for i, (x, q) in enumerate(fac):
            b = getattr(bp, x)[q] * (0.5 + i)
            e = {palg.word([(x, q)])[0]: 0.5 + i}
            tot = b.to_expr() if tot is None else tot + b
            exp = e if exp is None else palg.add(exp, e)
        if tot is not None:
            check_obj(t, tot, exp, f"sum of {len(fac)} terms")
            check_obj(t, tot.simplify(), exp, f"sum of {len(fac)} terms")
            check_obj(t, tot - 1, palg.add(exp, palg.num(-1)), "sum")
            check_obj(t, bp.Expr.from_terms_iter(tot.terms[::-1]), exp, "from_terms_iter")
        t.state((n, w))
        t.trace()
    t.outcome("large")


def run_case(t, d):
    k = d["kind"]
    if k == "ctor":
        for n in list(range(13)) + [31, 100]:
            for l, c in (("X", bp.X), ("Y", bp.Y), ("Z", bp.Z)):
                e = {palg.word([(l, n)])[0]: 1}
                for o in (c[n], c(n), bp.pauli_from_char(l, n), bp.pauli_from_char(l.lower(), n), bp.pauli_from_char(l, n=n)):
                    t.check(o.op == l and o.n == n and o == c[n], lambda: f"{l}[{n}] made {o!r}")
                    check_obj(t, o, e, l)
                check_obj(t, c[n].to_term(), e), check_obj(t, c[n].to_expr(), e), check_obj(t, bp.to_term(c[n]), e), check_obj(t, bp.to_expr(c[n]), e)
                check_obj(t, bp.Term.from_pauli(c[n]), e), check_obj(t, bp.Term.from_pauli(c[n], 0.5), palg.scale(e, 0.5)), check_obj(t, bp.Term.from_pauli(c[n], 0), {})
        for o in (bp.I, bp.I(), bp.pauli_from_char("I"), bp.pauli_from_char("i", 5)):
            check_obj(t, o, {(0, 0): 1}, "I")
        for l, c in (("X", bp.X), ("Y", bp.Y), ("Z", bp.Z)):
            t.check(bp.pauli_from_char(l) == c[0], "default qubit")
        for p, q in itertools.product("XYZ", repeat=2):
            for i, j in itertools.product(range(3), repeat=2):
                a, b = getattr(bp, p)[i], getattr(bp, q)[j]
                key, c = palg.word([(p, i), (q, j)])
                check_obj(t, bp.Term.from_paulipair(a, b), {key: c}, "from_paulipair")
                check_obj(t, bp.Term.from_ops_iter(iter([a, b]), 0.5), {key: c * 0.5}, "from_ops_iter")
                check_obj(t, a * b, {key: c}, "product")
                check_obj(t, a + b, palg.add(of(a), of(b)), "sum")
                check_obj(t, bp.Expr.from_terms_iter([a.to_term(), b * 2j, bp.Term((), 0)]), palg.add(of(a), palg.scale(of(b), 2j)), "from_terms_iter")
                if (p, i) != (q, j):
                    check_obj(t, bp.Expr.from_terms_dict({(a,): 1.5, (b,): -1, (): 2}), palg.add(palg.add(palg.scale(of(a), 1.5), of(b), -1), palg.num(2)), "from_terms_dict")
        for n in range(6):
            check_obj(t, bp.qubo_bit(n), {(0, 0): 0.5, (0, 1 << n): -0.5}, "qubo_bit")
        for bad in ("A", "", "XY", "0", " ", "1", "-"):
            try:
                r = bp.pauli_from_char(bad)
                t.check(False, f"pauli_from_char({bad!r}) = {r!r}")
            except ValueError:
                t.trans()
        t.outcome("constructors")
    elif k == "numbers":
        for c in COEF + [True, 5, -0.0, np.int64(3), 1e300, 1e-300]:
            check_obj(t, bp.Expr.from_number(c), palg.num(c), "from_number")
            check_obj(t, bp.Term((), c), palg.num(c), "constant term")
            check_obj(t, c * bp.I, palg.num(c), "c*I")
            check_obj(t, bp.Expr.from_term(bp.Term((bp.Z[1],), c)), palg.clean({(0, 2): complex(c)}), "from_term")
        z = bp.Expr.zero()
        check_obj(t, z, {}, "zero")
        t.check(z.is_identity in (True, False) and list(z.coeffs()) == [] and z.max_n() == -1 and z.n_qubits == 0, "zero")
        t.check(bp.Expr.from_number(0).terms == () and bp.Expr.from_number(0.0) == z, "from_number(0)")
        t.check(not bp.Expr.from_number(2).is_identity and bp.Expr.from_number(1.0).is_identity and not (bp.X[0] + 1).is_identity and not bp.X[0].to_expr().is_identity, "is_identity")
        t.outcome("numbers")
    elif k == "large":
        large(t, d["n"])
    elif k == "chars":
        for r in range(0, d["depth"]):
            for rest in itertools.product("IXYZ" if d["head"] != "X" else "IXYz" if r < 4 else "IXYZ", repeat=r):
                w = d["head"] + "".join(rest)
                for bad in ([None] if r > 2 or d["head"] != "X" else [None] + list(range(len(w) + 1))):
                    u = w if bad is None else w[:bad] + "Q" + w[bad:]
                    for f, seq in ((bp.term_from_chars, u[::-1]), (bp.Term.from_chars, u)):
                        t.trans()
                        try:
                            o = f(u)
                        except ValueError:
                            t.check(not set(u.upper()) <= set("IXYZ"), f"{f.__name__}({u!r}) rejected")
                            continue
                        t.check(set(u.upper()) <= set("IXYZ"), lambda: f"{f.__name__}({u!r}) = {o!r}")
                        t.check(isinstance(o, bp.Term), lambda: f"{f.__name__}({u!r}) is a {type(o).__name__}")
                        key, c = palg.word([(x.upper(), q) for q, x in enumerate(seq)])
                        t.check(same(of(o), {key: 1}), lambda: f"{f.__name__}({u!r}) = {o!r}")
                        if r < 3:
                            check_obj(t, o, {key: 1}, u)
                    o = bp.Term.from_chars(iter(w)) if set(w.upper()) <= set("IXYZ") else None
                    t.check(o is None or o == bp.Term.from_chars(w), "from_chars of an iterator")
                t.state(w)
        if d["head"] == "I":
            for f in (bp.term_from_chars, bp.Term.from_chars):
                t.check(same(of(f("")), {(0, 0): 1}), "empty string")
        t.outcome("characters")
    elif k == "obj":
        for tail in itertools.product("IXYZ", repeat=d["n"] - len(d["head"])):
            w = d["head"] + "".join(tail)
            key, _ = palg.word([(o, q) for q, o in enumerate(w)])
            for c in COEF if d["n"] < 4 else COEF[:4]:
                o = mk(w, c)
                check_obj(t, o, palg.clean({key: complex(c)}) if abs(c) > 1e-8 else {} if c == 0 else {key: complex(c)}, w)
                check_obj(t, o.to_expr(), palg.clean({key: complex(c)}), w)
                check_obj(t, o.to_expr() + 1, palg.add({key: complex(c)}, {(0, 0): 1}), w)
        t.trace()
        t.outcome("terms")
    elif k == "words":
        for r in range(0, 3):
            for rest in itertools.product(["X0", "Y0", "Z1", "I"], repeat=r):
                w = tuple(d["head"]) + rest
                ops = [("I", 0) if x == "I" else (x[0], int(x[1])) for x in w]
                key, c = palg.word(ops, 0.5)
                o = bp.Term(tuple(bp.I if x == "I" else getattr(bp, x[0])[int(x[1])] for x in w), 0.5)
                if "I" in w:
                    t.check(same(of(o.simplify()), {key: c}), lambda: f"simplify of {w}")
                    continue
                check_obj(t, o, {key: c}, str(w))
                check_obj(t, o ** 2, palg.power({key: c}, 2), str(w))
                check_obj(t, bp.Expr((o, o)), palg.scale({key: c}, 2), str(w))
                check_obj(t, bp.Expr((o, bp.Term((bp.Y[2],), 1j), o * -1)), {palg.word([("Y", 2)])[0]: 1j}, str(w))
        t.trace()
        t.outcome("words")
    elif k == "sums":
        S = ["", "X", "IY", "ZZ", "XY", "IIZ"]
        for b, c in itertools.product(S, repeat=2):
            for co in itertools.product([1.0, -1.0, 0.5, -1j, -2 - 1j], repeat=3):
                e = bp.Expr((mk(S[d["a"]], co[0]), mk(b, co[1]), mk(c, co[2])))
                check_obj(t, e, palg.add(palg.add(of(mk(S[d["a"]], co[0])), of(mk(b, co[1]))), of(mk(c, co[2]))), "sum")
        t.trace()
        t.outcome("sums")
    else:
        for rest in itertools.product(range(len(CALLS)), repeat=d["depth"] - 2):
            hist(t, [d["a"], d["b"], *rest])
        t.outcome("histories")


def objs():
    X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
    return [X[0], Y[1], I, X[0] * Y[1], 2.0 * (Z[0] * Z[2]), bp.Term((X[1], X[1], Y[0]), 0.5), X[0] + Z[1], Y[0] * 0.5 - Z[1] * X[0] + 1, bp.Expr.zero(), bp.qubo_bit(2)]


def trash(m):
    """modify a returned matrix"""
    if isinstance(m, np.ndarray):
        if m.flags.writeable:
            m[...] = 77
    elif scipy.sparse.issparse(m):
        for nm in ("data", "indices", "indptr", "row", "col"):
            a = getattr(m, nm, None)
            if isinstance(a, np.ndarray) and a.size and a.flags.writeable and a.dtype != object:
                a[...] = 0 if nm != "data" else 77


def c_time(o):
    for m in o.to_expr():
        c = Circuit(3)
        try:
            m.get_time_evolution()(c, 0.5)
            c.run()
        except ValueError:
            pass


def c_app(o):
    c = Circuit(3)
    for m in o.to_expr():
        m.append_to_circuit(c)
        m.append_to_circuit(c, False)
    c.run()


def iop(o, f):
    p = o
    return f(p)


def c_iadd(o):
    o += bp.X[0]
    o += 1
    o += bp.Z[1] * bp.Y[0] + 0.5


def c_imul(o):
    o *= bp.Y[0]
    o *= 2j


def c_isub(o):
    o -= bp.X[0]
    o -= o


CALLS = [("add", lambda o: o + bp.X[0] + 1), ("radd", lambda o: 1 + o), ("sub", lambda o: o - bp.Z[1] * 2), ("selfsub", lambda o: o - o), ("mul", lambda o: o * bp.X[0]), ("mul2", lambda o: o * (bp.X[0] + bp.Y[1])), ("num", lambda o: 0.5 * o * 2j), ("zero", lambda o: 0 * o),
         ("div", lambda o: o / 2), ("neg", lambda o: -o), ("pow", lambda o: o.to_expr() ** 3), ("simp", lambda o: o.to_expr().simplify()), ("tsimp", lambda o: [m.simplify() for m in o.to_expr()]), ("mat", lambda o: trash(o.to_matrix(3))), ("mat0", lambda o: trash(o.to_matrix())),
         ("sparse", lambda o: [trash(o.to_matrix(3, sparse=f)) for f in FMT[1:]]), ("evo", c_time), ("app", c_app), ("comm", lambda o: bp.commutator(o, bp.Y[0] + bp.Z[1])), ("isc", lambda o: bp.is_commutable(o, bp.X[0])), ("eq", lambda o: (o == bp.X[0], o != bp.X[0] + 1, o == o)),
         ("matrix", lambda o: [trash(c.matrix) for c in (bp.X, bp.Y, bp.Z, bp.I, bp.X[0], bp.Y[2])]), ("iadd", c_iadd), ("imul", c_imul), ("isub", c_isub), ("dict", lambda o: o.to_expr().terms_to_dict().clear() if hasattr(o.to_expr(), "terms_to_dict") else None)]
M1 = {"X": ref.mat1("x"), "Y": ref.mat1("y"), "Z": ref.mat1("z")}
_exp = []


def hist(t, seq):
    O = objs()
    if not _exp:
        _exp.extend((snap(o), palg.coo(of(o), 3)) for o in O)
    for i in seq:
        nm, f = CALLS[i]
        for o in O[::1 if i == seq[0] else 3]:
            f(o)
            t.trans()
    for o, (s, m) in zip(O, _exp):
        t.check(snap(o) == s, lambda: f"after {[CALLS[i][0] for i in seq]}: {s} became {o!r}")
    j = sum(seq) % len(O)
    for q in (j, (j + 3) % len(O), (j + 7) % len(O)):
        t.check(np.allclose(O[q].to_matrix(3), _exp[q][1]) and np.allclose(O[q].to_matrix(3, sparse="csr").toarray(), _exp[q][1]), lambda: f"after {[CALLS[i][0] for i in seq]}: matrix of {O[q]!r}")
    for l in "XYZ":
        t.check(np.array_equal(getattr(bp, l).matrix, M1[l]) and np.array_equal(getattr(bp, l)[0].matrix, M1[l]) and np.allclose(getattr(bp, l)[0].to_matrix(), M1[l]), lambda: f"after {[CALLS[i][0] for i in seq]}: constant {l} is {getattr(bp, l).matrix}")
    t.check(np.array_equal(bp.I.matrix, np.eye(2)), "constant I")
    t.trace()
    t.state(tuple(seq))
