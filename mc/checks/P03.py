"""to_matrix of every Pauli string, every sum over small sets and every format against exact matrices."""
import itertools
import numpy as np
import scipy.sparse
from mc import palg
from blueqat import pauli as bp

FMT = [None, "bsr", "coo", "csc", "csr", "dia", "dok", "lil"]
BOUNDS = {
 "quick": "all Pauli strings n<=5 x 8 formats x n..n+2 qubits, all strings n=6 (csc, csr, dense), all run-length patterns n=8 (csr, csc); all pairs of strings n<=2 and all pairs n=3 (csr/csc/dense) as sums, all 3-subsets n=2, sums of all strings; "
          "un-simplified words of length <=4, zero and cancelling expressions, coefficients of 9 kinds, every too-small qubit count; every result modified and recomputed; 9 scales from 2^-300 to 2^200, judged relatively; n=9..14: every two-operator string with every gap, dense strings, sums of 12..40 strings, in csr, csc, coo (dense at n<=10), with up to 2 more qubits",
 "thorough": "strings n<=7, run patterns n=10, all triples n=2, pairs n=3 in every format, pairs of n=4"}
COEFS = [1.0, -0.5, 1j, 2 - 1j, 3, np.float64(0.25), np.complex128(1j), -1, 1e-9]


def mk(w, c=1.0):
    return bp.Term(tuple(getattr(bp, o)[q] for q, o in enumerate(w) if o != "I"), c)


def cases(tier):
    out = []
    N = 5 if tier == "quick" else 6
    for n in range(0, N + 1):
        for h in itertools.product("IXYZ", repeat=max(0, n - 2)):
            out.append(dict(kind="str", n=n, head="".join(h), full=True))
    for h in itertools.product("IXYZ", repeat=3 if tier == "quick" else 4):
        out.append(dict(kind="str", n=N + 1, head="".join(h), full=False))
    for m in range(1, 2 ** 7 if tier == "quick" else 2 ** 9, 4):
        out.append(dict(kind="runs", lo=m, hi=m + 4, n=8 if tier == "quick" else 10))
    for i in range(16):
        out.append(dict(kind="pairs", n=2, i=i, fmts=FMT))
    for i in range(64):
        out.append(dict(kind="pairs", n=3, i=i, fmts=FMT if tier == "thorough" else [None, "csc", "csr"]))
    if tier == "thorough":
        for i in range(256):
            out.append(dict(kind="pairs", n=4, i=i, fmts=[None, "csr"]))
    for i in range(16):
        out.append(dict(kind="triples", i=i, tier=tier))
    out.append(dict(kind="all"))
    for w in itertools.product(["X0", "Y0", "Z0", "X1", "Z2"], repeat=2):
        out.append(dict(kind="words", head=list(w)))
    out.append(dict(kind="coef"))
    out.append(dict(kind="small"))
    out.append(dict(kind="errors"))
    out.append(dict(kind="ops"))
    for n in (9, 10, 11, 12) if tier == "quick" else (9, 10, 11, 12, 13, 14, 15):
        for i in range(4):
            out.append(dict(kind="wide", n=n, i=i))
    for i in range(len(palg.SCALES)):
        out.append(dict(kind="scale", i=i))
    return out


_dense = {}


def dense(d, n):
    return palg.coo(d, n)


def one(t, o, d, n, fmt, arg, what=""):
    m = o.to_matrix(*arg, sparse=fmt) if fmt is not None or len(arg) % 2 else o.to_matrix(*arg)
    t.trans()
    if fmt is None:
        t.check(isinstance(m, np.ndarray), lambda: f"to_matrix of {o!r} is a {type(m).__name__}")
        a = m
    else:
        t.check(scipy.sparse.issparse(m) and m.format == fmt, lambda: f"to_matrix({arg}, sparse={fmt!r}) of {o!r} has format {getattr(m, 'format', type(m))}")
        a = m.toarray()
    e = dense(d, n)
    t.check(a.shape == e.shape and np.allclose(a.astype(complex), e, atol=1e-10, rtol=1e-10), lambda: f"to_matrix({arg}, sparse={fmt!r}) of {o!r} {what}:\n{a}\nexpected\n{e}")
    return m


def battery(t, o, d, n, fmts=FMT, pads=(0, 1)):
    for f in fmts:
        for p in pads:
            one(t, o, d, n + p, f, (n + p,))
        one(t, o, d, o.n_qubits, f, ())
    t.trace()
    t.state(repr(o))


def swide(t, o, d, n, fmt, arg):
    """sparse result of a wide operator against the sum of its strings, column by column"""
    m = o.to_matrix(*arg, sparse=fmt)
    t.trans()
    t.check(m.shape == (2 ** n,) * 2 and m.format == fmt, lambda: f"to_matrix({arg}, sparse={fmt!r}) of {o!r}: shape {m.shape}, format {m.format}")
    m = m.tocsc()
    m.sum_duplicates()
    c = np.arange(2 ** n)
    rows, vals = {}, None
    for (x, z), v in d.items():
        col = v * palg.PH[palg.pc(x & z) % 4] * (1 - 2 * palg.parity(c & z))
        rows[x] = rows.get(x, 0) + col
    r = scipy.sparse.coo_matrix((np.concatenate([v for v in rows.values()]) if rows else np.zeros(0), (np.concatenate([c ^ x for x in rows]) if rows else [], np.tile(c, len(rows)))), shape=(2 ** n,) * 2).tocsc()
    e = abs(m - r)
    t.check(e.nnz == 0 or e.max() < 1e-9, lambda: f"to_matrix({arg}, sparse={fmt!r}) of {o!r} differs by {e.max()}")


def wide(t, n, i):
    F = ("csr", "csc", "coo")
    ws = []
    a = "XYZ"[i % 3]
    if i < 3:
        for b in "XYZ":
            for g in range(1, n):
                ws.append(a + "I" * (g - 1) + b)
                ws.append("I" * (n - g - 1) + a + "I" * (g - 1) + b)
        ws += ["I" * q + a for q in range(n)]
    else:
        ws = [c * n for c in "XYZ"] + [("XYZ" * n)[:n], ("ZIY" * n)[:n], ("IX" * n)[:n], "X" * (n // 2) + "Z" * (n - n // 2), "Z" * (n - 1) + "Y", "Y" + "I" * (n - 2) + "Y", "I" * n]
    ts = []
    for j, w in enumerate(ws):
        key, _ = palg.word([(o, q) for q, o in enumerate(w)])
        o = mk(w, 0.5 - 1j if j % 2 else -2.0)
        c = o.coeff
        swide(t, o, {key: c}, n, F[j % 3], (n,))
        if j % 5 == 0:
            swide(t, o.to_expr(), {key: c}, n, F[(j + 1) % 3], (n,))
            swide(t, o.to_expr(), {key: c}, max(o.n_qubits, 1) if o.n_qubits else 0, "csr", ())
        if j % 7 == 0 and n < 12:
            swide(t, o, {key: c}, n + 2, "csc", (n + 2,))
        if j % 7 == 3 and n <= 10:
            one(t, o, {key: c}, n, None, (n,))
        rev = bp.Term(tuple(reversed(o.ops)), o.coeff)
        if j % 4 == 1:
            swide(t, rev, {key: c}, n, "csr", (n,))
        ts.append(o)
        t.state((n, w))
    for L in (ts[:12], ts[::-1][:40], ts[::3]):
        e = bp.Expr(tuple(L))
        ex = palg.of(e)
        for f in F if len(L) < 20 else F[:1]:
            swide(t, e, ex, n, f, (n,))
            swide(t, e - e + L[0], palg.of(L[0]), n, f, (n,))
    t.trace()


def run_case(t, d):
    k = d["kind"]
    if k == "str":
        n, h = d["n"], d["head"]
        for tail in itertools.product("IXYZ", repeat=n - len(h)):
            w = h + "".join(tail)
            key, _ = palg.word([(o, q) for q, o in enumerate(w)])
            o = mk(w)
            if d["full"]:
                battery(t, o, {key: 1}, n, pads=(0, 1, 2) if n < 4 else (0, 1))
                battery(t, o.to_expr(), {key: 1}, n, pads=(0, 1) if n < 5 else (0,))
                c = COEFS[sum(map(ord, w)) % 4]
                battery(t, o * c, {key: c}, n, [None, "csr", "csc"], (0,))
            else:
                for f in (None, "csc", "csr"):
                    one(t, o * -0.5, {key: -0.5}, n, f, (n,))
                    one(t, o.to_expr(), {key: 1}, n, f, (n,))
                t.state(w)
        t.outcome("strings")
    elif k == "wide":
        wide(t, d["n"], d["i"])
        t.outcome("many qubits")
    elif k == "runs":
        n = d["n"]
        for m in range(d["lo"], d["hi"]):
            # borders between runs given by the bits of m
            lens, c = [], 1
            for i in range(n - 1):
                if m >> i & 1:
                    lens.append(c)
                    c = 1
                else:
                    c += 1
            lens.append(c)
            for rot in itertools.product(range(4), repeat=min(3, len(lens))):
                w = "".join("IXYZ"[rot[i % len(rot)]] * l for i, l in enumerate(lens))
                key, _ = palg.word([(o, q) for q, o in enumerate(w)])
                o = mk(w, 2.0)
                for f in ("csr", "csc"):
                    M = o.to_matrix(n, sparse=f).tocoo()
                    t.trans()
                    col = M.col.astype(np.int64)
                    val = 2 * palg.PH[palg.pc(key[0] & key[1]) % 4] * (1 - 2 * palg.parity(col & key[1]))
                    t.check(M.nnz == 2 ** n and len(set(M.col.tolist())) == 2 ** n and np.array_equal(M.row, col ^ key[0]) and np.allclose(M.data, val), lambda: f"to_matrix of {o!r} as {f}")
                t.state(w)
        t.outcome("run patterns")
    elif k == "pairs":
        n = d["n"]
        S = ["".join(w) for w in itertools.product("IXYZ", repeat=n)]
        a = S[d["i"]]
        for j, b in enumerate(S):
            for ca, cb in ((1.0, 0.5), (1j, -1)) if n < 3 else ((1.0, -0.5),):
                e = mk(a, ca).to_expr() + mk(b, cb)
                ex = palg.add(palg.of(mk(a, ca)), palg.of(mk(b, cb)))
                battery(t, e, ex, n, d["fmts"], (0, 1) if n < 3 else (0,))
        t.outcome("sums of two")
    elif k == "triples":
        S = ["".join(w) for w in itertools.product("IXYZ", repeat=2)]
        a = S[d["i"]]
        for b, c in itertools.combinations(S, 2):
            e = bp.Expr((mk(a, 2.0), mk(b, -1.0), mk(c, 0.5)))
            battery(t, e, palg.of(e), 2, FMT if d["tier"] == "thorough" else [None, "csr", "csc", "dok"], (0,))
        t.outcome("sums of three")
    elif k == "all":
        for n in (1, 2, 3, 4):
            S = ["".join(w) for w in itertools.product("IXYZ", repeat=n)]
            for step in (1, 2, 3, 5, 7):
                e = bp.Expr(tuple(mk(w, 1 + 0.25 * i * (1j if i % 3 else 1)) for i, w in enumerate(S[::step])))
                ex = palg.of(e)
                battery(t, e, ex, n, FMT, (0, 1) if n < 4 else (0,))
                r = bp.Expr(tuple(reversed(e.terms)))
                battery(t, r, ex, n, [None, "csr", "csc"], (0,))
        t.outcome("all strings")
    elif k == "words":
        for r in (0, 1, 2):
            for rest in itertools.product(["X0", "Y0", "Z0", "X1", "Z2"], repeat=r):
                w = tuple(d["head"]) + rest
                o = bp.Term(tuple(getattr(bp, x[0])[int(x[1])] for x in w), 0.5)
                ex = palg.of(o)
                n = max(int(x[1]) for x in w) + 1
                battery(t, o, ex, n, [None, "csr", "csc", "coo"], (0, 1))
                battery(t, o.to_expr(), ex, n, [None, "csr", "csc", "lil"], (0, 1))
                e = o.to_expr() + bp.Term((), 1.0)
                battery(t, e, palg.add(ex, {(0, 0): 1}), n, [None, "csr"], (0,))
        t.outcome("un-simplified words")
    elif k == "coef":
        for c in COEFS:
            for w in ("", "X", "IZ", "YX", "ZZY", "IIX"):
                key, _ = palg.word([(o, q) for q, o in enumerate(w)])
                o = mk(w, c)
                battery(t, o, {key: complex(c)}, len(w))
                battery(t, o.to_expr(), {key: complex(c)}, len(w))
        X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
        for o in (0 * X[0], 0 * (X[0] * Y[2]), X[0] * Y[0] * Z[0], 0 * I, 0j * Z[1]):
            battery(t, o, palg.of(o), max(1, o.n_qubits))
        for e in (bp.Expr.zero(), X[0] - X[0], bp.Expr((X[1] * 1.0, X[1] * -1.0)), bp.Expr((mk("XY", 0), mk("Z", 1))), bp.Expr((X[0] * Y[0], Y[0] * X[0])), bp.Expr.from_number(2), bp.Expr((mk("", 1), mk("", -1))),
                  bp.Expr((mk("ZZ", 1), mk("ZZ", -1), mk("X", 1))), bp.Expr((mk("ZZ", 1), mk("", -1), mk("Z", 1), mk("IZ", 1))), bp.Expr((mk("XX", 1), mk("YY", 1))), bp.Expr((mk("X", 1), mk("Y", 1j)))):
            battery(t, e, palg.of(e), e.n_qubits)
            battery(t, e, palg.of(e), max(2, e.n_qubits), pads=(0, 1))
        t.outcome("coefficients and cancellations")
    elif k == "scale":
        c = palg.SCALES[d["i"]]
        with palg.exact():
            for a in palg.scale_pool():
                for o in (a * c, a * c + bp.Z[0] * bp.X[1], a * c + bp.Y[0] * c + bp.X[0] * 4.0):
                    for n in (max(1, o.n_qubits), 3):
                        e = dense(palg.of(o), n)
                        for f in FMT:
                            m = o.to_matrix(n, sparse=f)
                            m = m if f is None else m.toarray()
                            t.trans()
                            t.check(m.shape == e.shape and np.all(abs(m - e) <= 1e-9 * np.maximum(abs(m), abs(e))), lambda: f"to_matrix({n}, sparse={f!r}) of {o!r}:\n{m}\nexpected\n{e}")
                    t.state(repr(o))
        t.trace()
        t.outcome("very small and very large coefficients")
    elif k == "small":
        X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
        objs = [X[0], Y[2], Z[1], X[0] * Y[1], 2 * Z[3], X[0] + Y[1], Z[2] - X[2] + 1, bp.qubo_bit(1), 1j * Z[0], bp.Term((X[2], X[2]), 2.0), bp.Expr((bp.Term((X[1], X[1]), 2.0),)), X[3] * Z[0] + Y[1], Z[1] - Z[1] + X[0], I, 2 * I, bp.Expr.from_number(3)]
        for o in objs:
            ex = palg.of(o)
            need = palg.qubits(ex)
            for n in range(0, 5):
                for f in FMT:
                    try:
                        m = o.to_matrix(n, sparse=f)
                    except Exception:
                        t.check(n < max(need, o.n_qubits), f"to_matrix({n}) of {o!r} raised")
                        continue
                    t.check(n >= need, lambda: f"to_matrix({n}, sparse={f!r}) of {o!r}, which needs {need} qubits, returned {m}")
                    one(t, o, ex, n, f, (n,))
            for n in (-2, -3):
                try:
                    m = o.to_matrix(n)
                    t.check(m.shape == (2 ** need,) * 2 and np.allclose(m, dense(ex, need)), lambda: f"to_matrix({n}) of {o!r} returned {m}")
                except Exception:
                    pass
            t.state(repr(o))
        t.outcome("too few qubits")
    elif k == "errors":
        for o in (bp.I, bp.X[0], bp.Z[1] * 2, bp.X[0] + bp.Y[1], bp.Expr.zero(), 2 * bp.I, bp.Expr.from_number(1)):
            for f in ("xyz", "CSR", "dense", "numpy", "matrix"):
                for n in (-1, 0, 2, 3):
                    try:
                        m = o.to_matrix(n, sparse=f)
                        t.check(False, f"format {f!r} accepted by {o!r}: {m!r}")
                    except ValueError:
                        t.trans()
        t.outcome("unknown formats")
    else:
        # operators, and independence of successive results
        for o, l in [(f(n), c) for f, c in ((bp.X, "X"), (bp.Y, "Y"), (bp.Z, "Z")) for n in range(4)] + [(bp.I, "I")]:
            n = 0 if l == "I" else o.n
            key, _ = palg.word([(l, n)])
            battery(t, o, {key: 1}, o.n_qubits, pads=(0, 1, 2))
            t.check(np.array_equal(o.matrix, dense(palg.of(o) if l == "I" else {palg.word([(l, 0)])[0]: 1}, 1)), lambda: f"{o!r}.matrix")
            for rep in range(2):
                for f in FMT:
                    m = one(t, o, {key: 1}, 4, f, (4,))
                    if f in (None, "csc", "csr", "dok", "lil"):
                        m[0, 0] = 7
                    else:
                        m.data[...] = 7
                    one(t, o, {key: 1}, 4, f, (4,), "after an earlier result was modified")
        for c in (bp.X, bp.Y, bp.Z):
            m = c.matrix
            m *= 5
            t.check(np.array_equal(c.matrix, c[0].matrix) and np.allclose(abs(c.matrix).max(), 1), f"{c} matrix constant changed")
        t.outcome("operators")
