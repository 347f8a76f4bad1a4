"""Reference Pauli algebra: {(x, z): coeff} where (x, z) is the Hermitian string with X on bits of x, Z on bits of z, Y on both."""
import numpy as np
from blueqat import pauli as bp

PH = (1, 1j, -1, -1j)
pc = lambda v: bin(v).count("1")


def smul(a, b):
    """string * string -> (string, phase)"""
    x, z = a[0] ^ b[0], a[1] ^ b[1]
    k = pc(a[0] & a[1]) + pc(b[0] & b[1]) - pc(x & z) + 2 * pc(a[1] & b[0])
    return (x, z), PH[k % 4]


EPS = [1e-11]
# powers of two, so that the arithmetic with simple coefficients is exact in floating point
SCALES = [2.0 ** -30, 2.0 ** -60, 2.0 ** -300, 2.0 ** 40, 2.0 ** 200, 1j * 2.0 ** -33, 1 + 1j * 2.0 ** -34, 2.0 ** -35 + 1j, 1 + 2.0 ** -40, 1 + 1j * 2.0 ** -41, 2.0 ** -42 + 1j]


class exact:
    """inside: only exact zeros are dropped from reference operators"""
    def __enter__(self):
        EPS[0] = 0

    def __exit__(self, *a):
        EPS[0] = 1e-11


def clean(d):
    return {k: v for k, v in d.items() if abs(v) > EPS[0]}


def rel(a, b, tol=1e-9):
    """equal to within a relative error per coefficient, and per real and imaginary part down to rounding"""
    def ok(x, y):
        x, y = complex(x), complex(y)
        m = max(abs(x), abs(y))
        return abs(x - y) <= tol * m and all(abs(u - v) <= tol * max(abs(u), abs(v)) + 1e-14 * m for u, v in ((x.real, y.real), (x.imag, y.imag)))
    return all(ok(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b))


def scale_pool():
    X, Y, Z, I = bp.X, bp.Y, bp.Z, bp.I
    return [X[0], I, 1.0 * Y[1], X[0] * Y[1], bp.Term((X[0], Z[0]), 1.0), bp.Term((Y[0], Y[0]), -0.5), 2 * I, X[0] + Z[1], X[0] * Z[1] - 0.5, bp.Expr((Y[0] * 2.0, X[0] * Y[0], Z[1] * -1.0)), X[0] - X[0]]


def mul(a, b):
    r = {}
    for s, c in a.items():
        for u, e in b.items():
            k, p = smul(s, u)
            r[k] = r.get(k, 0) + c * e * p
    return clean(r)


def add(a, b, sign=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + sign * v
    return clean(r)


def scale(a, k):
    return clean({s: c * k for s, c in a.items()})


def num(v):
    return clean({(0, 0): complex(v)})


def power(a, n):
    r = num(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def word(ops, coeff=1):
    """product of (letter, qubit) in order"""
    x = z = 0
    c = complex(coeff)
    for o, q in ops:
        if o == "I":
            continue
        b = 1 << q
        (x, z), p = smul((x, z), (b if o in "XY" else 0, b if o in "YZ" else 0))
        c *= p
    return (x, z), c


def of(obj):
    """the operator a blueqat object denotes"""
    r = {}
    for t in obj.to_expr().terms:
        k, c = word([(o.op, None if o.op == "I" else o.n) for o in t.ops], t.coeff)
        r[k] = r.get(k, 0) + c
    return clean(r)


def same(a, b, tol=1e-9):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


def coo(d, n):
    """dense matrix"""
    N = 2 ** n
    M = np.zeros((N, N), complex)
    c = np.arange(N)
    for (x, z), v in d.items():
        par = np.array([pc(i & z) & 1 for i in range(N)]) if N <= 16 else parity(c & z)
        M[c ^ x, c] += v * PH[pc(x & z) % 4] * (1 - 2 * par)
    return M


def parity(a):
    a = a.copy()
    for s in (16, 8, 4, 2, 1):
        a ^= a >> s
    return a & 1


def qubits(d):
    return max([max(x.bit_length(), z.bit_length()) for x, z in d] + [0])


def letters(k, n):
    x, z = k
    return "".join("IXZY"[(x >> i & 1) + 2 * (z >> i & 1)] for i in range(n))


# ---- expression trees (JSON).  leaf: "X0", "I", ["n", kind, value]; node: [op, a, b] / ["neg", a] / ["pow", a, k] / ["term"|"expr"|"simp", a]
def number(l):
    k, v = l[1], l[2]
    if k == "c":
        return complex(*v)
    if k == "c128":
        return np.complex128(complex(*v))
    return {"i": int, "f": float, "b": bool, "f64": np.float64, "f32": np.float32, "i64": np.int64}[k](v)


OPF = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def build(tr):
    if isinstance(tr, str):
        return bp.I if tr == "I" else getattr(bp, tr[0])[int(tr[1:])]
    o = tr[0]
    if o == "n":
        return number(tr)
    a = build(tr[1])
    if o == "neg":
        return -a
    if o == "pow":
        return a ** tr[2]
    if o == "term":
        return a.to_term()
    if o == "expr":
        return a.to_expr()
    if o == "simp":
        return a.simplify()
    return OPF[o](a, build(tr[2]))


def refv(tr):
    if isinstance(tr, str):
        return num(1) if tr == "I" else {word([(tr[0], int(tr[1:]))])[0]: 1}
    o = tr[0]
    if o == "n":
        return num(number(tr))
    a = refv(tr[1])
    if o == "neg":
        return scale(a, -1)
    if o == "pow":
        return power(a, tr[2])
    if o in ("term", "expr", "simp"):
        return a
    b = refv(tr[2])
    if o == "*":
        return mul(a, b)
    if o == "/":
        return scale(a, 1 / b[(0, 0)])
    return add(a, b, 1 if o == "+" else -1)


def show(tr):
    if isinstance(tr, str):
        return tr
    if tr[0] == "n":
        return repr(number(tr)) if tr[1] in "ifcb" else f"np.{tr[1]}({number(tr)})"
    if tr[0] == "pow":
        return f"({show(tr[1])})**{tr[2]}"
    if len(tr) == 2:
        return f"{tr[0]}({show(tr[1])})"
    return f"({show(tr[1])} {tr[0]} {show(tr[2])})"
