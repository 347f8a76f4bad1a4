"""Independent reference semantics.  Qubit k is bit k of the state index."""
import cmath, math
import numpy as np

_s = 1 / math.sqrt(2)
e = lambda t: cmath.exp(1j * t)
M1 = {
    'i': lambda: [[1, 0], [0, 1]], 'x': lambda: [[0, 1], [1, 0]], 'y': lambda: [[0, -1j], [1j, 0]],
    'z': lambda: [[1, 0], [0, -1]], 'h': lambda: [[_s, _s], [_s, -_s]],
    's': lambda: [[1, 0], [0, 1j]], 'sdg': lambda: [[1, 0], [0, -1j]],
    't': lambda: [[1, 0], [0, e(math.pi / 4)]], 'tdg': lambda: [[1, 0], [0, e(-math.pi / 4)]],
    'rx': lambda t: [[math.cos(t / 2), -1j * math.sin(t / 2)], [-1j * math.sin(t / 2), math.cos(t / 2)]],
    'ry': lambda t: [[math.cos(t / 2), -math.sin(t / 2)], [math.sin(t / 2), math.cos(t / 2)]],
    'rz': lambda t: [[e(-t / 2), 0], [0, e(t / 2)]],
    'phase': lambda t: [[1, 0], [0, e(t)]],
    'u1': lambda l: [[e(-l / 2), 0], [0, e(l / 2)]],
    'u2': lambda p, l: _u3(math.pi / 2, p, l),
    'u3': lambda t, p, l: _u3(t, p, l),
}
def _u3(t, p, l):
    g = e(-(p + l) / 2)
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[g * c, -g * e(l) * s], [g * e(p) * s, g * e(p + l) * c]]

ALIAS = {'cnot': 'cx', 'r': 'phase', 'cr': 'cphase', 'toffoli': 'ccx', 'm': 'measure'}
CTRL = {'cx': 'x', 'cy': 'y', 'cz': 'z', 'ch': 'h', 'crx': 'rx', 'cry': 'ry', 'crz': 'rz', 'cphase': 'phase',
        'cu1': 'phase', 'cu2': 'u2', 'cu3': 'u3'}
NPARAM = dict(i=0, x=0, y=0, z=0, h=0, t=0, tdg=0, s=0, sdg=0, rx=1, ry=1, rz=1, phase=1, r=1, u1=1, u2=2, u3=3,
              cx=0, cnot=0, cz=0, cy=0, ch=0, crx=1, cry=1, crz=1, cphase=1, cr=1, cu1=1, cu2=2, cu3=3, swap=0,
              rxx=1, ryy=1, rzz=1, ccx=0, toffoli=0, ccz=0, cswap=0, measure=0, m=0, reset=0)
ONE = ['i', 'x', 'y', 'z', 'h', 't', 'tdg', 's', 'sdg', 'rx', 'ry', 'rz', 'phase', 'r', 'u1', 'u2', 'u3']
TWO = ['cx', 'cnot', 'cz', 'cy', 'ch', 'crx', 'cry', 'crz', 'cphase', 'cr', 'cu1', 'cu2', 'cu3', 'swap', 'rxx', 'ryy', 'rzz']
THREE = ['ccx', 'toffoli', 'cswap']
UNITARY = ONE + TWO + THREE


def mat1(name, params=()):
    return np.array(M1[ALIAS.get(name, name)](*[float(p) for p in params]), dtype=complex)


def apply1(vec, q, U, ctrl=0):
    """Apply 2x2 U to qubit q of vec (first axis 2**n, any trailing axes) where all bits of ctrl are set."""
    N = vec.shape[0]
    idx = np.arange(N)
    z = idx[((idx >> q) & 1 == 0) & ((idx & ctrl) == ctrl)]
    o = z | (1 << q)
    out = vec.copy()
    a, b = vec[z], vec[o]
    out[z] = U[0, 0] * a + U[0, 1] * b
    out[o] = U[1, 0] * a + U[1, 1] * b
    return out


def gate(vec, name, params, qs):
    """One elementary gate on resolved qubits qs."""
    name = ALIAS.get(name, name)
    if name in M1:
        return apply1(vec, qs[0], mat1(name, params))
    if name in CTRL:
        return apply1(vec, qs[1], mat1(CTRL[name], params), 1 << qs[0])
    X = mat1('x')
    if name == 'swap':
        return permute_swap(vec, qs[0], qs[1], 0)
    if name in ('rxx', 'ryy', 'rzz'):
        P = mat1(name[1])
        t = float(params[0])
        return math.cos(t / 2) * vec - 1j * math.sin(t / 2) * apply1(apply1(vec, qs[0], P), qs[1], P)
    if name == 'ccx':
        return apply1(vec, qs[2], X, (1 << qs[0]) | (1 << qs[1]))
    if name == 'ccz':
        return apply1(vec, qs[2], mat1('z'), (1 << qs[0]) | (1 << qs[1]))
    if name == 'cswap':
        return permute_swap(vec, qs[1], qs[2], 1 << qs[0])
    raise KeyError(name)


def permute_swap(vec, a, b, ctrl):
    idx = np.arange(vec.shape[0])
    sel = (idx & ctrl) == ctrl
    ba, bb = (idx >> a) & 1, (idx >> b) & 1
    sw = (idx & ~((1 << a) | (1 << b))) | (bb << a) | (ba << b)
    src = np.where(sel, sw, idx)
    return vec[src].copy()


# -------- index expressions.  JSON form: int | ["s",start,stop,step] | ["t", [..]]
def to_py(ex):
    if isinstance(ex, list):
        if ex[0] == 's':
            return slice(ex[1], ex[2], ex[3])
        return tuple(to_py(x) for x in ex[1])
    return ex


class Bad(Exception):
    pass


def select(ex, n):
    """python expression -> list of qubits (Bad if out of range)"""
    if isinstance(ex, tuple):
        r = []
        for x in ex:
            r += select(x, n)
        return r
    if isinstance(ex, slice):
        return list(range(n))[ex]
    i = int(ex)
    if i < 0:
        i += n
    if not 0 <= i < n:
        raise Bad(ex)
    return [i]


def grow(ex):
    """number of qubits an index expression forces"""
    if isinstance(ex, tuple):
        return max([grow(x) for x in ex], default=0)
    if isinstance(ex, slice):
        return max(0, (ex.start + 1) if ex.start is not None else 0, ex.stop if ex.stop is not None else 0)
    return max(0, int(ex) + 1)


def elementary(name, ex, n):
    """list of qubit tuples the operation acts on, in order"""
    name = ALIAS.get(name, name)
    if name in ('ccx', 'ccz', 'cswap'):
        if not isinstance(ex, tuple) or len(ex) != 3 or any(isinstance(x, (slice, tuple)) for x in ex):
            raise Bad(ex)
        q = [select(x, n)[0] for x in ex]
        if len(set(q)) != 3:
            raise Bad(ex)
        return [tuple(q)]
    if name in TWO:
        if not isinstance(ex, tuple) or len(ex) != 2:
            raise Bad(ex)
        a, b = select(ex[0], n), select(ex[1], n)
        if len(a) != len(b) or any(x == y for x, y in zip(a, b)):
            raise Bad(ex)
        return list(zip(a, b))
    return [(q,) for q in select(ex, n)]


# -------- programs: list of [name, params, index-expression(JSON)]
def n_of(prog, n0=0):
    return max([n0] + [grow(to_py(op[2])) for op in prog])


def run(prog, n, vec=None):
    if vec is None:
        vec = np.zeros(2 ** n, complex)
        vec[0] = 1
    for name, params, ex in prog:
        for qs in elementary(name, to_py(ex), n):
            vec = gate(vec, name, params, qs)
    return vec


def unitary(prog, n):
    return run(prog, n, np.eye(2 ** n, dtype=complex))


def branches(prog, n, vec=None, eps=1e-12):
    """Measurement semantics: list of (prob, bits tuple, state) of all branches (not merged)."""
    if vec is None:
        vec = np.zeros(2 ** n, complex)
        vec[0] = 1
    idx = np.arange(2 ** n)
    br = [(1.0, (0,) * n, vec)]
    for name, params, ex in prog:
        nm = ALIAS.get(name, name)
        for qs in elementary(name, to_py(ex), n):
            nb = []
            for p, bits, v in br:
                if nm in ('measure', 'reset'):
                    q = qs[0]
                    for b in (0, 1):
                        m = ((idx >> q) & 1) == b
                        pr = float(np.sum(np.abs(v[m]) ** 2))
                        if pr < eps:
                            continue
                        w = np.where(m, v, 0) / math.sqrt(pr)
                        if nm == 'reset':
                            if b:
                                w = apply1(w, q, mat1('x'))
                            nb.append((p * pr, bits, w))
                        else:
                            nb.append((p * pr, bits[:q] + (b,) + bits[q + 1:], w))
                else:
                    nb.append((p, bits, gate(v, nm, params, qs)))
            br = nb
    return br


def align(a, b):
    """b multiplied by the phase that matches a"""
    ip = np.vdot(b, a)
    return b * (ip / abs(ip)) if abs(ip) > 1e-12 else b


def same(a, b, tol=1e-8):
    """equal arrays up to one global phase"""
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - align(a.ravel(), b.ravel()).reshape(a.shape)), initial=0.0) < tol)


def key(vec, digits=6):
    """phase independent canonical key of a state vector"""
    v = np.asarray(vec, complex).ravel()
    k = int(np.argmax(np.abs(v) > 1e-6))
    if abs(v[k]) > 1e-6:
        v = v * (abs(v[k]) / v[k])
    w = np.round(v, digits) + 0.0
    w = w + (0.0 + 0.0j)
    return (w.real + 0.0).tobytes() + (w.imag + 0.0).tobytes()


# -------- Paulis
PM = {'I': np.eye(2, dtype=complex), 'X': mat1('x'), 'Y': mat1('y'), 'Z': mat1('z')}


def pauli(ops, n):
    """matrix of product (in order) of (op, qubit) factors on n qubits"""
    M = np.eye(2 ** n, dtype=complex)
    for o, q in ops:
        K = np.array([[1]], complex)
        for k in range(n):
            K = np.kron(PM[o] if k == q else PM['I'], K)
        M = M @ K
    return M
