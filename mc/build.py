"""Programs (JSON) -> real blueqat objects."""
import math
import itertools, math
import numpy as np
import blueqat
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat import gate as _g
from . import ref

PI = math.pi


def pv(p):
    """parameter value: number, or [kind, number]"""
    if isinstance(p, list):
        k, v = p
        return {'f64': np.float64, 'f32': np.float32, 'i64': np.int64, 'int': int}[k](v)
    return p


def pf(p):
    return float(pv(p))


def need_ccz():
    if not hasattr(Circuit(), 'ccz') and hasattr(_g, 'CCZGate'):
        BlueqatGlobalSetting.register_gate('ccz', _g.CCZGate)


def add(c, op):
    name, params, ex = op
    if name == 'ccz':
        need_ccz()
    w = getattr(c, name)
    if params:
        w = w(*[pv(p) for p in params])
    return w[ref.to_py(ex)]


def circ(prog, n0=0, cls=Circuit):
    c = cls(n0) if n0 else cls()
    for op in prog:
        r = add(c, op)
        c = r
    return c


def rprog(prog):
    """same program with float parameters for the reference"""
    return [[a, [pf(p) for p in b], c] for a, b, c in prog]


P1 = [0.7, -1.9]
PARAMS = {0: [[]], 1: [[0.7], [-1.9]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}


def targets(name, n):
    """all target expressions naming distinct single qubits"""
    k = 1 if name in ref.ONE or name in ('measure', 'reset', 'm') else 2 if name in ref.TWO else 3
    if k == 1:
        return list(range(n))
    return [["t", list(t)] for t in itertools.permutations(range(n), k)]


def instances(names, n, params=None):
    params = params or PARAMS
    return [[nm, p, t] for nm in names for p in params[ref.NPARAM[nm]] for t in targets(nm, n)]


def near_params(m, qs=range(-4, 6), js=(9, 16, 22), sums=True):
    """parameter lists with one angle (or the sum of the last two) just beside a multiple of a quarter turn"""
    base = [0.7, -1.3, 2.1][:m]
    out = []
    for a in (q * math.pi / 2 + s * 2.0 ** -j for q in qs for j in js for s in (1, -1)):
        out += [base[:i] + [a] + base[i + 1:] for i in range(m)]
        if m >= 2 and sums:
            out.append(base[:m - 2] + [1.1, a - 1.1])
    return out


def generic_prefix(n):
    """a program preparing a state with all amplitudes distinct and non-zero"""
    pr = []
    for q in range(n):
        pr.append(["ry", [0.6 + 0.37 * q], q])
        pr.append(["rz", [0.3 - 0.23 * q], q])
    for q in range(n - 1):
        pr.append(["cx", [], ["t", [q, q + 1]]])
        pr.append(["ry", [0.45 + 0.11 * q], q + 1])
    if n > 2:
        pr.append(["cx", [], ["t", [n - 1, 0]]])
    if n:
        pr.append(["rx", [0.81], 0])
    return pr


def wide_targets(name, n):
    """targets on a wide register (n >= 9): ends, neighbours, far apart, slices, negative"""
    s = lambda a=None, b=None, c=None: ["s", a, b, c]
    if name in ref.ONE or name in ('measure', 'reset', 'm'):
        return [n - 1, n - 2, 8, -n, s(n - 3), s(None, None, -5), ["t", [n - 1, 1, n - 1]], s(7, 9)]
    if name in ref.TWO:
        return [["t", x] for x in ([n - 1, 0], [0, n - 1], [n - 2, n - 1], [8, 2], [-1, -n], [s(0, 4), s(n - 4)], [s(n - 1, n - 4, -1), s(0, 3)], [s(n - 2), s(2, 4)])]
    return [["t", x] for x in ([n - 1, 0, 5], [0, n - 1, n - 2], [7, 8, 1], [n - 3, n - 1, 3])]


def long_alphabet(names, n=3):
    """one instance per gate on n >= 3 qubits"""
    tg = {1: [0, 2, 1], 2: [["t", [0, 2]], ["t", [2, 1]], ["t", [1, 0]]], 3: [["t", [2, 0, 1]], ["t", [0, 1, 2]]]}
    out = []
    for i, nm in enumerate(names):
        w = 1 if nm in ref.ONE else 2 if nm in ref.TWO else 3
        out.append([nm, PARAMS[ref.NPARAM[nm]][0], tg[w][i % len(tg[w])]])
    return out
