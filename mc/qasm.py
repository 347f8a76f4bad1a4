"""Independent OpenQASM 2.0 reader (flat programs over qelib1) -> reference program."""
import ast, math, re

_id = re.compile(r"[a-z][A-Za-z0-9_]*$")
# name -> (number of parameters, number of qubits, reference gate)
QELIB = {'u3': (3, 1, 'u3'), 'u2': (2, 1, 'u2'), 'u1': (1, 1, 'phase'), 'cx': (0, 2, 'cx'), 'id': (0, 1, 'i'), 'x': (0, 1, 'x'), 'y': (0, 1, 'y'), 'z': (0, 1, 'z'),
         'h': (0, 1, 'h'), 's': (0, 1, 's'), 'sdg': (0, 1, 'sdg'), 't': (0, 1, 't'), 'tdg': (0, 1, 'tdg'), 'rx': (1, 1, 'rx'), 'ry': (1, 1, 'ry'), 'rz': (1, 1, 'rz'),
         'cz': (0, 2, 'cz'), 'cy': (0, 2, 'cy'), 'ch': (0, 2, 'ch'), 'ccx': (0, 3, 'ccx'), 'crz': (1, 2, 'crz'), 'cu1': (1, 2, 'cphase'), 'cu3': (3, 2, 'cu3'),
         'swap': (0, 2, 'swap'), 'cswap': (0, 3, 'cswap'), 'p': (1, 1, 'phase'), 'u': (3, 1, 'u3'), 'crx': (1, 2, 'crx'), 'cry': (1, 2, 'cry'), 'cp': (1, 2, 'cphase'),
         'rxx': (1, 2, 'rxx'), 'rzz': (1, 2, 'rzz'), 'U': (3, 1, 'u3'), 'CX': (0, 2, 'cx')}
EXTRA = {'cu2': (2, 2, 'cu2')}          # not part of qelib1: recorded finding


class QasmError(Exception):
    pass


def number(text):
    try:
        tree = ast.parse(text.strip(), mode="eval").body
    except SyntaxError:
        raise QasmError(f"parameter {text!r}")

    def ev(x):
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            return float(x.value)
        if isinstance(x, ast.Name) and x.id == "pi":
            return math.pi
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.UAdd)):
            return -ev(x.operand) if isinstance(x.op, ast.USub) else ev(x.operand)
        if isinstance(x, ast.BinOp):
            a, b = ev(x.left), ev(x.right)
            if isinstance(x.op, ast.Add):
                return a + b
            if isinstance(x.op, ast.Sub):
                return a - b
            if isinstance(x.op, ast.Mult):
                return a * b
            if isinstance(x.op, ast.Div):
                return a / b
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sin", "cos", "tan", "exp", "ln", "sqrt") and len(x.args) == 1:
            return {"ln": math.log}.get(x.func.id, getattr(math, x.func.id, None))(ev(x.args[0]))
        raise QasmError(f"parameter {text!r}")
    return ev(tree)


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            d += ch == "("
            d -= ch == ")"
            cur += ch
    if cur.strip() or out:
        out.append(cur)
    return out


def parse(text, prologue=True, n=None):
    """-> (n, program, set of gate names outside qelib1).  Strict about declarations, arity and ranges."""
    text = re.sub(r"//[^\n]*", "", text)
    sts = [x.strip() for x in text.split(";")]
    if sts and sts[-1]:
        raise QasmError(f"text after the last statement: {sts[-1]!r}")
    sts = [x for x in sts[:-1]]
    q = c = None
    nc = n
    if prologue:
        if not sts or not re.fullmatch(r"OPENQASM\s+2\.0", sts[0]):
            raise QasmError("missing version")
        if len(sts) < 2 or not re.fullmatch(r'include\s+"qelib1\.inc"', sts[1]):
            raise QasmError("missing include")
        sts = sts[2:]
        n = nc = None
        while sts and re.match(r"(qreg|creg)\b", sts[0]):
            m = re.fullmatch(r"(qreg|creg)\s+([a-z][A-Za-z0-9_]*)\s*\[\s*(\d+)\s*\]", sts[0])
            if not m:
                raise QasmError(sts[0])
            if m[1] == "qreg":
                if q is not None:
                    raise QasmError("two quantum registers")
                q, n = m[2], int(m[3])
            else:
                if c is not None:
                    raise QasmError("two classical registers")
                c, nc = m[2], int(m[3])
            sts = sts[1:]
        if q is None or c is None or q == c:
            raise QasmError("registers")
        if n != nc:
            raise QasmError(f"quantum register of {n}, classical register of {nc}")
    prog, extra = [], set()

    def reg(x, name, size):
        m = re.fullmatch(r"\s*([a-z][A-Za-z0-9_]*)\s*\[\s*(\d+)\s*\]\s*", x)
        if not m or (name is not None and m[1] != name) or int(m[2]) >= size:
            raise QasmError(f"operand {x!r}")
        return int(m[2])
    for s in sts:
        m = re.fullmatch(r"measure\s+(.*?)\s*->\s*(.*)", s, re.S)
        if m:
            a, b = reg(m[1], q, n), reg(m[2], c, nc)
            prog.append(["measure", [], a, b])
            continue
        m = re.fullmatch(r"reset\s+(.*)", s, re.S)
        if m:
            prog.append(["reset", [], reg(m[1], q, n)])
            continue
        m = re.match(r"([A-Za-z][A-Za-z0-9_]*)\s*", s)
        if not m:
            raise QasmError(f"statement {s!r}")
        name = m[1]
        rest = s[m.end():]
        ps = []
        if rest.startswith("("):
            d = 0
            for k, ch in enumerate(rest):
                d += ch == "("
                d -= ch == ")"
                if d == 0:
                    break
            else:
                raise QasmError(f"statement {s!r}")
            ps = [number(x) for x in split_args(rest[1:k])]
            rest = rest[k + 1:]
        if name in QELIB:
            np_, nq, g = QELIB[name]
        elif name in EXTRA:
            np_, nq, g = EXTRA[name]
            extra.add(name)
        else:
            raise QasmError(f"gate {name!r} is not in qelib1")
        qs = [reg(x, q, n) for x in split_args(rest)]
        if len(ps) != np_ or len(qs) != nq or len(set(qs)) != nq or not all(map(math.isfinite, ps)):
            raise QasmError(f"statement {s!r}")
        prog.append([g, ps, qs[0] if nq == 1 else ["t", qs]])
    return n, prog, extra
