"""Symbolic polynomials to QUBOs: every polynomial over a small alphabet, every converter, all assignments, several hash seeds."""
import itertools
import numpy as np
import sympy
from mc import sub
from mc.wqm import *
from blueqat import wq

BOUNDS = {
 "quick": "all quadratic polynomials of q0,q1 over {0,1,-1,2.5} incl. squares and a constant; all of q0,q1,q2 over {0,1,-2} (729 per converter family, text and expression); every choice of <=3 variables out of q0..q4 and q10,q12; 25 unexpanded/high-power texts; polynomials with 6..14 variables and up to 40 terms, in 6 orders and forms; coefficients 1e-12..1e12 together; make_qs for all ranges <=12; PYTHONHASHSEED 0-4",
 "thorough": "three variables over {0,1,-1,2.5}, PYTHONHASHSEED 0-12"}


def cases(tier):
    out = []
    for a in range(4):
        for b in range(4):
            out.append(dict(kind="two", a=a, b=b))
    al = 3 if tier == "quick" else 4
    for a in itertools.product(range(al), repeat=3):
        out.append(dict(kind="three", head=list(a), al=al))
    for i in range(len(TEXTS)):
        out.append(dict(kind="text", i=i))
    for r in (1, 2, 3):
        for c in itertools.combinations((0, 1, 2, 3, 4, 10, 12), r):
            out.append(dict(kind="gap", vars=list(c)))
    for i in range(12):
        out.append(dict(kind="big", i=i))
    out.append(dict(kind="qs"))
    for h in range(1, 5 if tier == "quick" else 13):
        out.append(dict(kind="hash", h=h))
    return out


A = (0, 1, -1, 2.5)
A3 = (0, 1, -2, 2.5)
# text, {sorted index tuple: coefficient} with q*q = q, quadratic as written?
TEXTS = ["(q0+q1-1)**2", "(q0-2*q1+q2)**2", "q0*(q1+q2)", "(q0+1)*(q1-1)", "(2*q0-q1)*(q2+q0)*1.5", "q1*q0", "q0*q0", "q1**2 - q1 + q0", "3*(q0+q1)", "-(q0-q1)", "q0/2 + q1/4", "q0 + q0", "q0*q1 + q1*q0", "(1-q0)*(1-q1)*4", "2*q3", "q2*q3 - q3",
         "0.1*q0 + 0.2*q1 - 0.3*q0*q1", "1e3*q0 - 1e-3*q1", "(q0+q1+q2+q3-2)**2", "q0+5", "q1-q1+q0", "q11*q2 + q10"]
HIGH = ["q0**3 + q1", "q0*q1**2 + q1**3", "q0**2*q1**2 - 2*q0", "q0**4 - q1**5*q0", "(q0+q1)**3 - 6*q0**2*q1 + q2", "q1**6 + q0**6", "q0**2*q1 + q0*q1**3 + q1"]


def mono(f):
    """{set of variables: coefficient} of a text or expression, q*q=q"""
    f = sympy.expand(sympy.sympify(f))
    d = {}
    if not f.free_symbols:
        return {(): float(f)} if f else {}
    p = sympy.Poly(f)
    for e, c in p.terms():
        k = tuple(sorted(int(str(g)[1:]) for g, m in zip(p.gens, e) if m))
        d[k] = d.get(k, 0) + float(c)
    return {k: v for k, v in d.items() if v}


def value(d, x):
    return sum(v for k, v in d.items() if all(x[i] for i in k))


def matrix(t, M, d, what, size=None):
    a = np.array(M, dtype=float)
    n = max([i for k in d for i in k], default=-1) + 1
    t.check(a.ndim == 2 and a.shape[0] == a.shape[1] and (a.shape[0] == size if size is not None else a.shape[0] >= n), lambda: f"{what}: matrix of shape {a.shape}")
    m = a.shape[0]
    const = d.get((), 0)
    if m <= 6:
        for x in bits(m):
            e = energy(a, x)
            t.check(abs(e + const - value(d, x)) < 1e-9, lambda: f"{what}: matrix {a.tolist()} has energy {e} at {x}, the polynomial {value(d, x)} with constant {const}")
    else:
        for i in range(m):
            for j in range(i, m):
                w = d.get((i, j) if i != j else (i,), 0)
                g = a[i][j] + (a[j][i] if i != j else 0)
                t.check(abs(g - w) < 1e-9, lambda: f"{what}: coefficient of q{i}*q{j} is {g}, expected {w}")
    t.trans()


def judge(t, text, high=False, slow=True):
    d = mono(text)
    expr = sympy.sympify(text)
    used = sorted({i for k in d for i in k})
    if not used:
        return
    n = used[-1] + 1
    nq = max(int(str(s)[1:]) for s in expr.free_symbols) + 1 if expr.free_symbols else n
    xn = sympy.expand(expr)
    vis = [int(str(s)[1:]) for s in xn.free_symbols]
    if slow:
        matrix(t, wq.Opt().qubo_to_matrix(text), d, f"qubo_to_matrix({text!r})")
        matrix(t, wq.Opt().qubo_to_matrix(expr), d, f"qubo_to_matrix({expr!r})")
        o = wq.Opt().add(text)
        matrix(t, o.qubo, d, f"add({text!r})")
        o.add(text, 2)
        matrix(t, o.qubo, {k: 3 * v for k, v in d.items()}, f"add({text!r}) and twice more")
        f = wq.Opt().expand_qubo(text)
        t.check(mono(f) == d and all(e <= 1 for m in sympy.Poly(f).monoms() for e in m), lambda: f"expand_qubo({text!r}) = {f}")
    matrix(t, wq.qn_to_qubo(expr), d, f"qn_to_qubo({expr!r})")
    if not high:
        for m in (n, n + 1) if n < 5 else (n,):
            matrix(t, wq.optm(text, m), d, f"optm({text!r},{m})", m)
        matrix(t, wq.optm(expr, n), d, f"optm({expr!r},{n})", n)
        for v in (text, expr):
            f = wq.optx(v)
            md = mono(f)
            t.check(all(abs(md.get(k, 0) - d.get(k, 0)) < 1e-12 for k in set(md) | set(d)) and all(e <= 1 for m in sympy.Poly(f).monoms() for e in m), lambda: f"optx({text!r}) = {f}")
    t.trace()
    t.state(text)


def run_case(t, d):
    k = d["kind"]
    if k == "two":
        for c in itertools.product(range(4), repeat=2):
            for s0, s1 in ((0, 0), (1, 0), (-2, 3)):
                for const in (0, -1.5):
                    terms = [(A[d["a"]], "q0"), (A[d["b"]], "q1"), (A[c[0]], "q0*q1"), (s0, "q0**2"), (s1, "q1**2"), (const, "1")]
                    text = " + ".join(f"({v})*{m}" if v != 1 else m for v, m in terms if v)
                    if c[1] == 1:
                        text = " + ".join(reversed(text.split(" + ")))
                    elif c[1] == 2:
                        text = text.replace("q0*q1", "q1*q0")
                    elif c[1] == 3:
                        text = f"({text})*2" if text else ""
                    if text and mono(text) and any(mono(text)):
                        judge(t, text, slow=not const or c[1] == 0)
    elif k == "three":
        for c in itertools.product(range(d["al"]), repeat=3):
            v = [A3[i] for i in (*d["head"], *c)]
            names = ["q0", "q1", "q2", "q0*q1", "q0*q2", "q1*q2"]
            text = " + ".join((m if x == 1 else f"({x})*{m}") for x, m in zip(v, names) if x)
            if text:
                judge(t, text, slow=sum(c) % 3 == 0)
    elif k == "gap":
        for co in itertools.product((1, -2), repeat=len(d["vars"])):
            text = " + ".join(f"q{i}" if x == 1 else f"({x})*q{i}" for x, i in zip(co, d["vars"]))
            judge(t, text)
            if len(d["vars"]) > 1:
                judge(t, text + f" - q{d['vars'][0]}*q{d['vars'][-1]}")
    elif k == "big":
        i = d["i"]
        n = (6, 8, 11, 14)[i % 4]
        co = lambda a: ("2", "-1.5", "1", "0.25", "-3", "1e6", "1e-6", "7")[(a * (i + 1)) % 8]
        terms = [f"{co(a)}*q{(a * 3 + i) % n}" for a in range(n - 1)] + [f"{co(a + 2)}*q{(a * 5 + i) % n}*q{(a * 7 + 2 * i + 3) % n}" for a in range((8, 26, 14)[i % 3])]
        if i % 2:
            terms += [f"{co(a + 1)}*q{(a * 2) % n}**2" for a in range(4)]
        if i % 3 == 1:
            terms.append("4.5")
        text = " + ".join(f"({x})" for x in terms)
        if i % 4 == 2:
            text = " + ".join(f"({x})" for x in terms[::-1])
        elif i % 4 == 3:
            text = f"2*({text}) - (q0 + q{n - 1} - 1)**2"
        judge(t, text)
    elif k == "text":
        judge(t, TEXTS[d["i"]])
        if d["i"] < len(HIGH):
            judge(t, HIGH[d["i"]], True)
    elif k == "qs":
        for n in range(1, 13):
            s = wq.make_qs(n)
            t.check(isinstance(s, tuple) and s == tuple(sympy.Symbol(f"q{i}") for i in range(n)), lambda: f"make_qs({n}) = {s}")
            for m in range(n + 1, 13):
                s = wq.make_qs(n, m)
                t.check(isinstance(s, tuple) and s == tuple(sympy.Symbol(f"q{i}") for i in range(n, m)), lambda: f"make_qs({n},{m}) = {s}")
                t.trans()
            s = wq.make_qs(0, n)
            t.check(s == tuple(sympy.Symbol(f"q{i}") for i in range(n)), lambda: f"make_qs(0,{n}) = {s}")
        t.trace(), t.state("qs")
    else:
        L = [dict(kind="text", i=i) for i in range(len(TEXTS))] + [dict(kind="gap", vars=[0, 2, 3]), dict(kind="gap", vars=[1, 10]), dict(kind="three", head=[1, 2, 1], al=2), dict(kind="two", a=1, b=2)]
        r = sub.run("Q05", L, d["h"])
        t.check(r["violation"] is None, lambda: f"PYTHONHASHSEED={d['h']}: {r['violation']}")
        t.trans(r["transitions"]), t.trace(r.get("traces", 0))
        t.state(("hash", d["h"]))
    t.outcome(k)
