"""The numba simulator (its source, run with a pure Python stand-in for the JIT) against the reference model and the default simulator."""
import itertools, math, warnings
import numpy as np
from mc import numba_stub
numba_stub.install()
from mc import ref, rng, dist
from mc.build import circ, rprog, add, generic_prefix, PI
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.backends.numba_backend import numba_backend_lazy
from mc.checks import C01, C04, C05, C06, C08

BOUNDS = {
 "quick": "gate semantics (C01 spaces: all gates/targets n<=3 from basis, Clifford and generic states, parameter grids, n=4..6, pairs); measurement branches (C04 spaces: depth 3, n=2; 13 preparations x suffixes); shot histories (C05); "
          "all operation histories of length 3-4 over circuits, copies and a shared backend object (C06); an exception at every line of a run (C08); every return kind x shots x enable_cache x dtype; fixed draws on both simulators; ignore_global on all programs of length <=3 over 11 operations",
 "thorough": "the same spaces at the owning checks' quick bounds"}
ASSUMPTIONS = ["the numba compiler implements Python semantics with the declared integer widths (numba itself is not installed here; kernels run as Python)", "reference model mc/ref.py is correct"]

BlueqatGlobalSetting.set_default_backend("numba")
_NB = type(numba_backend_lazy())
C06.NumPyBackend = _NB
C08.NumPyBackend = _NB


def cases(tier):
    out = []
    full = tier == "thorough"

    def take(mod, name, sel):
        for i, c in enumerate(mod.cases("quick")):
            if full or sel(i, c):
                if sel(i, c) is not None:
                    out.append(dict(kind="sub", of=name, case=c))
    n1 = {}

    def every(key, k):
        n1[key] = n1.get(key, -1) + 1
        return n1[key] % k == 0

    def s01(i, c):
        k = c["kind"]
        if k == "huge" or k == "big" and c["n"] > 7 or k == "seq3" and c["n"] > 2:
            return None
        return {"bfs": lambda: c["n"] == 1 or every("bfs", 2), "basis": lambda: True, "grid": lambda: True, "seq2": lambda: every("seq2", 4), "seq3": lambda: every("seq3", 15),
                "big": lambda: c["n"] < 8, "multi": lambda: True}.get(k, lambda: True)()

    def s04(i, c):
        k = c["kind"]
        if k == "seq":
            return True
        if k == "p3":
            return every("p3", 3)
        if k == "generic":
            return None if c["n"] > 7 else c["n"] < 6
        if k == "wide":
            return None if c["n"] > 7 else True
        return True if k != "chain" else c["n"] == 4 and every("ch", 2)

    def s05(i, c):
        k = c["kind"]
        if k == "opts" or k == "distinct" and c["n"] > 6:
            return None
        if k == "flip":
            return c["part"] == 0 and c["N"] < 4000
        if k == "seq":
            return every("s", 3)
        if k == "p3":
            return every("q", 9)
        if k in ("wide", "long"):
            return None if c.get("n", 0) > 8 else True
        return c["n"] < 7 if k == "keys" else True if k != "many" else c["i"] < 4

    def s06(i, c):
        return every("rg", 3) if c["kind"] == "regrow" else c["kind"] != "cycle" or every("cyc", 3)

    def s08(i, c):
        if c.get("s") in ("wide", "long"):
            return None
        if c["kind"] == "op":
            return not c["op"] and every("o", 4)
        return c["kind"] == "gate"
    take(C01, "C01", s01), take(C04, "C04", s04), take(C05, "C05", s05), take(C06, "C06", s06), take(C08, "C08", s08)
    for c in out:
        cc = c["case"]
        if not full:
            if c["of"] == "C04" and cc["kind"] == "seq":
                cc["depth"] = 3
            if c["of"] == "C04" and cc["kind"] == "generic":
                cc["grid"] = 32
            if c["of"] == "C05" and cc["kind"] == "seq":
                cc["depth"], cc["N"] = 3, 2
            if c["of"] == "C06":
                cc["depth"] = 4 if cc.get("alpha") == "MINI" else 3
                if cc["kind"] == "fleet":
                    cc["m"] = 12
    for i in range(len(C05.OPTPROGS)):
        out.append(dict(kind="opts", i=i))
    for p in range(len(C04.PREP3)):
        out.append(dict(kind="draws", p=p))
    for k in range(6):
        out.append(dict(kind="hist", k=k))
    for a in range(len(GOPS)):
        out.append(dict(kind="global", a=a))
    out.sort(key=lambda c: 0 if c["kind"] == "sub" and c["case"].get("kind") in ("seq3", "seq2", "p3", "bfs", "op") else 1)
    return out


def run_case(t, d):
    k = d["kind"]
    if k == "sub":
        {"C01": C01, "C04": C04, "C05": C05, "C06": C06, "C08": C08}[d["of"]].run_case(t, d["case"])
        t.outcome("space of " + d["of"])
    elif k == "opts":
        opts(t, *C05.OPTPROGS[d["i"]])
    elif k == "draws":
        draws(t, C04.PREP3[d["p"]])
    elif k == "hist":
        history(t, d["k"])
    elif k == "global":
        global_phase(t, d["a"])


GOPS = [["x", [], 0], ["y", [], 1], ["rz", [0.9], 0], ["rz", [-1.7], 1], ["phase", [0.6], 1], ["h", [], 0], ["cx", [], ["t", [0, 1]]], ["u3", [0.5, 1.1, -0.4], 1], ["x", [], 2], ["rx", [math.pi], 2], ["ccx", [], ["t", [0, 1, 2]]]]


def global_phase(t, a):
    """ignore_global fixes the same phase on both simulators, whichever amplitudes vanish"""
    for L in (0, 1, 2):
        for rest in itertools.product(GOPS, repeat=L):
            prog = [GOPS[a], *rest]
            n = ref.n_of(prog)
            v = ref.run(prog, n)
            x, y = (circ(prog, n).run(backend=b, ignore_global=True) for b in ("numba", "numpy"))
            t.check(ref.same(x, v) and np.allclose(x, y, atol=1e-7), lambda: f"{prog} with ignore_global: numba {np.round(x, 4)}, numpy {np.round(y, 4)}")
            t.trans(L + 1), t.trace()
            t.state(ref.key(v))
    t.outcome("ignore_global")


def opts(t, n, prog):
    import collections
    br = [("".join(map(str, b)), v) for p, b, v in ref.branches(rprog(prog), n)]
    labels = {b for b, _ in br}
    # every phase-fixed final state of the default simulator
    fixed = [v for v, _, _ in rng.explore(lambda: circ(prog, n).run(backend="numpy", ignore_global=True, shots=1, returns="statevector"), grid=4)]
    for shots in (None, 1, 2, 5):
        for ret in (None, "statevector", "shots", "statevector_and_shots", "_inner_ctx"):
            for extra in ({}, {"enable_cache": True}, {"enable_cache": False}, {"dtype": np.complex64}, {"dtype": np.complex128, "ignore_global": True}, {"ignore_global": True, "enable_cache": False}):
                for how in ("run", "run_with_numba", "positional"):
                    if shots is None and ret in ("shots", "statevector_and_shots") and (extra or how != "run"):
                        continue            # 1024 shots each
                    res = {}
                    for bk in ("numba", "numpy"):
                        c = circ(prog, n)
                        kw = dict(extra)
                        a = ()
                        if how == "positional":
                            a = (shots, ret)
                        else:
                            if shots is not None:
                                kw["shots"] = shots
                            if ret is not None:
                                kw["returns"] = ret
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            # tiny draws pick outcome 0 where possible, on both simulators
                            with rng.active(rng.Script(u=lambda _: 1e-6, idx=lambda _, m: 0)):
                                f = getattr(c, "run_with_" + bk) if how == "run_with_numba" else lambda *a, **k2: c.run(*a, backend=bk, **k2)
                                res[bk] = f(*a, **kw)
                    r, q = res["numba"], res["numpy"]
                    t.trace(), t.trans()
                    t.state((n, str(prog), shots, ret, str(extra), how))
                    where = lambda: f"{prog}: shots={shots} returns={ret} {extra} {how}: numba {r!r}, numpy {q!r}"
                    if ret == "_inner_ctx":
                        t.check(not isinstance(r, (np.ndarray, dict, tuple)), where)
                        continue
                    t.check(type(r) is type(q), where)
                    rs, qs = (r, q) if isinstance(r, tuple) else ((r,), (q,))
                    t.check(len(rs) == len(qs), where)
                    for x, y in zip(rs, qs):
                        if isinstance(x, np.ndarray):
                            t.check(x.shape == y.shape and any(ref.same(x, v, 1e-5) for _, v in br), where)
                            t.check(x.dtype == extra.get("dtype", np.complex128), where)
                            if extra.get("ignore_global"):
                                t.check(any(np.allclose(x, v, atol=1e-5) for v in fixed), where)
                        else:
                            t.check(isinstance(x, collections.Counter) and sum(x.values()) == sum(y.values()) == (shots or 1024) and set(x) <= labels, where)
                    if len(rs) == 2 and shots == 1:
                        t.check(any(rs[1][b] and ref.same(rs[0], v, 1e-5) for b, v in br), where)
    for bad in ("", "counts", 3, "Shots"):
        try:
            r = circ(prog, n).run(backend="numba", returns=bad)
            t.check(False, f"unknown returns {bad!r} accepted: {r!r}")
        except (ValueError, TypeError) as ex:
            t.check(isinstance(ex, ValueError), f"returns={bad!r}: {ex!r}")
    t.outcome("options")


def draws(t, pre):
    """whatever is drawn, the reported bits and the state belong to one branch, on both simulators"""
    for sf in C04.SUF[::3]:
        prog = pre + sf
        br = [("".join(map(str, b)), v) for p, b, v in ref.branches(rprog(prog), 3)]
        for us in itertools.product((0.05, 0.3, 0.62, 0.97), repeat=2):
            res = []
            for bk in ("numba", "numpy"):
                it = itertools.cycle(us)
                with rng.active(rng.Script(u=lambda _: next(it), idx=lambda _, m: int(next(it) * m))):
                    v, s = circ(prog, 3).run(shots=1, returns="statevector_and_shots", backend=bk)
                res.append((v, dict(s)))
            (v, s), (v2, s2) = res
            for x, y in res:
                t.check(sum(y.values()) == 1 and any(y.get(b) and ref.same(x, w, 1e-7) for b, w in br),
                        lambda: f"{prog} with draws {us}: numba {s} {np.round(v, 3)}, numpy {s2} {np.round(v2, 3)}")
            t.trans(), t.trace()
            t.state((str(prog), us))
    t.outcome("fixed draws")


def history(t, k):
    """run histories mixing enable_cache, dtype, shots, growth and both simulators on one circuit"""
    acts = ["run", "nocache", "c64", "shots", "numpy", "append", "grow", "cache", "ctx", "global"]
    for seq in itertools.product(acts, repeat=3):
        c = Circuit(1)
        prog, n = [["ry", [0.7 + 0.1 * k], 0]], 1
        add(c, prog[0])
        if k >= 3:
            for o in (["h", [], 0], ["u3", [0.3, 0.5, 0.7], 0]):
                add(c, o)
                prog.append(o)
        for j, a in enumerate(seq + ("run", "nocache", "numpy")):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = None
                if a == "run":
                    got = c.run(backend="numba")
                elif a == "nocache":
                    got = c.run(backend="numba", enable_cache=False)
                elif a == "c64":
                    got = c.run(backend="numba", dtype=np.complex64)
                    t.check(got.dtype == np.complex64, "dtype")
                elif a == "shots":
                    r = c.run(backend="numba", shots=2)
                    t.check(dict(r) == {"0" * n: 2}, lambda: f"{prog}: shots {r}")
                elif a == "numpy":
                    got = c.run(backend="numpy")
                elif a == "append":
                    o = ["rz" if j % 2 else "rx", [0.4 + 0.2 * j], 0]
                    add(c, o), prog.append(o)
                elif a == "grow":
                    o = ["cx", [], ["t", [0, n]]]
                    add(c, o), prog.append(o)
                    n += 1
                elif a == "cache":
                    c.make_cache(backend="numba")
                elif a == "ctx":
                    c.run(backend="numba", returns="_inner_ctx")
                elif a == "global":
                    got = c.run(backend="numba", ignore_global=True)
                if got is not None:
                    exp = ref.run(prog, n)
                    t.check(got.shape == exp.shape and ref.same(got, exp, 1e-5 if a == "c64" else 1e-8), lambda: f"history {seq} step {j} ({a}): {got}, expected {exp}")
                    got *= 0            # the caller owns the returned vector
                    t.trace()
                t.trans()
        t.state((k, seq))
    t.outcome("run histories")
