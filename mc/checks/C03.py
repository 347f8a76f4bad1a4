"""Fallback decompositions on backends that lack native gates."""
import itertools
import numpy as np
from mc import ref
from mc.build import targets, circ, instances, generic_prefix, add, PI, wide_targets, long_alphabet, near_params
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.gate import OneQubitGate, XGate, RZGate
from blueqat.backends.backendbase import Backend
from blueqat.backends.numpy_backend import NumPyBackend

CORE = ['x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'u3', 'cx', 'cz', 'ccz']
FB = ['i', 'phase', 't', 'tdg', 's', 'sdg', 'u1', 'u2', 'cy', 'ch', 'crx', 'cry', 'crz', 'cphase', 'rxx', 'ryy', 'rzz',
      'swap', 'cu1', 'cu2', 'cu3', 'ccx', 'cswap']
NPMASK = ['t', 's', 'phase', 'u1', 'crx', 'cry', 'crz', 'cphase', 'ccx']
BOUNDS = {
 "quick": "native sets: core (no documented decomposition) plus every subset of size <=2 or >=|all|-2 of the 23 decomposable gates, x every gate x targets on 3 qubits, sliced/negative targets, "
          "parameter grid and angles beside the quarter turns on the core backend; default simulator with every subset of its 9 decomposable native gates masked; every core gate removed; every gate at wide targets on 9 and 12 qubits and programs of 34 different gates (34 rotations, flattened and nested resolution, with measurement-free repeats) on the core backend, its flattened form and the fully masked simulator",
 "thorough": "subsets of size <=3 and >=|all|-3, parameter grid for all size-1 configurations"}
PG = {0: [[]], 1: [[0.7], [-1.9], [PI], [5.3], [0.0]], 2: [[0.7, -1.3], [PI, 0.4], [0, 2.2], [-2.7, -0.6]],
      3: [[0.7, -1.3, 2.1], [PI / 2, 0.3, -0.4], [0, 1.1, 0.2], [-2.2, 0.5, 3.9], [PI, 0, 0.9]]}
PS = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}
_cls = {}


def backend(native, flatten=False):
    key = (tuple(native), flatten)
    if key not in _cls:
        ns = {}
        for nm in native:
            def act(self, gate, ctx, nm=nm):
                n = ctx['n']
                p = [float(x) for x in gate.params]
                if nm in ref.ONE:
                    tg = [(q,) for q in gate.target_iter(n)]
                elif nm in ref.TWO:
                    tg = list(gate.control_target_iter(n))
                else:
                    tg = ref.elementary(nm, gate.targets, n)
                for qs in tg:
                    ctx['vec'] = ref.gate(ctx['vec'], nm, p, qs)
                    ctx['log'].append(nm)
                return ctx
            ns["gate_" + nm] = act

        def pre(self, gates, n_qubits, args, kwargs):
            if flatten:
                gates = self._resolve_fallback(gates, n_qubits)
            return gates, dict(n=n_qubits, vec=ref.run([], n_qubits), log=[])
        ns["_preprocess_run"] = pre
        ns["_postprocess_run"] = lambda self, ctx: ctx
        _cls[key] = type("HarnessBackend", (Backend,), ns)
    return _cls[key]()


def masked_numpy(mask):
    key = ("np",) + tuple(mask)
    if key not in _cls:
        def gone(self):
            raise AttributeError("masked")
        _cls[key] = type("MaskedNumPy", (NumPyBackend,), {"gate_" + m: property(gone) for m in mask})
    return _cls[key]()


def configs(tier):
    k = 2 if tier == "quick" else 3
    out = []
    for r in range(k + 1):
        for sub in itertools.combinations(FB, r):
            out.append(list(sub))
            if r:
                out.append([g for g in FB if g not in sub])
    out.append(FB)
    return out


def cases(tier):
    out = [dict(kind="cfg", extra=c, grid=len(c) == 0 or (tier == "thorough" and len(c) <= 1)) for c in configs(tier)]
    for r in range(len(NPMASK) + 1):
        for sub in itertools.combinations(NPMASK, r):
            out.append(dict(kind="np", mask=list(sub)))
    for g in CORE:
        out.append(dict(kind="missing", g=g))
    out.append(dict(kind="custom"))
    for n in (9, 12):
        for nm in ALL:
            out.append(dict(kind="wide", n=n, name=nm))
    for r in range(len(ALL)):
        out.append(dict(kind="long", r=r))
    return out


def extra_targets(nm):
    s = lambda a=None, b=None, c=None: ["s", a, b, c]
    if nm in ref.ONE:
        return [s(), ["t", [2, 0]], -1, ["t", [1, 1]]]
    if nm in ref.TWO:
        return [["t", [s(0, 2), s(1, 3)]], ["t", [-1, 0]], ["t", [s(None, None, 2), 1]] if False else ["t", [s(1, 3), s(0, 2)]]]
    return [["t", [0, -1, 1]]]


ALL = [x for x in ref.UNITARY]


def run_case(t, d):
    k = d["kind"]
    pre = generic_prefix(3)
    v = ref.run(pre, 3)
    if k in ("cfg", "np"):
        inst = instances(ALL, 3, PG if d.get("grid") else PS)
        if not d.get("grid"):
            # two placements per gate: ascending and a non-adjacent descending one
            pick = {}
            for g in inst:
                pick.setdefault(g[0], []).append(g)
            inst = [x for l in pick.values() for x in {str(l[0]): l[0], str(l[-1]): l[-1], str(l[len(l) // 2]): l[len(l) // 2]}.values()]
        if d.get("grid"):
            inst = inst + [[nm, p, targets(nm, 3)[-1]] for nm in ALL for p in near_params(ref.NPARAM[nm])]
        inst = inst + [[nm, PS[ref.NPARAM[nm]][0], x] for nm in ALL for x in extra_targets(nm)]
        if k == "cfg":
            native = CORE + d["extra"]
            bes = [backend(native), ]
            if hasattr(Backend, "_resolve_fallback"):
                bes.append(backend(native, True))
        else:
            bes = [masked_numpy(d["mask"])]
        for g in inst:
            exp = ref.run([g], 3, v)
            for be in bes:
                c = circ(pre + [g], 3)
                r = c.run(backend=be)
                vec = r if k == "np" else r['vec']
                t.trans()
                t.trace()
                t.check(ref.same(vec, exp), lambda: f"{g} on a backend with native {native if k == 'cfg' else 'numpy minus ' + str(d['mask'])}: wrong state")
                if k == "cfg":
                    t.check(set(r['log']) <= set(native), "non-native gate executed")
                    t.state((g[0], str(g[2]), tuple(r['log'][len(pre):])))
                else:
                    t.state((g[0], str(g[2]), tuple(d["mask"])))
        t.outcome("native+%d" % len(d["extra"]) if k == "cfg" else "numpy-%d" % len(d["mask"]))
        t.sample(d)
    elif k in ("wide", "long"):
        if k == "wide":
            n = d["n"]
            pre, v = generic_prefix(n), ref.run(generic_prefix(n), n)
            progs = [[[d["name"], PS[ref.NPARAM[d["name"]]][0], x]] for x in wide_targets(d["name"], n)]
        else:
            n = 3
            al = long_alphabet(ALL)
            al = al[d["r"]:] + al[:d["r"]]
            progs = [al, al[::-1], al[::2] + al[1::2], al[:12] + [al[0]] * 9 + al[:3]]
        for g in progs:
            exp = ref.run(g, n, v)
            for nm, be in (("core", backend(CORE)), ("core, flattened", backend(CORE, True)), ("numpy without optional gates", masked_numpy(NPMASK))):
                r = circ(pre + g, n).run(backend=be)
                vec = r if isinstance(r, np.ndarray) else r['vec']
                t.trans(len(g)), t.trace()
                t.check(ref.same(vec, exp), lambda: f"{g} on {n} qubits with the {nm} backend: wrong state")
                t.state((n, nm, str(g)[:200]))
        t.outcome(k)
    elif k == "missing":
        be = backend([x for x in CORE + FB if x != d["g"]])
        for g in instances([d["g"]], 3, PS):
            for n0 in (0, 3):
                err = None
                try:
                    r = circ([g], n0).run(backend=be)
                except Exception as ex:
                    err = ex
                t.trans(), t.trace()
                t.check(err is not None, f"{g} on a backend without it was skipped silently")
        be = masked_numpy([d["g"]])
        err = None
        try:
            circ(instances([d["g"]], 3, PS)[:1], 3).run(backend=be)
        except Exception as ex:
            err = ex
        t.check(err is not None, f"{d['g']} on the simulator without it was skipped silently")
        t.state(("missing", d["g"]))
        t.outcome("error reported")
    elif k == "custom":
        class Outer(OneQubitGate):
            lowername = "verif_outer"

            def fallback(self, n):
                return self._make_fallback_for_target_iter(n, lambda q: [Inner(q), XGate(q)])

        class Inner(OneQubitGate):
            lowername = "verif_inner"

            def fallback(self, n):
                return self._make_fallback_for_target_iter(n, lambda q: [RZGate(q, 0.5), XGate(q), RZGate(q, -0.25)])

        class None_(OneQubitGate):
            lowername = "verif_none"
        BlueqatGlobalSetting.register_gate("verif_outer", Outer)
        BlueqatGlobalSetting.register_gate("verif_none", None_)
        try:
            for be in (None, backend(CORE), backend(CORE, True)):
                for ex in (0, slice(None), (2, 0), -1):
                    c = circ(pre, 3).verif_outer[ex]
                    r = c.run() if be is None else c.run(backend=be)['vec']
                    exp = v
                    for q in ref.select(ex, 3):
                        exp = ref.run([["rz", [0.5], q], ["x", [], q], ["rz", [-0.25], q], ["x", [], q]], 3, exp)
                    t.check(ref.same(r, exp), "user gate with nested decomposition")
                    t.trans(), t.trace()
                    t.state(("custom", str(ex)))
                for fn in (lambda c: c.run() if be is None else c.run(backend=be), lambda c: c.to_qasm(), lambda c: c.to_unitary()):
                    ok = False
                    try:
                        fn(Circuit(2).verif_none[0])
                    except Exception:
                        ok = True
                    t.check(ok, "gate without implementation and decomposition was skipped silently")
        finally:
            BlueqatGlobalSetting.unregister_gate("verif_outer")
            BlueqatGlobalSetting.unregister_gate("verif_none")
