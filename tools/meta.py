"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech="", note="", claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, note=note, claimed=claimed, na=na))

G = "blueqat/gate.py"; CI = "blueqat/circuit.py"; NB = "blueqat/backends/numpy_backend.py"
BB = "blueqat/backends/backendbase.py"; SY = "blueqat/backends/sympy_backend.py"
QO = "blueqat/backends/qasm_output_backend.py"; IB = "blueqat/backends/ibmq_backend.py"
NU = "blueqat/backends/_numba_backend_impl.py"; PA = "blueqat/pauli.py"; VQ = "blueqat/vqe.py"; WQ = "blueqat/wq.py"
UT = "blueqat/utils.py"; OP = "blueqat/experimental/operations.py"; EU = "blueqat/experimental/utils.py"
QP = "blueqat/backends/qasm_parser_backend_generator.py"
QG = "blueqat/backends/qgate_backend.py"

TB = "Trusts the reference model in mc/ref.py, CPython and NumPy arithmetic; floating point compared within 1e-7."

exec(open(os.path.join(HERE, "tools", "props.py")).read())

MARK = "<!-- generated by tools/meta.py below -->\n"

def design():
    """sections 6 and 7 of DESIGN.md"""
    import ast
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read().split(MARK)[0] + MARK
    text += ("\n## 6. Planted changes and the checks that catch them\n\nEach was confirmed in a scratch copy: it compiles, passes the stable tests, and its demonstration fails with it and passes without. "
             "`tools/recheck.sh` runs the named check against each.\n\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n")
    sd = os.path.join(HERE, "seeded")
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        text += f"| {i} | {m.get('caught', m['property'])} | {m['what_it_breaks']} | {m['needs']} |\n"
    text += "\n## 7. Bounds of each check\n\n"
    for p in P:
        f = os.path.join(HERE, "mc", "checks", p["id"] + ".py")
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
                b = ast.literal_eval(n.value)
                text += f"* **{p['id']}** quick: {b['quick']}. Thorough adds: {b['thorough']}.\n"
    open(path, "w").write(text)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=list(p["observe"]), hook_needed=None))
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "mc", "checks", p["id"] + ".py"))
        if p["claimed"] and have:
            checks.append(dict(property=p["id"], quick_cmd=f"./run {p['id']}",
                               thorough_cmd=f"./run {p['id']} --tier thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=p["tech"],
                               level="model_checking", level_note=p["note"] or TB))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             hooks=dict(guard="BLUEQAT_VERIF", enable="no hooks were needed: nothing in /repo reads this variable", source_commits=[]),
             notes="Explicit-state / stateless model checking of the real Blueqat code; see DESIGN.md.")
    design()
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks", len(na), "n/a")
main()
