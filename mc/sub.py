"""Run single cases of a check in a fresh interpreter under another PYTHONHASHSEED; prints JSON."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, cases, hashseed, timeout=200):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-B", "-m", "mc.sub", prop], input=json.dumps(cases), env=env, cwd=HERE, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError(f"sub-run under PYTHONHASHSEED={hashseed} failed: {p.stderr[-1500:]}")
    return json.loads(p.stdout.splitlines()[-1])


def main():
    from mc import core
    import importlib
    prop = sys.argv[1]
    core.import_blueqat()
    mod = importlib.import_module("mc.checks." + prop)
    t = core.Tally(prop, "quick", core.load_known(prop))
    for c in json.load(sys.stdin):
        r = core.one_case(mod, t, c)
        if r is not None:
            print(json.dumps(dict(violation=r["message"], case=c, transitions=t.transitions)))
            return
    print(json.dumps(dict(violation=None, transitions=t.transitions, traces=t.traces)))


if __name__ == "__main__":
    main()
