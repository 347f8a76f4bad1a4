"""Self-test of the framework (run by setup.sh): choice tree enumerates everything, reference model is unitary."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, random
from mc import rng, ref
rng.install()
got = [(r, w) for r, w, _ in rng.explore(lambda: (random.random() < .5, np.random.randint(3)), grid=4)]
assert len(got) == 12 and abs(sum(w for _, w in got) - 1) < 1e-12
for n in ref.UNITARY:
    k = 1 if n in ref.ONE else 2 if n in ref.TWO else 3
    U = ref.unitary([[n, [0.3, 0.7, 1.1][:ref.NPARAM[n]], ["t", list(range(k))] if k > 1 else 0]], k)
    assert np.allclose(U.conj().T @ U, np.eye(2 ** k)), n
print("selftest ok")
