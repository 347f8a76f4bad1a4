From a366f52c7b575bf8af4d9f7d95101cfec68b2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 01/45] fix: a rejected gate target no longer leaves the gate
 in the circuit

---
 blueqat/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..211f91d 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,11 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(op)
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From e7509ef1e921eb057f7d6a3fa86065d1fa81cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/45] fix: nested tuple targets, as accepted by two-qubit
 gates, can be added and printed

---
 blueqat/gate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..c767760 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -52,6 +52,8 @@ class Gate(ABC):
                 else:
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
+            elif isinstance(obj, tuple):
+                return str(tuple(o if isinstance(o, (slice, tuple)) else o.__index__() for o in obj))
             else:
                 return str(obj.__index__())
 
@@ -659,7 +661,7 @@ def slicing(args, length):
     """Internally used."""
     if isinstance(args, tuple):
         for arg in args:
-            yield from slicing_singlevalue(arg, length)
+            yield from slicing(arg, length)
     else:
         yield from slicing_singlevalue(args, length)
 
@@ -691,6 +693,8 @@ def get_maximum_index(indices):
             if idx.stop is not None:
                 stop = idx.stop.__index__()
             return max(start, stop - 1)
+        elif isinstance(idx, tuple):
+            return max((_maximum_idx_single(i) for i in idx), default=-1)
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-- 
2.43.0


From ad91afa58c9505ff9b532becc6c4a8ad68c42c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 03/45] fix: out-of-range negative indices and invalid
 three-qubit targets are rejected on every backend

---
 blueqat/backends/_numba_backend_impl.py |  4 ++--
 blueqat/backends/numpy_backend.py       |  4 ++--
 blueqat/backends/qasm_output_backend.py |  2 +-
 blueqat/gate.py                         | 14 ++++++++++++++
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..ad57f49 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -582,13 +582,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(qubit_triple(gate.targets, n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(qubit_triple(gate.targets, n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..b0b50fc 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -357,9 +357,9 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
+        c1, c2, t = qubit_triple(gate.targets, n_qubits)
         i = ctx.indices
         indices = (i & (1 << c1)) != 0
         indices &= (i & (1 << c2)) != 0
@@ -368,7 +368,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        _, _, t = qubit_triple(gate.targets, ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
         ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
         ctx = self.gate_h(HGate(t), ctx)
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..54a6ecd 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -117,7 +117,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = qubit_triple(gate.targets, ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
diff --git a/blueqat/gate.py b/blueqat/gate.py
index c767760..34f554b 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -654,6 +654,8 @@ def slicing_singlevalue(arg, length):
             raise TypeError("indices must be integers or slices, not " + arg.__class__.__name__)
         if i < 0:
             i += length
+        if not 0 <= i < length:
+            raise IndexError("qubit index out of range")
         yield i
 
 
@@ -682,6 +684,18 @@ def qubit_pairs(args, length):
     return zip(controls, targets)
 
 
+def qubit_triple(args, length):
+    """Internally used."""
+    if not isinstance(args, tuple) or len(args) != 3:
+        raise ValueError("Three qubits are required.")
+    if any(isinstance(arg, (slice, tuple)) for arg in args):
+        raise ValueError("Three qubits gate doesn't support multiple targets.")
+    qubits = tuple(slicing(args, length))
+    if len(set(qubits)) != 3:
+        raise ValueError("Three qubits are must be different.")
+    return qubits
+
+
 def get_maximum_index(indices):
     """Internally used."""
     def _maximum_idx_single(idx):
-- 
2.43.0


From 308ed2ac00ecb0b8cc1b426f3b739278ff90be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 04/45] fix: Circuit.set_default_backend(None) restores the
 global default as documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 211f91d..75112fd 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From a196f8516132ee8fe4f8f30dec842718e08a4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/45] fix: unregister_backend looks the name up among the
 backends

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 75112fd..bcba2eb 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -427,7 +427,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From f31385b853dee10994682cb6d35c8a3399d39f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 06/45] fix: symbolic unitary applies a repeatedly named
 qubit's gate as often as it is named and handles empty selections

---
 blueqat/backends/sympy_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..c48e7b0 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -84,8 +84,9 @@ class SympyBackend(Backend):
 
     def _create_matrix_of_one_qubit_gate_circuit(self, gate, ctx, matrix_of_gate):
         n_qubits = ctx.n_qubits
-        m = self._create_matrix_of_one_qubit_gate(n_qubits, gate.target_iter(n_qubits), matrix_of_gate)
-        ctx.matrix_of_circuit = m * ctx.matrix_of_circuit
+        for target in gate.target_iter(n_qubits):
+            m = self._create_matrix_of_one_qubit_gate(n_qubits, [target], matrix_of_gate)
+            ctx.matrix_of_circuit = m * ctx.matrix_of_circuit
         return ctx
 
     def _one_qubit_gate_noargs(self, gate, ctx):
-- 
2.43.0


From b12bb8711b27d422120087ff56222b96c47096b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 07/45] fix: numpy backend's cache is only reused for the gates
 it was made from and survives interruption

---
 blueqat/backends/numpy_backend.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index b0b50fc..7015a19 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,15 +69,37 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def copy(self):
+        # The cached array is never modified in place. It can be shared.
+        copied = copy.copy(self)
+        copied.cached_gates = self.cached_gates.copy()
+        return copied
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def __save_cache(self, gate, qubits):
+        # While updating, cache is None, which means invalid cache.
+        # Therefore, cache is always consistent even if this is interrupted.
+        cache = qubits.copy()
+        self.cache = None
+        self.cached_gates.append(gate)
+        self.cache_idx += 1
+        self.cache = cache
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        # This backend may be used by other circuits.
+        if len(self.cached_gates) > len(gates) or \
+           any(g is not cached for g, cached in zip(gates, self.cached_gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -104,7 +127,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -121,8 +144,7 @@ class NumPyBackend(Backend):
             for gate in gates[self.cache_idx + 1:]:
                 run_single_gate(gate)
                 if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
-                    self.cache_idx += 1
+                    self.__save_cache(gate, ctx.qubits)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From ede491037f060892750933f0a1bfd56430f6cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 08/45] fix: numba backend's cache is only reused for the gates
 it was made from and survives interruption

---
 blueqat/backends/_numba_backend_impl.py | 36 ++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index ad57f49..ee31eb4 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -46,6 +47,7 @@ class _NumbaBackendContext:
         self.n_qubits = n_qubits
         self.qubits = np.zeros(2**n_qubits, dtype)
         self.save_cache = save_cache
+        self.cache = None
         self.shots_result = Counter()
         self.cregs = None
 
@@ -368,15 +370,36 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def copy(self):
+        # The cached array is never modified in place. It can be shared.
+        copied = copy.copy(self)
+        copied.cached_gates = self.cached_gates.copy()
+        return copied
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def __save_cache(self, gates, cache_idx, cache):
+        # While updating, cache is None, which means invalid cache.
+        # Therefore, cache is always consistent even if this is interrupted.
+        self.cache = None
+        self.cached_gates = gates[:cache_idx + 1]
+        self.cache_idx = cache_idx
+        self.cache = cache
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        # This backend may be used by other circuits.
+        if len(self.cached_gates) > len(gates) or \
+           any(g is not cached for g, cached in zip(gates, self.cached_gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -406,7 +429,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -428,9 +451,8 @@ class NumbaBackend(Backend):
                 if ctx.save_cache:
                     cache_idx += 1
             if self.cache_idx != cache_idx:
-                self.cache_idx = cache_idx
-                if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
+                self.__save_cache(gates, cache_idx,
+                                  ctx.qubits.copy() if ctx.save_cache else ctx.cache)
             if ctx.cregs:
                 ctx.store_shot()
 
@@ -611,7 +633,7 @@ class NumbaBackend(Backend):
 
     def gate_measure(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
@@ -628,7 +650,7 @@ class NumbaBackend(Backend):
 
     def gate_reset(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-- 
2.43.0


From f43b0d1e3282e5eb1798e9f64702f9cc2b962bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 09/45] fix: a backend that was unregistered or registered anew
 is no longer used by circuits that ran on the old one

---
 blueqat/circuit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index bcba2eb..710e3ca 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -87,6 +87,7 @@ class Circuit:
     def __init__(self, n_qubits=0, ops=None):
         self.ops = ops or []
         self._backends = {}
+        self._backend_factories = {}
         self._default_backend = None
         self.n_qubits = n_qubits
 
@@ -94,13 +95,13 @@ class Circuit:
         return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
 
     def __get_backend(self, backend_name):
-        try:
-            return self._backends[backend_name]
-        except KeyError:
-            backend = BACKENDS.get(backend_name)
-            if backend is None:
-                raise ValueError(f"Backend {backend_name} doesn't exist.")
-        self._backends[backend_name] = backend()
+        factory = BACKENDS.get(backend_name)
+        if factory is None:
+            raise ValueError(f"Backend {backend_name} doesn't exist.")
+        # The instance made before the backend was registered again is outdated.
+        if self._backend_factories.get(backend_name) is not factory:
+            self._backends[backend_name] = factory()
+            self._backend_factories[backend_name] = factory
         return self._backends[backend_name]
 
     def __backend_runner_wrapper(self, backend_name):
@@ -146,6 +147,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, self.ops.copy())
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_factories = self._backend_factories.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
@@ -179,6 +181,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_factories = self._backend_factories.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From 6818d4cc2dcf0e2cc5d08e2aeca69520ee4ced10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 10/45] fix: fallbacks of three-qubit gates check their targets
 like the simulator does

---
 blueqat/gate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 34f554b..4718cb0 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -575,7 +575,7 @@ class ToffoliGate(Gate):
         return self
 
     def fallback(self, n_qubits):
-        c1, c2, t = self.targets
+        c1, c2, t = qubit_triple(self.targets, n_qubits)
         return [
             HGate(t),
             CXGate((c2, t)),
@@ -612,7 +612,7 @@ class CSwapGate(Gate):
 
     def fallback(self, n_qubits):
         # TODO: test
-        c, t1, t2 = self.targets
+        c, t1, t2 = qubit_triple(self.targets, n_qubits)
         return [CXGate((t2, t1)),
                 ToffoliGate((c, t1, t2)),
                 CXGate((t2, t1))]
-- 
2.43.0


From 6e05d213775394141b2c11aa56e56bb5db78daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 11/45] fix: identity gate on an out-of-range qubit is rejected
 like every other gate

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 4718cb0..8fffa0f 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -101,7 +101,7 @@ class IGate(OneQubitGate):
     lowername = "i"
 
     def fallback(self, n_qubits):
-        return []
+        return self._make_fallback_for_target_iter(n_qubits, lambda t: [])
 
     def dagger(self):
         return self
-- 
2.43.0


From 3fda5fe5d3fd8cbc3f990b2623e362549998f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 12/45] fix: symbolic ignore_global never divides by a diagonal
 element that is zero

---
 blueqat/backends/sympy_backend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index c48e7b0..0ee2dcd 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -34,6 +34,16 @@ def _angle_simplify(ang):
     return ang
 
 
+def _is_zero(expr):
+    """Numerical test whether expr, which may be unsimplified, is (identically) zero."""
+    syms = sorted(expr.free_symbols, key=str)
+    for offset in (0.4321, 1.2345, 2.7183):
+        subs = {s: offset + 0.5772 * i for i, s in enumerate(syms)}
+        if abs(complex(expr.evalf(subs=subs))) > 1e-9:
+            return False
+    return True
+
+
 class _SympyBackendContext:
     def __init__(self, n_qubits, ignore_global):
         self.n_qubits = n_qubits
@@ -166,6 +176,6 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                if not _is_zero(mat[i, i]):
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From 1e511f9fc299eaff464a884bfc48c3b7e2488303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 13/45] fix: cu2 and cu3 are decomposed for OpenQASM readers,
 which lack them or define them differently

---
 blueqat/backends/qasm_parser_backend_generator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/qasm_parser_backend_generator.py b/blueqat/backends/qasm_parser_backend_generator.py
index a9304d4..7961f0d 100644
--- a/blueqat/backends/qasm_parser_backend_generator.py
+++ b/blueqat/backends/qasm_parser_backend_generator.py
@@ -16,6 +16,17 @@ from ..gate import *
 from .backendbase import Backend
 from .qasm_output_backend import QasmOutputBackend
 
+class _PortableQasmBackend(QasmOutputBackend):
+    """OpenQASM output which uses only the gates all OpenQASM readers agree on.
+
+    cu2 is not defined in qelib1.inc, and qelib1.inc's versions differ in the definition of cu3."""
+    def _fallback(self, gate, ctx):
+        return self._run_gates(gate.fallback(ctx[1]), ctx[1], ctx)
+
+    gate_cu2 = _fallback
+    gate_cu3 = _fallback
+
+
 class QasmParsableBackend(Backend):
     """Backend for third-party library which can read OpenQASM """
     def __init__(self, qasm_runner):
@@ -25,7 +36,7 @@ class QasmParsableBackend(Backend):
             qasm_runner (function (qasm: str, *args, **kwargs) -> Result):
                 An function which receives OpenQASM and some arguments and returns a result.
         """
-        self.to_qasm = QasmOutputBackend()
+        self.to_qasm = _PortableQasmBackend()
         self.qasm_runner = qasm_runner
 
     def run(self, gates, n_qubits, *args, **kwargs):
-- 
2.43.0


From 78c7f17d37a21fc71255978623a6d3265409038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 14/45] fix: returns='_exception' of the ibmq backend returns
 the import error

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From fb7f6afc65b599104b0241fb9af2037ab9cf62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 15/45] fix: printing an empty circuit or operation list gives
 valid Python source

---
 blueqat/circuit.py                 | 2 +-
 blueqat/experimental/operations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 710e3ca..6d63dd2 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -92,7 +92,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Circuit({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __get_backend(self, backend_name):
         factory = BACKENDS.get(backend_name)
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..217a459 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Ops({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __getattr__(self, name):
         if name in GATE_SET:
-- 
2.43.0


From c910120f71155f1448eb91fbc2db6fbcc8f87138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 16/45] fix: to_inttuple rejects characters other than 0 and 1
 as documented

---
 blueqat/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index 5c3a40a..e84833e 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -30,12 +30,18 @@ def to_inttuple(bitstr):
     Raises:
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
+    def convert(bits):
+        ints = tuple(int(b) for b in bits)
+        if any(b not in (0, 1) for b in ints):
+            raise ValueError(f"illegal character in bitstr {bits!r}")
+        return ints
+
     if isinstance(bitstr, str):
-        return tuple(int(b) for b in bitstr)
+        return convert(bitstr)
     if isinstance(bitstr, Counter):
-        return Counter({tuple(int(b) for b in k): v for k, v in bitstr.items()})
+        return Counter({convert(k): v for k, v in bitstr.items()})
     if isinstance(bitstr, dict):
-        return {tuple(int(b) for b in k): v for k, v in bitstr.items()}
+        return {convert(k): v for k, v in bitstr.items()}
     raise ValueError("bitstr type shall be `str`, `Counter` or `dict`")
 
 def ignore_global_phase(statevec):
-- 
2.43.0


From 09b50fd76b259266f8c74235397507a09b3affd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 17/45] fix: printing a gate on no qubit gives valid Python
 source

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 8fffa0f..dd0af19 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -57,7 +57,7 @@ class Gate(ABC):
             else:
                 return str(obj.__index__())
 
-        if isinstance(self.targets, tuple):
+        if isinstance(self.targets, tuple) and self.targets:
             return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
         else:
             return f"[{_slice_to_str(self.targets)}]"
-- 
2.43.0


From 96fc3cb3b155349442458c38529f6c069a533326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 18/45] fix: the identity operator can be hashed and compared
 with other Pauli operators

---
 blueqat/pauli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..ee6dd38 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,12 +243,14 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
+        if self.is_identity:
+            return hash(self.op)
         return hash((self.op, _n(self)))
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-            if self.is_identity:
-                return other.is_identity
+            if self.is_identity or other.is_identity:
+                return self.is_identity and other.is_identity
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From db5674279b02a503ccca39050f598c04dd769ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 19/45] fix: comparing a Pauli term with an expression or a
 foreign object is symmetric and does not fail

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ee6dd38..6268192 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -499,6 +499,10 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From b21cd53b6cc9f7412d6f02ead3d780c352f4bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 20/45] fix: a NumPy number on the left of a Pauli operator,
 term or expression

---
 blueqat/pauli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 6268192..5bf2f1e 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # NumPy scalars on the left of an operator shall leave the calculation to this class.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -373,6 +376,8 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -651,6 +656,8 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From ee424ac3133196ed731315a85b4bfe15cfd05a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 21/45] fix: Pauli terms can be divided by complex and NumPy
 numbers

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 5bf2f1e..6b76a0e 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -457,7 +457,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From 7a9d776664ac1f1f8c87e485e53395f7a8dd2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 22/45] fix: adding to a Pauli expression that names a term
 twice no longer loses one of them

---
 blueqat/pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 6b76a0e..7316e4d 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -679,7 +679,11 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for ops, coeff in self.terms:
+            if coeff:
+                terms[ops] = terms[ops] + coeff if ops in terms else coeff
+        return terms
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 6541de24d4785164a452ef730f7e570077457b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 23/45] fix: to_matrix with too few qubits is an error instead
 of a wrong matrix

---
 blueqat/pauli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 7316e4d..62fc5af 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -632,13 +632,15 @@ class Term(_TermTuple):
             raise ValueError(f'Unknown sparse format {sparse}.')
         if n_qubits == -1:
             n_qubits = self.n_qubits
+        term = self.simplify()
+        if n_qubits < term.n_qubits:
+            raise ValueError(f'{n_qubits} qubits are not enough for {term}.')
         if n_qubits == 0:
-            m = np.array([[self.coeff]])
+            m = np.array([[term.coeff]])
             if sparse is None:
                 return m
             return _sparse_types[sparse](m)
         dim = 2 ** n_qubits
-        term = self.simplify()
         data = _term_to_dataarray(term, n_qubits, sparse == 'csr')
         dtype_idx = np.int32 if n_qubits < 31 else np.int64
         if sparse == 'csc':
@@ -887,12 +889,14 @@ class Expr(_ExprTuple):
             raise ValueError(f'Unknown sparse format {sparse}.')
         if n_qubits == -1:
             n_qubits = self.n_qubits
+        expr = self.simplify()
+        if n_qubits < expr.n_qubits:
+            raise ValueError(f'{n_qubits} qubits are not enough for {expr}.')
         if n_qubits == 0:
-            m = np.array([[sum(term.coeff for term in self.terms)]])
+            m = np.array([[sum(term.coeff for term in expr.terms)]])
             if sparse is None:
                 return m
             return _sparse_types[sparse](m)
-        expr = self.simplify()
         grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
-- 
2.43.0


From 28649fb2892cc570cd354ca94a8ae754bac5c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 24/45] fix: to_matrix of a Pauli expression whose terms cancel
 out

---
 blueqat/pauli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 62fc5af..89e2e0b 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -900,6 +900,11 @@ class Expr(_ExprTuple):
         grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
+        if not expr.terms:
+            m = scipy.sparse.csr_matrix((dim, dim), dtype=complex)
+            if sparse is None:
+                return m.toarray()
+            return _sparse_types[sparse](m)
         gr_terms = [list(g) for _, g in groupby(sorted(expr.terms, key=grpkey), key=grpkey)]
         n_groups = len(gr_terms)
         n_vals = n_groups * dim
-- 
2.43.0


From a8b1187f14bcccd855fa206a88ef8be8da1fbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 25/45] fix: Pauli terms with coefficient zero are equal
 whatever operators they name

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 89e2e0b..832bfaa 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -539,6 +539,8 @@ class Term(_TermTuple):
                 return 1.0, op1
             return _mul_map[op1, op2]
 
+        if self.coeff == 0:
+            return Term((), self.coeff)
         before = defaultdict(list)
         for op in self.ops:
             if op.op == "I":
-- 
2.43.0


From 07b8b6ce715da17e38634e2235761808bacf82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 26/45] fix: time evolution of terms with Y has the right sign

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 832bfaa..bcedd13 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -614,7 +614,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -625,7 +625,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From 7dbb689b8b4243942ede29dc47effdd826ffed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 27/45] fix: energies of terms with Y have the right sign

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 4082821c53e5a43ca0851d6098e607398e23a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 28/45] fix: energy of a Hamiltonian with unsimplified terms

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..8075e2e 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,7 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for meas in self.hamiltonian.to_expr().simplify():
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0


From 4272c832415696978f873dc6bad84b9843588d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 29/45] fix: sparse energies when the initial circuit has more
 qubits than the Hamiltonian

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 8075e2e..625af37 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From 03874221da6d9a1e8354b08d43fad14c803704c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 30/45] fix: measurement sampler reads the measured qubits in
 order, keeps every count and the circuit

---
 blueqat/vqe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 625af37..c2c357e 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,16 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
+        circuit = circuit.copy()
         circuit.measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From c5edaa39b909f8358d5988daad2f2dded204aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 31/45] fix: qiskit sampler keeps the circuit, every count and
 the constant term

---
 blueqat/vqe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index c2c357e..9ebeae5 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -312,10 +312,13 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
+            return {(): 1.0}
+        circuit = circuit.copy()
         circuit.measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From d33a11c6a1c13357f9f00d1e8a687647e5097b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 32/45] fix: annealers and Opt.add accept a QUBO given as an
 array

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..d7d7a69 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From 41ce1b2f6f584548fb5b3ab7588a13a217f60e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 33/45] fix: Opt.add rejects a QUBO of another size instead of
 ignoring it

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d7d7a69..ab72899 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -475,6 +475,8 @@ class Opt:
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
         elif(len1==0):
             self.qubo = M*np.array(qubo)
+        else:
+            raise ValueError(f"Cannot add a QUBO of size {len2} to a QUBO of size {len1}.")
         return self
 
     def run(self,shots=1,sampler="normal",targetT=0.02,verbose=False):
-- 
2.43.0


From 5ac38b601568e563ebca0324a932f95319650b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 34/45] fix: Opt.qi counts couplings below the diagonal like
 pauli() does

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ab72899..d0f3900 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -401,7 +401,7 @@ class Opt:
         self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
         for i in range(nn):
             for j in range(i+1,nn):
-                self.J[i][j] = self.qubo[i][j]/4
+                self.J[i][j] = (self.qubo[i][j]+self.qubo[j][i])/4
 
         self.J = np.triu(self.J)+np.triu(self.J,k=1).T
 
-- 
2.43.0


From 9efb2fcf16a594af9009a19e59ff6da5429e5aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 35/45] fix: qn_to_qubo keeps every term of the expression

---
 blueqat/wq.py | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d0f3900..fae4031 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -156,39 +156,15 @@ def qn_to_qubo(expr):
         import sympy
     except ImportError:
         raise ImportError("This function requires sympy. Please install it.")
-    assert type(expr) == sympy.Add
+    expr = sympy.expand(expr)
     to_i = lambda s: int(str(s)[1:])
     max_i = max(map(to_i, expr.free_symbols)) + 1
     qubo = [[0.] * max_i for _ in range(max_i)]
-    for arg in expr.args:
-        syms = arg.free_symbols
-        assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+    for arg in sympy.Add.make_args(expr):
+        idx = sorted(map(to_i, arg.free_symbols))
+        assert len(idx) <= 2
+        if idx:
+            qubo[idx[0]][idx[-1]] += float(arg.as_coeff_Mul()[0])
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From a5a5340a67bd7352e393dab766b33a684928dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 36/45] fix: symbolic QUBO may skip variables

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index fae4031..151a34d 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -414,7 +414,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max((int(repr(i)[1:]) for i in qubo.free_symbols), default=-1) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
-- 
2.43.0


From e25ccc9a292417a058f11f1918e6df8a14ce8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 37/45] fix: Opt.expand_qubo reduces powers of every variable

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 151a34d..f7d6b56 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -435,7 +435,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 52d219ce3785b5372d8cb4aa713b2ffb1e90c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 38/45] fix: optm accepts variables with a constant coefficient

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f7d6b56..9005715 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,8 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        coeff = optm_E.coeff(symbol_list[i])
+        optm_M[i][i] = coeff.subs({s: 0 for s in coeff.free_symbols})
 
     return optm_M
 
-- 
2.43.0


From b8e09def349d5192ef57b88c07cf48d9ff1f5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 39/45] fix: wq.mul of two different linear forms

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 9005715..1e1e475 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -215,7 +215,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From eb74f64b349b0743129decf2aeb9c42538d8ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 40/45] fix: wq.net does not change the caller's edges

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 1e1e475..cc7ce81 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -237,8 +237,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From 4c51e1e36b737e0253955fd1b21e51e53a604307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 41/45] fix: sign of the slice coupling in the SQA energy

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index cc7ce81..1f423de 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -178,7 +178,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From 1bce6a74450ea9516a05f286bcb28d289bd8ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 42/45] fix: Opt.sqa starts a new energy record

---
 blueqat/wq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 1f423de..d2e0787 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -511,6 +511,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
+        self.E = []
         if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
-- 
2.43.0


From 057385ebe59a42cc6122543f1e586aa9de9c8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 43/45] fix: rbm_model_qubo with one shot

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d2e0787..3693dbd 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -581,6 +581,8 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From b38a1da4c3f6b4ee731f2914d00b9194795371ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 44/45] fix: Opt.dw sends each bias to its own qubit

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 3693dbd..137a51b 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -555,11 +555,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From 69dae01456c30d6b544b87c376f89aecbd3f84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:32 +0000
Subject: [PATCH 45/45] fix: the qgate sampling pool works with current NumPy
 (np.int was removed)

---
 blueqat/backends/qgate_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index bf03525..2b47324 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -240,7 +240,7 @@ class BlueqatCompatibleSamplingPool :
             self.mask |= 1 << idx
 
     def sample(self, n_samples) :
-        obs = np.empty([n_samples], np.int)
+        obs = np.empty([n_samples], int)
         import random
         for idx in range(n_samples) :
             redprob = self.prob
-- 
2.43.0

