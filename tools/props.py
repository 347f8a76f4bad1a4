# ---------------------------------------------------------------- circuits
prop("C01", "Default simulator applies each gate's documented unitary",
 "On the default state-vector simulator every gate (Pauli, H, S, T and daggers, rotations, phase, U1/U2/U3, their controlled forms, SWAP, RXX/RYY/RZZ, Toffoli, CCZ, controlled-SWAP) multiplies the state by its documented unitary on exactly the qubits it names, for every input state, qubit count, target choice and real parameter, with qubit 0 as the least significant bit of the state index. A sequence of gates is the product in program order, and the returned vector is correct up to one global phase and normalised.",
 ["inputs", "programs"], "all gates x all target tuples x all real parameters x all input states x all gate sequences",
 "the tests sample a handful of gates on |0..0> or one superposition with at most a few qubits and one or two angles; controlled phases, wrong-qubit and order errors only show for particular targets, parameters and input states",
 [NB, G, CI], [("gate_* actions", NB), ("fallback decompositions", G)],
 [("ctx.qubits", "state vector", NB), ("ctx.qubits_buf", "scratch vector swapped with qubits", NB)], ["Circuit.run()"],
 "explicit-state exploration of the real simulator (BFS over reachable states x every gate instance) against an independent reference model",
 "Exhaustive over the listed gate/target/parameter alphabet, every basis/Clifford-reachable input state up to 3 qubits, gate sequences to depth 2-3, and single gates up to 12 qubits. "+TB)

prop("C02", "Qubit index and slice expressions select the documented qubits",
 "A one-qubit operation indexed by integers, slices or tuples of them acts, in order and with repetitions, on the qubits those expressions select from the circuit's qubit range (Python rules, negative indices and open slice ends counted from the circuit's qubit count at run time), and a two-qubit operation pairs its control and target selections elementwise. The circuit's qubit count is the maximum of its declared size, of the sizes of the circuits joined to it and of every non-negative index and slice bound used, and it never shrinks. Unequal lengths, a qubit paired with itself and non-integer indices are rejected.",
 ["inputs", "programs"], "all index expressions (ints, slices with any start/stop/step, tuples), all qubit counts, all later growth of the circuit",
 "tests pin a dozen slices on two or three sizes; the interaction of negative/omitted bounds, steps, tuples and later growth is a product space",
 [G, CI], [("slicing / qubit_pairs / get_maximum_index", G), ("_GateWrapper.__getitem__", CI)], [("Circuit.n_qubits", "declared or grown size", CI)],
 ["Circuit.n_qubits", "Circuit.run()", "Circuit.to_qasm()"],
 "exhaustive enumeration of index expressions and growth sequences on the real code against a boring reference model", "Exhaustive within integer bounds -4..5 / steps -3..3, sizes 0..5, tuples to length 2-3. "+TB)

prop("C03", "Gates a backend lacks are replaced by an equivalent circuit",
 "When a backend does not implement a gate that has a documented decomposition, running a circuit on that backend performs a sequence of gates the backend does implement whose combined effect equals the gate's unitary up to global phase, for all targets (including slices) and parameters. A gate that can be neither run nor decomposed is reported as an error instead of being skipped.",
 ["configurations", "inputs"], "all subsets of native gates that suffice x all gates x targets x parameters",
 "the tests only run the shipped backends, so a decomposition is only exercised if a shipped backend happens to miss the gate",
 [G, BB, NB], [("Gate.fallback", G), ("Backend._run_gates / _resolve_fallback / NumPyBackend.run_single_gate", BB)], (), ["Backend.run", "Circuit.run(backend=...)"],
 "enumeration of backend configurations (native-gate subsets) x gates, executed on the real code and compared with the reference unitary")

prop("C04", "Measurement and reset follow the Born rule and collapse the state",
 "For every circuit with mid-circuit measurements and resets, the joint distribution of recorded bits and final state over the random source equals the quantum-mechanical one: each outcome occurs with its Born probability, never if that is zero, and afterwards the state is the normalised projection (for reset: with the measured qubit returned to 0). Measuring several qubits in one operation equals measuring them one after another in the order given, and later measurements of a qubit overwrite its earlier bit; unmeasured qubits read 0.",
 ["histories", "inputs"], "all outcomes of the random source at each measurement/reset x all circuits",
 "tests draw random shots and check that seen counts are plausible; they cannot see a wrong conditional state, a biased outcome or a wrong order of bits on rarely taken branches",
 [NB], [("gate_measure / gate_reset", NB), ("store_shot", NB)], [("ctx.cregs", "classical bits", NB)], ["Circuit.run(shots=..., returns=...)"],
 "exhaustive exploration of every random-source branch of the real simulator (choice tree) against a reference density/branch model")

prop("C05", "Shots are independent and the counter is a faithful histogram",
 "Running with N shots gives the histogram of N independent executions from the initial state: the counts sum to N, each key has one character per qubit with qubit 0 first, and no shot is influenced by earlier shots in the same or a previous run. The combinations of shots and returns select exactly the documented results and defaults, and an unknown returns value is rejected.",
 ["histories", "configurations"], "all per-shot random outcomes for up to N shots x all shots/returns options x all measured circuits",
 "tests check a few deterministic circuits and a sum; leaking state or cached measurement results between shots is invisible unless every outcome sequence is explored",
 [NB], [("NumPyBackend.run shots loop, save_cache", NB)], [("save_cache", "stops caching after measurement", NB), ("shots_result", "histogram", NB)], ["Circuit.run(shots, returns)"],
 "exhaustive exploration of all outcome sequences over N shots on the real simulator, compared with the product model")

prop("C06", "Run results never depend on caching, copying or run history",
 "For every interleaving of adding gates, running, making caches, copying, concatenating and re-running circuits, and of passing one backend object to several circuits, each run of a circuit returns what a freshly built circuit with the same gates and qubit count returns.",
 ["histories"], "all operation sequences over circuits, copies and shared backend objects",
 "tests run at most a two-step history; the simulator caches the state after each gate, so correctness depends on the whole history of appends, growth, runs and copies",
 [NB, CI, BB], [("NumPyBackend cache, cache_idx, __clear_cache_if_invalid", NB), ("Circuit.copy / Backend.copy", CI)], [("cache / cache_idx", "state after first k gates", NB), ("Circuit._backends", "per circuit backend instances", CI)], ["Circuit.run()"],
 "explicit-state exploration of all operation sequences up to a depth on real Circuit objects against a cache-free model")

prop("C07", "Circuits, copies and returned results share no mutable state",
 "Copying, adding, taking the dagger of or extending circuits never changes another circuit: operands of + and dagger stay unchanged, += changes only its left operand, and later edits of either side stay invisible to the other. State vectors, counters and matrices handed to the caller are the caller's own: modifying them never changes what any later run returns, and a later run never changes them.",
 ["histories"], "all sequences of copy/add/iadd/dagger/append/run/mutate-result operations",
 "aliasing only shows when a particular object is mutated after a particular other operation; tests do a single step",
 [CI, NB], [("Circuit.copy / __add__ / __iadd__ / dagger", CI), ("NumPyBackend.run return values", NB)], [("Circuit.ops", "gate list", CI)], ["Circuit.ops", "Circuit.run()"],
 "explicit-state exploration of operation sequences over a small heap of real circuits against a value-semantics model")

prop("C08", "An interrupted run does not corrupt later results",
 "If a run (or cache creation) is aborted by an exception at any point, such as KeyboardInterrupt or an error in one gate, then afterwards the circuit still has the same gates and qubit count and every later run, on that circuit and its copies, returns what it would have returned without the aborted run.",
 ["crash_points", "histories"], "all points at which an exception can be raised during a run x follow-up histories",
 "no test interrupts a run; the cache is updated while the run proceeds, so a failure between two updates can poison every later run",
 [NB, BB, CI], [("cache update after each gate", NB)], [("cache / cache_idx", "must stay consistent when a run aborts", NB)], ["Circuit.run() after an aborted run"],
 "fault enumeration: exception injected at every traced function event (and line) of a real run, then all follow-up runs compared with the model")

prop("C09", "Interleaved runs of different circuits do not affect each other",
 "Two runs of different circuits (or of a circuit and its copy) executing concurrently return, under every interleaving, the same state vectors and unitaries each returns alone.",
 ["schedules"], "all interleavings of two runs at line granularity within a preemption bound",
 "tests are single threaded; any accidental sharing through module or class level scratch state would only show under particular interleavings",
 [NB, BB, G, CI, SY], [("per-run context objects", NB), ("per-circuit backend instances", CI)], (), ["Circuit.run() in two threads"],
 "stateless model checking of the real code under a cooperative scheduler (settrace), all schedules up to a preemption bound")

prop("C10", "dagger() is the exact inverse of a measurement-free circuit",
 "For every circuit without measurement or reset, dagger() returns a circuit on the same qubits whose unitary is the inverse of the original's, and dagger() twice is equivalent to the original. A circuit with measurement or reset is rejected unless ignore_measurement is set, in which case exactly those operations are left out.",
 ["programs", "inputs"], "all gates x parameters x targets and all gate sequences",
 "tests check each gate once with one parameter on one target; sign, order and parameter-order mistakes survive on special values",
 [G, CI], [("Gate.dagger", G), ("Circuit.dagger", CI)], (), ["Circuit.dagger()", "Circuit.run()"],
 "exhaustive enumeration of gate sequences on the real code; composed circuit compared with identity in the reference model")

prop("C11", "A rejected operation leaves the circuit unchanged",
 "If adding a gate is rejected with an error (bad index, wrong parameter count, unknown name), the circuit keeps exactly the gates and qubit count it had and remains runnable; every operation that is accepted can be printed and copied, and executed and exported if its targets are valid for the circuit. Operations with invalid targets (out-of-range, control equal to target, wrong number of qubits, repeated qubits in a three-qubit gate) are never silently executed or exported by any shipped backend.",
 ["histories", "inputs"], "all invalid operations x all positions in a history x all shipped backends",
 "tests check a few error cases in isolation and never look at the circuit after the error",
 [CI, G, NB, QO, SY], [("_GateWrapper.__getitem__", CI), ("qubit_pairs, slicing validation", G)], [("Circuit.ops / n_qubits", "must be unchanged on error", CI)], ["Circuit.ops", "Circuit.n_qubits", "str(circuit)", "Circuit.run*"],
 "exhaustive fault enumeration (every invalid operation at every position) on the real code against a transactional model")

prop("C12", "Gate, macro and backend registries behave as documented",
 "Registering a gate, macro or backend makes exactly that name usable on every circuit, unregistering removes it again, and duplicates, clashes with existing gates, macros or methods and unknown names raise ValueError and change nothing; allow_overwrite replaces the previous registration. The default backend in force is the circuit's own setting if it has one (None clears it), otherwise the global setting at the time of the run; copies inherit it as requested, and unknown names are rejected.",
 ["histories", "configurations"], "all sequences of register/unregister/set-default/copy/run operations over a small name alphabet",
 "tests do one register/unregister pair; precedence and error atomicity depend on the sequence",
 [CI], [("BlueqatGlobalSetting", CI), ("Circuit.set_default_backend / __get_backend", CI)], [("GATE_SET / GLOBAL_MACROS / BACKENDS / DEFAULT_BACKEND_NAME", "registries", CI)], ["BlueqatGlobalSetting.*", "Circuit.run()"],
 "explicit-state BFS over the registry state machine driving the real functions in lock-step with a dictionary model")

prop("C13", "OpenQASM export preserves the circuit's meaning",
 "For every circuit, to_qasm() yields a valid OpenQASM 2.0 program (prologue, one quantum and one classical register of the circuit's size, statements in program order) that, read with the standard qelib1 gate semantics, has the circuit's unitary up to global phase and its measurements and resets on the same qubits and bits. Numeric parameters are written so that they parse back to the same value, and output_prologue=False omits only the prologue.",
 ["programs", "inputs"], "all gates x targets x parameters and all gate sequences",
 "tests compare literal strings for a few gates; equality of meaning with what the simulator runs is never checked",
 [QO, G, CI], [("QasmOutputBackend", QO)], (), ["Circuit.to_qasm()"],
 "translation of every enumerated circuit through the real exporter, parsed by an independent QASM interpreter and compared with the reference model (and by qiskit for a subset)")

prop("C14", "Symbolic unitary agrees with the numeric semantics",
 "to_unitary() returns the exact unitary of the circuit with qubit 0 as least significant bit: for every circuit without measurement, substituting any real values for symbolic parameters gives the unitary the documented gates define, up to global phase (a floating-point angle within 1e-7 of a simple multiple of pi may be taken for that multiple). With ignore_global the result is that same unitary times a single phase.",
 ["programs", "inputs"], "all gates x targets x (symbolic or numeric) parameters and gate sequences",
 "tests compare a few gates on one or two qubits; parameter substitution, qubit order and controlled forms in larger circuits are not covered",
 [SY, G], [("SympyBackend", SY)], (), ["Circuit.to_unitary()"],
 "exhaustive enumeration of gates/sequences; real symbolic result evaluated on a parameter grid against the reference model")

prop("C15", "The numba simulator agrees with the default simulator",
 "For every circuit the numba backend returns the same state vector (up to global phase), the same measurement and reset behaviour for the same random outcomes, and the same kinds of result as the default simulator, regardless of cache and run history.",
 ["programs", "histories"], "all gates x targets x parameters x sequences x random outcomes x run histories",
 "numba is optional and absent here, so its code is never executed by the tests at all",
 [NU, "blueqat/backends/numba_backend.py"], [("jit kernels and NumbaBackend.run", NU)], [("cache / cache_idx", "state cache", NU)], ["Circuit.run(backend='numba')"],
 "explicit-state exploration of the real kernels executed as plain Python (stub numba module) against the reference model",
 "The jit compiler is replaced by an identity decorator (numba is not installed), so compilation itself is trusted. "+TB)

prop("C16", "Parallel simulator kernels are free of data races",
 "In every parallel loop of the numba simulator, different iterations never touch the same amplitude when one of them writes it, and every amplitude that has to be updated is updated exactly once, so the result is the same for every order and interleaving of the iterations.",
 ["schedules"], "all interleavings of parallel iterations, for every kernel x qubit count x control/target choice",
 "numba is absent and a race would show only on particular thread timings; index arithmetic errors show only for particular target bits",
 [NU], [("prange kernels", NU)], (), ["amplitude array accesses of each kernel"],
 "exhaustive access-set conflict check over all iterations (independence, i.e. all interleavings equivalent) plus permuted execution orders of the real kernels",
 "Kernels run as plain Python with a recording array and a stub prange. "+TB)

prop("C17", "Running through Qiskit gives the circuit's own measurement results",
 "Running a circuit with at least one measurement on the Qiskit backend returns counts whose keys list qubit 0 first, which sum to the shots asked for and follow the same distribution as the default simulator; the intermediate return kinds give the corresponding Qiskit objects for the same circuit and options given by the caller are passed on.",
 ["programs", "configurations"], "all circuits x all measured subsets x all returns/shots options",
 "tests compare a couple of deterministic circuits; bit order and partial measurement need asymmetric circuits",
 [IB, QP, QO], [("_qasm_runner_qiskit", IB)], (), ["Circuit.run_with_ibmq()"],
 "exhaustive enumeration of deterministic and branching circuits through the real Qiskit path against the reference model (unitary and bit mapping compared exactly)")

prop("C18", "Immutable operation lists behave like circuits and never change",
 "The experimental immutable operation list never changes once built: every gate application, concatenation or dagger returns a new value equal to what the same steps give on a circuit (same gates, qubit count and unitary), leaving its operands usable and unchanged. Printing a circuit or operation list of numeric gates gives Python source that rebuilds an equivalent object, and circuit_to_unitary returns the circuit's unitary, column by basis state.",
 ["histories", "programs"], "all construction histories with branching reuse of intermediate values; all printed gates/targets",
 "no test covers this module; immutability can only be violated by a later operation on a shared intermediate",
 [OP, EU, CI, G], [("Ops", OP), ("circuit_to_unitary", EU), ("Gate.__str__", G)], (), ["Ops.*", "repr()", "circuit_to_unitary()"],
 "explicit-state exploration of all construction trees up to a depth, value snapshots compared after every step")

prop("C19", "Result conversion helpers are exact",
 "Converting bit strings, counters and dicts to integer tuples keeps every bit in order and every count, returns the same container kind and rejects other input. Removing the global phase multiplies the whole vector by one unit-modulus number so that its first non-zero amplitude becomes real and positive; the ignore_global option of a run returns exactly that for the state vector and changes nothing observable otherwise, including later runs.",
 ["inputs", "histories"], "all bit strings up to a length, all containers, all state vectors over an amplitude grid, all option combinations",
 "one example each in the tests",
 [UT, NB], [("to_inttuple / ignore_global_phase", UT)], (), ["to_inttuple()", "Circuit.run(ignore_global=...)"],
 "exhaustive enumeration of inputs on the real functions against a reference")

prop("C20", "Custom backends are handed exactly the circuit and the caller's options",
 "A backend written by a user (a Backend subclass with gate actions, one overriding run, or one generated from an OpenQASM runner), whether registered or passed as an object, is handed exactly the circuit's gates in program order, its qubit count and the caller's own positional and keyword arguments, and the run returns what the backend returns. Preprocessing is called once before the first and postprocessing once after the last gate action, each action receives the context the previous one returned, and a gate the backend lacks arrives as an equivalent sequence of gates it has, in place of that gate. Each circuit keeps its own instance of a registered backend, which copies take over or not as requested.",
 ["configurations", "histories"], "all backend shapes and native-gate subsets x all programs x all arguments; all run/copy histories of a stateful backend",
 "tests register one trivial backend; order, context hand-over and instance ownership depend on the program, the backend's gate set and the history",
 [BB, CI, QP, G], [("Backend._run / _run_gates", BB), ("Circuit.run / run_with_*", CI), ("generate_backend", QP)], [("Circuit._backends", "per circuit backend instances", CI)], ["calls received by a recording backend", "Circuit.run()"],
 "exhaustive enumeration of programs x backend configurations on a recording backend, and of operation histories with a stateful backend against a model of its instances")

prop("C21", "The qgate backend gives qgate the circuit's own program and reports its results",
 "Running a circuit of gates qgate has (all of blueqat's one-qubit gates, cx, cz, crx, cry, crz, cphase, cu1, cu2, cu3, swap and ccx, with all their aliases and, except for swap and ccx, multiple targets) with backend='qgate' gives qgate operators on one register per qubit that mean exactly the circuit: the state vector is the circuit's, with shots the counts follow the circuit's measurements (keys as on the default simulator: qubit 0 leftmost, qubits not measured reported 0), with either sampling method, and state and bits of returns='statevector_and_shots' belong to one and the same run. The chosen runtime and preferences reach qgate. An operation, runtime or returns value that is not supported is rejected, never left out, and the circuit is not changed.",
 ["inputs", "configurations"], "all gates x targets x parameters, all pairs, all measured programs x every random draw x options",
 "no test here runs this backend (qgate is absent); wrong gate types, control order, adjoint flags or bit positions show only for particular gates, qubits and measured subsets",
 [QG], [("QgateBackend.convert_operators / sample / get_state_vector_and_sample", QG)], (), ["Circuit.run(backend='qgate')", "operators received by the qgate stand-in"],
 "exhaustive enumeration of programs x random outcomes on the real backend driving a stand-in qgate that executes the operators it receives; distributions compared with the reference model")

# ---------------------------------------------------------------- pauli
prop("P01", "Pauli arithmetic is exact matrix arithmetic",
 "For all Pauli operators, terms and expressions, +, -, unary minus, *, / by numbers, ** (of terms and expressions, by whole numbers) and mixing with Python or NumPy numbers (on either side) give an object whose matrix is the corresponding sum, difference, product, quotient or power of the operands' matrices, regardless of operand types, operator order and earlier operations. Operands are never modified.",
 ["inputs", "histories"], "all expression trees over Pauli operators, terms, expressions and numbers up to a depth",
 "tests check individual identities; wrong signs, lost terms and type-dispatch gaps appear for particular operand types and un-simplified intermediates",
 [PA], [("_PauliImpl / Term / Expr operators", PA), ("_mul_map", PA)], (), ["matrix of the result"],
 "exhaustive enumeration of expression trees on the real classes; homomorphism into reference matrices checked at every node")

prop("P02", "Simplify and equality are sound and consistent",
 "simplify() preserves the operator, is idempotent, and yields one canonical form: no repeated qubit in a term, no duplicate or zero terms, independent of the order in which the expression was written. Equality holds exactly when simplified forms coincide, is symmetric across operator, term, expression and identity types, agrees with !=, and equal Pauli operators hash equally.",
 ["inputs"], "all pairs of terms/expressions over 2-3 qubits with small coefficients",
 "equality bugs need a particular pair of representations of the same operator; tests compare a few",
 [PA], [("Term.simplify / Expr.simplify / __eq__ / __hash__", PA)], (), ["==", "!=", "hash", "simplify()"],
 "exhaustive enumeration of all pairs from a closed set of representations; equivalence classes compared with reference matrices")

prop("P03", "to_matrix returns the operator in every format and size",
 "to_matrix() of an operator, term or expression is the Kronecker-product matrix with qubit 0 as least significant factor, padded with identity to any requested qubit count, and every sparse format requested holds that same matrix in that format; an unknown format is rejected and a qubit count too small for the operator is never answered with a wrong matrix.",
 ["inputs", "configurations"], "all terms over n qubits x all sums x all formats x n_qubits choices",
 "tests cover a few expressions; the sparse builders use run-length and divide-and-conquer Kronecker code whose index paths depend on the pattern",
 [PA], [("_term_to_dataarray / _kron_1d_rec / _term_to_indices", PA)], (), ["to_matrix()"],
 "exhaustive enumeration of all Pauli strings up to 4-5 qubits x formats on the real code against reference Kronecker products")

prop("P04", "Commutators and commutation tests are exact",
 "commutator(a, b) equals ab - ba and is_commutable(a, b) is true exactly when that vanishes (within its tolerance), symmetrically for every combination of operators, terms and expressions; is_all_terms_commutable is true exactly when every pair of terms commutes.",
 ["inputs"], "all pairs of terms and all small expressions",
 "tests check a few pairs",
 [PA], [("commutator / is_commutable / is_all_terms_commutable", PA)], (), ["commutator()", "is_commutable()"],
 "exhaustive enumeration of pairs on the real code against matrix commutators")

prop("P05", "Time evolution and Pauli circuits implement the operator",
 "The time evolution of a term with real coefficient appends gates implementing exp(+i t c P) up to global phase for every Pauli string P, coefficient c and time t, acts on no other qubit, keeps what was in the circuit, and may be applied repeatedly; a non-real coefficient is rejected. Appending a term to a circuit applies exactly its Pauli operators, in operator-product order.",
 ["inputs", "histories"], "all Pauli strings x real coefficients x times x preceding circuit contents",
 "the tests check only a few single strings up to sign conventions; a wrong basis-change sign cancels in symmetric cases",
 [PA], [("Term.get_time_evolution / append_to_circuit", PA)], (), ["circuit unitary"],
 "exhaustive enumeration of strings/coefficients/times; circuits from the real code compared with matrix exponentials")

prop("P06", "Pauli objects are immutable values with faithful constructors",
 "Pauli operators, terms and expressions built by any constructor (indexing, calling, from characters, pairs, numbers, qubit_bit-style helpers) denote the documented operator; copying and pickling preserve them, and no arithmetic, conversion, simplification, evolution or matrix call ever changes an existing object or the library's constants. Size queries (max_n, n_qubits, n_iter, coeffs, is_identity) describe the object, and printing gives Python source of an equal object.",
 ["inputs", "histories"], "all constructor inputs up to a length; all sequences of read operations between two observations",
 "tests check few constructors; shared constants or cached arrays are only corrupted by particular call orders",
 [PA], [("constructors, __getnewargs__, matrix copies", PA)], [("_matrix / _sparse_matrix", "module constants", PA)], ["repr/eq/matrix of old objects after new calls"],
 "explicit-state exploration of call sequences with snapshots of all live objects; exhaustive constructor enumeration")

# ---------------------------------------------------------------- vqe
prop("V01", "Energies equal the Hamiltonian's expectation value",
 "For every Hamiltonian and circuit, the energy computed through the sparse matrix and through the exact (non-sampling) sampler equals <psi|H|psi>, with X, Y and Z factors on any qubits and constant terms; with a sampling sampler the expectation over the random source equals it too. Evaluating an energy leaves the circuit, the ansatz and the Hamiltonian unchanged.",
 ["inputs", "histories"], "all Hamiltonians over a Pauli-string alphabet x circuits x samplers x sampler outcomes",
 "tests use Hamiltonians without odd powers of Y, and never compare samplers with each other",
 [VQ, PA], [("AnsatzBase.get_energy / get_energy_sparse / get_objective", VQ)], (), ["AnsatzBase.get_energy*", "get_objective()"],
 "exhaustive enumeration of Pauli strings x states x samplers (all sampler outcomes explored) on the real code against reference matrices")

prop("V02", "Samplers report the right marginals and leave circuits intact",
 "expect() and every sampler return, for any state and any ordered choice of measured qubits, the marginal probabilities (or the observed frequencies) keyed by the measured bits in the order asked for, summing to 1; no sampler changes the circuit it is given.",
 ["inputs", "histories"], "all states over a set x all ordered subsets of qubits x all sampler outcomes",
 "tests exercise symmetric states and full ordered measurement only; order reversal and key collisions cancel there",
 [VQ], [("expect, non_sampling_sampler, get_measurement_sampler, get_state_vector_sampler, get_qiskit_sampler", VQ)], (), ["sampler results", "Circuit.ops after sampling"],
 "exhaustive enumeration of ordered qubit subsets x circuits x random outcomes on the real samplers against the reference")

prop("V03", "QAOA circuits implement the prescribed alternating evolution",
 "For every commuting Hamiltonian, step count, parameter vector, initial circuit and mixer, the ansatz circuit prepares (up to global phase) the initial state followed, per step, by the cost evolution and the mixer with that step's parameters, on enough qubits for Hamiltonian and initial circuit; non-commuting Hamiltonians and a mixer without initial circuit are rejected. Building circuits never changes the ansatz: the same parameters always give the same state.",
 ["inputs", "histories"], "all Hamiltonians/mixers over an alphabet x steps x parameters x call histories",
 "tests run whole optimisations with tolerant assertions",
 [VQ, PA], [("QaoaAnsatz", VQ)], [("init_circuit cache", "shared between circuits", VQ)], ["QaoaAnsatz.get_circuit()"],
 "exhaustive enumeration of ansatz configurations and call sequences on the real code against matrix exponentials")

prop("V04", "VQE driver and result objects keep optimum, circuit and probabilities",
 "Vqe.run passes the minimiser an objective equal to the energy at any parameters it asks for and returns a result with exactly the minimiser's parameters, the ansatz circuit for them and the run's settings. The result's probabilities are those of that circuit under the sampler in force, are recomputed and stored only as the arguments say, and most_common lists the n most probable outcomes in non-increasing order.",
 ["histories", "configurations"], "all sequences of get_probs/most_common calls with all argument combinations x samplers x minimiser behaviours",
 "tests check the most likely outcome of a converged run",
 [VQ], [("Vqe.run / VqeResult", VQ)], [("VqeResult._probs", "stored probabilities", VQ)], ["VqeResult.*"],
 "explicit-state exploration of all call sequences up to a depth on real result objects against a small state model")

# ---------------------------------------------------------------- wq
prop("Q01", "QUBO, Ising and Pauli forms have the same energies",
 "For every square QUBO matrix Q and every bit assignment x, the optimiser's Ising energy plus offset and the diagonal of the converted Pauli operator equal sum_ij Q_ij x_i x_j (spin s = 2x - 1), for upper-triangular, lower-triangular, symmetric and asymmetric Q given as lists or arrays.",
 ["inputs"], "all small integer matrices x all assignments",
 "tests do not touch this module; the minimum may survive a wrong coefficient, so only a check of all assignments decides it",
 [WQ, PA], [("pauli, Opt.qi, Opt.reJ, Ei", WQ)], [("Opt.J / Opt.ep", "Ising form and offset", WQ)], ["Opt.qi() then Ei(...)", "pauli(Q).to_matrix()"],
 "exhaustive enumeration of matrices x assignments on the real code")

prop("Q02", "Simulated annealing reports true energies and valid moves",
 "For every QUBO, initial configuration and outcome of the random source, each simulated-annealing shot is a Metropolis run over single-bit flips: a flip is accepted exactly when it lowers the energy or with probability exp(-dE/T), temperatures fall by the configured rate from initial to target, and the recorded energies are the true energies of the visited configurations ending in the returned one. Result and energy shapes follow the shots argument, runs do not modify the QUBO, and the QUBO may be a list or an array.",
 ["histories", "inputs"], "all random outcomes (initial spins, chosen sites, acceptance) for short schedules x small QUBOs",
 "no test runs the annealer; any distributional check would be statistical",
 [WQ], [("Opt.run / Opt.sa", WQ)], [("Opt.E", "energy history", WQ)], ["Opt.run()", "Opt.E"],
 "exhaustive exploration of the random choices of the real annealer against a reference Metropolis model")

prop("Q03", "Simulated quantum annealing follows the path-integral energy",
 "For every QUBO, two or more Trotter slices and every outcome of the random source, each simulated-quantum-annealing move flips one spin of one Trotter slice and is accepted exactly when it lowers the path-integral energy of all slices (slice average of the Ising energy plus the ferromagnetic coupling between neighbouring slices) or with the corresponding Boltzmann probability; the field falls by the configured rate, the recorded energies are those of the visited configurations, and every run starts a new energy record.",
 ["histories", "inputs"], "all random outcomes for short schedules x small QUBOs x slice counts",
 "no test runs it; a sign error between energy and dynamics only shows against the model",
 [WQ], [("Opt.sqa, Ei_sqa", WQ)], [("Opt.E", "energy history", WQ)], ["Opt.sqa()", "Opt.E"],
 "exhaustive exploration of the random choices of the real annealer against a reference path-integral model")

prop("Q04", "QUBO constructors encode exactly the documented cost functions",
 "Selecting K of N, network edges, squares and products of linear forms, diagonals, zeros and weighted addition of QUBOs give matrices whose energies equal the documented cost up to the constant they drop, for every size, index list and weight; arguments are never modified and mismatched sizes are rejected.",
 ["inputs", "histories"], "all small sizes x integer vectors x edge lists x sequences of additions",
 "no tests exist for these helpers",
 [WQ], [("sel, net, sqr, mul, diag, zeros, rands, counter, Opt.add", WQ)], [("Opt.qubo", "accumulated QUBO", WQ)], ["matrix energies over all assignments"],
 "exhaustive enumeration of inputs and addition sequences on the real code, energies compared over all assignments")

prop("Q05", "Symbolic polynomials convert to QUBOs with the same energies",
 "Every non-constant polynomial in q0, q1, ... with real coefficients that is at most quadratic (after multiplying out; powers q**k count as q where the converter reduces them) converts (by each of the symbolic converters and by adding it as text to the optimiser) to a QUBO matrix with the same energy as the polynomial on every bit assignment up to the constant term, using q*q = q, whatever variables are missing and however terms are written; make_qs yields exactly the named variables.",
 ["inputs"], "all polynomials over 3-4 variables with a small coefficient alphabet, including powers, unit and negative coefficients",
 "no tests exist; parsing by shape of the expression loses terms for particular coefficients",
 [WQ], [("optx, optm, qn_to_qubo, Opt.qubo_to_matrix, Opt.expand_qubo, make_qs", WQ)], (), ["matrix energies over all assignments"],
 "exhaustive enumeration of polynomials on the real code, energies compared over all assignments")

prop("Q06", "Reduction to two-body terms keeps the minimum problem equivalent",
 "Reducing a sum of two or more multilinear terms to at most two variables per term returns an expression, penalty and mapping such that every assignment whose auxiliary variables equal the products they stand for has zero penalty and the original value, every other assignment has penalty at least 1, and every term of expression and penalty has at most two variables.",
 ["inputs"], "all multilinear polynomials up to degree 4 over 4 variables from a coefficient alphabet, all assignments",
 "no tests exist",
 [WQ], [("nbody_separation", WQ)], (), ["values over all assignments"],
 "exhaustive enumeration of polynomials and assignments on the real code")

prop("Q07", "Boltzmann-machine helpers build the documented weights",
 "Layered Boltzmann-machine matrices couple exactly the neighbouring layers and carry biases on the diagonal; hidden activations are the logistic function of bias plus weighted visible values; data and model matrices hold the (sampled) mean activations and visible-hidden correlations, and one training epoch replaces the weights W by alpha*W + epsilon*(data - model), with the data matrix of the inverted training vector.",
 ["inputs", "histories"], "all small layer shapes, visible vectors and sampled configurations",
 "no tests exist",
 [WQ], [("dbms, rbm_hmodel, rbm_data_qubo, Opt.setRBM / rbm_model_qubo / fit", WQ)], [("Opt.qubo", "weights", WQ)], ["returned matrices"],
 "exhaustive enumeration of shapes, vectors and scripted sampler outcomes on the real code against the formulas")

prop("Q08", "The annealing service is sent the QUBO's Ising form",
 "For every QUBO and every solver graph that has a qubit for each variable and a coupler for each non-zero coupling, the biases and couplings handed to the annealing service have, with the optimiser's offset, the QUBO's energy on every spin configuration; nothing is sent for qubits beyond the problem, the configured endpoint, token and solver are used, and the service's spins come back as the variables' bits in order. The circuit-based solver is handed the same cost function.",
 ["inputs", "environments"], "all small QUBOs x solver graphs (node orders, extra nodes, extra couplers) x service answers",
 "the service cannot be reached from tests; a wrong bias still returns plausible bits",
 [WQ], [("Opt.dw, Opt.qaoa", WQ)], (), ["arguments of sample_ising", "Opt.dw()"],
 "exhaustive enumeration of QUBOs, graphs and answers on the real code with a recording stand-in for the service")
