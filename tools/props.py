"""Metadata of the properties (source of properties.jsonl and MANIFEST.json)."""

AI = "static analysis: abstract interpretation over the syntax tree (value numbering with normal forms, traces partitioned by guards, generic loop iteration)"
NOTE = (
    "Decided from the current source by an abstract interpreter over resolved functions; an obligation holds for every run the interpreter's traces cover. "
    "Trusted: the interpreter's model of the Python constructs and library calls it meets, and the oracle tables written in the rule. Constructs out of its reach are reported as undecided, not as violations."
)
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=AI, note=NOTE, na=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=list(observe)))


P("S01", "The pattern simulator gives every command exactly its defined effect",
  "Simulating a pattern executes every command of its (possibly noise-transpiled) sequence once, in order, with exactly the effect the command denotes on the nodes it names: preparation, CZ, Clifford gate, X or Z correction and conditional noise exactly when the outcomes recorded over the command's domain have odd parity (unconditional noise always), and measurement in the command's basis conjugated by X when its s-domain parity is odd and by Z when its t-domain parity is odd. "
  "The outcome recorded for a measured node, and used by every later domain, is the one the backend returned (as modified by the noise model when there is one). "
  "A run is refused when the backend does not hold the expected input qubits, starts only after the pattern is checked to be runnable, and ends by giving the backend the pattern's output nodes in order.",
  ["inputs", "histories"], "For all patterns, outcome histories, measure methods of the package, noise models and built-in backends.",
  "Tests compare final states of sample patterns on sampled branches: a wrong condition matters only for outcome histories and domains (overlapping s and t domains, conditional noise, deterministic branches) that a few samples do not reach.",
  ["graphix/simulator.py", "graphix/sim/base_backend.py", "graphix/sim/tensornet.py"],
  [("PatternSimulator.run", "graphix/simulator.py"), ("DefaultMeasureMethod.describe_measurement", "graphix/simulator.py"), ("MeasureMethod.check_domain", "graphix/simulator.py"), ("Backend.correct_byproduct / apply_clifford / entangle_nodes", "graphix/sim/base_backend.py")])

FOLD = "static analysis: abstract interpretation with exact constant folding over finite tables (matrices over Q(e^{iπ/4}) with symbolic angles), exhaustive over their entries"
P("K01", "The tables of the single-qubit Clifford group agree with its matrices",
  "The 24 Clifford gates have pairwise distinct unitary matrices (up to phase), and the named ones (I, X, Y, Z, S, SDG, H) have their usual matrix. For all of them: the product and the conjugate are those of the matrices; C†PC is given with the right Pauli and the right sign or phase for every Pauli and unit; commuting X^s Z^t through C toggles exactly the domains that C†X^sZ^tC requires; and the H/S/Z decomposition, the OpenQASM 3 gate sequence and the chain of Pauli measurements each implement the gate.",
  ["inputs"], "For all 24 gates, all pairs of them, all Paulis with all four units, and all s and t domains.",
  "Tests draw a few elements at random; a wrong entry in a table of hundreds, or an operation that agrees on the tested domains only, changes computations only where that entry is used.",
  ["graphix/clifford.py", "graphix/_db.py", "graphix/pauli.py", "graphix/fundamentals.py", "graphix/ops.py"],
  [("Clifford", "graphix/clifford.py"), ("CLIFFORD_MUL, CLIFFORD_CONJ, CLIFFORD_MEASURE, CLIFFORD_HSZ_DECOMPOSITION, CLIFFORD_TO_QASM3, CLIFFORD_PAULI_DECOMPOSITION", "graphix/_db.py")], technique=FOLD)
P("K02", "Signs, complex units, Paulis, planes and planar states compute exactly",
  "Signs, complex units and Pauli operators multiply, negate and convert exactly as the numbers and matrices they denote (all pairs, all units, including mixed products with ±1 and ±1j). Planes, axes and angles agree: the cosine, sine and orthogonal axes of each plane, the plane carried by two axes, the unit vector at an angle (in units of π), and conversion to and from radians. "
  "A planar state is the normalised +1 eigenstate of the direction of its angle (and its density matrix the projector on it), the basic states and Pauli eigenstates are the eigenstates they are named for, and the operator of a measurement outcome r along v is (I + (-1)^r v·σ)/2.",
  ["inputs"], "For all signs, units, Paulis, axes and planes, and for every angle.",
  "Tests sample angles and a few products; a sign or axis slip in one entry, or a convention that agrees at the sampled angles, is only visible for the entries and angles that are not sampled.",
  ["graphix/fundamentals.py", "graphix/pauli.py", "graphix/states.py", "graphix/sim/base_backend.py", "graphix/ops.py"],
  [("Sign, ComplexUnit, Plane", "graphix/fundamentals.py"), ("Pauli", "graphix/pauli.py"), ("PlanarState", "graphix/states.py"), ("_outcome_to_operator_matrix", "graphix/sim/base_backend.py")], technique=FOLD)
P("K04", "A measurement under any Clifford or conversion denotes the same observable",
  "Applying a Clifford gate C before a measurement M (Bloch or Pauli) gives a measurement of C†MC, with its sign, for each of the 24 gates and for every angle, and keeps the angle in [0, 2) when it was; planes and axes follow. "
  "Converting a Pauli measurement to a Bloch measurement, a Bloch measurement at a multiple of π/2 (of either sign, beyond one turn) to a Pauli measurement, negating a Pauli measurement and reading its Pauli gate keep the observable; angles that are not multiples of π/2 are not converted.",
  ["inputs"], "For all 24 Clifford gates, all planes and axes, both signs, and every angle.",
  "The angle change depends on the gate, the plane and the sign in dozens of combinations and must hold on a continuum of angles, including the wrap-around at one turn; sampled states agree by symmetry in many of them.",
  ["graphix/measurements.py", "graphix/fundamentals.py", "graphix/clifford.py"],
  [("BlochMeasurement.clifford, to_pauli_or_none", "graphix/measurements.py"), ("PauliMeasurement.clifford, to_bloch", "graphix/measurements.py"), ("Plane.clifford, Axis.clifford", "graphix/fundamentals.py")], technique=FOLD)
P("K03", "Built-in channels are the documented maps and preserve the trace",
  "For every probability, each built-in channel (dephasing, depolarising, Pauli, two-qubit depolarising and its tensor form, one- and two-qubit amplitude damping) has Kraus operators that make the documented map, of its documented probability on each Pauli, and Σ K†K = I. "
  "Each built-in noise has the channel of its own probability, on the number of qubits it says, and refuses probabilities outside [0, 1]. Kraus data are accepted exactly when they are square, on qubits, of one size, non-empty, at most 4^n, and normalised by Σ K†K = I.",
  ["inputs"], "For every probability in [0, 1] and every built-in channel and noise.",
  "Tests evaluate channels at one random probability and compare sizes or single operators; a weight swapped between Paulis or a wrong cross term is a relation between polynomials, to be checked as such.",
  ["graphix/channels.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/utils.py"],
  [("the channel constructors and KrausChannel.__init__", "graphix/channels.py"), ("Noise.to_krauschannel", "graphix/noise_models/depolarising.py"), ("BoundedFloat", "graphix/utils.py")], technique=FOLD)
P("N01", "Noise models place exactly the noise they are configured with",
  "For every command, the depolarising and amplitude-damping noise models give the command itself once, with the noise of the probability configured for its kind on the nodes of the command: after preparations, entanglements and corrections (with the condition of the correction), before measurements, and none for other commands. Input nodes get the preparation noise each. "
  "A measurement outcome is flipped exactly with the configured probability. Composed models apply their components in order, on what the previous ones gave, pass on the random generator, and transpiling a sequence concatenates what each command gives in order. The noiseless model changes nothing.",
  ["inputs"], "For all commands, node sets, domains, probabilities and compositions of noise models (up to three components with two commands each).",
  "Tests run statistical simulations with one probability set at a time, or set all of them equal; noise attached to the wrong node, the wrong side or with the wrong parameter is easily within the statistical tolerance.",
  ["graphix/noise_models/noise_model.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py"],
  [("DepolarisingNoiseModel", "graphix/noise_models/depolarising.py"), ("AmplitudeDampingNoiseModel", "graphix/noise_models/amplitude_damping.py"), ("ComposeNoiseModel, NoiseModel.transpile", "graphix/noise_models/noise_model.py")])
P("G01", "Rewriting circuit instructions keeps the unitary and the measurements",
  "For every angle and every placement of qubits: decomposing RZZ, CCX, CNOT, SWAP, Y, RX, RY or RZ, rewriting any instruction into J and CZ gates, and rewriting a circuit without J gates or with Z measurements only, give instructions whose product is the unitary of the original up to a global phase, using only the kinds promised. "
  "Measurements keep their observable, sign included. Sequences are rewritten instruction by instruction, in order, dropping none.",
  ["inputs"], "For every instruction kind, angle (symbolic) and placement of qubits; for all sequences, as each instruction is rewritten alone.",
  "Tests compare simulated states of random circuits with a few angles and one fixed placement; an identity that holds only for some angles or up to a relative phase on some basis states may survive them.",
  ["graphix/transpiler.py", "graphix/instruction.py"],
  [("decompose_*, instructions_to_jcz", "graphix/transpiler.py"), ("Circuit.transpile_j_to_rzh, Circuit.transpile_measurements_to_z_axis", "graphix/transpiler.py")], technique=FOLD)
P("G02", "The circuit simulator applies each gate's own operator to its own qubits",
  "Simulating a circuit prepares its qubits once in the given state (plus states by default) and then, instruction by instruction in order, applies the exact operator of the gate (at every angle, up to a global phase) to the positions its qubits currently have in the state, or measures the qubit along its axis with the caller's random generator. "
  "The classical results are the outcomes in the order of the measurements, and the operators offered by Ops (gates, rotations at every angle, tensor products of Paulis) are the matrices they are named for.",
  ["inputs", "histories"], "For every instruction kind, placement of qubits, angle, and for measured qubits before the gate.",
  "Tests check a few circuits, mostly without mid-circuit measurement, and compare numerically; an index used for a label shows only once an earlier qubit has been measured.",
  ["graphix/transpiler.py", "graphix/ops.py"],
  [("Circuit.simulate", "graphix/transpiler.py"), ("Ops", "graphix/ops.py")], technique=FOLD)
P("G04", "The circuit builder appends exactly the requested instruction or refuses it",
  "Every builder method of a circuit (cnot, swap, cz, h, s, x, y, z, i, rx, ry, rz, j, r, rzz, ccx, m), and adding an instruction or a sequence of them, appends exactly that instruction, with its qubits, angle and axis. It is refused when a qubit is unknown, already measured or named twice. Measuring a qubit makes it unusable, and nothing else changes the usable qubits or the width.",
  ["inputs", "histories"], "For every method, and every placement of its qubits among usable, measured and unknown ones.",
  "Tests build valid circuits; a missing refusal or a control swapped with a target in one entry point is only met by circuits that are invalid or use that entry point.",
  ["graphix/transpiler.py", "graphix/instruction.py"],
  [("Circuit.add, Circuit.extend and the builder methods", "graphix/transpiler.py")])

P("G03", "OpenQASM 3 export denotes the exported circuit or pattern",
  "The OpenQASM 3 text of a circuit makes, for every instruction, qubit placement and angle, the unitary of the instruction on its qubits in order, and measures the observable of each measurement into the bit of its qubit. "
  "The text of a pattern prepares each input and prepared node in its state, entangles, applies each Clifford gate, applies X and Z corrections exactly when the parity of their domain is odd, and measures each node with the observable of its measurement as adapted by its s and t domains, on qubits and bits declared once and before use. "
  "States, gates or commands that cannot be expressed are refused. Angles that are fractions of π with a small denominator are written exactly in every output format, and others in radians with full precision.",
  ["inputs"], "For all instruction and command kinds, qubit placements, all 24 Clifford gates, planes, axes, signs, domains and angles.",
  "The exported text is only checked by importing it elsewhere (optional tools) or comparing strings of samples; a sign, a gate order or a condition matters for particular planes, angles and outcomes only.",
  ["graphix/qasm3_exporter.py", "graphix/pretty_print.py", "graphix/_db.py"],
  [("circuit_to_qasm3, instruction_to_qasm3", "graphix/qasm3_exporter.py"), ("pattern_to_qasm3, command_to_qasm3_lines, domain_to_qasm3_lines", "graphix/qasm3_exporter.py"), ("angle_to_str", "graphix/pretty_print.py"), ("CLIFFORD_TO_QASM3", "graphix/_db.py")], technique=FOLD)

BRANCH = "static analysis: abstract interpretation of the source on known shapes with symbolic angles; the commands it gives are read as the exact linear map of every outcome branch (rings of polynomials in e^{iπα} over Q(e^{iπ/4}))"
P("G05", "A transpiled circuit is a pattern for the same map, in every branch",
  "Transpiling a circuit gives a pattern that applies, in every branch of its measurement outcomes and with the same probability for each, the unitary of the circuit (or, with measurements in the circuit, the map of each result), up to a global phase. The inputs and outputs of the pattern are the qubits in the order of the circuit, whether SWAPs are eliminated or not, and the classical outputs are the nodes of the circuit's measurements, in their order. "
  "Eliminating SWAPs leaves every other instruction acting on the qubits its own qubits then stand for, reports where each qubit or bit ended, leaves the original alone when asked for a copy, and gates on measured qubits are refused.",
  ["inputs", "histories"], "For every angle, outcome and qubit placement, over all instruction kinds, pairs of gates sharing qubits, and families of sequences with SWAPs and measurements.",
  "Tests simulate random circuits in one random branch with concrete angles; corrections that are wrong in one branch, and qubit orders that are wrong only after a SWAP next to a measurement, are rarely sampled.",
  ["graphix/transpiler.py", "graphix/flow/core.py", "graphix/opengraph.py", "graphix/pattern.py"],
  [("Circuit.transpile, Circuit.transpile_to_causalflow, transpile_swaps, TranspileSwapsResult", "graphix/transpiler.py"), ("CausalFlow corrections, XZCorrections.to_pattern", "graphix/flow/core.py")], technique=BRANCH)

P("P05", "Standardising a pattern keeps what every branch does, in standard order",
  "Standardising a pattern (as a function, in place, or through its standardised form) gives a pattern in the order N, E, M, X/Z corrections, C, with at most one correction of each kind per node and the same inputs and outputs. In every branch of the outcomes it applies the same linear map, up to a global phase, with the same probability. "
  "It is refused only when a Clifford command that does not commute with CZ (up to Paulis) comes before an entanglement; the original is left alone by the function; is_standard tells exactly whether commands are in that order.",
  ["inputs"], "For all 24 Clifford gates, planes, axes, angles, domains (overlapping or not), outcomes, and orders of commands.",
  "Tests simulate some standardised random patterns in one random branch; a sign, a gate order or a domain joined instead of added changes only branches and gate pairs that are rarely drawn.",
  ["graphix/optimization.py", "graphix/pattern.py", "graphix/command.py", "graphix/clifford.py"],
  [("StandardizedPattern.from_pattern, to_pattern, standardize", "graphix/optimization.py"), ("Pattern.standardize, Pattern.is_standard", "graphix/pattern.py")], technique=BRANCH)
P("P06", "Shifting signals relabels outcomes and changes nothing else",
  "After shift_signals (by either method) measurements have no t domain in the XY plane and no s domain in the XZ and YZ planes, and no signal command is left. With outcomes relabelled by the signals returned (over the new outcomes for the direct method, over the original ones for mc), every branch applies the same map with the same probability as in the original pattern, and the order of measurements and the outputs are unchanged. "
  "shift_outcomes toggles exactly the outcomes whose signal is odd; unknown methods are refused.",
  ["inputs", "histories"], "For all planes, Pauli axes, angles, domains over earlier nodes (overlapping and nested), and outcomes.",
  "Tests have a single measurement with one node in each domain, so that joining, adding or forgetting a shifted signal cannot be told apart; longer chains of dependent measurements are where they differ.",
  ["graphix/pattern.py"],
  [("Pattern.shift_signals, shift_signals_direct, signals, _commute_*s, extract_signal, shift_outcomes", "graphix/pattern.py")], technique=BRANCH)
P("P09", "Optimising a pattern keeps what its branches do",
  "Parallelising a pattern, minimising its space (with any heuristic), removing useless domains, splitting domains, replacing local Cliffords, converting between Bloch and Pauli measurements, pushing Pauli measurements first and removing them give patterns that apply, in every branch, the same linear map with the same probability as the corresponding branch of the original: the outcomes relabelled by the shifted domains for pushing, the removed nodes at outcome 0 (or the outcome they must have) for removal. "
  "max_space and space_list count the nodes alive at each step, minimising never needs more space than the order left unchanged, the layers of the partial order are the longest-path layers and parallelising measures in their order, and copies leave the original alone.",
  ["inputs", "histories"], "For all angles and outcomes, over a family of patterns with all planes, axes, signs, prepared states, Cliffords and corrections anywhere, overlapping domains, with or without inputs and outputs.",
  "Tests optimise random circuits in one branch; isolated or doubly determined Pauli nodes, prepared states other than |+>, signed Paulis next to outputs and overlapping domains do not come from circuits.",
  ["graphix/optimization.py", "graphix/space_minimization.py", "graphix/remove_pauli_measurements.py", "graphix/pattern.py"],
  [("parallelize_pattern, minimize_space, max_space, space_list, perform_pauli_pushing, remove_pauli_measurements, to_bloch, infer_pauli_measurements, remove_local_clifford_commands", "graphix/pattern.py"), ("standardized_to_space_optimal_pattern, SpaceMinimizationHeuristics", "graphix/space_minimization.py"), ("PauliPushingCut, _RemovePauliMeasurements", "graphix/remove_pauli_measurements.py"), ("remove_useless_domains, single_qubit_domains", "graphix/optimization.py")], technique=BRANCH)

P("F01", "Flows and corrections are accepted exactly when they are well formed",
  "check_well_formed and is_well_formed of causal flows, gflows and Pauli flows accept a correction function and its layers exactly when they satisfy the published definition for the labels of the open graph's measurements (Pauli measurements are planes for causal flow and gflow), and is_focused is true exactly for focused flows. An error names a proposition, node or layer which is really at fault. "
  "XZ-corrections are accepted exactly when each correction acts on another node, in the future of the node it depends on in some order of all the measured nodes, of which the layers are a stratification; is_compatible tells exactly whether a total order of the measured nodes respects the layers, and to_pattern refuses any other.",
  ["inputs"], "For all labels and measurements, with any combination of faults in the correction function and layers.",
  "Tests pass one correct flow and one hand-made fault per proposition; which propositions apply depends on planes, axes and on where the correction sets overlap, so that most of the conditions are never the only one at fault.",
  ["graphix/flow/core.py", "graphix/flow/exceptions.py"],
  [("CausalFlow.check_well_formed, GFlow.check_well_formed, PauliFlow.check_well_formed, PauliFlow.is_focused, _check_flow_general_properties, _check_correction_function_domain", "graphix/flow/core.py"), ("XZCorrections.check_well_formed, from_measured_nodes_mapping, is_compatible, generate_total_measurement_order", "graphix/flow/core.py"), ("Plane.fetch_paulipair, label matching", "graphix/fundamentals.py")], technique=AI)
P("F02", "The pattern of a flow does the same in every branch, and gives the flow back",
  "The corrections of a well-formed causal flow, gflow or Pauli flow, made into a pattern with any compatible order of measurements, give a pattern that is uniformly, strongly deterministic: every outcome branch has the same probability and applies the linear map of the open graph with all outcomes zero, output Cliffords included, with inputs and outputs in the order of the open graph. "
  "From these corrections to_causalflow and to_gflow return the same correction function, and refuse exactly the corrections that are not those of a causal flow or gflow.",
  ["inputs", "histories"], "For all angles, planes, axes, outcomes and well-formed flows (focused or not) on a family of open graphs.",
  "Tests simulate a few flows in one random branch; a correction that is missing matters only for one outcome of one node, and only in flows where the odd neighbourhood and correction sets overlap.",
  ["graphix/flow/core.py", "graphix/opengraph.py", "graphix/pattern.py"],
  [("to_xzcorrections of PauliFlow, GFlow and CausalFlow, XZCorrections.to_pattern, to_causalflow, to_gflow", "graphix/flow/core.py"), ("OpenGraph.odd_neighbors, neighbors", "graphix/opengraph.py")], technique=BRANCH)

DENSE = "static analysis: abstract interpretation of the array code, compiled kernels included, on symbolic amplitudes, operators and probabilities; exact polynomial comparison with the definition"
P("S02", "Dense simulators apply exactly the linear map of each operation",
  "Every operation of Statevector and DensityMatrix (add_nodes, entangle, evolve, evolve_single, swap, permute, tensor, cnot, project_qubit, remove_qubit, ptrace, normalize) leaves exactly the amplitudes of the textbook map on the qubits named, in the order named (first qubit most significant), for any operator, unitary or not. "
  "Projecting keeps the normalised part where the qubit is 0, or the one where it is 1 when the former is zero, and raises when both are. Expectation values and fidelities are the textbook ones (a density matrix is normalised for the former) and leave the state as it was. The result does not depend on the capacity of the preallocated array.",
  ["inputs"], "For all amplitudes, operators, qubit choices and orders, and array capacities.",
  "Tests apply a few gates to sampled states with little spare capacity; an index computed wrongly for one qubit position, a transposed operator or a stale amplitude shows only for particular positions, asymmetric operators and unnormalised or entangled states.",
  ["graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/linalg_validations.py"],
  [("Statevector and its compiled kernels", "graphix/sim/statevec.py"), ("DensityMatrix", "graphix/sim/density_matrix.py")], technique=DENSE)
P("S03", "States are built as given, and operations refuse qubits they do not have",
  "Building a Statevector or a DensityMatrix gives exactly the state of the data (states, amplitudes, matrices or another state, which is copied) with the number of qubits and capacity asked for, as complex numbers, or is refused when data, nqubit and max_qubits disagree or the data is not a state. "
  "Changing the copy never changes the original, nor the array given. An operation given a qubit outside the state raises, and no compiled code ever touches an element outside its array. to_dict and to_prob_dict name each amplitude by the ket of its basis state in the encoding asked for, in order.",
  ["inputs"], "For all kinds and sizes of data, values of nqubit and max_qubits, qubit indices, and encodings.",
  "Compiled kernels do not check bounds: an index out of range corrupts memory silently instead of failing a test. Most combinations of sizes and capacities are not tried by any test.",
  ["graphix/sim/statevec.py", "graphix/sim/density_matrix.py"],
  [("Statevector.__init__, ensure_capacity, _check_bounds, to_dict, to_prob_dict", "graphix/sim/statevec.py"), ("DensityMatrix.__init__", "graphix/sim/density_matrix.py")], technique="static analysis: abstract interpretation of the constructors and operations, compiled kernels included, over exhaustive tables of sizes, capacities and indices, with bounds analysis of every array access of compiled code")
P("S04", "Parallel kernels are free of races and agree with the serial ones",
  "In the compiled parallel kernels of the state-vector simulator and of the linear algebra over GF(2), no iteration of a parallel loop writes an array element which another iteration reads or writes, and no variable carries a value from one iteration to the next (other than sums). "
  "The result is therefore the same for any number of threads and any schedule, and equal to the one of the serial code used for small states, whatever the number of qubits at which the parallel code takes over.",
  ["inputs", "schedules"], "For all schedules of the parallel loops, and all amplitudes, operators, qubits and matrices.",
  "The parallel code runs only above 15 qubits, where tests rarely go, and a race gives wrong amplitudes only under some schedules, on some machines.",
  ["graphix/sim/statevec.py", "graphix/_linalg.py"],
  [("_entangle_jit, _evolve_single_jit, _expectation_single_jit, _evolve_single_and_compute_norm, NUM_QUBIT_PARALLEL", "graphix/sim/statevec.py"), ("_mat_mul_jit", "graphix/_linalg.py")], technique="static analysis: effect analysis of the parallel loops (array elements read and written by each iteration, reductions, private variables), and exact comparison of parallel and serial results")
P("S06", "A run draws all its randomness from the generator it is given",
  "When a random generator is passed to a public function or method of graphix (simulation of patterns and circuits, noise models, branch selectors, backends, random circuits, states, channels, unitaries and objects), every random number drawn during the call comes from that generator, in every helper, callback and overriding method it goes through; without one, each call makes its own fresh generator and no global one is used. "
  "A run with a seeded generator can therefore be repeated exactly.",
  ["inputs", "histories"], "For every function that takes a generator, every call path from it, and every implementation of an overridable method.",
  "A generator dropped on one path gives results as random as before, so that no test on distributions or single results can see it; only repeating that path with the same seed would.",
  ["graphix/rng.py", "graphix/simulator.py", "graphix/random_objects.py", "graphix/branch_selector.py", "graphix/noise_models/noise_model.py", "graphix/sim/base_backend.py", "graphix/transpiler.py", "graphix/pattern.py"],
  [("ensure_rng", "graphix/rng.py"), ("PatternSimulator.run, MeasureMethod.measure", "graphix/simulator.py"), ("NoiseModel.transpile and confuse_result", "graphix/noise_models/noise_model.py"), ("BranchSelector.measure", "graphix/branch_selector.py")], technique="static analysis: interprocedural dataflow (taint) of the random generator through every function and call site")
P("X03", "Warnings are attributed to the user's call, however deep they arise",
  "Whenever a function of graphix that takes a stacklevel issues a warning, directly or in a function it calls, the warning is attributed to the line of the code that called it (with stacklevel 1): each function hands down the level it received plus one for its own frame, on every path. Warnings are thus shown, filtered and counted per user line, and never attributed to graphix itself.",
  ["inputs", "histories"], "For every function that takes a stack level and every call path from it to a warning.",
  "Tests check that a warning is issued, not where: the level is wrong only on the paths where one wrapper forgets its own frame.",
  ["graphix/pattern.py", "graphix/simulator.py", "graphix/transpiler.py", "graphix/opengraph.py", "graphix/noise_models/noise_model.py", "graphix/visualization.py"],
  [("stacklevel arguments", "graphix/pattern.py"), ("PatternSimulator.run", "graphix/simulator.py")], technique="static analysis: interprocedural dataflow of the stack level through every function and call site, as the level received plus a constant")
P("N02", "Noise channels are the documented maps, on the qubits they name",
  "The Kraus operators of each channel constructor (dephasing, depolarising, Pauli, amplitude damping, two-qubit depolarising, their tensor products) make exactly the documented map for every probability, trace preserving; each noise class gives the channel of its name with its probability, and probabilities outside [0, 1] are refused. "
  "Applying a channel or a noise to a density matrix gives Σ|c|² K ρ K† on exactly the qubits named, in their order, for any channel. KrausChannel accepts exactly nonempty sets of square operators of the same number of qubits, at most 4^n of them, with Σ|c|² K†K = 1.",
  ["inputs"], "For all probabilities, Kraus operators with complex coefficients, density matrices and ordered qubit choices.",
  "Tests compare channels at random probabilities on symmetric states, or with the same formula as the code; a transposed operator, exchanged qubits or a wrong cross term of a two-qubit channel changes only states without that symmetry.",
  ["graphix/channels.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/sim/density_matrix.py"],
  [("channel constructors, KrausChannel", "graphix/channels.py"), ("DepolarisingNoise, AmplitudeDampingNoise and their two-qubit forms", "graphix/noise_models"), ("DensityMatrix.apply_channel, apply_noise", "graphix/sim/density_matrix.py")], technique=DENSE)
P("L01", "Linear algebra over GF(2) gives what each operation is defined to give",
  "For every binary matrix: rank is its rank; null_space gives a basis of its null space, one vector per row; right_inverse a right inverse, or None exactly when there is none; gauss_elimination and row_reduction an echelon form (reduced for the latter) of the columns asked for, with the same row space; mat_mul the product modulo 2, refused when shapes do not match; and solve_f2_linear_system a solution of any solvable system in echelon form. "
  "Operands are left unchanged unless copy=False is asked for, and the memory layout of the arguments (transposed, strided) makes no difference.",
  ["inputs"], "For all matrices, right-hand sides, column limits and memory layouts.",
  "Tests have a few matrices; wide, tall, rank-deficient and transposed ones, and pivots away from the diagonal, are where an index of the compiled loops goes wrong, and there is no bounds check in compiled code.",
  ["graphix/_linalg.py"],
  [("MatGF2, solve_f2_linear_system", "graphix/_linalg.py")], technique="static analysis: abstract interpretation of the linear algebra, compiled kernels and memory layout included, over all matrices of bounded size")
P("F03", "A flow is found exactly when there is one, with as few layers as possible",
  "to_causalflow, to_gflow and to_pauliflow (and their or_none forms) return a flow of their kind exactly when the open graph admits one, and otherwise raise OpenGraphError or return None. The flow returned satisfies every proposition of its definition for the labels of the measurements (a measurement in a plane is not taken as Pauli even when its angle is), has as few layers as any flow can, and is focused for gflow and Pauli flow.",
  ["inputs"], "For all open graphs, numbers of inputs and outputs, planes and axes.",
  "The search is an algebraic algorithm in several rounds with row operations on matrices; tests have a few dozen graphs, while failures depend on the graph, on the labels and on how many more outputs than inputs there are.",
  ["graphix/flow/_find_gpflow.py", "graphix/flow/_find_cflow.py", "graphix/opengraph.py", "graphix/_linalg.py", "graphix/flow/_partial_order.py"],
  [("find_cflow", "graphix/flow/_find_cflow.py"), ("AlgebraicOpenGraph, compute_correction_matrix, compute_partial_order_layers", "graphix/flow/_find_gpflow.py"), ("OpenGraph.to_causalflow, to_gflow, to_pauliflow", "graphix/opengraph.py")], technique=AI)
P("S05", "Dense backends measure by the Born rule and act on the qubit of each node",
  "Measuring a node of a dense backend (state vector or density matrix) returns the outcome its branch selector chooses and leaves the normalised state projected by the projector of that outcome for the measured plane and angle (or signed Pauli), on the qubit of that node whatever the node labels, their order and the history; only that node is dropped. "
  "The random selector draws outcome 0 with exactly the Born probability of outcome 0 in the current state (or 1/2 when asked not to compute it); fixed and constant selectors return the given outcome, 0 included, and a fixed selector without a default refuses unknown nodes. "
  "Preparation, CZ, byproducts, Clifford gates, noise and the final ordering of output nodes act on the qubits of the named nodes, and the correspondence between nodes and qubits stays a bijection through every sequence of operations.",
  ["inputs", "histories"], "For every amplitude vector or density matrix, plane, angle, outcome and selector, on up to three qubits, and for histories of operations on arbitrary labels.",
  "Statistical tests of random outcomes cannot tell a slightly wrong probability, and sampled patterns keep nodes in the order of their labels; an index slip shows only after certain removals and orders.",
  ["graphix/sim/base_backend.py", "graphix/branch_selector.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py"],
  [("DenseStateBackend", "graphix/sim/base_backend.py"), ("NodeIndex", "graphix/sim/base_backend.py"), ("RandomBranchSelector.measure, FixedBranchSelector.measure", "graphix/branch_selector.py")], technique=DENSE)
P("P02", "Relabelling and composing patterns or open graphs is the documented construction",
  "Reindexing a pattern replaces every node by its image in every command, domain, input and output, in place or on a copy. The default and completed mappings are injective, extend the given one, and give the remaining nodes, in ascending order, the first free labels from the given start, skipping those to avoid or preserve. "
  "Composing two patterns runs the commands of the first, then those of the second under the completed mapping; inputs and outputs keep the documented order with merged nodes removed (or replaced in place when the mapping is to be preserved). Composing open graphs unites their graphs, merges inputs, outputs and measurements as documented, and carries the Clifford gates of merged outputs into measurements or products in the right order. "
  "Neither original changes; mappings that are not injective, concern unknown nodes, reuse measured nodes, merge an output with a node that is no input, or identify different measurements are refused, and no others.",
  ["inputs"], "For all patterns and open graphs up to five nodes of the enumerated and drawn shapes and mappings, empty ones included.",
  "A collision of labels, a domain that is not relabelled or a wrong order of outputs needs particular labels and partial mappings; tests compose a few patterns whose nodes are in order.",
  ["graphix/pattern.py", "graphix/opengraph.py", "graphix/command.py"],
  [("Pattern.compose, reindex, node_mapping", "graphix/pattern.py"), ("OpenGraph.compose", "graphix/opengraph.py"), ("reindex of the commands", "graphix/command.py")],
  technique="static analysis: abstract interpretation (exact folding) of relabelling and composition over patterns and open graphs of many shapes and mappings, compared with the documented construction")
P("P08", "Symbolic parameters obey algebra and substitute consistently",
  "Sums, differences, products and quotients by numbers of placeholders and affine expressions denote the polynomials they spell, parameters being told apart by identity and not by name; operations that do not give an affine expression are refused, never given a wrong value. "
  "Substituting parameters (one, or several at once, in parallel, by numbers including 0 or by expressions) in a measurement, pattern, circuit, open graph, corrections, flow or density matrix gives the object built directly with the substituted angles: nothing else changes, and the original changes only when the operation is in place. "
  "is_parameterized tells exactly whether an angle is not a number, for every kind of instruction and measurement; substitution commutes with transpilation and with the transformations of patterns.",
  ["inputs"], "For all expressions, assignments (empty, partial, swapping parameters, to 0), and objects holding angles.",
  "Tests substitute nonzero numbers in a few objects: parallel substitution of expressions, equal names, the value 0, an angle held by a kind of instruction the tests do not use, or aliasing with the original are not reached.",
  ["graphix/parameter.py", "graphix/pattern.py", "graphix/transpiler.py", "graphix/measurements.py", "graphix/flow/core.py", "graphix/opengraph.py", "graphix/sim/density_matrix.py", "graphix/instruction.py"],
  [("AffineExpression, Placeholder, with_parameter, with_parameters", "graphix/parameter.py"), ("Pattern.is_parameterized / replace_parameters / apply", "graphix/pattern.py"), ("Circuit.is_parameterized / apply_angle", "graphix/transpiler.py"), ("BlochMeasurement.with_parameters", "graphix/measurements.py"), ("DensityMatrix.replace_parameters", "graphix/sim/density_matrix.py")])
P("P01", "Only runnable patterns are run, standardised or analysed",
  "check_runnability accepts exactly the patterns in which every node is prepared once (or is an input), is entangled, corrected or measured only between its preparation and its measurement, and is measured at most once, and in which the domains of every command name only nodes measured before it. Otherwise it raises RunnabilityError with the first command at fault, a node at fault in it and the reason. "
  "Simulation, standardisation, signal shifting and the transformations based on the standard form raise that error on a pattern that is not runnable instead of giving a result, and accept the others.",
  ["inputs", "histories"], "For all sequences of commands of every kind and all sets of inputs, with any fault at any place.",
  "Tests have one example of each reason; a check that misses one kind of command, one of the two domains or one of the two entangled nodes passes them.",
  ["graphix/pattern.py", "graphix/optimization.py", "graphix/simulator.py"],
  [("Pattern.check_runnability", "graphix/pattern.py"), ("StandardizedPattern.from_pattern", "graphix/optimization.py"), ("PatternSimulator.run", "graphix/simulator.py")])
P("P04", "What a pattern says of itself agrees with its commands",
  "Through every sequence of constructions and operations (add, extend, replace, clear, reordering, relabelling, and every transformation, in place or as a copy), a pattern's inputs, outputs, number of nodes, set of nodes, length, indexing and iteration agree with its command sequence; transformations that are not meant to change inputs and outputs keep them and their order. "
  "Queries (is_standard in both forms, measurement, Clifford and correction commands, space_list, max_space, degrees, isolated and connected nodes, equality) give what their definition says and leave the pattern as it is. Reorderings are accepted exactly when they are permutations. "
  "A copy, the lists an accessor returns and the lists a pattern was built from can be changed without changing the pattern.",
  ["inputs", "histories"], "For all command sequences, partitions of them into calls, orders of inputs and outputs, and operations.",
  "Tests use accessors on fresh patterns; a counter or an order left stale by one operation shows only when another one follows it, and sharing only when one of the two patterns is changed.",
  ["graphix/pattern.py", "graphix/space_minimization.py", "graphix/command.py"],
  [("Pattern.__init__, add, extend, clear, replace, reorder_*, copy, accessors and queries", "graphix/pattern.py"), ("assert_permutation", "graphix/pattern.py")])
P("F05", "Pauli flows are reconstructed from corrections exactly when there is one",
  "XZCorrections.to_pauliflow returns a Pauli flow exactly when, for every measured node, some set of nodes without inputs satisfies propositions P1 to P9 in the order of the layers and has exactly the given X and Z corrections in the future of the node. "
  "The flow it returns satisfies the definition with the layers of the corrections, and its corrections are the given ones. Otherwise, in particular for corrections that go with no Pauli flow, FlowError is raised; no approximate flow is given.",
  ["inputs"], "For all open graphs, planes, axes, layerings and corrections, including anachronical corrections of Pauli-measured nodes.",
  "The reconstruction solves a linear system over GF(2) with one kind of row per proposition; a row dropped or with the wrong sign matters only for graphs in which that proposition decides, in combination with particular labels and layers.",
  ["graphix/flow/core.py", "graphix/_linalg.py"],
  [("XZCorrections.to_pauliflow, _solve_pauli_correction_set", "graphix/flow/core.py")], technique=AI)
P("F04", "What is extracted from a pattern is the structure the pattern has",
  "For every runnable pattern whose nodes are prepared in |+>, to_opengraph gives its graph (an edge for each pair entangled an odd number of times), inputs and outputs in order, every measurement with the Clifford gates before it absorbed, and the product of the Clifford gates of each output. "
  "to_xzcorrections gives, for each measured node, exactly the nodes corrected by its outcome in the standard form (each correction moved through entanglements and Clifford gates, repeated ones cancelling), in as few layers as these dependences allow. "
  "to_causalflow, to_gflow and to_pauliflow give the flow which has these corrections, exactly when there is one in the layers of the corrections; otherwise FlowError (TypeError for causal flow and gflow when there are Pauli measurements). Other preparations are refused with ValueError.",
  ["inputs"], "For all runnable patterns, standard or not: any order of commands, repeated corrections and entanglements, domains, Clifford gates, planes and axes.",
  "Tests extract from patterns made by transpilation or from flows, which have every correction once and no Clifford gate in between; cancellations, gates before domains and orders of layers are not reached.",
  ["graphix/pattern.py", "graphix/optimization.py", "graphix/flow/core.py"],
  [("Pattern.to_opengraph / to_xzcorrections / to_causalflow / to_gflow / to_pauliflow", "graphix/pattern.py"), ("StandardizedPattern.from_pattern / to_opengraph / to_xzcorrections / partial_order_layers", "graphix/optimization.py")],
  technique="static analysis: abstract interpretation (exact folding) of extraction from command sequences of many shapes, compared with Pauli frames tracked through the commands and with the definitions of the flows")
P("X06", "A circuit extracted from an open graph applies the map of the open graph",
  "For every open graph with a Pauli flow and as many inputs as outputs, to_circuit (and extract_circuit of any focused flow, whatever its layers, then to_circuit) gives a circuit whose unitary is the map of the open graph up to a factor, inputs and outputs in their order, for all angles, with or without inferring Pauli measurements. "
  "With more outputs than inputs, the extracted Pauli exponentials and images of X and Z describe the same map, and to_circuit raises NotImplementedError. Flows that are not focused are refused with ValueError, Clifford gates on outputs with NotImplementedError.",
  ["inputs"], "For all open graphs with a Pauli flow, planes and angles, signed Pauli measurements, orders of inputs and outputs, focused flows and layers.",
  "Signs of Pauli strings depend on edges within a correction set, pairs of Y, planes and signs of Pauli measurements of other nodes; tests have a dozen open graphs, most without negative Pauli measurements.",
  ["graphix/circ_ext", "graphix/flow/core.py", "graphix/opengraph.py"],
  [("extraction_ps_from_corrected_node, extend_input, clifford_x_map_from_focused_flow, clifford_z_map_from_focused_flow", "graphix/circ_ext/extraction.py"), ("er_to_circuit, pexp_ladder_pass, cm_berg_pass", "graphix/circ_ext/compilation.py"), ("PauliFlow.extract_circuit, is_focused", "graphix/flow/core.py"), ("OpenGraph.to_circuit", "graphix/opengraph.py")],
  technique="static analysis: abstract interpretation of circuit extraction on known open graphs with symbolic angles; exact linear maps over Q(e^{iπ/4})")
