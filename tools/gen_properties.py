#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
S = "src/plaquette/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    P.append(d)

p("P01", "Pauli operator algebra is exact, phases included",
  "Multiplying any number of Pauli operators (with any signs and any initial phase) yields the operator and the exact complex phase that the corresponding matrix product has. Whether two operators or two collections of operators commute, tensor products, padding to more qubits and counting of (non-trivial) qubits also agree with the matrix or set meaning of the operators. None of these operations changes its input arrays, and results do not depend on what a caller did to earlier results.",
  ["inputs"], "all operator tuples of any length and qubit number, all signs, all initial phases in {1,-1,i,-i}",
  "Tests multiply a handful of fixed pairs/triples; sign errors that need three or more signed operands or several Y factors are never sampled.",
  ["pauli.py"], [("multiply", "pauli.py"), ("commutator_sign", "pauli.py"), ("tensor_product", "pauli.py"), ("pad_operator", "pauli.py"), ("count_qubits", "pauli.py")],
  ["return values of the public functions of the pauli module"])
p("P02", "Pauli and stabiliser-state notations round trip; malformed ones are refused",
  "Converting an operator between its dense string, position-indexed string, dictionary and binary forms never loses or moves a factor, a sign or an identity, whatever the number of qubits. A state built from any complete set of independent commuting stabiliser strings has exactly those signed stabilisers, together with destabilisers that each anticommute with their own stabiliser only. Unrecognised characters, qubit numbers that are too small, and stabiliser sets that do not commute or do not match the given destabilisers are refused with an error.",
  ["inputs"], "all operators/notations, all valid and broken stabiliser sets up to the tested sizes",
  "Unit tests use fixed short strings; identities, multi-digit indices, entangled stabiliser sets and malformed input combinations are an open set.",
  ["pauli.py"], [("string_to_pauli", "pauli.py"), ("pauli_to_string", "pauli.py"), ("dict_to_pauli", "pauli.py"), ("pauli_to_dict", "pauli.py"), ("string_to_state", "pauli.py"), ("state_to_stabiliser_string", "pauli.py")],
  ["strings, dictionaries and arrays returned"])
p("P03", "Clifford gates evolve every stabiliser state exactly, signs included",
  "Applying any sequence of the supported Clifford gates (Pauli X, Y, Z, Hadamard, phase, controlled-NOT, controlled-phase) to any targets of any stabiliser state gives the stabiliser group, with signs, that conjugation by the corresponding unitary gives. Qubits that are not targeted are unaffected, and the state remains a complete, consistently paired stabiliser description after every step.",
  ["programs", "inputs"], "all gate sequences, target lists (including chained and repeated targets) and starting states",
  "Tests apply single gates to one or two fixed states; sign updates depend on combinations of X/Z content at several qubits reached only after long sequences.",
  ["pauli.py", "device/__init__.py"], [("x/y/z/hadamard/phase_gate/control_not_gate/control_phase_gate", "pauli.py"), ("apply_operator", "pauli.py"), ("QuantumState", "device/__init__.py")],
  ["the tableau after every gate"])
p("P04", "Measurement and reset obey the stabiliser measurement rules",
  "Measuring any signed Pauli operator on any stabiliser state gives the certain outcome when the operator is fixed by the state, and otherwise each outcome with probability one half (or the requested one); afterwards the state is the correctly projected state, so repeating the measurement repeats the outcome. Resetting qubits to a signed X, Y or Z eigenstate leaves exactly that eigenstate on these qubits and does not disturb expectation values of the others beyond what the projection implies. Requests for invalid outcomes are refused.",
  ["inputs", "histories"], "all states, all operators, all sequences of measurements and resets",
  "Tests measure a few product and Bell states; correctness for multi-qubit operators on entangled states and after long histories is not sampled.",
  ["pauli.py", "device/__init__.py"], [("measure", "pauli.py"), ("measure_z_base/measure_x_base", "pauli.py"), ("reset_qubits_to_eigenstate", "pauli.py")],
  ["tableau and outcome returned by each measurement"])
p("P05", "Adding, joining and removing qubits keeps the state of the others",
  "Appending or inserting qubits into a state puts the new qubits in the zero state at exactly the requested places and leaves all others unchanged. Joining states gives the product state, and measuring qubits destructively (one or several, X or Z basis) removes exactly these qubits and leaves the correct post-measurement state of the rest, still completely and consistently described.",
  ["inputs", "histories"], "all states, positions, numbers of qubits and sequences of resizing operations",
  "There are no tests for insertion and only single-qubit destructive measurements are tested.",
  ["pauli.py"], [("append_qubit/insert_qubit_at", "pauli.py"), ("tensor_product", "pauli.py"), ("_measure_base/_ptrace", "pauli.py")],
  ["tableau returned"])
p("P06", "Both simulators run circuits faithfully and report results in order",
  "For any circuit of gates, resets and measurements, the results returned by each bundled simulator are one bit per measured qubit in program order, and form an outcome record that the circuit can produce: every bit that is determined by the earlier ones has the value quantum mechanics prescribes. Undetermined bits are unbiased coin flips on both simulators.",
  ["programs", "inputs"], "all circuits over the gate set, any width and length, both backends",
  "Tests run a few hand-written circuits; correlations among many mid-circuit measurements, resets and multi-target instructions are not covered.",
  ["device/__init__.py", "device/_circuitsim.py", "device/_stimsim.py"], [("CircuitSimulator._handle_gate", "device/_circuitsim.py"), ("circuit_to_stim", "device/_stimsim.py"), ("Device.run/get_sample", "device/__init__.py")],
  ["the sample returned by the device"])
p("P07", "Error instructions apply exactly the operations they describe",
  "An error branch applies all of its operations or none; of a chain of alternatives at most one branch is applied, continuations belong to the branch directly before them, and continuations or alternatives without a preceding branch are refused however the circuit was run before. With probability zero an error instruction never has an effect and with probability one it always has exactly the stated effect, on exactly the stated qubits, on every simulator that accepts it. The erasure record contains one entry per erasure instruction in program order and is true exactly where the erasure happened; qubits not reported as erased are untouched by it.",
  ["programs", "fault_sequences"], "all programs with error instructions, all chains of branches",
  "Existing tests use one instruction per circuit; chains with continuations, several erasures interleaved with measurements, and state carried between runs are not covered.",
  ["device/_circuitsim.py", "device/_stimsim.py"], [("CircuitSimulator._handle_error", "device/_circuitsim.py"), ("CircuitSimulator._handle_gate", "device/_circuitsim.py"), ("circuit_to_stim", "device/_stimsim.py")],
  ["measurement results and erasure record"])
p("P08", "Noise channels are sampled with the stated probabilities on both simulators",
  "Over many shots, every elementary event of every noise instruction (one- and two-qubit Pauli channels, depolarising, erasure, measurement flips, chained alternatives) occurs with the probability the circuit states for it. The two bundled simulators give statistically the same joint distribution of measurement results and erasure flags for every circuit that both accept.",
  ["inputs", "programs"], "all probability vectors and channel placements",
  "Tests check probabilities 0 and 1 or only that code runs; a permuted two-qubit channel or a wrong conditional probability passes.",
  ["device/_circuitsim.py", "device/_stimsim.py"], [("E_PAULI/E_PAULI2/E_ERASE/DEPOLARIZE/ERROR handling", "device/_circuitsim.py"), ("circuit_to_stim/_append_equiprobable", "device/_stimsim.py")],
  ["frequencies over recorded samples"])
p("P09", "Shots are independent of history and reproducible from the seed",
  "A run with reset depends only on the circuit as it currently is and on the random generator: no earlier shot, earlier circuit, or failed run changes what it can return, and running without reset continues the previous state and extends its record. Executing instruction by instruction gives the same as a whole run. Re-seeding the library's generator reproduces the identical sequence of samples on every simulator, the options of a device hold for every circuit it runs, and records that were handed out do not change later.",
  ["histories", "schedules"], "all interleavings of runs, resets, steps, circuit changes and seeds",
  "Tests run fresh devices once; leaking state across runs, stale compiled circuits or batch boundaries need multi-step histories.",
  ["device/__init__.py", "device/_circuitsim.py", "device/_stimsim.py"], [("CircuitSimulator.reset/run/__next__", "device/_circuitsim.py"), ("StimSimulator.run/reset", "device/_stimsim.py"), ("Device.run", "device/__init__.py")],
  ["samples returned along a history of calls"],
  [("stim batch", "pre-sampled shots and how many are left", "device/_stimsim.py"), ("meas_results/erasure/state", "record of the current shot", "device/_circuitsim.py")])
p("P10", "Circuit text, programmatic building and listing are the same circuit",
  "Writing any circuit out as text and reading it back gives the same instructions with the same arguments, and building it instruction by instruction or reading text with comments and blank lines gives the same circuit. Its reported numbers of qubits and of measured qubits are those of its instructions. Instructions with an unknown name, a wrong number or type of arguments, or an error probability outside [0,1] are refused and leave the circuit unchanged.",
  ["inputs", "programs"], "all instruction sequences and all malformed instructions",
  "Tests parse a few lines; precision of probabilities, nested error instructions and partially parsed bad input are not covered.",
  ["circuit/__init__.py"], [("Circuit.append/append_from_str/__str__", "circuit/__init__.py"), ("CircuitBuilder", "circuit/__init__.py"), ("number_of_qubits", "circuit/__init__.py")],
  ["instruction list and text"])
p("P11", "OpenQASM export preserves the circuit",
  "The exported OpenQASM program, read by an independent parser, performs the same gates, resets and measurements in the same order on the same qubits, with each measurement going to the classical bit of its position in the record, and with registers large enough. Instructions that cannot be expressed are reported with an error, or left out only when the caller asked for that.",
  ["programs"], "all circuits",
  "Tests compare against fixed text, including text that encodes a lost reset.",
  ["circuit/openqasm.py"], [("convert_to_openqasm", "circuit/openqasm.py")],
  ["exported text"])
p("P12", "Every bundled or user-defined code is a valid stabiliser code",
  "For every size, a bundled code has mutually commuting stabiliser generators whose rank is the number of data minus logical qubits, logical operators that commute with all of them and pair up as X and Z of each logical qubit, the advertised number of data and logical qubits, and the advertised distance. Its lattice, its operator list and its qubit numbering describe the same code. A code defined from (unsigned) operators reproduces exactly these operators, two codes compare equal exactly when all their operators agree, the validity check rejects exactly the invalid codes, and invalid choices of logical operators are refused.",
  ["inputs", "configurations"], "all code families, sizes, and user-supplied stabiliser codes",
  "Tests check a few sizes and use the library's own commutation routine as oracle; independence, distance and numbering are not checked for arbitrary sizes.",
  ["codes/__init__.py", "codes/latticebase.py", "codes/latticeinstances.py"], [("lattice constructors", "codes/latticeinstances.py"), ("StabilizerCode", "codes/__init__.py"), ("CodeLattice.assign_indices/stabilisers", "codes/latticebase.py")],
  ["stabilisers, logical operators, lattice vertices and edges"])
p("P13", "Removing faulty qubits or links leaves a consistent, valid planar code",
  "Applying any list of faulty qubits, couplings or stabilisers to a planar lattice with the default options either reports that no logical operator is left or yields a code without these qubits whose generators still commute with each other and with logical operators that still anticommute with each other. Vertices, edges, neighbour lists, numbering and the operators reported by the code object agree afterwards, and a circuit generated from the modified code measures exactly its generators. With the options for gauge operators and boundaries, removing one qubit joins, cuts or disables exactly the generators that the documentation of the option says.",
  ["configurations", "fault_sequences"], "all subsets of faulty elements of all sizes, repeated applications",
  "Tests remove a few hand-picked qubits and compare drawings; combinations merge generators repeatedly and reach cases no test has.",
  ["codes/latticebase.py", "codes/__init__.py"], [("apply_fabrication_errors/remove_dataqubit/create_superstab", "codes/latticebase.py"), ("LatticeCode.apply_fabrication_errors", "codes/__init__.py")],
  ["lattice graph and code operators after each edit"])
p("P14", "Without noise, a generated QEC experiment is silent",
  "For every supported code, size, number of rounds, choice of measured logical operators and readout method, running the generated circuit without errors on any simulator always yields an all-zero syndrome, no logical change, and no erasures. The logical measurement before and after agree even though each is random.",
  ["configurations", "histories"], "all codes, sizes, rounds, logical operator choices, readout methods, seeds",
  "Tests run a few codes with a logical-Z readout only; random agreement needs many shots and every readout basis.",
  ["circuit/generator.py", "device/__init__.py"], [("QECCircuitGenerator.get_circuit/measure_stabgens/measure_logical_ops", "circuit/generator.py"), ("MeasurementSample.from_code_and_raw_results", "device/__init__.py")],
  ["unpacked samples"])
p("P15", "Injected faults give exactly the predicted syndrome and logical change",
  "Any set of Pauli faults inserted on data qubits before any round, and any set of measurement flips in any round, produces exactly the syndrome bits of the generators whose observed values change and a logical change exactly if the total data error anticommutes with the measured logical operator. This holds on both simulators and for both logical readout methods.",
  ["fault_sequences", "configurations"], "all sets of faults over all qubits and rounds of all supported codes",
  "Tests inject one error at a time into small codes; multi-round and multi-fault combinations are exponentially many.",
  ["circuit/generator.py", "device/__init__.py"], [("QECCircuitGenerator", "circuit/generator.py"), ("MeasurementSample", "device/__init__.py")],
  ["unpacked samples"])
p("P16", "Generated circuits contain exactly the configured noise, at the right places",
  "A generated experiment circuit is the noiseless circuit plus one noise instruction per configured error: data errors on each configured data qubit once per round before the generators are measured, readout errors directly before each noisy ancilla measurement, and gate errors directly after each noisy gate, each with the configured probabilities on the configured qubits. The preparation round, the final round and the logical readout are free of gate and readout noise. The given error tables are not modified, every circuit is independent of the circuits generated before (also by the same generator object), and unsupported or ill-addressed entries are refused.",
  ["configurations", "inputs"], "all error tables on all codes and round counts",
  "Tests compare a few complete circuits; which of many per-qubit, per-pair, per-gate entries is looked up where is not covered.",
  ["circuit/generator.py"], [("apply_dataqubit_errors/apply_measurement_error/apply_gate_error/get_gate_error", "circuit/generator.py")],
  ["instruction list of the generated circuit"])
p("P17", "Raw results are unpacked to the right logical values, syndrome and erasures",
  "From any raw record of a generated experiment, the logical values before and after, the generator outcomes per round, their round-to-round differences and the erasure flags per round are exactly those of the corresponding instructions of the circuit. Records with a wrong length or wrong amount of erasure information are refused.",
  ["inputs", "configurations"], "all raw bit records for all codes, rounds, logical choices and readout methods",
  "Tests unpack single records of equal-weight logical operators.",
  ["device/__init__.py"], [("MeasurementSample.from_code_and_raw_results", "device/__init__.py")],
  ["fields of the unpacked sample"])
p("P18", "The decoding graph represents exactly the code's single faults",
  "The decoding graph has one vertex per generator and round; a bit flip or phase flip of a data qubit in a round is an edge between exactly the generators of that round that anticommute with it, and a readout flip is an edge between the two rounds it affects. Parallel edges are represented by the most likely one, impossible faults are not used, connected parts and per-part data agree with the whole, and selecting faults yields their product as correction; codes that need more than two-ended faults are refused.",
  ["inputs", "configurations"], "all codes, rounds and weight assignments",
  "Tests compare a few small graphs with listings.",
  ["syngraph/__init__.py"], [("SyndromeGraph", "syngraph/__init__.py"), ("SyndromeGraphComponent", "syngraph/__init__.py"), ("SyndromeGraphManager", "syngraph/__init__.py")],
  ["vertices, edges, components of the graph"])
p("P19", "Decoder weights are the log-likelihoods of the configured error rates",
  "When decoding with weights, the weight of a fault is ln((1-p)/p) where p is the total configured probability that this kind of fault happens on this qubit (for bit flips X or Y, for phase flips Z or Y) or on this readout; zero-probability faults are impossible, except that decoders built from a code replace zero or missing Pauli rates of data qubits by the documented floor of 1e-15. Rates above one half are refused. A weight computation that is told to count erasures adds half the erasure rate of a qubit as an independent flip of each kind. Building a decoder or its weights does not modify the supplied error tables, and tables that also contain gate errors are accepted.",
  ["inputs", "configurations"], "all error tables on all codes",
  "Tests use uniform rates on one code; per-qubit differing rates and table sharing are not covered.",
  ["syngraph/weights.py", "syngraph/__init__.py", "decoders/decoderbase.py"], [("WeightComputation", "syngraph/weights.py"), ("DecoderInterface.from_code", "decoders/decoderbase.py")],
  ["weights on the graph edges; caller's error tables"])
p("P20", "Every decoder returns a correction that explains the syndrome",
  "For every supported code, rounds, error table and weighting, each bundled decoder given any syndrome (and erasures where supported) that some error can produce returns a data correction whose accumulated effect equals the syndrome accumulated over all rounds, provided readout errors are accounted for by time-like faults. Syndromes that no error can produce are refused with an error and never answered with a wrong correction.",
  ["inputs", "configurations", "fault_sequences"], "all syndromes and erasure patterns",
  "Tests decode single or a few errors; validity for dense syndromes, disconnected graphs, mixed weights and erasures is exponentially large.",
  ["decoders/decoderbase.py", "decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/matching.py", "decoders/fusionblossom.py"], [("ComponentDecoder.decode", "decoders/decoderbase.py"), ("UnionFindDecoder", "decoders/unionfind_decoder.py"), ("ErasureDecoder", "decoders/unionfind_erasure.py"), ("PyMatchingDecoder", "decoders/matching.py"), ("FusionBlossomDecoder", "decoders/fusionblossom.py")],
  ["correction returned by decode"])
p("P21", "Decoders correct every error and erasure pattern within the code distance",
  "With uniform rates and perfect readout, every bit-flip and every phase-flip pattern of at most floor((d-1)/2) faults, at any position and round, is corrected without a logical change by every bundled decoder. Erasure-aware decoders also correct every pattern of at most d-1 erased qubits with arbitrary errors on them, and with faulty readout every combination of at most floor((d-1)/2) data and readout faults when there are enough rounds.",
  ["fault_sequences"], "all fault patterns within the distance bound",
  "Tests try single errors on small codes.",
  ["decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/matching.py", "decoders/fusionblossom.py", "syngraph/__init__.py"], [("decode", "decoders/decoderbase.py")],
  ["correction and success verdict"])
p("P22", "Matching decoders find a most likely explanation",
  "The set of faults selected by a matching decoder for a syndrome has the smallest total weight among all sets of faults that explain this syndrome (Fusion Blossom resolves weights to about one percent of the largest weight per fault), and without weights the smallest number of faults. Erased faults cost nothing for decoders that support erasures.",
  ["inputs", "configurations"], "all syndromes and weights",
  "No test compares against an independent optimum.",
  ["decoders/matching.py", "decoders/fusionblossom.py"], [("PyMatchingDecoder.set_syngraph/decode", "decoders/matching.py"), ("FusionBlossomDecoder.set_syngraph/decode", "decoders/fusionblossom.py")],
  ["faults selected after decode"])
p("P23", "Decoding depends only on the current input",
  "A decoder's answer to a syndrome and erasure pattern is the same whatever it decoded before, whether earlier inputs failed, and whether it is freshly built; decoding the same input again gives the same answer. Decoding and decoder construction never modify the arrays, tables or code objects passed in.",
  ["histories"], "all sequences of decode calls on one decoder",
  "Tests decode once per decoder.",
  ["decoders/decoderbase.py", "decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/fusionblossom.py"], [("Graph.reset/init", "decoders/unionfind_decoder.py"), ("reset_subgraph", "decoders/unionfind_erasure.py"), ("solver.clear", "decoders/fusionblossom.py")],
  ["corrections along a history of decode calls"])
p("P24", "The logical success verdict is right",
  "A shot counts as success exactly if, for every measured logical operator, the correction predicts the observed logical change, that is, correction and logical operator anticommute exactly when the measured value changed. Adding any stabiliser to the correction does not alter the verdict and adding an anticommuting logical operator flips it.",
  ["inputs"], "all corrections, logical operator choices and toggles, for codes with one or more logical qubits",
  "Tests check single-logical-qubit codes with trivial corrections.",
  ["decoders/decoderbase.py", "codes/__init__.py"], [("check_success", "decoders/decoderbase.py"), ("logical_ops_to_indices", "codes/__init__.py")],
  ["returned verdict"])
p("P25", "Error tables and the error dictionaries used downstream always agree",
  "After any sequence of adding and updating qubit errors and adding gate errors, the dictionaries handed to circuit generation and decoding contain exactly the enabled errors of the tables: each probability under its qubit (or control-target pair) and Pauli label, data-qubit errors only for data qubits and readout errors only for ancillas. A later gate-error entry replaces an earlier one for the same gate and qubits and missing values are ignored; configured constant errors reach every qubit or gate they should, and unknown or duplicate error names, unknown qubits and gates, and probabilities that are not as many as the qubits or induced errors are refused. The dictionaries belong to the caller: editing an entry changes that entry only, not the tables.",
  ["histories", "inputs"], "all sequences of table edits on all codes",
  "Tests do one edit each and compare one value.",
  ["errors/__init__.py"], [("ErrorData.add_qubit_error/update_qubit_error/add_gate_error/update", "errors/__init__.py"), ("qubit_errors_dict/gate_errors_dict", "errors/__init__.py"), ("from_lattice", "errors/__init__.py")],
  ["error dictionaries"])
p("P26", "Error data survives saving to and loading from files",
  "Saving qubit and gate error tables and loading them again, or updating an existing table from a file with or without overwriting, gives the same error dictionaries as making the same changes in memory; files do not store which errors are enabled, so all errors of a loaded file are enabled. Generated template files load as tables of zero errors for exactly the qubits of the lattice.",
  ["inputs", "histories"], "all tables and update sequences",
  "No test saves and re-loads a table.",
  ["errors/__init__.py"], [("save_to_csv/from_csv/update_from_csv", "errors/__init__.py"), ("generate_empty_qubit_errors_csv", "errors/__init__.py")],
  ["files and reloaded dictionaries"])
p("P27", "Randomly generated error rates are valid probabilities and reproducible",
  "Error rates drawn from a configured distribution are always within [0,1], follow the requested mean and spread as far as the truncation allows, are drawn for every requested qubit or gate, and are identical when the library's random generator is seeded identically. Invalid means or spreads are refused and a spread of zero gives the mean.",
  ["inputs", "configurations"], "all distributions, parameters and seeds",
  "Tests only check shapes.",
  ["errors/__init__.py"], [("generate_gaussian_errors/generate_constant_errors", "errors/__init__.py"), ("assimilate_qubit_errors/assimilate_gate_errors", "errors/__init__.py")],
  ["generated tables"])
p("P28", "Error data that does not fit the code is refused before use",
  "Error tables addressing qubits that do not exist or have the wrong role (data versus ancilla, order of a gate's qubits), unknown error kinds or unknown Pauli labels are refused with an error by validation, by circuit generation and, for decoders that use weights, by weight computation. Every table that addresses existing qubits in the right role with known labels is accepted.",
  ["inputs"], "all well-formed and ill-formed tables on all codes",
  "Tests cover one bad entry per kind on one code.",
  ["errors/__init__.py", "codes/latticebase.py", "circuit/generator.py", "syngraph/weights.py"], [("check_against_code", "errors/__init__.py"), ("check_equbit_is_data/check_equbit_is_stabgen", "codes/latticebase.py")],
  ["accept or error"])
p("P29", "A configured experiment equals the same pipeline done by hand",
  "Running an experiment from a configuration returns the logical error rate that generating the configured code, errors, circuit and decoder and counting failures over the configured number of shots gives with the same seed, whether the parts are built at once or step by step. The rate is reproducible for the same configuration, zero without errors and between 0 and 1 always.",
  ["configurations"], "all valid experiment configurations over codes, errors, devices and decoders",
  "No test runs an experiment through the configuration interface and compares the value.",
  ["frontend/__init__.py"], [("ExperimentConfig.build/run", "frontend/__init__.py"), ("instantiate", "frontend/__init__.py")],
  ["returned rate"])
p("P30", "Configurations validate, convert and persist without loss",
  "Reading a configuration from a dictionary or file, converting it back and writing it out and reading it again gives an equal configuration, with defaults filled in and without modifying the dictionaries passed in; converted dictionaries and the defaults are separate from the configuration. Invalid values (unknown codes, devices, decoders, distributions, wrong parameter counts, non-positive sizes, rounds or shots) are refused on construction and on update, and only enabled, configured errors are passed to the simulation.",
  ["configurations", "inputs"], "all configuration dictionaries and update sequences",
  "Tests check fixed dictionaries section by section; whole-experiment conversion and persistence is not tested.",
  ["frontend/__init__.py", "frontend/schemas.py"], [("from_dict/as_dict/update", "frontend/__init__.py"), ("load_toml/dump_toml/load_json/dump_json", "frontend/__init__.py")],
  ["configuration objects and files"])
p("P31", "Drawings show exactly the given lattice data and circuits",
  "A drawn lattice contains one mark per data qubit, generator and logical operator at its lattice position and one line per incidence in the style of its Pauli factor. Exactly the generators with a set syndrome bit are highlighted, and exactly the X and Z factors of the given error and correction are marked at their qubits; drawing leaves the visualiser's styles, the code and the data unchanged. A drawn circuit has exactly the instructions of the given circuit; circuits with error instructions are refused.",
  ["inputs", "histories"], "all codes, syndromes, errors, corrections and sequences of draw calls",
  "The visualiser has no tests.",
  ["visualizer/__init__.py"], [("LatticeVisualizer", "visualizer/__init__.py")],
  ["traces of the returned figure"])
p("P32", "Measuring the stabilisers is fault tolerant and keeps the given gate order",
  "In generated circuits of planar, rotated planar (also XZZX) and toric codes of size d (and repetition codes with the protected readout), fewer than d faults between the first and the last round of stabiliser measurements (any Pauli on the qubits of an instruction after it, any wrong readout) never change a measured logical operator without a non-zero syndrome. A lattice built with another order of the stabiliser gates either gives circuits that measure the same stabilisers with the gates of each in this order, or is refused.",
  ["inputs", "fault_sequences", "configurations"], "all codes and sizes, rounds, readouts and orders of gates, all combinations of fewer than d faults inside the circuit",
  "Tests never insert faults between the gates of a stabiliser measurement; a wrong order of the gates keeps all noiseless results and all data-error results right.",
  ["codes/latticeinstances.py", "codes/latticebase.py", "circuit/generator.py"], [("measure_stabgens_pl/measure_op", "circuit/generator.py"), ("assign_stab_edge_order", "codes/latticebase.py"), ("inverted_order/edge_order", "codes/latticeinstances.py")],
  ["instructions of the generated circuit and records of circuits with inserted faults"])
p("P33", "Estimated logical failure rates are those of the configured noise",
  "For independent noise given by an error table, the fraction of failed shots of whole experiments (table, generated circuit, either simulator, unpacking, any decoder with or without weights, verdict; also through ExperimentConfig.run) estimates the exact probability that the faults drawn times the decoder's answer change a measured logical operator, and syndromes, erasure flags and logical changes of the shots follow their exact distribution. In particular: a repetition code with equal bit-flip rates fails as often as a majority vote, with different rates and a matching decoder with weights as often as the best possible decoder; with erasures only, a shot fails with probability 1-2^-m where m is the number of independent measured logical changes by undetected operators on the erased qubits (never if m=0); and a code of distance d needs more than (d-1)/2 faults to fail.",
  ["inputs", "seeds", "configurations"], "all codes, error tables, rounds, readouts, decoders and devices, and all seeds",
  "Tests run single stages, or compare rates with fixed numbers; an error in any stage that shifts rates a little leaves every one of their samples plausible.",
  ["frontend/__init__.py", "circuit/generator.py", "device/__init__.py", "device/_stimsim.py", "device/_circuitsim.py", "decoders/decoderbase.py", "syngraph/__init__.py", "syngraph/weights.py", "errors/__init__.py"], [("ExperimentConfig.run", "frontend/__init__.py"), ("generate_qec_circuit", "circuit/generator.py"), ("MeasurementSample.from_code_and_raw_results", "device/__init__.py"), ("DecoderInterface.decode/check_success", "decoders/decoderbase.py")],
  ["fractions of failed shots, and syndromes, flags and toggles of unpacked samples"])
p("P34", "Plugin devices and user decoders get the given input and give the result",
  "A device plugin (an entry of recognized_devices besides the built-in ones) is created once per Device with exactly the arguments given, receives exactly the circuit and number of shots of every run and every reset, and what it returns (run, sample, completion, attributes) is what the user gets; names that are not registered are refused; built-in devices are unaffected and report no completion. A user-defined simulator's get_sample runs once with the reset flag given and returns its processed results. A user-defined decoder backend is created once per connected component with edges, sees in every decoding exactly the part of the syndrome, erasures and weights that belong to its component, is told once about changed weights, and its selection of edges (and nothing else) determines the correction; its errors reach the user and answers of wrong shape or type are refused.",
  ["histories", "inputs"], "all histories of calls, arguments, circuits, codes, syndromes, erasures and selections of edges",
  "Tests use the built-in devices and decoders only.",
  ["device/__init__.py", "decoders/decoderbase.py", "syngraph/__init__.py"], [("Device", "device/__init__.py"), ("AbstractSimulator.get_sample", "device/__init__.py"), ("ComponentDecoder/DecoderBackendInterface", "decoders/decoderbase.py"), ("SyndromeGraphComponent", "syngraph/__init__.py")],
  ["calls that recording plugins and backends receive, results the user gets"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
