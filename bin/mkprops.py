#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Gates act as their documented unitaries on the state-vector engine",
  "Every gate of the public gate set (single-qubit, rotation and phase gates, arbitrary 2x2 matrices, multi-controlled and anti-controlled forms with an arbitrary control pattern, uniformly-controlled gates, the swap family, parity-phase gates and masked register forms) transforms the amplitudes of the CPU state-vector engine exactly as its documented matrix does, for every input state, every choice and order of distinct target and control qubits, and every register width. The result includes relative and global phase, leaves amplitudes outside the controlled subspace untouched, keeps unit norm, and does not depend on how the amplitude loop is split over threads.",
  ["inputs", "programs", "configurations"],
  "for all states, all gate parameters, all target/control choices and orders, all widths, all parallel chunk sizes and all preceding gate sequences",
  "Unit tests apply each gate to a few basis states at fixed qubit positions and mostly assert a basis-state readout, so phase errors, wrong control patterns at other positions and multi-chunk indexing errors are not visible.",
  ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "include/qinterface.hpp", "src/common/parallel_for.cpp"],
  [("2x2 kernel over index pairs with sorted control powers", "src/qengine/state.cpp Apply2x2"), ("uniformly controlled kernel", "src/qengine/state.cpp UniformlyControlledSingleBit"), ("default gate definitions in terms of Mtrx/MCMtrx", "src/qinterface/gates.cpp, include/qinterface.hpp")],
  ["QInterface::GetQuantumState", "QInterface::GetAmplitude"],
  [("amplitude vector", "complex amplitude per basis state", "include/qengine_cpu.hpp stateVec")])

p("C02", "The Schmidt-decomposing layer is transparent",
  "A simulator built on the Schmidt-decomposition layer (automatic separation of qubits into independent units, buffered and commuted controlled phases, per-qubit basis changes) gives, for every program of gates, measurements and resets, the same quantum state, the same probabilities and the same set of possible measurement outcomes as the plain state vector would. Internal optimizations (buffering, separation, re-entangling, swap by relabelling) are never observable.",
  ["programs", "histories", "configurations"],
  "for all programs (interleavings of gates, forced and random measurement, reset and queries) over all engines below the layer",
  "The tests run short, hand-written programs; the layer's bugs appear only for particular interleavings of buffered controlled gates, basis changes, measurement and flushes.",
  ["src/qunit.cpp", "src/qengineshard.cpp", "include/qunit.hpp", "include/qengineshard.hpp"],
  [("phase-buffer commutation and flushing", "src/qengineshard.cpp, src/qunit.cpp RevertBasis*/ApplyBuffer"), ("basis conversion", "src/qunit.cpp ConvertZToX/RevertBasis1Qb"), ("separation", "src/qunit.cpp TrySeparate/SeparateBit")],
  ["QInterface::GetQuantumState on a clone", "QInterface::Prob", "QInterface::M"],
  [("shards", "per-qubit unit pointer, mapped index, cached amplitudes, basis and phase buffers", "include/qengineshard.hpp")])

p("C03", "Stabilizer, hybrid and near-Clifford simulation is exact",
  "The stabilizer simulators, the hybrid that falls back to a full simulator when a program leaves the Clifford group, and their ancilla-based non-Clifford extension produce the same state, probabilities and possible measurement outcomes as the state vector, for every program in and outside the Clifford group, before, during and after any switch of representation. For Clifford programs this holds at any qubit width.",
  ["programs", "histories", "configurations"],
  "for all Clifford and non-Clifford programs, all points at which the representation may switch, all widths",
  "Tests check a few Clifford circuits and end-state measurement; tableau phase errors, gadget bookkeeping across measurement and representation switches need specific gate/measure sequences.",
  ["src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qunitclifford.cpp", "include/qstabilizer.hpp", "include/qstabilizerhybrid.hpp"],
  [("tableau update rules", "src/qstabilizer.cpp"), ("per-qubit buffered 2x2 gates and ancillae", "src/qstabilizerhybrid.cpp FlushIfBlocked/Prob/GetAmplitude"), ("SwitchToEngine", "src/qstabilizerhybrid.cpp")],
  ["QInterface::GetQuantumState", "QInterface::Prob", "QInterface::ForceM"],
  [("tableau", "X/Z bit matrices and phases", "include/qstabilizer.hpp"), ("shards", "buffered single-qubit operator per qubit", "include/qstabilizerhybrid.hpp")])

p("C04", "Decision-diagram simulation is exact",
  "The binary-decision-tree simulator and the hybrid that switches between it and a state vector produce the same state, probabilities and possible outcomes as the state vector for every program, whatever branches are shared, pruned or merged. Sharing of sub-trees never lets an operation on one branch leak into another branch or into a copy.",
  ["programs", "histories"],
  "for all programs over the tree, including shared sub-trees, controlled gates in any qubit order, measurement, structural change and cloning",
  "Tests use mostly product or basis states, which make trivial trees; sharing and pruning errors need entangled states with repeated sub-structure followed by further operations.",
  ["src/qbdt/tree.cpp", "src/qbdt/node.cpp", "src/qbdt/node_interface.cpp", "src/qbdthybrid.cpp", "include/qbdt.hpp", "include/qbdthybrid.hpp"],
  [("Branch/Prune copy-on-write", "src/qbdt/node.cpp"), ("ApplySingle/ApplyControlledSingle traversal", "src/qbdt/tree.cpp"), ("CheckThreshold switching", "include/qbdthybrid.hpp")],
  ["QInterface::GetQuantumState", "QInterface::GetAmplitude", "QInterface::Prob"],
  [("tree", "scaled nodes with shared children", "include/qbdt_node_interface.hpp")])

p("C05", "The paged simulator is exact across page boundaries",
  "Splitting the amplitude vector into pages held by separate engines is never observable: for every program and every page size, gates, measurement, structure changes and queries on qubits below, across and above the page boundary give the same result as a single state vector.",
  ["programs", "configurations"],
  "for all programs, all target/control placements relative to the page boundary and all page counts",
  "The test suite only runs the paged simulator with its default page configuration, in which many operations never cross a page.",
  ["src/qpager.cpp", "include/qpager.hpp"],
  [("meta-controlled and shuffled page gates", "src/qpager.cpp MetaControlled/SingleBitGate/ShuffleBuffers"), ("combine and separate engines", "src/qpager.cpp CombineEngines/SeparateEngines")],
  ["QInterface::GetQuantumState", "QInterface::Prob"],
  [("pages", "equal-sized engines in basis order", "include/qpager.hpp qPages")])

p("C06", "Measurement collapses to a possible, consistent outcome",
  "A measurement (single qubit, register, whole register, sampled shots or parity) only ever reports outcomes of non-zero probability, leaves exactly the normalized projection of the state on the reported outcome, and repeating it without an intervening operation reports the same outcome; forcing an outcome yields that outcome, and non-destructive sampling leaves the state unchanged. Random outcomes occur with the probabilities the state prescribes.",
  ["programs", "inputs", "histories"],
  "for all states, all qubit subsets and orders, random and forced outcomes, on every simulator type",
  "Tests measure mostly basis states and check the outcome only; the post-measurement amplitudes of entangled partners and the impossibility of zero-probability outcomes are unchecked.",
  ["src/qinterface/qinterface.cpp", "src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp"],
  [("ForceM / ForceMReg / ApplyM", "src/qengine/qengine.cpp"), ("MultiShotMeasureMask", "src/qinterface/qinterface.cpp"), ("ForceMParity", "src/qengine/state.cpp")],
  ["return value of M, ForceM, MReg, MAll, MultiShotMeasureMask, MParity", "QInterface::GetQuantumState"])

p("C07", "Register arithmetic and logic compute the documented functions",
  "Arithmetic, modular, table-lookup, comparison, rotation/shift and Boolean-logic operations map every basis state of their operand registers to the documented result, reversibly and coherently in superposition, including carry and overflow phase conventions and controlled variants, and leave all other qubits untouched. This holds for every operand value, register position and length.",
  ["inputs", "programs", "configurations"],
  "for all register positions and lengths, all classical operands, all control sets, all superposed inputs, on every simulator that offers the operation",
  "Tests evaluate a few constants on 8-bit registers at fixed places; wrap-around operands, unusual register order, superposed inputs and phases are not covered.",
  ["src/qengine/arithmetic.cpp", "src/qinterface/arithmetic.cpp", "src/qinterface/logic.cpp", "src/qalu.cpp", "src/qunit.cpp", "include/qalu.hpp"],
  [("permutation kernels", "src/qengine/arithmetic.cpp"), ("carry handling", "src/qalu.cpp"), ("gate-level adders", "src/qinterface/arithmetic.cpp")],
  ["QInterface::GetQuantumState"])

p("C08", "Structural operations preserve the state and the qubit order",
  "Composing, allocating, decomposing, disposing, swapping out and trying to separate qubits never change the represented state other than by the stated tensor insertion or removal: inserted qubits appear at the stated index, remaining qubits keep their relative order, and the two halves of a decomposition together equal the state before it. Attempts at separation, whether they succeed or not, leave the state unchanged.",
  ["programs", "inputs", "histories"],
  "for all states, insertion points, sub-register positions and lengths, mixed with gates and measurements before and after",
  "Tests compose and decompose basis states at one or two positions and never check amplitudes of entangled remainders.",
  ["src/qengine/state.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qinterface/qinterface.cpp"],
  [("Compose/DecomposeDispose index splicing", "src/qengine/state.cpp"), ("shard vector splice", "src/qunit.cpp"), ("tableau row/column splice", "src/qstabilizer.cpp")],
  ["QInterface::GetQuantumState of every register involved", "QInterface::GetQubitCount"])

p("C09", "Copies are independent and observation does not disturb",
  "A cloned simulator (or copied circuit) equals its original at the moment of copying and from then on neither affects the other, whatever operations are applied to either. Reading a simulator (amplitudes, probabilities, expectation values, saved states) any number of times, in any order, never changes its state or the result of later operations.",
  ["histories", "programs"],
  "for all interleavings of operations on an original and its copies, and all placements of queries in a program",
  "Tests clone once and compare once; aliasing through shared buffers or sub-trees shows only when both sides are modified afterwards, and query side effects only when operations follow.",
  ["src/qunit.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qengine/state.cpp", "include/qcircuit.hpp", "src/qtensornetwork.cpp"],
  [("Clone/CopyStateVec", "src/*.cpp"), ("const queries implemented by flush or by temporary clone", "src/qunit.cpp, src/qstabilizerhybrid.cpp")],
  ["QInterface::Clone", "QInterface::GetQuantumState of all registers after every operation"])

p("C10", "Probabilities and expectation values equal those of the state",
  "Every query of probabilities (qubit, register, mask, permutation, all), of expectation values and variances (bit-weighted, factorized, Pauli, unitary-basis, operator eigenvalue) and of parity returns the value defined by the current state, consistently between the different queries, on every simulator type.",
  ["inputs", "programs", "configurations"],
  "for all states, all qubit subsets and orders, all weights and bases",
  "Tests evaluate these on product states with default weights; ordering of qubits, offsets, mixed bases and entangled states are not exercised.",
  ["src/qinterface/qinterface.cpp", "src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp"],
  [("ExpVar* families", "src/qinterface/qinterface.cpp"), ("ProbReg/ProbMask/ProbParity kernels", "src/qengine/state.cpp")],
  ["return values of Prob*, Expectation*, Variance*, GetProbs"])

p("C11", "Circuit objects keep their meaning under every transformation",
  "A recorded circuit, run on any simulator, has exactly the effect of the appended gate sequence, whatever simplification the container applies while appending. Inversion, concatenation, past-light-cone reduction, qubit swap, copying and text serialization round-trips preserve that meaning, and circuits never share mutable gates so that changing one changes another.",
  ["programs", "histories"],
  "for all append sequences, all simplification paths, all subsets of qubits for light cones, and all compositions of these transformations",
  "Tests append a handful of gates; merging rules depend on which gates are adjacent on which qubits and on control patterns.",
  ["include/qcircuit.hpp", "src/qcircuit.cpp"],
  [("TryCombine/CanPass/AppendGate", "include/qcircuit.hpp, src/qcircuit.cpp"), ("operator<< and >>", "src/qcircuit.cpp")],
  ["QCircuit::Run on a simulator, then QInterface::GetQuantumState"],
  [("gates", "ordered list of target, control set and payload matrices", "include/qcircuit.hpp")])

p("C12", "The lazily-evaluated tensor-network layer is transparent",
  "The lazily evaluated layer (which stores circuit layers and measurements and evaluates only what a query needs) gives the same state, probabilities and possible outcomes as the state vector for every program that interleaves gates with measurements and queries. Measurement results already reported are never contradicted later.",
  ["programs", "histories"],
  "for all interleavings of gates, measurements and queries",
  "Tests rarely apply gates to other qubits after a measurement, the case in which layers are split.",
  ["src/qtensornetwork.cpp", "include/qtensornetwork.hpp", "include/qcircuit.hpp"],
  [("GetCircuit layer choice", "include/qtensornetwork.hpp"), ("MakeLayerStack with past light cone", "src/qtensornetwork.cpp"), ("measurement record per layer", "src/qtensornetwork.cpp ForceM")],
  ["QInterface::GetQuantumState", "QInterface::Prob", "QInterface::M"])

p("C13", "The C interface manages simulators, qubit labels and errors correctly",
  "Through the C interface, each live simulator id denotes one independent simulator and each qubit label one qubit of it: allocation, release, composition, decomposition and cloning keep labels attached to their qubits, destroyed ids may be reused but never alias a live one, and every labelled operation acts on exactly the labelled qubits. Invalid ids, labels or arguments are reported as errors and change no live simulator.",
  ["histories", "programs", "fault_sequences"],
  "for all histories of creation, cloning, allocation, release, composition, decomposition and destruction with gates between, valid and invalid arguments included",
  "The unit tests do not touch the C interface at all.",
  ["src/pinvoke_api.cpp", "include/pinvoke_api.hpp"],
  [("simulators/simulatorTypes/shards/reservations tables", "src/pinvoke_api.cpp"), ("SIMULATOR_LOCK_GUARD macros and error codes", "src/pinvoke_api.cpp")],
  ["C functions: get_error, num_qubits, DumpIds, OutKet, Prob, M"],
  [("simulators", "id to simulator", "src/pinvoke_api.cpp"), ("shards", "simulator to label-to-index map", "src/pinvoke_api.cpp")])

p("C14", "The work queue runs every task once, in order, and waiting really waits",
  "Tasks given to a simulator's asynchronous work queue run exactly once each, in the order given, one at a time; waiting for completion returns only when every task given before it has finished, and always returns. Discarding pending work never interrupts or loses the notification of a running task.",
  ["schedules"],
  "for all interleavings of the dispatching threads, waiting threads, discarding threads and the worker",
  "A test executes only a few schedules, and the default sizes run most work synchronously.",
  ["src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp"],
  [("mutex, two condition variables and finished flag", "src/common/dispatchqueue.cpp")],
  ["task bodies (recorded start and end)", "return of finish()"],
  [("queue, finished flag, started flag, quit flag", "pending tasks and state flags", "include/common/dispatchqueue.hpp")])

p("C15", "Parallel loops visit every index exactly once",
  "Each parallel loop form (plain range, skipped bit-fields, masked bits, explicit index sets, sparse sets and reductions) calls its body exactly once for each index of the documented set and for no other, whatever the thread count, chunk size and thread schedule, and returns only after all calls have finished. Reductions return the sum over exactly that set.",
  ["schedules", "inputs", "configurations"],
  "for all ranges, skip masks, thread counts, chunk sizes and interleavings",
  "Tests check sums on a few ranges with the default chunk size, in one configuration.",
  ["src/common/parallel_for.cpp", "include/common/parallel_for.hpp"],
  [("atomic chunk counter and futures", "src/common/parallel_for.cpp par_for_inc"), ("index expansion for skip and mask", "src/common/parallel_for.cpp")],
  ["the index set seen by the loop body"])

p("C16", "A seed fixes every random outcome",
  "Two simulators built with the same configuration and given the same seed produce the same sequence of measurement outcomes and samples when they execute the same program, on every simulator type, and re-seeding restarts the sequence. Randomness is drawn from the seeded generator only.",
  ["programs", "configurations"],
  "for all programs and all simulator stacks",
  "The suite never runs a program twice with one seed.",
  ["src/qinterface/qinterface.cpp", "include/qinterface.hpp", "src/qunit.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qtensornetwork.cpp"],
  [("SetRandomSeed / Rand and generator shared with sub-engines", "include/qinterface.hpp, factory constructors")],
  ["outcome sequences of M, MAll, MultiShotMeasureMask"])

p("C17", "Saved states restore exactly",
  "Writing a simulator state out (stabilizer text stream, amplitude vector, C-interface files, circuit files) and reading it into a fresh simulator reproduces the same state, and both behave identically under every further program.",
  ["inputs", "histories"],
  "for all states reachable by programs and all later programs",
  "Tests save and load one or two particular states and compare only a readout.",
  ["src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qunitclifford.cpp", "src/pinvoke_api.cpp", "src/qcircuit.cpp", "src/qengine/state.cpp"],
  [("operator<< and >>", "src/qstabilizer.cpp, src/qstabilizerhybrid.cpp, src/qunitclifford.cpp"), ("SetQuantumState/GetQuantumState", "all simulators")],
  ["stream contents re-read; QInterface::GetQuantumState afterwards"])

p("C18", "Quantum Fourier transform, rotations and time evolution match their definitions",
  "The quantum Fourier transform and its inverse, rotations about arbitrary axes by arbitrary angles or dyadic fractions, Pauli exponentials, powers and roots of phase gates, and Hamiltonian time evolution act as the operators that define them, and inverse operations undo each other exactly.",
  ["inputs", "programs"],
  "for all angles, register positions and lengths, control patterns and input states",
  "Tests apply these to basis states with one angle and look at a readout.",
  ["src/qinterface/rotational.cpp", "src/qinterface/gates.cpp", "src/qinterface/qinterface.cpp", "src/qengine/state.cpp", "include/hamiltonian.hpp"],
  [("QFT/IQFT phase ladders", "src/qinterface/qinterface.cpp"), ("TimeEvolve", "src/qinterface/qinterface.cpp"), ("dyadic and radian rotations", "src/qinterface/rotational.cpp")],
  ["QInterface::GetQuantumState"])

p("C19", "Invalid arguments are refused without changing the state",
  "An operation given out-of-range qubits, an out-of-range register, an impossible forced measurement result or mismatched sizes reports an error instead of acting, and afterwards the simulator state is exactly what it was and remains usable.",
  ["inputs", "fault_sequences", "configurations"],
  "for all operations, all kinds of invalid argument, at any point of any program and on every simulator type",
  "Tests provoke a handful of errors on one simulator and never look at the state afterwards.",
  ["src/qengine/state.cpp", "src/qengine/arithmetic.cpp", "src/qengine/qengine.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp"],
  [("bounds checks throwing before mutation", "all simulators (ThrowIfQubitInvalid, isBadBitRange)")],
  ["thrown error", "QInterface::GetQuantumState before and after"])

p("C20", "The noise layer applies valid noise and nothing at strength zero",
  "The noise wrapper with strength zero is indistinguishable from the simulator it wraps; at non-zero strength each gate the wrapper handles is followed by the weak depolarizing channel (a partial X-basis collapse of the given strength) on exactly the qubits it is defined to touch, the resulting state is one that these channels can produce, and the reported fidelity estimate is the product of one minus the strength over all channel applications.",
  ["programs", "configurations"],
  "for all programs, noise strengths and random choices",
  "The suite has no test of the noise wrapper.",
  ["include/qinterface_noisy.hpp"],
  [("Apply1QbNoise after each gate", "include/qinterface_noisy.hpp")],
  ["QInterface::GetQuantumState", "QInterface::GetUnitaryFidelity"])

p("C21", "Quantum neurons predict, learn and unlearn consistently",
  "A quantum neuron's prediction rotates its output qubit by the angle learned for the input permutation (through its activation function), undoing a prediction restores the state, learning changes only angles of permutations present in the input and never lowers the predicted probability of the expected result, and copies of a neuron are independent.",
  ["programs", "inputs"],
  "for all input states, angle tables, activation functions and learning histories",
  "One convergence test with one function.",
  ["include/qneuron.hpp"],
  [("Predict/Unpredict through uniformly controlled rotation", "include/qneuron.hpp"), ("LearnInternal", "include/qneuron.hpp")],
  ["QNeuron::Predict return value", "QNeuron::GetAngles", "QInterface::GetQuantumState"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
