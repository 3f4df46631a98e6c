S = "expander_compiler/src/"
ENGINE = ("generic instantiation: the compiler is generic over the circuit field, and its own monomorphised code runs with a "
          "field of symbolic elements; every branch on an element forks and is decided by z3 over QF_BV (large fields: linear/"
          "univariate solving and Nullstellensatz certificates)")
TECH = "symbolic execution of the real Rust code over a symbolic field, branches and assertions decided by z3; counterexamples replayed"
TRUST = [
    "stand-ins under /verif/stubs for the Expander crates that are not in the sandbox (field traits, GF2, M31, transcript-free types) behave as the originals",
    "the random coefficients the layered circuit asks for are uniform: a constraint combined with fresh random coefficients is taken to hold iff it holds for all of them",
    "the evaluator in ws/chk/src/prog.rs states the documented meaning of each operation",
]
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, functions, bounds, outside, state=(), assumptions=TRUST, technique=TECH, level="translation_validation"):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": [f if "/" in f and f.split("/")[0] in ("circuit-std-rs", "expander_compiler") else S + f for f in files],
                           "state": [{"name": a, "meaning": b} for a, b in state],
                           "mechanism": [{"name": a, "where": b} for a, b in mech]},
                  functions=functions, bounds=bounds, outside=outside, assumptions=list(assumptions), technique=technique, level=level))

def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                   anchors={"files": files, "state": [], "mechanism": [{"name": a, "where": b} for a, b in mech]}, reason=reason))

PIPE = ["compile/mod.rs", "builder/hint_normalize.rs", "builder/final_build_opt.rs", "builder/basic.rs", "circuit/ir/common/opt.rs",
        "circuit/ir/source/chains.rs", "circuit/ir/hint_normalized/mod.rs", "circuit/ir/dest/mod.rs", "circuit/ir/dest/mul_fanout_limit.rs",
        "layering/compile.rs", "layering/ir_split.rs", "layering/layer_layout.rs", "layering/wire.rs", "layering/input.rs",
        "circuit/layered/opt.rs", "circuit/layered/mod.rs", "hints/builtin.rs"]
PIPEFN = ("compile::compile_with_options and everything below it (source optimisations, hint_normalize, final_build_opt, basic builder, dest passes, "
          "mul_fanout_limit, ir_split, layer_layout, wire, layered opt), hint_normalized::RootCircuit::eval_safe with the builtin hints, layered::Circuit::eval_with_public_inputs")
PIPEBOUNDS = ("generated source programs of up to 4 circuits nested 3 deep, 3 inputs, 2 public inputs, 6 operations and 3 constraints per circuit, every "
              "operation of the source language, and larger shapes (13 inputs and sums and products of 30-term sums; 8 circuits nested 7 deep; a circuit of 14 operations and 16 outputs called repeatedly; 24 operations in a row), optimisation levels 1-3, input reordering on and off, fan-out limits 2-4; fields GF(2), GF(3), GF(5), GF(7), GF(2^31-1); "
              "all input values, all public inputs, all results of user hints, all random coefficients symbolic.")
prop("C01", "Compiled circuits mean what the source program means",
     "For every program the compiler accepts and every input, running the compiled witness program and then the compiled layered circuit accepts exactly when the "
     "source program's own constraints and operations accept, and then yields the source program's outputs. Compiling a valid program never panics or ends in an internal error, "
     "at any optimisation level, with or without input reordering or a multiplication fan-out limit.",
     ["programs", "inputs", "configurations"],
     "every source program, every assignment of private and public inputs and user hint results, every compile option",
     "The random-circuit tests compare a few random inputs over a large field, where the interesting values (zero denominators, equal operands, booleans) have probability near zero, and never exercise hints or options together.",
     PIPE, [("compile_with_options runs four steps and adjusts input mappings", S + "compile/mod.rs")],
     PIPEFN, PIPEBOUNDS, "larger programs, deeper nesting, circuits only a particular wide layout reaches; GF(2^31-1) branches that neither solving nor certificate decides are counted as solver_unknown.",
     state=[("root circuit", "the program after each pass"), ("input mapping", "which original input each remaining input is")])
prop("C02", "No prover can make a compiled circuit accept what the source rejects",
     "Whatever values a prover puts in place of those the witness program would have computed, if the compiled layered circuit accepts them then the source program accepts the "
     "same input, and every output is the source program's.",
     ["programs", "inputs", "fault_sequences"],
     "every source program without user hints, every input, every choice of the prover's auxiliary values",
     "No test ever feeds a layered circuit anything but an honestly computed witness, so a missing constraint is invisible.",
     PIPE, [("hint_normalize emits, for each hinted result, the constraints that pin it down", S + "builder/hint_normalize.rs")],
     PIPEFN.replace("hint_normalized::RootCircuit::eval_safe with the builtin hints, ", ""), PIPEBOUNDS.replace("all results of user hints", "all prover-chosen values"),
     "as C01; user hints (unconstrained by definition) and unchecked 0/0, where the documented meaning leaves the prover a choice.")
prop("C03", "Cross-layer circuits mean what the source program means",
     "Compiling the same program for the cross-layer input type gives a layered circuit that, on the compiled witness program's output, accepts exactly when the source program accepts and yields its outputs.",
     ["programs", "inputs", "configurations"],
     "every source program, every input and option, with inputs taken from any earlier layer",
     "Tests compile a handful of circuits for the cross-layer type and check them on a few inputs.",
     PIPE, [("relays are replaced by inputs from earlier layers", S + "layering/compile.rs")],
     PIPEFN, PIPEBOUNDS, "as C01.")

prop("C04", "The compiler refuses only what nothing satisfies",
     "If compiling a valid program ends in a user error, then no input satisfies the program; the exceptions are the documented ones: a division by a constant zero is refused whatever is divided, and so is a program of which "
     "nothing is left to check or output, or none of whose results depend on a private input. Compiling never panics or reports an internal error.",
     ["programs", "inputs", "configurations"],
     "every valid program and compile option, every input of a refused program",
     "No test compiles a program that gets refused; constants that fold into a false refusal (or into an unnoticed failing check) need particular constants in particular places.",
     PIPE, [("errors found while folding constants", S + "builder/basic.rs")],
     "compile::compile_with_options and everything below it; the refused program's meaning is explored over all inputs", PIPEBOUNDS,
     "programs with calls that are refused for want of inputs (which inputs of a circuit matter depends on its callers); GF(2^31-1) branches left undecided are counted.",
     state=[("constants", "values known while compiling")])

LPROF = ("generated layered circuits of up to 4 layers, 4 segments nested 3 deep, up to 16 wires per segment, repeated and shared sub-segments and gates, constant / random / "
         "public-input coefficients, relays, mul/add/const/custom gates, cross-layer inputs; GF(2), GF(3), GF(5), GF(7), GF(2^31-1); inputs, public inputs and random coefficients symbolic")
prop("C07", "Layered optimisation passes keep the circuit's function",
     "Each pass over a layered circuit (deduplicating gates, expanding small segments, factoring out common parts, sorting), alone and combined, leaves a valid circuit that computes the same "
     "outputs and constraint results for every input, public input and random coefficient.",
     ["programs", "inputs"],
     "every valid layered circuit, normal or cross-layer, and every input",
     "The unit tests run the passes on random circuits with one sort of coefficient and compare a few inputs; repeated gates, merged allocations and public-input coefficients meet only by chance.",
     ["circuit/layered/opt.rs", "circuit/layered/mod.rs"], [("find_common_parts factors repeated allocations into new segments", S + "circuit/layered/opt.rs"), ("expand_small_segments inlines", S + "circuit/layered/opt.rs")],
     "layered::Circuit::{dedup_gates, expand_small_segments, find_common_parts, sort_everything, validate}, eval_with_public_inputs", LPROF + ".",
     "larger circuits; orders of hash iteration other than the ones a run happens to take.",
     state=[("segment table", "segments and their child allocations")])
prop("C08", "All ways of running a layered circuit agree",
     "eval_unsafe, eval_with_public_inputs, the packed evaluation, run and run_with_output on a witness batch, and the witness iterators, agree lane by lane with the meaning of the gates, for every batch "
     "size, public inputs and serialised copies of the witness; the unused lanes of packs made from single witnesses repeat a witness of the batch.",
     ["programs", "inputs", "histories"],
     "every valid layered circuit, every input, every number of witnesses in a batch",
     "Tests run single inputs, or batches equal to the pack size; partial blocks, public inputs per witness and constraints failing in one lane only are untested.",
     ["circuit/layered/mod.rs", "circuit/layered/witness.rs", "circuit/layered/serde.rs"], [("Witness packs values of several runs", S + "circuit/layered/witness.rs")],
     "layered::Circuit::{eval_unsafe, eval_with_public_inputs, eval_with_public_inputs_simd, run, run_with_output}, Witness::{iter_scalar, iter_simd, to_simd, serialize_into, deserialize_from}",
     LPROF + "; batches of 1 to 9 witnesses, pack size 4.", "other pack sizes; the packed fields of the Expander crates, which are stand-ins here.",
     state=[("witness values", "inputs then public inputs, per witness")])

IRB = ("generated programs of the representation in question, not only those the front passes produce: up to 5 circuits nested up to 4 deep, 12 inputs, 14 instructions, sums of up to 40 terms, custom gates, hints, "
       "public inputs, random gates, repeated outputs and call arguments, unused circuits and inputs; GF(2), GF(3), GF(5), GF(2^31-1); all inputs, public inputs and hint results symbolic")
prop("C05", "Each pass over the intermediate representations keeps the program's meaning",
     "On any valid program of its representation, each pass alone - remove_unreachable, reassign_duplicate_sub_circuit_outputs, detect_chains, hint_normalize, remove_and_export_hints with add_back_removed_inputs, "
     "final_build_opt, export_constraints, solve_duplicates, solve_mul_fanout_limit, split_to_single_layer - gives a valid program that accepts the same inputs and yields the same outputs, its inputs being placed "
     "as the returned input mapping says; the passes establish what they are for (no repeated outputs, no constraint left, the fan-out bound). Input mappings compose, map and validate as functions.",
     ["programs", "inputs"], "every valid program of each representation, every input, public input and hint result",
     "The pass tests compare a few random inputs of random programs over a large field, one pass at a time only for some passes, and never programs with hints, custom gates or unused inputs.",
     ["circuit/ir/common/opt.rs", "circuit/ir/source/chains.rs", "builder/hint_normalize.rs", "builder/final_build_opt.rs", "builder/basic.rs", "circuit/ir/hint_normalized/mod.rs", "circuit/ir/dest/mod.rs",
      "circuit/ir/dest/mul_fanout_limit.rs", "layering/ir_split.rs", "circuit/input_mapping.rs"],
     [("remove_unreachable keeps what outputs and constraints reach", S + "circuit/ir/common/opt.rs"), ("remove_and_export_hints splits a program into witness part and circuit part", S + "circuit/ir/hint_normalized/mod.rs"),
      ("solve_mul_fanout_limit copies variables", S + "circuit/ir/dest/mul_fanout_limit.rs")],
     "RootCircuit::{remove_unreachable, reassign_duplicate_sub_circuit_outputs, detect_chains, remove_and_export_hints, add_back_removed_inputs, export_constraints, solve_duplicates, solve_mul_fanout_limit, validate}, "
     "builder::{hint_normalize, final_build_opt}::process, layering::ir_split::split_to_single_layer, InputMapping::*",
     IRB + ".", "larger programs; programs a pass refuses with a user error; over GF(2^31-1), branches neither solving nor certificate decides are counted.",
     state=[("program", "circuits by id, instructions, constraints, outputs"), ("input mapping", "where each input of the old program goes in the new one")])
prop("C06", "Layering keeps the program's meaning",
     "For any valid program without repeated outputs or call arguments, layering::compile gives a valid layered circuit that accepts exactly the inputs the program accepts, with its outputs, when the inputs are placed as the "
     "returned mapping says and anything whatever is put in the places no input goes to; no input is lost or shares its place, and without permission to reorder, none moves.",
     ["programs", "inputs", "configurations"], "every valid flattened program, every input, both input types, with and without reordering",
     "Layering is only tested as the end of the pipeline, on random inputs, where wires of different layers, relays, padding and input segments interact in ways a sample of programs does not reach.",
     ["layering/compile.rs", "layering/layer_layout.rs", "layering/wire.rs", "layering/input.rs", "layering/mod.rs", "layering/ir_split.rs"],
     [("compile lays each circuit out layer by layer", S + "layering/compile.rs"), ("wires connect two layouts", S + "layering/wire.rs"), ("input layout", S + "layering/input.rs")],
     "layering::compile and everything below it (layer_layout, wire, input), layered::Circuit::validate, dest::RootCircuit::validate; the layered circuit is read by an own evaluator", IRB + ".",
     "larger programs; over GF(2) constraints arrive as outputs (as in the pipeline), elsewhere as constraints combined with symbolic random coefficients.",
     state=[("layouts", "which variable sits where on each layer")])
prop("C09", "Serialized programs and circuits are read back as they were written",
     "Writing a source program, a witness program, an input mapping or a layered circuit and reading it back gives the same object, whatever its coefficients; the bytes are those the Go front end reads and writes; "
     "an unknown tag or a cut-off file is refused with an error and not with a panic or a different object.",
     ["programs", "inputs", "fault_sequences"], "every program and circuit, every coefficient value, every truncation point and tag of the generated files",
     "Round-trip tests cannot see a change made to both the writer and the reader, which breaks files exchanged with the Go front end and files already written.",
     ["circuit/ir/source/serde.rs", "circuit/ir/hint_normalized/serde.rs", "circuit/ir/common/serde.rs", "circuit/ir/expr.rs", "circuit/layered/serde.rs", "circuit/input_mapping.rs", "circuit/config.rs"],
     [("ExpSerde of instructions, constraints, circuits and segments", S + "circuit/layered/serde.rs")],
     "ExpSerde::{serialize_into, deserialize_from} of source / hint_normalized / layered circuits, coefficients, instructions, constraints, InputMapping", IRB + "; coefficients symbolic; " + LPROF + ".",
     "the byte encoding of field elements and of std containers (the stand-in serdes crate); files large enough to need more than 32-bit lengths.", state=[("byte stream", "little-endian 64-bit words, tag bytes, field elements")])
prop("C10", "The circuit exported to Expander is the circuit that was compiled",
     "The exported Expander circuit, normal or cross-layer, evaluated gate by gate as Expander does, accepts and outputs exactly what the layered circuit does, for every input, public input and random coefficient; "
     "wires, layer sizes and the expected numbers of zero outputs, outputs and public inputs match.",
     ["programs", "inputs"], "every layered circuit, generated or compiled, every input",
     "No test evaluates the exported circuit at all; an off-by-one in padding, offsets or gate kinds only shows when a proof fails.",
     ["circuit/layered/export.rs", "circuit/layered/mod.rs"], [("export_to_expander of each input type", S + "circuit/layered/export.rs")],
     "layered::Circuit::{export_to_expander, export_to_expander_flatten}; the exported form is read by an own evaluator", LPROF + "; and circuits compiled from generated programs.",
     "Expander itself (a stand-in with the same data types).", state=[("segments", "gates and child segments with offsets")])
prop("C16", "The witness solver gives the witness for the inputs it was given",
     "For every assignment, or batch of assignments, the witness solver returns exactly what evaluating the witness program gives for each one alone, with the public inputs alongside, in order, for any batch size; "
     "it fails exactly if one of them has no witness; the compiled circuit's verdict and outputs on the batch are the source program's for each. What fills up a partly filled SIMD pack is a witness of the batch, so that "
     "the pack as a whole is accepted exactly if its witnesses are.",
     ["programs", "inputs", "histories"], "every compiled program, every batch of inputs and public inputs, batch sizes 1 to 5",
     "Tests solve single witnesses or repeat one assignment; partly filled packs, lanes with different hints and public inputs per lane go unseen.",
     ["circuit/ir/hint_normalized/witness_solver.rs", "circuit/ir/hint_normalized/mod.rs", "circuit/layered/witness.rs", "hints/registry.rs"],
     [("eval_safe_simd evaluates several witnesses at once", S + "circuit/ir/hint_normalized/mod.rs"), ("witness solver batches and transposes", S + "circuit/ir/hint_normalized/witness_solver.rs")],
     "WitnessSolver::{solve_witness_from_raw_inputs, solve_witnesses_from_raw_inputs}, hint_normalized::RootCircuit::{eval_safe, eval_safe_simd}, Witness::iter_scalar, layered::Circuit::{run, run_with_output}",
     PIPEBOUNDS + " Batches of 1 to 5 witnesses, pack size 2.", "other pack sizes; user assignment structs (declare_circuit!) are covered with the frontend properties.",
     state=[("packed values", "one lane per witness")])
APIFN = ("frontend::builder::{Builder, RootBuilder} (every BasicAPI, UnconstrainedAPI and RootAPI operation), frontend::{compile, compile_cross_layer}, the macros declare_circuit! and #[memorized], "
         "frontend::sub_circuit, frontend::variables, compile::compile_with_options, WitnessSolver::solve_witness_with_hints, layered::Circuit::eval_with_public_inputs")
APIBOUNDS = ("generated programs of up to 4 functions calling one another through call_sub_circuit, memorized_simple_call and #[memorized] functions with nested, primitive and reference arguments, up to 7 (or 25) API calls each, "
             "operands given as variables, references, u32 or field constants; fields GF(2), GF(3), GF(5), GF(7) (comparisons at 31 bits) and GF(2^31-1), all inputs, public inputs, hint results and prover-chosen values symbolic; "
             "comparisons and full-width bit decompositions over GF(2^31-1) and BN254 for inputs made of 5 (3) symbolic bits at low, middle and top positions added to either end of the field; three declared circuits with nested array and Vec fields.")
prop("C11", "A circuit written against the API accepts exactly what its calls say",
     "For every circuit definition, the circuit the frontend builds and compiles accepts an input exactly if every call the definition makes holds for it (assertions, checked divisions, boolean operands, bit decompositions that fit), and outputs the values the calls "
     "compute, whichever mix of variables and constants the operands are, through any nesting of sub-circuits and memorized functions; a definition is refused while it is built only if no input satisfies it. No prover can make it accept another input or output, comparisons and bit decompositions included.",
     ["programs", "inputs", "fault_sequences"], "every circuit definition, every input, every prover-chosen value",
     "Each API test runs one call on a few values with an honest prover; constant folding, id reuse between sub-circuits and ambiguous bit decompositions need particular combinations of calls, constants and dishonest values.",
     ["frontend/builder.rs", "frontend/api.rs", "frontend/circuit.rs", "frontend/variables.rs", "frontend/sub_circuit.rs", "frontend/witness.rs", "frontend/mod.rs", "utils/function_id.rs", "builder/hint_normalize.rs", "expander_compiler/macros/src/lib.rs"],
     [("operands are folded when all are constants", S + "frontend/builder.rs"), ("sub-circuit ids are hashes of what identifies a function", S + "frontend/builder.rs"), ("bit decompositions are constrained", S + "builder/hint_normalize.rs")],
     APIFN, APIBOUNDS, "definitions that use variables of an enclosing function inside a sub-circuit; comparisons over large fields with a dishonest prover; random values.",
     state=[("sub_circuits", "the functions built so far, by id")])
prop("C12", "Debug evaluation agrees with the circuit",
     "For every circuit definition and assignment, debug_eval panics exactly if the assignment does not satisfy the definition, and otherwise returns exactly the outputs the compiled circuit gives.",
     ["programs", "inputs"], "every circuit definition and every assignment",
     "DebugBuilder is a second implementation of every API call; tests run it on the happy path only.",
     ["frontend/debug.rs", "frontend/mod.rs", "circuit/ir/source/mod.rs", "hints/builtin.rs"],
     [("every call is evaluated at once on the values", S + "frontend/debug.rs")],
     "frontend::extra::debug_eval, frontend::debug::DebugBuilder (all API operations), source::Instruction::eval_unsafe, hints::to_binary, #[memorized] functions under DebugBuilder",
     APIBOUNDS.replace(", hint results and prover-chosen values", " and hint results"), "random values; display.")
KANI = ("Kani (CBMC) on the real functions compiled from /repo, inputs nondeterministic; a failed check's counterexample is replayed with the ordinary build")
prop("C13", "Builtin hints compute what their names say",
     "For every input, each builtin hint returns the documented value: the field quotient (0 for division by 0) and power, equality, boolean and bitwise operations, selection, integer quotient and remainder (0 when the divisor is 0), comparisons of the canonical integers, circom's "
     "shifts (an amount above half of the field shifts the other way; a left shift keeps as many bits as the modulus has), and the bits of a number, which are refused exactly if it does not fit. Their ids, which are part of the serialized form, and the numbers of inputs and outputs validation allows are fixed.",
     ["inputs"], "every hint, every input value, every id and number of inputs and outputs",
     "No unit test calls the hints; the interesting inputs (a shift amount at half of the field, zero divisors, a number one bit too wide) are never hit by chance over a large field.",
     ["hints/builtin.rs", "hints/mod.rs"], [("impl_builtin_hint", S + "hints/builtin.rs"), ("circom_shift_l_impl and circom_shift_r_impl call each other", S + "hints/builtin.rs"), ("to_binary", S + "hints/builtin.rs")],
     "hints::{impl_builtin_hint, to_binary, circom_shift_l_impl, circom_shift_r_impl, validate_hint, BuiltinHintIds::from_usize}",
     "all values of the BN254 scalar field (as a 254-bit integer) and of GF(2^31-1) for bitwise operations, shifts, comparisons, selection; bit decompositions to 3, 4, 8, 31, 33 and 64 bits; division and remainder for 14-bit operands; field quotient and power over GF(31) and GF(2); all 64-bit ids and 32-bit counts for validation. Loops are unrolled completely (unwinding assertions on).",
     "bit decompositions of other widths; hints registered by users; the fields of Expander themselves.", technique=KANI, level="proof",
     assumptions=["Kani 0.68 translates Rust MIR faithfully; ethnum's equality and division by two are replaced by plain equivalents for CBMC", "the plain integer-backed field in ws/kn/src/fields.rs stands for BN254"])
ZKB = ("generated runs of up to 3 kernel calls (kernels of up to 3 arguments, each an input, an output or both, of up to 2 dimensions with at most 4 elements, computing generated programs of up to 4 API calls, hints and memorized functions included), "
       "parallel counts up to 6, powers of two and not, broadcast and per-instance inputs, chains of reshapes and transpositions on every input and on what the host looks at, dimensions of length 1, output-only arguments with and without an old handle, "
       "kernels sharing a variable, data copied by all four ways of copying; fields GF(5) and GF(2^31-1), pack size 2; 5 elements of the data and all hint results symbolic, the others constants")
ZKFILES = ["zkcuda/context.rs", "zkcuda/kernel.rs", "zkcuda/shape.rs", "zkcuda/vec_shaped.rs", "expander_compiler/macros/src/lib.rs"]
prop("C17", "Kernel calls compute what the kernel says, on the shape each argument is given",
     "Whatever is copied to the device, reshaped, transposed and given to kernels, call_kernel returns for every parallel instance what the kernel's program computes on that instance's part of each argument (all of it, if broadcast); it fails only if an instance does not satisfy the kernel's "
     "program or the shapes are among those that no layout in memory can serve, which is never so when every dimension is a power of two; and copying to the host gives back exactly the elements, in the order of the handle's shape, lane by lane. Input arguments have no handle afterwards, outputs have the argument's shape under the parallel count.",
     ["programs", "histories", "inputs"], "every sequence of copies, shape operations and kernel calls, every kernel, all data",
     "The unit tests call a few kernels on constant or counting data; a mix-up of axes, padding, lanes or broadcasts needs particular combinations of shapes, calls and parallel counts and data that tells elements apart.",
     ZKFILES, [("call_kernel evaluates every instance", S + "zkcuda/context.rs"), ("shapes are histories of reshapes and transpositions", S + "zkcuda/shape.rs"), ("nested vectors are flattened and rebuilt", S + "zkcuda/vec_shaped.rs"), ("#[kernel] flattens arguments", "expander_compiler/macros/src/lib.rs")],
     "zkcuda::context::Context::{copy_to_device, copy_to_device_and_pack_simd, copy_simd_to_device, copy_flat_simd_to_device, copy_to_host, copy_to_host_and_unpack_simd, copy_simd_to_host, call_kernel}, zkcuda::shape::*, zkcuda::vec_shaped::*, zkcuda::kernel::compile_with_spec_and_shapes, #[kernel], call_kernel!, and the frontend and compiler below them",
     ZKB + "; four kernels written with #[kernel] (nested arrays, single variables, all mixes of inputs and outputs) on fully symbolic data.", "kernels over more data; real SIMD fields; runs refused for their shapes when a dimension is not a power of two (refusal is taken as documented there).",
     state=[("device memories", "values and the shape requirements gathered so far")])
prop("C18", "The computation graph proves exactly the calls that were made",
     "For every sequence of kernel calls, the compiled graph (also after being written, read back and loaded into a fresh context for the same calls) accepts the device memories the witness solver exports exactly if every call's kernel accepts; the lengths it states are those exported; and no choice of committed memories is accepted "
     "in which some call's outputs are not what its kernel computes from its inputs, as laid out for the shapes used. Compiling the graph of calls that went through never panics or ends in an internal error.",
     ["programs", "histories", "inputs", "fault_sequences"], "every sequence of calls, all data, every choice of committed values",
     "Unit tests prove runs whose data is constant, so a wrong bit order, offset or padding in the proof templates cannot be seen, and no test tries a committed memory the prover made up.",
     ZKFILES + ["zkcuda/proving_system/dummy.rs"], [("compile_computation_graph chooses a layout for every memory and a template for every call", S + "zkcuda/context.rs"), ("get_shape_vec, merge of axes", S + "zkcuda/shape.rs"), ("kernels are compiled once and cached", S + "zkcuda/context.rs")],
     "Context::{compile_computation_graph, load_computation_graph, solve_witness, export_device_memories}, ComputationGraph::{serialize_into, deserialize_from}, Kernel compilation, zkcuda::shape::*, DummyProvingSystem::{setup, prove, verify}, layered::Circuit::eval_with_public_inputs_simd",
     ZKB + "; with a dishonest prover, 2 to 6 symbolic elements of the committed memories.", "the Expander proving system (its crates are not in the sandbox); memories in which more elements are made up at once.",
     state=[("proof templates", "kernel, commitments, bit orders, broadcast flags, parallel count")], assumptions=TRUST + ["where a memory's elements are laid out is read off a run of kernels of the same shapes that number their outputs"])
GTECH = ("symbolic execution of the real gadget code on symbolic bits (and/xor graph), equivalence with the specification decided by z3: internal equalities by SAT sweeping, outputs and constraints by queries; counterexamples replayed with the debug builder")
GTRUST = ["the operations of the API mean what the documentation says (that they do after compilation is C01, C02, C11 and C12)", TRUST[0], "the specification in ws/chk/src (checked against the standard's examples)"]
G = "circuit-std-rs/src/"
prop("C19", "The SHA-256 gadgets compute SHA-256",
     "For every message, the GF(2) gadget (any bit length, however it is cut into updates) and the M31 gadgets (bytes or bits, any length, one or several messages with a common prefix) output the SHA-256 digest of FIPS 180-4 and impose no condition "
     "that an honest message could fail; inputs that are not bytes are rejected; the checking variants accept exactly the right digest. The word operations and limb helpers they are made of compute what their names say for every operand.",
     ["inputs"], "every message of the lengths listed, every word, every claimed digest, every input value below 2^30",
     "The tests hash a few constant messages; a carry or an overflow bit that is needed once in a million messages, a padding length that is never tried (messages of 448 to 511 bits made it panic), or a digest byte that is not compared stays unseen.",
     [G + "sha256/gf2.rs", G + "sha256/gf2_utils.rs", G + "sha256/m31.rs", G + "sha256/m31_utils.rs"],
     [("padding and chunking", G + "sha256/gf2.rs"), ("Brent-Kung and constant adders", G + "sha256/gf2_utils.rs"), ("words as 26 + 6 bits, sums decomposed once", G + "sha256/m31.rs"), ("limb helpers", G + "sha256/m31_utils.rs")],
     "SHA256GF2::{update, finalize, sha256_compress}, gf2_utils::*, sha256_37bytes, sha256_37bytes_compress, sha256_37bytes_256batch_compress, sha256_var_bytes, check_sha256_*, m31_utils::*",
     "GF(2): messages of 0, 1, 447, 448, 511, 512 bits (thorough: 26 lengths up to 1100) and the compression function on every state and block; M31: messages of 0, 1, 37, 55, 56, 63, 64 bytes (thorough: 28 lengths up to 184), batches of 2 (5); every bit of every message symbolic; helpers at the widths and limb counts they are used with.",
     "longer messages; M31 input values of 2^30 and more; the prover's freedom in hints of bit decompositions (C02).",
     state=[("buffered message", "bits passed to update so far"), ("digest state", "eight words, as bits or limbs of 26 and 6 bits")], assumptions=GTRUST, technique=GTECH)
LG = G + "logup.rs"
prop("C20", "Lookups, range proofs, matrix products and selectors accept exactly what they stand for",
     "A lookup (LogUpCircuit, LogUpSingleKeyTable) is accepted for all of the verifier's randomness exactly if, for every row value that occurs, the counts of the table's rows with that value add up (in the field) to the number of queries of it; with the library's own hints every query of an existing row is accepted and no other. "
     "A range proof over n bits (LogUpRangeProofTable, any n and any table width, the width dividing n or not) accepts every value below 2^n with the library's hints and, whatever the prover answers to its hints, no other value. MatMulCircuit accepts exactly if the third matrix is the product of the other two. "
     "The random assignments these circuits provide for themselves have the circuit's shape and are accepted. simple_select and simple_lookup2 return the value their selectors name.",
     ["inputs", "fault_sequences"], "every table, query, count, value and matrix; every answer of the prover to a hint; all randomness of the verifier (as an identity in it)",
     "The tests prove honest lookups of random rows and a few range proofs of values that are in range; a value just outside, a negative one (p - 1 was accepted), a row counted twice or a column left out of the combination is never tried.",
     [LG, G + "matmul.rs", G + "utils.rs", G + "traits.rs"],
     [("sums of fractions compared at a random point", LG), ("values cut into chunks looked up in a table", LG), ("products compared after multiplication with powers of a random value", G + "matmul.rs")],
     "LogUpCircuit, LogUpSingleKeyTable::{new_table, add_table_row, query, batch_query, final_check, final_check_with_query_count}, LogUpRangeProofTable::{initial, rangeproof, rangeproof_onechunk, final_check}, query_count_hint, query_count_by_key_hint, rangeproof_hint, MatMulCircuit, StdCircuit::{new_circuit, new_assignment}, simple_select, simple_lookup2, DebugBuilder",
     "tables of up to 3 rows and 2 queries, rows of up to 3 columns, over GF(3), GF(5), GF(7) (M31 where the solver decides it); range proofs of up to 4 bits by tables of 1 to 3 bits over GF(13) and GF(31); matrices up to 2x3 over GF(7), GF(257), M31 and the BN254 scalar field; everything symbolic.",
     "larger tables; the chance of the verifier's randomness being unlucky; fields so small that 2^n or the number of queries exceeds them.",
     state=[("table and queries", "rows and queries collected so far")], assumptions=["a random value of the verifier is unknown to the prover: what has to hold at it has to hold identically"] + TRUST[:1] + ["the meaning of the API's operations (C02, C11, C12)"])
PTECH = ("symbolic execution of the real gadget code on linear combinations of products of inputs and shared subexpressions; z3 decides (linear arithmetic modulo p) which subexpressions are the same and whether outputs and constraints differ from the specification's; counterexamples replayed with the debug builder")
prop("C21", "The Poseidon gadget computes Poseidon over Mersenne 31",
     "For every state, PoseidonM31Params::permute computes the permutation its parameters name (round constants from the Keccak chain, circulant matrix, x^5 on all elements in full and on the first in partial rounds), and for every input of any length hash_to_state and hash_to_state_flatten compute the sponge: "
     "zero-padded chunks added to the last `rate` elements, one permutation each; no condition is imposed on the inputs, and no answer of the prover to the copying hint changes the result.",
     ["inputs", "configurations", "fault_sequences"], "every state and input, the shapes and lengths listed, every answer of the prover to a hint",
     "The tests hash two constant inputs of 8 and 16 elements; other lengths, widths and numbers of rounds, and a prover that copies wrongly, are not tried.",
     [G + "poseidon/poseidon_m31.rs", G + "poseidon/utils.rs"],
     [("rounds", G + "poseidon/poseidon_m31.rs"), ("constants and matrix", G + "poseidon/utils.rs")],
     "PoseidonM31Params::{new, permute, hash_to_state, hash_to_state_flatten}, get_constants, get_mds_matrix",
     "nine shapes of widths 8, 12 and 16 with 2 to 8 full and 0 to 22 partial rounds, inputs of 1 to 2*rate+1 elements (thorough: every length up to 4*rate+1); all inputs and hints symbolic over GF(2^31-1).",
     "odd numbers of full rounds; PoseidonParams over u32 (see not_applicable); other fields.",
     state=[("sponge state", "`width` elements")], assumptions=GTRUST, technique=PTECH)
prop("C22", "A computation graph read from shared memory is the graph that was written",
     "For every computation graph without custom gates (any kernels, circuits, coefficients, commitment lengths and proof templates), writing it to shared memory takes exactly the bytes announced, several graphs can follow each other, and what another process reads "
     "is the same graph (hint solvers, which are documented as left out, aside): its kernels compute the same outputs and verdicts, and it accepts the same committed memories. A reader that gives up control leaves the memory alone.",
     ["programs", "inputs", "histories"], "every graph, every coefficient, input and committed value",
     "The one test needs MPI and compares a single Keccak graph, with one kernel, trivial templates and no random or public coefficients.",
     ["zkcuda/mpi_mem_share.rs", "zkcuda/context.rs", "zkcuda/kernel.rs"],
     [("bytes_size, to_memory and new_from_memory are written by hand for every structure, field by field", S + "zkcuda/mpi_mem_share.rs")],
     "MPISharedMemory::{bytes_size, to_memory, new_from_memory, discard_control_of_shared_mem} of ComputationGraph, Kernel, ProofTemplate, layered Circuit and Segment; ComputationGraph compilation, layered::Circuit::{eval_with_public_inputs, eval_with_public_inputs_simd}",
     "up to 3 layered circuits of up to 3 layers of up to 4 wires with nested segments, up to 6 coefficients symbolic, all inputs and public inputs symbolic, up to 4 templates of any shape; graphs compiled from " + ZKB + ", 1 to 4 symbolic elements of the committed memories.",
     "custom gates (documented as unsupported there, asserted); Expander's own MPISharedMemory implementations for numbers and vectors, for which the stand-in has the same in-place reading.",
     state=[("the memory", "the bytes written, the position after each object")], assumptions=TRUST + ["vectors read from shared memory borrow it, as in Expander; the stand-in aligns to 16 bytes"])
prop("C23", "Arithmetic on 2048-bit numbers over BN254 is the arithmetic of the integers",
     "For all 2048-bit numbers in limbs of 120 bits: the comparisons return exactly whether the integers are less, equal, or greater or equal; mul_without_mod_reduction and accumulate_u120 return the digits of the integer product and sum; "
     "assert_add accepts exactly when x + y = result + carry * modulus with a carry of 0 or 1 and result < modulus, and assert_mul exactly when x * y = result + carry * modulus; byte_decomposition returns the bytes. "
     "No well-formed operands make them panic or reject. (The range proofs of the limbs are documented as not implemented, so this is for honestly computed hints.)",
     ["inputs", "configurations"], "every pair of 2048-bit numbers, every claimed result, carry and modulus",
     "The tests try a few random and hand-written numbers, mostly valid ones; the carries that matter have probability 2^-120, and no test gives assert_mul a result that is wrong above the lowest limbs.",
     [G + "non_native/u2048.rs", G + "non_native/u120.rs", G + "non_native/util.rs"],
     [("carries between limbs", G + "non_native/u120.rs"), ("schoolbook multiplication, limb-wise comparison of the two sides", G + "non_native/u2048.rs")],
     "U2048Variable::{assert_is_less_than, assert_is_greater_eq, assert_is_equal, unconstrained_greater_eq, assert_add, assert_mul, mul_without_mod_reduction}, accumulate_u120, add_u120, mul_u120, is_less_than_u120, byte_decomposition",
     "all 18 limbs of every operand symbolic integers (limbs below 2^120, the highest below 2^8), sums of 2 to 40 values of 120 and 200 bits; families with one constant factor as well, whose counterexamples are exact.",
     "limbs out of range; provers that answer hints dishonestly (the range proofs that would stop them are documented no-ops).",
     state=[("carries", "what each limb hands to the next")],
     assumptions=["stand-ins for BN254's field and the hint functions' meaning on representatives (C13 decides the hints themselves)",
                  "products of two unknown limbs are bounded unknowns shared by both sides; a counterexample that uses them counts only if it replays"],
     technique="execution of the real circuit code on linear forms over bounded integer variables; z3 (linear integer arithmetic) shows that no value wraps around the field modulus where it must not and that the outputs, or the constraints, are equivalent to the integer statement; counterexamples replayed in the debug builder")
NOTES = ""
