#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props_src.py)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


prop("S01", "STARK completeness: an honest proof of a valid trace always verifies",
     "For every PIL program and STARK parameter set that setup accepts, and for every execution trace that satisfies all of "
     "the program's polynomial identities, lookups, permutations, connections and public-input constraints, proving succeeds and verification of the "
     "resulting proof, under every supported commitment hash (Goldilocks, BN254, BLS12-381), accepts it. "
     "The public values carried in the proof are exactly the values the program's public declarations select from the trace.",
     ["inputs", "programs", "configurations"],
     "all programs (plain, intermediate-degree, shifted/primed, plookup, permutation, connection, publics), all satisfying traces, all step lists/query counts, all three hash backends, 1..n worker threads",
     "The repository's tests prove one or two fixed Fibonacci/plookup/permutation traces with one parameter file each; nothing samples other traces, programs, FRI step lists, query counts or thread counts.",
     ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/stark_setup.rs", "starky/src/fri.rs",
      "starky/src/starkinfo.rs", "starky/src/starkinfo_Z.rs", "starky/src/starkinfo_codegen.rs", "starky/src/starkinfo_cp_prover.rs",
      "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_prover.rs", "starky/src/starkinfo_map.rs", "starky/src/interpreter.rs"],
     [("StarkProof::stark_gen commits stage by stage and builds the FRI polynomial", "starky/src/stark_gen.rs"),
      ("stark_verify recomputes the constraint evaluation and the FRI queries", "starky/src/stark_verify.rs")],
     ["starky::stark_gen::StarkProof::stark_gen", "starky::stark_verify::stark_verify"])

prop("S02", "STARK soundness: a trace that breaks any constraint is never accepted",
     "If the execution trace (or the public values) violates at least one polynomial identity, lookup, permutation, connection or public constraint of the program in at least one row, then "
     "the proof the prover produces from it (when it produces one) is rejected by verification. "
     "This holds whichever constraint, row and column is violated and for every supported commitment hash.",
     ["inputs", "programs", "configurations"],
     "all programs, all violating traces (any single or multiple cell corruption), all hash backends",
     "No existing test proves an invalid trace: the tests only exercise acceptance.",
     ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs",
      "starky/src/starkinfo_Z.rs", "starky/src/starkinfo_codegen.rs", "starky/src/fri.rs", "starky/src/interpreter.rs"],
     [("constraint polynomial divided by the vanishing polynomial, low-degree test", "starky/src/stark_gen.rs, starky/src/fri.rs"),
      ("lookup/permutation/connection grand products (h1/h2/z)", "starky/src/starkinfo_Z.rs, starky/src/stark_gen.rs")],
     ["starky::stark_verify::stark_verify"])

prop("S03", "STARK proofs are not malleable: any altered proof component is rejected",
     "Take a proof that verifies. Changing any single part of what it carries - a commitment root, an out-of-domain evaluation, a public value, a FRI folded value, a FRI query leaf, a Merkle path node, "
     "a final-polynomial coefficient - to a different value, or verifying it against a different constant-polynomial root, makes verification reject (an error or a negative answer, never acceptance). "
     "Every challenge the verifier draws depends on all that the proof fixed before it: changing a public value, a root, an evaluation or a final value changes the next challenge or the query positions drawn.",
     ["inputs", "fault_sequences", "configurations"],
     "all proofs of all programs, all components and positions, all different values, all hash backends",
     "No existing test modifies a proof and checks for rejection.",
     ["starky/src/stark_verify.rs", "starky/src/fri.rs", "starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs",
      "starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
     [("Fiat-Shamir absorption of every root/evaluation/public, FRI consistency, Merkle openings", "starky/src/stark_verify.rs, starky/src/fri.rs")],
     ["starky::stark_verify::stark_verify"])

prop("S04", "Setup, commitments and proofs do not depend on thread schedule or concurrency",
     "Running setup and proving the same program, trace and parameters yields bit-identical constant roots and bit-identical proofs whatever the number of worker threads (including a single one), the scheduling, or other proofs being generated concurrently in the same process. "
     "Polynomial transforms, Merkle trees and batch inversions likewise return identical results under every thread count.",
     ["schedules", "configurations", "inputs"],
     "all thread-pool sizes, schedules, concurrent callers, inputs",
     "Tests run each computation once, at whatever thread count the machine has, and never compare two schedules.",
     ["starky/src/stark_gen.rs", "starky/src/stark_setup.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/merklehash.rs",
      "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/helper.rs", "starky/src/constant.rs"],
     [("work is cut into chunks by worker count and run on the rayon pool", "starky/src/fft_p.rs, starky/src/stark_gen.rs, starky/src/merklehash*.rs"),
      ("get_max_workers", "starky/src/constant.rs")],
     ["starky::stark_gen::StarkProof::stark_gen", "starky::fft_p"])

prop("S05", "FRI accepts exactly polynomials of the promised degree and honest openings",
     "For every domain size, folding-step list and query count, a FRI proof generated from a polynomial whose degree is below the claimed bound verifies and yields query positions that match the committed values; "
     "a proof generated for an evaluation vector that is not (close to) a polynomial of that degree, or a proof with any altered root, folded value, path or final value, is rejected.",
     ["inputs", "configurations", "fault_sequences"],
     "all polynomials, step lists, query counts, hash backends; all single-component corruptions",
     "There is no stand-alone FRI test; it is only exercised inside the fixed end-to-end examples.",
     ["starky/src/fri.rs", "starky/src/polutils.rs", "starky/src/fft.rs"],
     [("FRI::prove / FRI::verify fold, commit, and check", "starky/src/fri.rs")],
     ["starky::fri"], hook="fri module is private: exposed under the guard")

prop("F01", "Goldilocks arithmetic is exactly arithmetic modulo 2^64-2^32+1",
     "For all field elements, addition, subtraction, negation, multiplication, doubling, squaring, division and inversion by non-zero elements, exponentiation, square root and Legendre symbol agree with integer arithmetic modulo p = 2^64 - 2^32 + 1, "
     "including at boundary values. Every result is held in canonical form, so equality, ordering, hashing, formatting and conversion to and from integers, decimal strings and raw representations are consistent, and integers or raw representations >= p are refused rather than silently aliased (decimal strings are reduced modulo p).",
     ["inputs"],
     "all operand pairs of the field, all operation sequences, all u64 inputs to conversions",
     "Unit tests check a handful of constants and self-consistency (a+a = 2a) at random points; carries near 2^64, 2^32 and p occur with probability ~2^-32.",
     ["fields/src/field_gl.rs"],
     [("Montgomery reduction, add/sub with carry fold-back", "fields/src/field_gl.rs")],
     ["fields::field_gl::Fr", "fields::field_gl::FrRepr"])

prop("F02", "SIMD-packed field arithmetic and hashing equal the scalar implementation",
     "In builds that use the AVX2 or AVX-512 packed Goldilocks types, every lane of every packed operation (add, sub, neg, mul, square, scalar mixes, interleave, reductions, packing of slices) equals the scalar field operation on that lane. "
     "Packed Poseidon and the linear hashes and Merkle trees built on it give the same digests as the portable build.",
     ["inputs", "configurations"],
     "all lane values (including non-random boundary values), all build configurations of the CPU feature set",
     "The SIMD modules are compiled only with target features that the default test build does not enable, and their unit tests use two fixed vectors.",
     ["fields/src/arch/x86_64/avx2_field_gl.rs", "fields/src/arch/x86_64/avx512_field_gl.rs", "fields/src/packed.rs", "fields/src/packable.rs",
      "starky/src/arch/x86_64/avx2_poseidon_gl.rs", "starky/src/arch/x86_64/avx512_poseidon_gl.rs", "starky/src/linearhash.rs", "starky/src/merklehash.rs"],
     [("vectorised carry/borrow handling and canonicalisation", "fields/src/arch/x86_64/*.rs"),
      ("vectorised Poseidon rounds", "starky/src/arch/x86_64/*.rs")],
     ["fields::arch::x86_64", "starky::arch::x86_64"])

prop("F03", "Extension-field elements obey the laws of the degree-3 and degree-5 fields",
     "For all elements of the cubic and quintic extensions of Goldilocks, and mixes of base and extension elements, addition, subtraction, multiplication, division, negation, squaring, exponentiation, inversion of non-zero elements, batch inversion of non-zero vectors and scalar multiplication equal polynomial arithmetic modulo the extension's irreducible polynomial. "
     "A base-field element embedded in the extension behaves identically to its base value (equality, operations, conversion), a result is held as a base-field element exactly when all operands are, and the ordering predicates of an extension form a strict total order consistent with equality.",
     ["inputs"],
     "all operands, all dimension mixes (base with base, base with extension, extension with extension)",
     "Unit tests use a few hard-coded triples/quintuples; mixed-dimension branches and boundary coefficients are not covered.",
     ["starky/src/f3g.rs", "starky/src/f5g.rs", "starky/src/traits.rs"],
     [("dimension-dispatching operator implementations", "starky/src/f3g.rs, starky/src/f5g.rs")],
     ["starky::f3g::F3G", "starky::f5g::F5G"])

prop("F04", "Polynomial transforms equal the DFT over the multiplicative subgroup",
     "For every power-of-two size from 2 up and every input vector, the sequential and the parallel FFT compute the evaluations of the polynomial over the subgroup in natural order, the inverse transform recovers the coefficients exactly, "
     "and the low-degree extension of multi-column matrices equals evaluating each column's interpolating polynomial on the shifted larger domain; results are independent of column count and worker count. "
     "Polynomial helper operations (evaluation, coset shift and extension, bit reversal, transposition) agree with their algebraic definitions.",
     ["inputs", "configurations"],
     "all sizes, column counts, blow-up factors, inputs, worker counts",
     "Tests check one or two sizes for self-consistency (ifft(fft(x)) = x), which a wrong but invertible transform also satisfies.",
     ["starky/src/fft.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/polutils.rs", "starky/src/helper.rs", "starky/src/constant.rs"],
     [("butterfly stages and bit-reversal, cut in blocks across workers", "starky/src/fft_p.rs, starky/src/fft_worker.rs")],
     ["starky::fft::FFT", "starky::fft_p::{fft,ifft,interpolate}", "starky::polutils"])

prop("H01", "Goldilocks Poseidon and linear hashes compute the specified function",
     "For every state, the optimised Goldilocks Poseidon permutation equals the textbook Poseidon permutation (full/partial rounds with the plain MDS matrix and round constants), with the published test vectors. "
     "The linear hash of a row of field elements equals the specified sponge over that permutation for every input length, the same in its single-row and its matrix/batched forms, and two rows of one length that differ in any element or in order have different digests.",
     ["inputs", "configurations"],
     "all states, all row lengths, all batch sizes",
     "Tests contain three fixed vectors, each of one length.",
     ["starky/src/poseidon_opt.rs", "starky/src/poseidon_constants_opt.rs", "starky/src/linearhash.rs"],
     [("optimised sparse-matrix partial rounds", "starky/src/poseidon_opt.rs"), ("absorb blocks of 8 with capacity 4", "starky/src/linearhash.rs")],
     ["starky::poseidon_opt::Poseidon", "starky::linearhash::LinearHash"])

prop("H02", "BN254/BLS12-381 Poseidon equals the reference permutation for every arity",
     "For every supported arity and every input, the optimised Poseidon over BN254 and over BLS12-381 (with any number of outputs and any initial state) equals the textbook permutation with the plain round constants and MDS matrix; "
     "unsupported arities are refused with an error. "
     "Linear hashing of Goldilocks rows into these fields packs elements injectively and gives the same digest in its row and matrix forms.",
     ["inputs", "configurations"],
     "all arities 1..16, all inputs, all output counts, all row widths and batch sizes",
     "Tests use three to five fixed vectors at two or three arities; the constants files (≈25,000 lines each) for the other arities are never exercised.",
     ["starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381_opt.rs", "starky/src/poseidon_bn128.rs", "starky/src/poseidon_bls12381.rs",
      "starky/src/poseidon_bn128_constants.rs", "starky/src/poseidon_bn128_constants_opt.rs", "starky/src/poseidon_bls12381_constants.rs", "starky/src/poseidon_bls12381_constants_opt.rs",
      "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs", "starky/src/field_bn128.rs", "starky/src/field_bls12381.rs"],
     [("optimised rounds with sparse matrices S, P and constants C", "starky/src/poseidon_bn128_opt.rs, starky/src/poseidon_bls12381_opt.rs")],
     ["starky::poseidon_bn128_opt::Poseidon", "starky::poseidon_bls12381_opt::Poseidon"])

prop("M01", "Merkle commitments are complete and deterministic in every backend",
     "For every matrix width and height, in each of the three Merkle tree backends, committing succeeds, the root is the tree hash of the row hashes (independent of worker count and batching), every element read back equals the committed matrix, and the opening of every row verifies against the root with exactly the committed row.",
     ["inputs", "configurations", "schedules"],
     "all widths and heights (including non-powers of two and of the tree arity), all contents, all opened indices, all backends",
     "Tests build trees of two or three shapes and open one or two indices.",
     ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/linearhash.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs", "starky/src/digest.rs"],
     [("merkelize / get_group_proof / verify_group_proof", "starky/src/merklehash*.rs")],
     ["starky::traits::MerkleTree"])

prop("M02", "Merkle openings are binding: altered leaf, index, path or root is rejected",
     "In each Merkle tree backend, an opening that verifies for a given root, index and row stops verifying (an error or false) when any element of the row (of the committed width), the index (to a different committed row), any node of the path, the path length, or the root is changed to a different value.",
     ["inputs", "fault_sequences"],
     "all trees, all openings, all single-component alterations",
     "Tests only check that honest openings verify; none presents an altered opening.",
     ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
     [("root recomputation from leaf, index and siblings", "starky/src/merklehash*.rs: verify_group_proof")],
     ["starky::traits::MerkleTree::verify_group_proof"])

prop("T01", "Fiat-Shamir transcripts are faithful sponges, binding everything absorbed",
     "In each of the three transcript backends, challenges are a deterministic function of exactly the sequence of values absorbed and challenges drawn before: equal histories give equal challenges, and changing, dropping, adding or reordering any absorbed value changes every later challenge (a partial block is padded with zeros, so only zeros absorbed at the end of a block are invisible). "
     "Drawn field elements are canonical, consecutive draws use fresh sponge output, absorbing after a draw discards unread output, and sampled query positions lie in range and are the successive bits of the sponge output.",
     ["histories", "inputs"],
     "all interleavings of absorb, field draws, element draws and position draws",
     "Tests replay one or two fixed absorb/draw sequences.",
     ["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
     [("pending/out buffers over the Poseidon permutation", "starky/src/transcript*.rs")],
     ["starky::traits::Transcript"])

prop("D01", "Field elements and digests survive every conversion and serialization",
     "For every canonical value, converting a field element (base or extension) or a hash digest to its textual, JSON, scalar, byte or other-field representation and back yields an equal value, distinct values have distinct representations, and the mapping between a digest and a BN254/BLS12-381 scalar is the fixed 256-bit little-endian-limb mapping.",
     ["inputs"],
     "all elements, all digests of valid provenance, all supported representations",
     "Tests round-trip two or three constants.",
     ["starky/src/digest.rs", "starky/src/serializer.rs", "starky/src/f3g.rs", "starky/src/f5g.rs", "starky/src/helper.rs", "starky/src/field_bn128.rs", "starky/src/field_bls12381.rs", "fields/src/field_gl.rs"],
     [("ElementDigest::{from_scalar,as_scalar}, Serialize/Deserialize impls, biguint conversions", "starky/src/digest.rs, starky/src/serializer.rs, starky/src/helper.rs")],
     ["starky::ElementDigest", "serde_json round trips"])

prop("D02", "A serialized STARK proof deserializes to an equivalent proof",
     "For every proof the prover generates, in every hash backend, writing it as JSON and reading it back gives a proof with identical contents that verifies exactly like the original, and the JSON carries every field the recursive verifier circuits need (roots, evaluations, FRI steps, openings, paths, final polynomial, publics) in decimal form.",
     ["inputs", "configurations", "programs"],
     "all generated proofs, all parameter sets and backends",
     "One fixed proof is round-tripped.",
     ["starky/src/serializer.rs", "starky/src/stark_gen.rs"],
     [("Serialize/Deserialize for StarkProof", "starky/src/serializer.rs")],
     ["serde_json round trip of StarkProof"])

prop("D03", "A stored program or proving setup means what it meant when it was stored",
     "Reading a PIL program or a STARK parameter document gives exactly what the document says: every polynomial reference, expression, identity, selector, public and number (decimal, negative or hexadecimal, taken modulo the Goldilocks prime), absent optional members being the same as null ones; writing it again gives an equivalent document. A whole proving setup (constant tree, constant root, STARK information, compiled program) written as JSON and read back, in every hash backend, has the same contents, opens the constant tree alike, makes the same proofs and reaches the same verdicts as the original. Documents that are truncated, followed by other text, or lack or mistype a required member are refused, as is a file that does not exist.",
     ["inputs", "programs", "configurations"],
     "all program and parameter documents, all setups and backends",
     "One setup and a few fixed files are read; nothing compares what was read with what was written.",
     ["starky/src/types.rs", "starky/src/stark_setup.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_codegen.rs", "starky/src/merklehash.rs"],
     [("PIL, StarkStruct, load_json, read_json, parse_pil_number", "starky/src/types.rs"), ("StarkSetup, StarkInfo, Program", "starky/src/stark_setup.rs, starky/src/starkinfo.rs, starky/src/starkinfo_codegen.rs")],
     ["starky::types::load_json", "serde_json round trip of StarkSetup"])

prop("P01", "Polynomial trace files round-trip and malformed files are refused",
     "Any constant or committed polynomial set saved to disk and loaded again has every column, every row and every name binding identical, independent of column count, row count and buffer boundaries; columns are addressable by namespace, name and array index exactly as the program declares them. "
     "A truncated trace file is reported as an error or panic - it is never loaded as a complete trace and never makes the loader run forever.",
     ["inputs", "fault_sequences", "programs"],
     "all declarations (scalars, arrays, several names per namespace), all sizes, all truncation points",
     "Tests load shipped files only; no save/load round trip or truncated file is tested.",
     ["starky/src/polsarray.rs"],
     [("PolsArray::{new,load,save,set_pol,get_pol}", "starky/src/polsarray.rs")],
     ["starky::polsarray::PolsArray"])

prop("R01", "R1CS files are decoded faithfully and malformed ones are refused",
     "Decoding a well-formed binary R1CS file, whatever the order of its sections and whatever extra sections it contains, yields exactly the constraints, wire counts, wire map and custom-gate data it encodes, in file order; "
     "a file with a wrong magic number, unsupported version, wrong field, a constant wire that is not wire 0, a header or wire-map section of another length than the counts give, or that ends early is rejected with an error instead of returning a circuit, hanging or exhausting memory.",
     ["inputs", "fault_sequences"],
     "all constraint systems, section orders, custom-gate lists; all truncation points and header corruptions",
     "One hand-written file with a fixed section order is decoded; no malformed file is tried.",
     ["algebraic/src/r1cs_file.rs", "algebraic-gpu/src/r1cs_file.rs", "algebraic/src/reader.rs", "algebraic-gpu/src/reader.rs"],
     [("section scan and typed section readers", "algebraic*/src/r1cs_file.rs")],
     ["from_reader / load_r1cs"])

prop("R02", "Witness files round-trip; witnesses computed for a circuit satisfy it",
     "A witness written to the binary witness format and read back is identical element for element; a malformed or truncated witness file is refused with an error, never silently shortened or altered. "
     "The witness calculator run on valid inputs returns an assignment that satisfies every constraint of its circuit, deterministic across runs, with inputs interpreted as the given decimal, boolean and (nested) array values.",
     ["inputs", "fault_sequences"],
     "all witness vectors, all truncation points and corruptions, all circuit inputs",
     "Tests read one shipped file and compute one witness.",
     ["algebraic/src/reader.rs", "algebraic-gpu/src/reader.rs", "algebraic/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/circom.rs", "algebraic-gpu/src/witness/memory.rs"],
     [("load_witness_from_bin_reader, save_witness_to_bin_file", "algebraic*/src/reader.rs, witness_calculator.rs")],
     ["WitnessCalculator::{calculate_witness, save_witness_to_bin_file}", "load_witness_*"])

prop("R03", "Circuit synthesis is satisfied exactly by satisfying R1CS assignments",
     "For every R1CS and every assignment, the constraint system synthesised for the SNARK back end has the same constraints (those of the form 0 * B = 0 may be left out), exposes exactly the circuit's public signals in order as inputs, and is satisfied if and only if the assignment satisfies every R1CS constraint; the reported public inputs equal the public wires of the witness.",
     ["inputs", "programs"],
     "all constraint systems, all assignments (satisfying and violating), with and without a wire map",
     "Tests synthesise one circuit with a satisfying witness.",
     ["algebraic/src/circom_circuit.rs", "algebraic-gpu/src/circom_circuit.rs"],
     [("CircomCircuit::synthesize, get_public_inputs", "algebraic*/src/circom_circuit.rs")],
     ["bellperson TestConstraintSystem / recording ConstraintSystem"])

prop("R04", "Inputs a circuit does not accept give an error, never a witness",
     "Running the witness calculator on inputs that fail one of the circuit's own assertions, that leave out an input or some of its values, give it too many values, or hold a value too wide for the field's words ends with an error and never returns a witness; names that are not inputs of the circuit are ignored; "
     "and whatever an earlier run on the same calculator ended with, a later run on valid inputs returns exactly the witness of those inputs.",
     ["inputs", "histories"],
     "all circuits with the circom 2 runtime interface, all inputs, all sequences of accepted and refused runs on one calculator",
     "Tests compute witnesses of valid inputs only, once per calculator.",
     ["algebraic/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/witness_calculator.rs", "algebraic/src/witness/circom.rs", "algebraic-gpu/src/witness/circom.rs"],
     [("calculate_witness_circom, runtime::exception_handler", "algebraic*/src/witness/witness_calculator.rs")],
     ["WitnessCalculator::{calculate_witness, calculate_witness_bin}"])

prop("C01", "R1CS-to-PLONK conversion preserves satisfiability",
     "For every R1CS over the STARK field, with or without custom gates, the produced PLONK constraints together with the additions are satisfiable by an extension of an assignment if and only if the assignment satisfies the R1CS: every satisfying witness extends (by the listed additions) to values satisfying every PLONK constraint, and every violating witness violates at least one.",
     ["inputs", "programs"],
     "all R1CS shapes (constants on any side, linear, quadratic, empty sides, repeated wires), all assignments",
     "The conversion is not unit-tested at all in the default build.",
     ["recursion/src/r1cs2plonk.rs"],
     [("process / reduce_coefs / add_constraint", "recursion/src/r1cs2plonk.rs")],
     ["recursion::r1cs2plonk::r1cs2plonk"])

prop("C02", "The recursion arithmetization accepts exactly valid verifier witnesses",
     "For every R1CS with custom gates, the PIL program, constant polynomials and execution table generated for the recursion step are such that the committed trace computed from a witness satisfies every identity and copy constraint of the PIL if and only if the witness satisfies the R1CS and its custom gates, and the PIL's public outputs equal the witness's public signals.",
     ["inputs", "programs"],
     "all R1CS with any mix of generic, Poseidon, extended-multiply-add, FFT4 and polynomial-evaluation gates; all witnesses",
     "Only string rendering of the PIL template for two sizes is tested.",
     ["recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_exec.rs",
      "recursion/src/compressor12/plonk_setup.rs", "recursion/src/compressor12/constants.rs", "recursion/src/r1cs2plonk.rs"],
     [("gate packing into 12 columns, constant selectors, sigma polynomials, execution map", "recursion/src/compressor12/*.rs")],
     ["recursion::compressor12"])

prop("C03", "Recursion execution tables round-trip exactly",
     "Writing a recursion execution table (additions and signal map) and reading it back yields identical additions and identical signal map for every table size and content, and a truncated file is refused rather than silently completed.",
     ["inputs", "fault_sequences"],
     "all numbers of additions and signal-map shapes, all values, all truncation points",
     "One small fixed table is round-tripped at most.",
     ["recursion/src/io_utils.rs", "recursion/src/compressor12/compressor12_exec.rs", "recursion/src/compressor12/compressor12_setup.rs"],
     [("write_vec_to_file/read_vec_from_file and the header layout", "recursion/src/io_utils.rs, compressor12_exec.rs")],
     ["recursion::io_utils", "recursion::compressor12::compressor12_exec"])

prop("C04", "Joining two recursive inputs keeps each proof's data intact",
     "Joining two recursive-verifier inputs produces one input in which the first proof's fields and the second proof's fields appear complete, unmodified and under disjoint names, with the public inputs and the verification-key root the aggregation circuit expects.",
     ["inputs"],
     "all pairs of inputs",
     "Not tested in the repository.",
     ["starky/src/zkin_join.rs"],
     [("join_zkin", "starky/src/zkin_join.rs")],
     ["starky::zkin_join::join_zkin"])

prop("C05", "Programs exported for proving mean what their source says",
     "Exporting an analysed PIL program (from a string, a file or the analyser's output) yields a program for the prover that declares every committed, constant and intermediate polynomial and array of the source under its name with its type, position and length, selects the same public values, and holds the same identities, lookups, permutations and connections in source order, each expression of which has, on every trace and every row, the value of the source's expression; every expression of a degree the prover cannot take as it is, and no other, is marked as a quotient; the exported program survives its JSON form unchanged.",
     ["inputs", "programs"],
     "all analysed programs (challenges and powers excepted), all traces",
     "One PIL file is compiled in a test and nothing is compared.",
     ["recursion/src/pilcom.rs", "recursion/src/pilcom/export.rs", "recursion/src/pilcom/expression_counter.rs", "starky/src/types.rs"],
     [("export, expression ids, degrees and quotients, references", "recursion/src/pilcom/export.rs"), ("numbering of intermediates", "recursion/src/pilcom/expression_counter.rs")],
     ["recursion::pilcom"])

prop("V01", "Generated recursive-verifier circuits decide like the native verifier",
     "For every program and parameter set, the circom verifier generated for it, evaluated on the generated input of a proof, satisfies all its constraints if and only if the native verifier accepts the proof (the opening of a tree without columns, which commits to nothing, is no input of the circuit).",
     ["inputs", "programs", "configurations"],
     "all programs, parameter sets, honest and altered proofs",
     "Generated circom text is only compared with nothing; circom is not run in tests.",
     ["starky/src/pil2circom.rs", "starky/src/stark_verifier_circom.rs", "starky/src/stark_verifier_circom_onchain.rs", "stark-circuits"],
     [("pil2circom", "starky/src/pil2circom.rs")],
     ["generated circom text"])

prop("E01", "What the prove command writes belongs together and stands on its own",
     "For every program, trace, hash and combination of stage flags, when the prove command succeeds, the proof input it wrote, read back, is accepted by the verifier under the root of the constants in the file, carries the publics of the trace and the given prover address, and satisfies the circuit it wrote, which is the circuit of that program, that root and those flags, whatever the output files held before; "
     "on files whose trace does not satisfy the program, or which are not whole, it fails and leaves no proof that is accepted.",
     ["inputs", "programs", "configurations", "fault_sequences"],
     "all programs, traces, constants, hashes, flags, prover addresses and earlier contents of the output files",
     "The tests run the command on two or three fixed programs and look at nothing it writes.",
     ["starky/src/prove.rs", "starky/src/pil2circom.rs", "starky/src/serializer.rs", "starky/src/polsarray.rs"],
     [("stark_prove", "starky/src/prove.rs")],
     ["starky::prove::stark_prove"])

prop("V02", "Library circuits compute what the native code computes, and admit only that",
     "The circom templates the generated verifiers are built from (field multiply, multiply-add, inverse and normalisation, FFTs and polynomial evaluation, Merkle hashing and paths, linear hash, bit decomposition and comparison, tree selectors) compute, on every input in their documented range, the value the native code computes for that operation; "
     "and their constraints are satisfied only by that value: no other assignment of a template's outputs and hints, including any non-canonical representation of a number, satisfies them.",
     ["inputs"],
     "all inputs of every template in range; all alternative hints",
     "Circom templates are never executed by the repository's tests.",
     ["stark-circuits/circuits.gl", "stark-circuits/circuits.bn128", "stark-circuits/circuits.bls12381"],
     [("library templates (gl.circom, fft.circom, evalPol.circom, merklehash.circom, linearhash.circom, treeselector.circom, bitify.circom)", "stark-circuits")],
     ["stark-circuits templates"])

prop("G01", "Groth16 proving and verification are complete, sound and portable",
     "For every R1CS circuit and satisfying witness, the proof produced with a generated key pair verifies against its public inputs; verification fails for any other public inputs, for a proof of another statement, for an altered proof that does not satisfy the key's pairing equation, and for another key. "
     "Numbers that are not reduced and points off the curve or outside the prime-order group are refused. "
     "Proofs, verification keys and public inputs survive their JSON and file representations unchanged.",
     ["inputs", "programs", "fault_sequences"],
     "all circuits, witnesses, public-input alterations, proof and key alterations",
     "One circuit and one witness are proved in tests (none in the default build here).",
     ["groth16/src/api.rs", "groth16/src/groth16.rs", "groth16/src/json_utils.rs"],
     [("Groth16::{prove,verify}, serialize/deserialize helpers", "groth16/src/*.rs"),
      ("groth16_setup, groth16_prove, groth16_verify file pipeline", "groth16/src/api.rs")],
     ["groth16 crate API"])

prop("G02", "The generated Solidity verifier decides like the native verifier",
     "For every BN254 verification key with any number of public inputs, the Solidity contract generated for it, executed on a proof and public inputs, returns true exactly when the Groth16 pairing equation of that key holds for them, refuses public inputs that are not below the scalar-field modulus and a wrong number of inputs, and its argument layout is the one the tool writes proofs in.",
     ["inputs", "configurations"],
     "all verification keys, proofs and public inputs",
     "The generated contract is never executed by the repository's tests.",
     ["groth16/src/api.rs", "groth16/src/template.rs"],
     [("generate_verifier", "groth16/src/api.rs"), ("Solidity template", "groth16/src/template.rs")],
     ["generated Solidity text"])

prop("K01", "Groth16 proofs cross the gnark boundary without change of meaning",
     "Converting a BLS12-381 Groth16 verification key, proof and public inputs between the JSON form and the binary form and back preserves every group element and scalar; native verification accepts exactly the proofs that satisfy the pairing equation for the given key and public inputs; "
     "malformed encodings (bad decimal, point not on the curve or not in the subgroup, wrong lengths) are reported as errors rather than accepted or crashing.",
     ["inputs", "fault_sequences"],
     "all keys, proofs and inputs; all malformed encodings",
     "Tests verify the two shipped proofs only.",
     ["recursion-gnark/ffi/src/json_util.rs", "recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/verifier.rs", "recursion-gnark/ffi/src/proof.rs"],
     [("JSON <-> curve point conversion and compressed gnark point encoding", "recursion-gnark/ffi/src/traits.rs, json_util.rs"),
      ("pairing check", "recursion-gnark/ffi/src/verifier.rs")],
     ["recursion_gnark_ffi"])

prop("K02", "Wrapping a BN254 proof proves and hands over exactly what was given",
     "Wrapping a BN254 Groth16 proof (build_groth16 in Rust, BuildGroth16 in Go) has gnark prove over BLS12-381 that the proof given verifies under the key in the file named and the public inputs given (decimal or 0x-hexadecimal), and writes to the output directory the outer proof, its verification key with the pairing of its alpha and beta, and its public inputs, "
     "every group element (the point at infinity too) and scalar unchanged in the JSON form the native verifier reads, in place of whatever these files held, touching no other file. When the inner proof does not verify, something given is missing, truncated or not a number, or a step of gnark fails, it ends with a failure and these files keep what they held.",
     ["inputs", "fault_sequences"],
     "all inner keys, proofs and public inputs; all outer keys and proofs; failures of every step",
     "No test runs the Go half or the Rust binding: the tests read three files it once wrote.",
     ["recursion-gnark/ffi/src/ffi/native.rs", "recursion-gnark/ffi/go/main.go", "recursion-gnark/ffi/go/eigen/build.go", "recursion-gnark/ffi/go/eigen/recursion.go", "recursion-gnark/ffi/go/eigen/utils.go", "recursion-gnark/ffi/go/eigen/type.go"],
     [("BuildGroth16", "recursion-gnark/ffi/go/eigen/build.go"), ("circuit, setup, witness and proof", "recursion-gnark/ffi/go/eigen/recursion.go"),
      ("Convert", "recursion-gnark/ffi/go/eigen/utils.go"), ("build_groth16", "recursion-gnark/ffi/src/ffi/native.rs")],
     ["exit status and output files of a call; what the stand-in for gnark was asked"])

prop("J01", "The shipped trace generators write traces their programs accept",
     "For every input, and every number of rows its program is compiled for, each trace generator of starkjs (Fibonacci, plookup, permutation, connection, Poseidon) saves constant and committed columns that satisfy every identity, lookup, permutation and connection of the PIL program it ships with: the constant columns are the selectors, tables and links the program means, the given input stands in the trace and the computed result is the right one "
     "(the last Fibonacci value, the Poseidon permutation of every state, digests and result flags as given), also in what the generator returns. generate() verifies exactly the trace it saves, against the program compiled or kept from before, and fails when the program does not accept it, when a claimed digest is wrong or when there are more inputs than room.",
     ["inputs", "programs"],
     "all inputs, numbers of inputs, numbers of rows; all altered cells",
     "No test runs the JavaScript half.",
     ["starkjs/src/pil_verifier.js", "starkjs/src/utils.js", "starkjs/fibonacci/fibonacci.js", "starkjs/plookup/plookup.js", "starkjs/permutation/permutation.js", "starkjs/connection/connection.js", "starkjs/poseidon/main_poseidon.js", "starkjs/poseidon/sm_poseidong.js"],
     [("buildConstants and execute of each generator", "starkjs/*/*.js"), ("generate", "starkjs/src/pil_verifier.js")],
     ["files saved and exit status of a node run; execute's return value"])

prop("U01", "The unsafe and parallel core is free of UB, races and out-of-bounds access",
     "No input a caller may legally pass makes the low-level code - byte/element reinterpretation, packed loads and stores, chunked parallel transforms, tree building and constraint evaluation, tables built on first use, trace saving and loading - read or write out of bounds, use uninitialised or misaligned memory, or race between threads.",
     ["inputs", "schedules"],
     "all sizes, all thread counts and interleavings",
     "Plain tests do not observe undefined behaviour or races; no sanitizer runs in the repository.",
     ["starky/src/fft_p.rs", "starky/src/polsarray.rs", "starky/src/digest.rs", "starky/src/f3g.rs", "starky/src/f5g.rs", "fields/src/packed.rs", "fields/src/arch/x86_64/avx2_field_gl.rs", "starky/src/merklehash.rs", "starky/src/stark_gen.rs"],
     [("unsafe blocks and rayon chunking", "starky/src, fields/src")],
     ["Miri, AddressSanitizer, ThreadSanitizer"])

prop("Z01", "The command line does what it is told and its exit status tells the outcome",
     "Every eigen-zkit command (stark_prove, compressor12_setup, compressor12_exec, join_zkin, groth16_setup, groth16_prove, groth16_verify, generate_verifier) performs the operation it is named after on the files its options name (or their documented defaults), with the stage flags, curve, base, size and address given, writes the results of that operation to the named output files in place of whatever they held, changes no other file, and exits with status 0 exactly if the operation succeeded - for groth16_verify, exactly if the proof verifies. Command lines that name no operation, unknown options or too little are refused and change nothing.",
     ["inputs", "configurations", "fault_sequences"],
     "all command lines, file names, honest and altered inputs, missing and unwritable files",
     "The program has no test; the library operations are tested without it.",
     ["zkit/src/main.rs", "starky/src/prove.rs", "groth16/src/api.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_exec.rs", "starky/src/zkin_join.rs"],
     [("options and dispatch", "zkit/src/main.rs"), ("what the commands call", "groth16/src/api.rs")],
     ["eigen-zkit"])

prop("Z02", "Compiling hands the compiler what the user asked for and reports its failures",
     "The compile command has the circom compiler parse exactly the source file named with exactly the library folders named, in order, check its types before building it, build its constraints over the field named (whatever its case; bn128 when left out) with the simplification asked for (none for --O0, reduced for --O1, n rounds for --O2=n, until nothing changes by default), and leaves constraints, symbols and the witness program of that source in <output>/<name>.r1cs, <name>.sym and <name>_js/<name>.wasm, the last being the encoded form of the module the compiler wrote; it exits with status 0 exactly if every step succeeded, and a failing step, or leftovers of earlier runs, never make it pass off anything else as the program.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all option combinations, source and folder names, a failure at any step, any leftovers",
     "The crate has no test.",
     ["dsl_compile/src/lib.rs", "dsl_compile/src/input_user.rs", "dsl_compile/src/execution_user.rs", "dsl_compile/src/compilation_user.rs", "dsl_compile/src/parser_user.rs", "zkit/src/main.rs"],
     [("options to settings, file names", "dsl_compile/src/input_user.rs"), ("constraints and symbols", "dsl_compile/src/execution_user.rs"), ("witness program", "dsl_compile/src/compilation_user.rs")],
     ["dsl_compile::circom_compiler"])

prop("A01", "Circuit DSL compilation preserves the source program's constraints",
     "Compiling a circuit source file yields R1CS, WASM and symbol outputs that describe exactly the constraints and witness computation of the source, and reports an error for an ill-formed source.",
     ["programs"],
     "all circuit sources",
     "No test in the repository.",
     ["dsl_compile/src/lib.rs", "dsl_compile/src/compilation_user.rs"],
     [("wrapper around the circom compiler crates", "dsl_compile/src")])

prop("A02", "zkVM execution proofs cover exactly the executed program and inputs",
     "Proving a guest program in the zkVM yields, for every chunk of the execution, a STARK proof of that program's execution on the given inputs, and chunks chain without gap or overlap.",
     ["programs", "inputs"],
     "all guest programs and inputs",
     "The repository's zkVM tests need network dependencies and a guest toolchain.",
     ["zkvm/src/lib.rs"],
     [("rust_continuations pipeline over powdr", "zkvm/src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
