"""What MANIFEST.json claims."""
HOOK_COMMITS = ["32bd54e", "2ea6173", "cf68d79"]
CLAIMS = {
    "F01": ("runtime monitor: integer-arithmetic oracle over boundary-weighted operand stream",
            "Every operation of the Goldilocks type is executed on millions of operand pairs per run and each result compared with u128 arithmetic mod p; sampled, not exhaustive."),
    "F02": ("runtime monitor: integer oracle over packed AVX2 and AVX-512 operations, two compilations",
            "The packed types are compiled for AVX2 and AVX-512 and every operation, in every lane, compared with integer arithmetic on edge-weighted operands (unreduced inputs included where allowed); packed Poseidon and linear hash compared with a textbook one; sampled."),
    "F03": ("runtime monitor: schoolbook polynomial oracle over extension operand stream",
            "Every operation of both extension types, for base/extension mixes, compared with polynomial arithmetic; trusts the documented irreducible polynomials."),
    "F04": ("runtime monitor: differential against the DFT by definition, over sizes, columns, CPU and thread counts",
            "Every transform's whole output is compared with an independent integer DFT (itself compared with the defining sums); sizes up to 2^17 (quick), sampled data."),
    "H01": ("runtime monitor: textbook Poseidon and sponge as online oracle",
            "Random, edge and round-inverted states and rows of every length up to 200, compared with a plain-MDS Poseidon built from the published constants; sampled."),
    "H02": ("runtime monitor: textbook Poseidon with Grain-LFSR-regenerated parameters as oracle",
            "Every arity of both curves with every output count, compared with parameters generated independently of the repository's tables; inputs sampled."),
    "M01": ("runtime monitor: independent tree hash as oracle over commit/open/verify executions",
            "Roots, openings and element reads of generated matrices (all heights 1..40, block-boundary and chunk-splitting shapes) in the three backends; sampled contents."),
    "M02": ("fault injection on Merkle openings with an acceptance monitor",
            "Honest openings altered in one leaf element, index, path node, path length or root, in the three backends; no alteration may verify; alterations sampled."),
    "T01": ("runtime monitor: reference sponge run in lockstep over generated histories",
            "Absorb/draw histories in the three backends compared draw by draw with a sponge model, plus mutated histories that must diverge; histories sampled."),
    "R01": ("generated R1CS files with decode oracle; truncations and malformed headers run in memory- and time-limited children",
            "Files written by an independent encoder (shuffled and unknown sections, custom gates) decoded by both crates at each field they support; every truncation of generated files; contents sampled."),
    "R02": ("runtime monitor: witness ABI echo circuits and file-format oracle, malformed files in limited children",
            "Real circom WASM modules and hand-assembled echo circuits at 2, 8 and 12 words per element, with witness files checked byte by byte and read back; every truncation of generated files; inputs sampled."),
    "R03": ("recording constraint system compared with direct R1CS evaluation",
            "Satisfying and altered assignments of generated circuits synthesised into a recorder by both crates; each recorded constraint's truth compared with integer evaluation; sampled circuits."),
    "R04": ("runtime monitor: hand-assembled circuits with circom's runtime rules, faulty inputs injected in sequences of runs",
            "Generated circuits that count, refuse and assert the way circom's generated code does, at 2 and 8 words per element, and four circuits circom generated; each calculator taken through sequences of accepted and refused runs; sampled."),
    "D01": ("round-trip and injectivity monitor with independent Montgomery arithmetic",
            "Elements, digests, curve scalars and trees through every representation and back; edge-weighted sampling; known finding for unrepresentable scalars."),
    "C01": ("runtime monitor: converted gates evaluated against the R1CS on satisfying and altered assignments",
            "Generated constraint systems of every linear-combination shape (empty, constant, sparse, wide) converted and both systems evaluated on the same assignments by independent arithmetic; sampled."),
    "C02": ("runtime monitor: committed traces evaluated row by row against the generated PIL",
            "setup and exec run on generated circuits with and without custom gates; each trace's satisfaction compared with the circuit's, single wires and cells altered, copy constraints compared with the signal map; PIL text analysed by a stand-in for powdr."),
    "C03": ("runtime monitor: execution tables decoded independently, exec's committed cells compared with them; truncations injected",
            "Tables written by setup and generated tables of every shape; every cell compared; cut tables must be refused; sampled."),
    "C04": ("runtime monitor: joined inputs compared member by member with their sources",
            "Generated pairs of inputs of every shape joined, and read back by an independent reader; sampled."),
    "C05": ("runtime monitor: every exported expression compared with the source over all rows of random traces",
            "Random analysed programs of every kind of statement are exported and each named expression, public, reference, degree and position compared with an evaluator of the source; sampled; the analyser itself (powdr) is stood in for."),
    "K01": ("runtime monitor: independent JSON and Montgomery-binary encoders, simulated Groth16 instances, malformed encodings",
            "The bridge's own source files run on generated keys, proofs, inputs and points (infinity included), valid and altered instances decided against the pairing equation, and malformed documents and vectors that must be refused; sampled."),
    "K02": ("runtime monitor: the Rust binding and Go code run over a recording stand-in for gnark; fault injection at every step",
            "Generated inner statements, outer keys and proofs: what gnark was asked to prove is compared with what was given, what was written with what gnark returned, read by the native reader and verified natively; bad inputs and failing steps must end in failure and leave the files alone; sampled. gnark itself is stood in for: its circuits and proofs are played, not computed."),
    "J01": ("runtime monitor: the generators run by node over stand-in packages; every identity evaluated on every saved row, columns against independent values",
            "Inputs, numbers of inputs and rows, kept programs and spoilt cells drawn at random; what is saved is checked by an evaluator of the shipped PIL and, for constants, inputs, results and links, by values worked out independently; sampled. pil-stark and pilcom are stood in for; simple_vm, whose program does not parse, is left out."),
    "D02": ("runtime monitor: field-by-field comparison of proofs before and after JSON, in three backends",
            "Proofs of generated programs written and read back; contents compared element by element, every name a verifier circuit needs checked against the proof, verdicts of originals and copies compared; sampled programs."),
    "D03": ("runtime monitor: programs, parameters, numbers and setups stored and read back, against documents built without the library",
            "Generated JSON programs compared member by member with what the library reads and writes, number texts against big-integer arithmetic, spoilt and truncated texts refused; whole setups in three backends stored, restored and put to use: equal contents, openings, proofs and verdicts; sampled."),
    "S01": ("runtime monitor: generated programs with plain row-by-row evaluation as oracle; setup, prove and verify executed",
            "Random PIL programs of every constraint kind (identities, lookups with selectors, permutations, connections, publics, intermediates), domain sizes, step lists and hash backends; the honest proof must verify and carry the selected publics; sampled."),
    "S02": ("fault injection with a dishonest prover: corrupted traces, forged arguments and evaluations, acceptance monitored",
            "Traces corrupted in chosen cells and judged by plain evaluation; provers that slip values into lookups, leave or fake grand products, and rebalance the claimed evaluations; wrong publics; every evaluation forged in turn. No such proof may verify. Sampled; cryptographic hardness is not established."),
    "S03": ("fault injection on verified proofs: every kind of component altered, acceptance monitored",
            "Each component of proofs of generated programs altered, swapped, removed or lengthened in the three backends; verification must never accept; the verifier's transcript is observed, and each part must change the next element drawn; alterations sampled."),
    "S04": ("schedule stress: CPU counts, pool sizes, concurrent provers and first-use storms, bit-for-bit comparison",
            "Setups and proofs repeated under 1-8 CPUs, pools of 1-32 threads and with up to 8 concurrent provers, and transforms started simultaneously in fresh processes, all compared bit for bit with a first run or the definition; schedules sampled by the OS."),
    "S05": ("runtime monitor: reference FRI prover as differential oracle and as adversary",
            "The native prover's whole output compared with an independent prover; vectors of too high degree and adversarial folds (substituted layers, fitted or random final polynomials, widened leaves, wrong lengths) must be rejected; alterations of every component; sampled parameters."),
    "V01": ("differential monitor: generated verifier circuits executed by a circom interpreter against the native verifier",
            "The circuits emitted for generated programs (three backends, on-chain and aggregation stages) are run by an interpreter of the circom subset they use, on honest and altered proofs; satisfied exactly when the native verifier accepts. The hash circuits of the external circom library are modelled; sampled programs and alterations."),
    "E01": ("end-to-end monitor of the prove command's files: native verifier, generated circuit run on the written input; faulty inputs injected",
            "The command run on generated programs and traces in files for three hashes and every useful flag combination, its outputs read back and judged by the native verifier, by the regenerated circuit text and by running the written circuit on the written input; broken traces and cut files must make it fail. Sampled; libraries outside the repository are modelled as in V01."),
    "V02": ("runtime monitor: library circom templates interpreted, native arithmetic as oracle, every hint altered",
            "Every template of the three libraries evaluated by an interpreter on edge-weighted inputs, outputs compared with native arithmetic, and each prover-chosen value replaced (neighbours, plus the modulus, aliases) with the constraints watched; inputs and alternative hints sampled. Bit decompositions, comparators and Poseidon of the external circom library are modelled."),
    "G01": ("fault injection with acceptance monitor: generated circuits, keys, proofs, altered proofs and encodings, file pipeline",
            "Setup, prove and verify through the crate's API and files on generated circuits over both curves; verdicts compared with the pairing equation evaluated independently on arkworks; altered publics, points, encodings, torsion and off-curve points must be refused. The matter-labs and filecoin provers it calls are not in the sandbox: a stand-in with their API over arkworks takes their place; the CUDA flavour is not built; sampled."),
    "G02": ("runtime monitor: the generated Solidity contract executed by an interpreter, pairing equation as oracle",
            "Contracts generated for keys of 0 to many inputs run by an interpreter of the Solidity and EVM-assembly subset they use, with precompiles over arkworks, on honest and altered calls; verdict compared with the pairing equation; contracts outside the interpreter's subset are counted, not judged; sampled."),
    "U01": ("sanitizers: AddressSanitizer with library precondition checks, ThreadSanitizer, MemorySanitizer, Miri over generated work",
            "Element and packed reinterpretation, transforms, trees, traces, whole proofs and storms of concurrent first uses run in sanitized builds (instrumented standard library for TSan and MSan; AVX2 and AVX-512 for ASan) and, at small sizes, in Miri; every report is a violation; work and schedules sampled."),
    "Z01": ("end-to-end monitor of the command-line program: folder snapshots, exit status, library operations and pairing equation as oracles",
            "The program run as a process on generated inputs with every option spelled, ordered, named or left out at random: what it wrote compared with the library operation, what it left alone compared with before, its exit status with whether the operation can succeed (altered proofs, broken traces, missing and unwritable files); the argument parser's own definition checks are on. Sampled."),
    "Z02": ("trace monitor at the boundary to the circom compiler: recording stand-ins with injected failures",
            "The compile command run over stand-ins that record every request; the sequence, the program, libraries, field, simplification and file names requested compared with the command line; each step made to fail in turn, with leftovers of earlier runs present. The circom compiler itself is not run."),
    "P01": ("runtime monitor: file layout and declarations as oracle; truncation, slow pipes, failing writers injected",
            "Generated declarations and columns saved, compared byte by byte, loaded back (also from pipes in small pieces), each accessor compared with the declaration; every truncation of small files in time-limited children."),
}
NOT_APPLICABLE = {
    "A01": "The DSL compiler (dsl_compile) is built on git dependencies (circom compiler crates) that are not in this sandbox, so what they make of a source program cannot be executed here; runtime monitoring needs executions. The driver around them is monitored by Z02.",
    "A02": "The zkVM prover needs the powdr compiler and RISC-V guest toolchain (git dependencies, nightly guest targets) which are not in this sandbox, so no execution of it can be observed.",
}
