EX="exhaustive bounded exploration of the real code, every explored state compared with an independent reference model"
HX="explicit-state exploration of all call histories up to a depth on the real code, each compared with an abstract model"
CHECKS={
"C01":(EX,"Every output length, every message length to a bound, all short messages and all single-byte and two-bit deviations are enumerated on the compiled direct.rs and compared with a BLAKE2s written from RFC 7693 (itself checked against Python's hashlib). Trusts rustc and that longer messages behave like the enumerated ones."),
"C02":(EX,"As C01 for the extendable output: every output length 0..65535 is enumerated and compared with a BLAKE2Xs reference."),
"C03":(HX,"Composition and rejection are enumerated over parameters in and out of range; every call history up to depth 3 (4 thorough) over 12 calls is run in a fresh process copy and compared with the stateless model."),
"C04":(EX,"Constants are compared with the protocol strings; digests under all protocol domains and their one-bit neighbours are enumerated and must differ."),
"C05":(EX,"All bit vectors to 18 bits (23 thorough), all byte vectors to 2 bytes (3) with all take counts, and all one/two-bit deviations of longer vectors are enumerated against an index-arithmetic reference."),
}
SH="The repository's bls-crypto is compiled unchanged against a small stand-in for the arkworks libraries (mc/ark; those libraries are not in the sandbox), itself bound by the repository's own test vectors. "
CHECKS.update({
"C06":(EX,SH+"All message lengths to a bound around every chunk boundary, all short messages and one-bit deviations are enumerated; the composite hash is compared with an independent Bowe-Hopwood/Pedersen reference."),
"C07":(EX,SH+"A scripted inner hasher makes every outcome pattern of the counters enumerable (all 255 first-hit positions, all-miss, errors at each call); real hashers over all short messages; each result compared with a reference search and curve equations."),
"C08":(EX,SH+"As C07 for CIP22, including the split between inner digest and outer counter/extra data."),
"C09":(EX,SH+"All flag/sign patterns and boundary coordinates for every curve and all lengths of input, compared with an independent decoder."),
"C10":(EX,SH+"All combinations of small keys, messages, extra data, domains, hashers and perturbed signatures/keys are enumerated; the verdict is compared with discrete-log arithmetic."),
"C11":(EX,SH+"All key/signature multisets to a bound, all orders and all groupings, compared with scalar arithmetic."),
"C12":(EX,SH+"All batches to a bound of messages with all single and cancelling pair corruptions, compared with per-entry scalar arithmetic."),
"C13":(EX,SH+"The random weights are scripted, so all weight vectors over a small alphabet and all error patterns are enumerated; the weights drawn are compared with the scripted bytes; single verdict errors and cancelling errors are all explored."),
"C14":(HX,SH+"All histories of cache operations up to a depth over a small key universe, compared with a stateless model; eviction is reached with a small cache capacity."),
"C15":(EX,SH+"All encodings of a set of points, all truncations, extensions and one-bit flips, compared with an independent decoder."),
})
SY="The repository's bls-snark-sys is compiled unchanged as a library over the stand-in and called through its C symbols. "
CHECKS.update({
"C16":(EX,SY+"All flag combinations, small keys, messages, extra data and tampered arguments are enumerated; verdict, bytes, attempts and out-parameters compared with the library's own functions and with scalar arithmetic; aggregate and proof-of-possession calls included."),
"C17":(EX,SY+"All lists of batches up to a bound, every placement of invalid, missing, surplus and cancelling entries, all flag combinations; each verdict compared with scalar arithmetic."),
"C18":(HX,SY+"All create/encode/decode/free histories up to a depth run under a tracking allocator that quarantines and poisons freed memory, so double frees, leaks and frees of foreign memory are observed; all malformed buffers to a bound are compared with an independent decoder."),
"C19":(EX,SY+"All epoch blocks over boundary values and key counts, all pointer/length combinations, compared with a reference encoder and with the library; proof verification over all substituted keys, blocks, proofs and truncations with an ideal Groth16."),
})
AX="exhaustive enumeration of statements and of prover assignments (all choices of auxiliary values, over tiny fields and groups completely, over the real field up to a deviation bound) executed on the real constraint-generating code"
GS="The repository's gadgets are compiled unchanged against the stand-in, whose constraint system is evaluated while it is generated and hands every prover choice to a depth-first explorer. "
CHECKS.update({
"C20":(AX,GS+"All bitmaps, bit forms, maxima and all assignments over fields of 5 to 13 (17) elements; all short bitmaps and a grid of long ones (to 1024 bits, around the 255/256 and 511/512 limits) over the real field with one deviating choice; setup and proving must have the same constraints."),
"C21":(AX,GS+"All elements and all assignments over fields of 5 to 31 (61) elements; boundary elements and multiples of the generators over the real fields with every deviation of the auxiliary bit."),
"C22":(AX,GS+"All keys, bitmaps, hashes, signatures, maxima and padding keys over pairing groups of order 5 (7) with every assignment; all bitmaps and signer sets of 3 keys and unequal lists over BLS12-377 with one deviation."),
"C23":(AX,GS+"All 256 attempt counters, all message and extra-data lengths to a bound, all one-bit changes of a base message, constant and negated bits; up to two deviating prover choices (one when the hash is unconstrained, plus directed choices of every interesting hash output); bit hashing over both fields for all lengths; the helper circuit with its public inputs."),
"C26":(AX,GS+"All bit vectors up to 7-9 bits, all element sizes and all prover elements over fields of 7, 13, 31 and 61 elements; lengths around every multiple of the capacity over both real fields; setup and proving must have the same constraints."),
"C25":(AX,GS+"All blocks of a product of boundary field values, all one-bit and one-key neighbours of base blocks and all indices: bits and returned values against independent encoders, setup against proving; all one-deviation provers of these blocks and two or three deviations on small ones; every kind of previous index."),
"C27":(AX,GS+"All sequences of up to 3 (4 and more with fewer) slots out of 21 kinds of slots, valid and invalid, from 7 kinds of first blocks, all pairs of bitmaps: the real circuit's verdict and public inputs against an independent judge of chains; on valid and invalid base chains all provers with one deviating choice and, on short chains, two. Known findings: high bits, entropy opt-out, hash helper."),
"C28":(EX,SH+"All sequences of transitions out of 21 kinds in circuits of 1-4 slots, all lengths including empty and oversized, proved and verified with an ideal Groth16 and judged independently; all one-field substitutions of first and last block, all cross pairs of keys, statements and proofs, mismatched parameters."),
"C24":(EX,SH+"A product of boundary values of all fields, all one-bit and one-key deviations of base blocks, pairs of deviations, all indices; every encoding compared with an independent encoder and all encodings of a mode kept in one table to look for collisions; signed points compared with the reference hash to curve."),
})
SCH="exhaustive schedule exploration: every interleaving of real threads up to a preemption bound, executed on the real code under a controlled scheduler with deadlock detection"
CHECKS.update({
"C29":(SCH,SY+"Threads stop at every use of a lazy value or of the bounded map, every group addition, allocation and free, and are let go one at a time; all schedules of two and three threads with one or two calls each up to 2 preemptions (1 for calls that share nothing) (thorough: 3-4), and of the first calls of a process; each answer against reference arithmetic or the call made alone, threads that wait for each other are found by watching which are asleep, later calls must still answer correctly."),
})
CHECKS.update({
"C30":(AX,GS+"All sequences of up to 3 slots out of 21 kinds from 5 kinds of first blocks, products of boundary values in the first and second block, all bitmaps to 6 (9) bits, all one-deviation provers of base chains, all combinations of numbers of keys and bitmap lengths that disagree with the declared size, all sizes to 6x4 (12x6), with and without hash helper: the running hash of all constraints and the number of public inputs must equal those of the setup; hash circuits of 1-3 epochs with every one-bit message."),
"C31":("exhaustive enumeration of environment behaviours: all one- and two-bit deviations of the random source's output, histories of successive key generations, executed on the real code with a scripted random source",SY+"The random source is an explored stream: for each of some 280 (4500) base streams (all zeros, all ones, around the group order, rejected candidates) every one-bit deviation, for a dozen (60) every pair; successive keys; both interfaces on the same stream; unscripted keys of many threads and fresh processes; setup with every bit of its generator flipped."),
"C32":(EX,SY+"All histories of 1-2 (3) epochs with 2-3 (4) validators: every change of the validator set, every set of signers, every threshold, with and without entropy, and at each epoch none or one of 20 faults; each step of the C interface, the prover's verdict and the verdicts of the verifier for right and wrong blocks are compared with what happened."),
})
NA={}
