#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
BC="crates/bls-crypto/src/"; BG="crates/bls-gadgets/src/"; ES="crates/epoch-snark/src/"; SY="crates/bls-snark-sys/src/"
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]; H=["histories"]; IH=["inputs","histories"]; IC=["inputs","configurations"]

p("C01","Direct CRH is parameterised BLAKE2s",
 "For every domain of at most 8 bytes, every message and every announced output length from 0 to 65535, the direct hasher's collision-resistant step returns exactly 32 bytes equal to unkeyed BLAKE2s-256 of the message with the domain as (zero-padded) personalisation and the output length, as a 16-bit little-endian number, in the upper two bytes of the node-offset parameter. No other byte of the parameter block depends on the inputs, and no byte of the message is skipped, repeated or reordered.",
 I,"every domain (0..8 bytes), message (any length, any content) and output length (0..65535)",
 "The unit tests pin a handful of (domain, message, length) triples with length 96 and a few others; they cannot see dependence on other lengths, domain bytes, block boundaries or message bytes.",
 [BC+"hashers/direct.rs"],[("DirectHasher::crh, xof_digest_length_to_node_offset",BC+"hashers/direct.rs")],["return value of DirectHasher.crh"])
p("C02","Direct XOF is BLAKE2Xs with exact output length",
 "For every domain of at most 8 bytes, every input and every output length from 0 to 65535, the direct hasher's extendable-output step returns exactly the requested number of bytes. These are the concatenation of BLAKE2s blocks of 32 bytes, the last one shortened to the remainder, where block i uses node offset i combined with the 16-bit output length, fan-out 0, depth 0, leaf length 32, inner length 32 and the domain as personalisation.",
 I,"every domain, input and output length (0..65535)",
 "The tests check lengths 2 and 96 only (no partial last block beyond 2 bytes, no length above 255, no empty output).",
 [BC+"hashers/direct.rs"],[("DirectHasher::xof",BC+"hashers/direct.rs")],["return value of DirectHasher.xof"])
p("C03","Hash composition and rejection of unusable parameters",
 "Hashing equals the extendable-output step applied to the collision-resistant step's result, with the same domain and the same output length in both, for every input, and repeated or interleaved calls on one hasher always give the same answer. A domain longer than 8 bytes, or an output length that does not fit the 16 bits the construction reserves for it, is reported as an error by every hashing entry point and never panics or silently yields output of other parameters.",
 IH,"every (domain, message, length), including out-of-range ones; every call sequence on a hasher",
 "No test passes an oversized domain or length or checks the relation between the three entry points.",
 [BC+"hashers/direct.rs",BC+"hashers/mod.rs"],[("Hasher::hash default method",BC+"hashers/mod.rs"),("domain length check",BC+"hashers/direct.rs")],["Ok/Err/panic outcome and value of crh, xof, hash"])
p("C04","Domain separators are fixed, distinct and separate",
 "The three protocol domains (signatures, proofs of possession, public outputs) are the fixed 8-byte strings ULforxof, ULforpop and ULforout, pairwise distinct and within the hash personalisation size. Hashing the same message under two different domains uses two different personalisations and never gives the same digest on any explored message.",
 I,"every message and output length, every pair of domains",
 "Tests use the constants symbolically, so a changed or collided constant changes both sides.",
 [BC+"lib.rs",BC+"hashers/direct.rs"],[("SIG_DOMAIN, POP_DOMAIN, OUT_DOMAIN",BC+"lib.rs")],["values of the public constants; digests under them"])
p("C05","Bit and byte conversions are exact and mutually inverse",
 "Each conversion between bit vectors and little-endian byte vectors preserves the number represented, for every length including lengths that are not a multiple of 8: bytes read out hold ceil(bits/8) bytes with zero padding in the top bits of the last byte, and bits read out are the low-order `bits_to_take` bits (all bits when more are asked for) in the announced order. Converting bits to bytes and back, or bytes to bits and back, returns the original.",
 I,"every bit vector and byte vector, and every number of bits to take",
 "The existing tests use these helpers only on whole-field-element lengths.",
 [BG+"utils.rs"],[("bits_be_to_bytes_le, bits_le_to_bytes_le, bytes_le_to_bits_be, bytes_le_to_bits_le",BG+"utils.rs")],["return values"])
p("C06","Composite hasher: Bowe-Hopwood CRH then direct XOF",
 "The composite hasher's collision-resistant step is a fixed, publicly reproducible Bowe-Hopwood Pedersen hash of the message: it depends on every message bit, does not depend on domain or output length, gives an encoding of one curve coordinate of constant size, and is the same for every hasher instance. Its extendable-output step is identical to the direct hasher's on every input, and invalid parameters are errors. A message longer than the window capacity is refused, never hashed to something.",
 IC,"every message within the window capacity, every domain and output length, every instance",
 "Tests pin three seeds; they do not vary single bits, lengths, domains or instances.",
 [BC+"hashers/composite.rs"],[("CompositeHasher::crh / setup_crh / xof",BC+"hashers/composite.rs")],["return values of COMPOSITE_HASHER and fresh instances"])
p("C07","Try-and-increment hashing to G1 is canonical and sound",
 "Hashing to the curve tries the 255 counters 0,1,...,254 in order and returns the cofactor-cleared point for the first counter whose hash of (counter byte, extra data, message) in the given domain decodes to a non-zero curve point, together with that counter; it fails with an error only if no counter works or the hasher itself reports an error. The result is always a non-zero element of the prime-order subgroup and is a deterministic function of domain, message and extra data.",
 IC,"every domain, message, extra data and hasher; every pattern of accepted and rejected candidates",
 "Tests check a few vectors whose counters are small; which counter is chosen, the last counters and exhaustion are never reached.",
 [BC+"hash_to_curve/try_and_increment.rs",BC+"hash_to_curve/mod.rs"],[("TryAndIncrement::hash_with_attempt",BC+"hash_to_curve/try_and_increment.rs"),("from_random_bytes",BC+"hash_to_curve/mod.rs")],["returned point and attempt; the hasher calls made"])
p("C08","CIP22 try-and-increment compresses the message and mixes the counter outside",
 "The CIP22 variant compresses the message alone (without counter or extra data), and then for the 255 counters 0,1,...,254 in order tries the extendable output of (counter byte, extra data, compressed message) in the given domain, returning the cofactor-cleared point of the first counter that decodes to a non-zero point together with that counter. It fails only if no counter works or the hasher reports an error, and its result is a non-zero subgroup element determined by domain, message and extra data.",
 IC,"every domain, message, extra data and hasher; every pattern of accepted and rejected candidates",
 "Tests use a few random messages and compare with nothing independent.",
 [BC+"hash_to_curve/try_and_increment_cip22.rs"],[("TryAndIncrementCIP22::hash_with_attempt_cip22",BC+"hash_to_curve/try_and_increment_cip22.rs")],["returned point and attempt; the hasher calls made"])
p("C09","Decoding of hash output to a curve point follows the declared layout",
 "A hash output decodes to the curve point whose x coordinate is the low-order bits of the bytes, and whose y is chosen by the single sign bit stored in the flag byte; it decodes to nothing when x is not a coordinate of a curve point, and every other flag bit is ignored. Under the compatibility mode the sign bit is bit 1 of the last byte, otherwise bit 7, and it selects the larger or smaller of the two roots by the lexicographic rule; the number of bytes requested from the hash is the smallest multiple of 256 bits holding the point's serialised size.",
 IC,"every byte string of the required length; both sign conventions",
 "Tests only check fixed-seed points and encodings.",
 [BC+"hash_to_curve/mod.rs"],[("YSignFlags, from_random_bytes, hash_length",BC+"hash_to_curve/mod.rs")],["decoded point for chosen hash outputs"])
p("C10","A signature verifies exactly for its key, message, extra data and domain",
 "For every non-zero key, every message, extra data and curve hasher, a signature made with a private key verifies under the matching public key with the same message and extra data; it fails to verify under a different key, a different signature value, or when the message, extra data, domain or hasher differs in what is hashed. Proof-of-possession signatures and ordinary signatures are never accepted in place of each other.",
 I,"every combination of key, message, extra data, hasher, domain and tampered signature",
 "Tests use random keys with one wrong message; they never cross keys x messages x extra data x domains x hashers.",
 [BC+"bls/secret.rs",BC+"bls/public.rs"],[("sign_message / verify_sig pairing equation",BC+"bls/public.rs")],["Ok/Err of verify and verify_pop"])
p("C11","Aggregation is the group sum, independent of order and grouping",
 "Aggregating public keys or signatures gives the group sum of the inputs, with multiplicity, for every collection including the empty one, in any order and grouping. The aggregate signature over one message verifies under an aggregate key exactly when the sums of the secret keys behind the two agree, in particular when the multisets of signers are the same.",
 IH,"every multiset of keys/signatures and every order and grouping",
 "Tests aggregate a few random distinct keys once.",
 [BC+"bls/public.rs",BC+"bls/signature.rs"],[("aggregate",BC+"bls/signature.rs")],["aggregate values; verify result"])
p("C12","Multi-message batch verification is exact",
 "Verifying one aggregate signature against lists of (key, message, extra data) succeeds exactly when the signature is the sum of the valid individual signatures for those entries in the given domain. Lists of different lengths are rejected with the dedicated error, never truncated, whether the messages are given raw or already hashed.",
 I,"every list of entries, every pairing of keys and messages, every tampered or missing entry, every length mismatch",
 "Tests cover one valid list of 10 epochs and one mismatch.",
 [BC+"bls/signature.rs"],[("batch_verify, batch_verify_hashes",BC+"bls/signature.rs")],["Ok/Err"])
p("C13","Strict batch accepts only batches in which every signature is valid",
 "A strict batch over one message succeeds when each added signature is valid for its key, and fails when at least one is not, even when the invalid parts cancel in the sum; individual verification of the batch gives the same verdict. The weights are drawn afresh for each verification and carry at least 128 random bits each. Weighted combination of keys or signatures is the exact weighted group sum and is refused when the numbers of weights and elements differ.",
 IH,"every sequence of additions of valid, invalid, swapped and cancelling signatures; every weight vector length",
 "Tests use one cancelling pair and one good batch.",
 [BC+"bls/batch.rs",BC+"bls/public.rs",BC+"bls/signature.rs"],[("Batch::verify random exponents",BC+"bls/batch.rs"),("PublicKey::batch / Signature::batch",BC+"bls/public.rs")],["Ok/Err; None/Some and value"])
p("C14","Public-key cache never changes an answer",
 "After any history of decoding, aggregating and clearing, decoding through the cache gives the same key or error as decoding without it, and aggregating a list gives the sum of the distinct keys of that list (a repeated key counts once), regardless of what was aggregated, decoded, evicted or cleared before.",
 H,"every sequence of deserialize / aggregate / clear operations",
 "Tests run one aggregation and two decodes on a fresh cache; a stale difference shows only after particular sequences of overlapping sets.",
 [BC+"bls/cache.rs",SY+"cache.rs"],[("PublicKeyCache keys/combined/de",BC+"bls/cache.rs")],["results of each operation"])
p("C15","Key and signature encodings round-trip and reject everything else",
 "Private keys, public keys and signatures encode to fixed sizes (32, 96 and 48 bytes; 192 and 96 uncompressed), decoding an encoding returns the same value, and the encoding depends only on the value. Truncated input, coordinates that are out of range or not on the curve (in an encoding without the infinity flag), and points outside the prime-order subgroup are rejected rather than decoded to something else; an encoding with the infinity flag decodes to the identity or not at all.",
 I,"every value (including the identity, zero and both signs of y) and every malformed encoding",
 "Tests round-trip a few random values.",
 [BC+"bls/public.rs",BC+"bls/signature.rs",BC+"bls/secret.rs"],[("CanonicalSerialize/Deserialize impls",BC+"bls/public.rs")],["bytes and decode results"])
p("C16","C interface signs, hashes and verifies exactly like the library",
 "For every input and every combination of the hashing-mode flags, the C functions for signing, verifying, proof of possession and hashing succeed exactly when the library does and write the same key, signature, bytes, attempt count or verdict; a combination of flags that is not supported is reported as failure. On failure nothing is reported as verified. Aggregating keys through the C interface gives the sum of the distinct keys given.",
 IC,"every input, every flag combination, every tampered argument",
 "Only batch verification through the C interface has any test.",
 [SY+"signatures.rs"],[("sign_message, verify_signature, hash_*",SY+"signatures.rs")],["return value and out-parameters"])
p("C17","C batch verification reports the right verdict for each entry",
 "The C batch functions accept exactly the batches the library accepts, and strict batch verification reports for every batch, in order and independently of the other batches, whether all its signatures are valid for its message and extra data. A batch with unequal numbers of keys and signatures is reported as invalid. An empty list of batches and any mix of good and bad batches are handled.",
 IC,"every list of batches up to the bound, every placement of invalid entries, every flag combination",
 "Tests cover a single composition of a batch.",
 [SY+"signatures.rs",SY+"utils.rs"],[("batch_verify_signature, batch_verify_strict",SY+"signatures.rs")],["return value, verdict array"])
p("C18","C serialization, compression and ownership are faithful and safe",
 "Every object encoded through the C interface decodes to the same object, in both compressed and uncompressed form, and compressing an uncompressed encoding gives the same bytes as encoding compressed directly. Malformed or truncated input to the decoders is reported as failure, and so is input to the compression functions that is too short or holds out-of-range coordinates; each object and buffer handed out can be freed exactly once without touching another, and byte buffers of every length including zero are returned intact.",
 IH,"every value and malformed buffer; every create/encode/decode/free sequence up to the bound",
 "No test covers these functions.",
 [SY+"serialization.rs",SY+"utils.rs",SY+"lib.rs"],[("serialize/deserialize/compress/destroy/free",SY+"serialization.rs"),("Buffer conversions",SY+"utils.rs")],["return values, buffers, allocation balance"])
p("C19","C epoch encoding and proof verification mirror the library",
 "Encoding an epoch block through the C interface gives the same inner bytes and extra data as the library's encoding for the same fields, in each supported encoding mode, and epoch blocks described with C structures are read back field for field. Proof verification through the C interface accepts exactly when the library accepts the same key, blocks and proof, and reports failure for undecodable arguments.",
 IC,"every epoch block (index, round, thresholds, entropies, keys), every pointer/length combination that is valid C, every undecodable buffer",
 "Tests compare one block.",
 [SY+"snark/epoch_block.rs",SY+"snark/mod.rs"],[("encode_epoch_block_to_bytes*, EpochBlockFFI conversion, verify",SY+"snark/epoch_block.rs")],["return values and buffers"])
p("C20","Signer bitmap constraint admits exactly bitmaps with few enough absentees",
 "The bitmap constraint is satisfiable exactly when the number of bits equal to the given value is at most the given maximum, for every bitmap with at least one variable bit, of any length, and every maximum below half of the field, whether each bit is a constant, a variable or a negation. No choice of prover-supplied auxiliary values makes a bitmap with too many such bits acceptable.",
 I,"every bitmap up to the bound (and long bitmaps by number of matching bits), every maximum, every assignment of auxiliary values",
 "Tests try five fixed bitmaps with honest assignments.",
 [BG+"bitmap.rs"],[("Bitmap::enforce_maximum_occurrences_in_bitmap",BG+"bitmap.rs")],["satisfied/unsatisfied"])
p("C21","Sign-bit and zero-test gadgets match native results for every assignment",
 "The zero test, the larger-half bit and the sign-of-y gadgets return the native answer for every field value, and no prover-supplied auxiliary values make them return anything else in a satisfied system.",
 I,"every field element (all elements of small fields; boundary elements of the real field), every assignment of auxiliary values",
 "Tests check random elements with honest assignments.",
 [BG+"y_to_bit.rs"],[("YToBitGadget, is_eq_zero, normalize",BG+"y_to_bit.rs")],["gadget outputs; satisfied/unsatisfied"])
p("C22","Signature-verification gadgets accept exactly what native verification accepts",
 "The in-circuit check of a bitmap-selected multisignature is satisfied exactly when the sum of the selected keys verifies the signature on the message hash and the number of absentees is within the maximum; in-circuit key aggregation equals native aggregation of the selected keys, and in-circuit batch verification accepts exactly when the native multi-message check does. A key equal to the padding key is refused when its bit is set, lists of different lengths are refused, and no assignment of auxiliary values makes a wrong signature, key list or bitmap acceptable.",
 I,"every bitmap, key list, signature, threshold within the bound, incl. all-absent, duplicate and cancelling keys; every assignment",
 "Tests check ten validators with a few bitmaps.",
 [BG+"bls.rs"],[("BlsVerifyGadget::verify / batch_verify / enforce_*",BG+"bls.rs")],["satisfied/unsatisfied; output values"])
p("C23","In-circuit hash to curve equals native hash to curve",
 "For every message, extra data and attempt counter, the in-circuit hash gives exactly the point and bits that the native CIP22 composite hash gives, in proving and setup mode. No auxiliary prover values make a different point acceptable for the same message and counter. The gadget that hashes a bit string yields the requested number of bits, equal to the native hash, whether or not it generates constraints.",
 IC,"every message length and content within the capacity, extra data and counter; every assignment of auxiliary values",
 "Tests check a few random messages with honest assignments.",
 [BG+"hash_to_group.rs",ES+"gadgets/hash_to_bits.rs"],[("HashToGroupGadget",BG+"hash_to_group.rs"),("HashToBits",ES+"gadgets/hash_to_bits.rs")],["gadget output value; satisfied/unsatisfied"])
p("C24","Epoch encodings are injective with the specified layout",
 "The byte encoding of an epoch block is index (2 bytes), round (1 byte), threshold (4 bytes), both 16-byte entropies (where the mode includes them; absent entropy as zeros), then the public keys each packed in 755 bits (two 377-bit coordinates of x and a sign bit), all little-endian in bit order, padded with generator keys to the maximum number of validators when the mode requires it; the last block's encoding ends with the sum of its keys, padding included. Two blocks that differ in any encoded field encode differently, and the outer/inner split of the CIP22 encoding recombines to the documented fields.",
 IC,"every epoch block and every encoding mode",
 "Fixture tests check a few blocks.",
 [ES+"epoch_block.rs",ES+"encoding.rs"],[("EpochBlock::encode_*",ES+"epoch_block.rs"),("encode_public_key, encode_u8/16/32",ES+"encoding.rs")],["encoded bytes"])
p("C25","In-circuit epoch encoding equals the native encoding",
 "The bits that the circuit derives from its epoch data for signing, for the first epoch and for the last epoch equal the native encodings of the same block, for all field values, entropy presence and numbers of keys. No auxiliary prover values change those bits while the constraints hold. Blocks hold as many keys as the circuit has slots (unused slots filled with the padding key).",
 IC,"every epoch block within the bound; every assignment of auxiliary values",
 "Tests check a few indices and random keys.",
 [ES+"gadgets/epoch_data.rs"],[("EpochData::to_bits*, constrain",ES+"gadgets/epoch_data.rs")],["bit values; satisfied/unsatisfied"])
p("C26","Packing bits into public inputs loses nothing",
 "Packing a bit vector into field elements keeps the bits in order: each chunk of the bits is the big-endian binary representation of one element, for every length. Native packing and in-circuit packing agree on count, order and value, in-circuit an accepted element always has the packed bits as its low bits (so among elements of the chunk's length only the right one is accepted), and two different bit vectors of the same length never pack to the same public inputs.",
 I,"every bit length and content around the field capacity",
 "One test with one size.",
 [ES+"gadgets/pack.rs",ES+"gadgets/epoch_bits.rs"],[("MultipackGadget::pack",ES+"gadgets/pack.rs"),("pack",ES+"gadgets/mod.rs")],["packed values"])
p("C27","The epoch circuit accepts exactly valid chains of epochs",
 "The circuit is satisfiable for a sequence of transitions exactly when each real epoch has the previous index plus one, carries the previous epoch's entropy as its parent entropy (when the first epoch has entropy), and is signed by enough of the previous epoch's validators, none of them a padding key, with the aggregate signature covering all of them; unused slots are filled only by dummy epochs that change nothing, and the exposed outputs commit to the first and the last real epoch. Sequences with skipped, repeated, reordered, wrongly signed, under-signed or altered epochs are rejected for every assignment.",
 ["histories","inputs"],"every sequence of transitions up to the bound: each epoch's index, entropy, signer set, threshold and key set, and each position of the dummies",
 "Tests cover a few hand-written chains.",
 [ES+"gadgets/epochs.rs",ES+"gadgets/single_update.rs",ES+"gadgets/epoch_bits.rs"],[("ValidatorSetUpdate",ES+"gadgets/epochs.rs"),("SingleUpdate::constrain",ES+"gadgets/single_update.rs")],["satisfied/unsatisfied; public inputs"])
p("C28","A proof verifies exactly for the epochs it was made for",
 "A proof produced from a valid chain verifies against the chain's first and last epoch with keys from a setup of the same size, for every chain length up to the maximum, and with blocks that differ from them in anything the statement commits to (index, threshold, keys, the first epoch's parent entropy, the last one's entropy, order) or with another verification key it does not. Blocks given to the prover hold exactly as many keys as the circuit has slots, unused ones filled with the padding key. An empty or oversized chain is reported as an error, and no invalid chain yields an accepted proof.",
 ["histories","inputs","configurations"],"every chain length, setup size and substituted epoch within the bound",
 "One end-to-end test with one chain and one wrong block.",
 [ES+"api/prover.rs",ES+"api/verifier.rs",ES+"api/setup.rs"],[("prove, verify, trusted_setup",ES+"api/prover.rs")],["Ok/Err of prove and verify; public inputs on both sides"])
p("C29","Concurrent calls into the C interface answer as if made alone",
 "When several threads call functions of the C interface at the same time, every call returns the answer it gives when made alone with the same arguments, whatever the interleaving: key aggregation and cached decoding, which share one process-wide key cache, included, and also when the calls are the first ones of the process. No interleaving of calls blocks for good, crashes the process, or makes later calls fail or answer differently.",
 ["schedules","histories"],"every pair and triple of calls, every history of earlier calls that leaves the shared cache in some state, every interleaving",
 "Tests call the interface from one thread.",
 [SY+"cache.rs",SY+"signatures.rs",SY+"serialization.rs",SY+"lib.rs"],[("PUBLIC_KEY_CACHE",SY+"cache.rs"),("aggregate_public_keys, aggregate_public_keys_subtract",SY+"signatures.rs"),("deserialize_public_key_cached",SY+"serialization.rs"),("init",SY+"lib.rs")],["return values and outputs of every call; completion of every call"])
p("C30","The circuit depends only on its declared size",
 "The constraints and the number of public inputs of the epoch circuit, and of the circuit that hashes on its behalf, depend only on the declared number of validators, number of epochs and presence of a hash helper: not on the values they are filled with (keys, bitmaps, entropies present or absent, thresholds, indices, dummies, valid or invalid chains, honest or dishonest provers). Circuits of different sizes differ. Data of another size than declared (more or fewer keys, a shorter or longer bitmap) never yields an instance of the declared circuit. So one setup serves every chain of its size.",
 ["inputs","configurations"],"every size, every chain of that size, every assignment of prover values, every mismatch between data and declared size within the bound",
 "Tests compare a constraint count for one hand-written chain.",
 [ES+"gadgets/epochs.rs",ES+"gadgets/epoch_data.rs",ES+"gadgets/single_update.rs",ES+"gadgets/hash_to_bits.rs",ES+"gadgets/epoch_bits.rs"],[("ValidatorSetUpdate::empty / generate_constraints",ES+"gadgets/epochs.rs"),("EpochData::constrain",ES+"gadgets/epoch_data.rs"),("SingleUpdate::constrain",ES+"gadgets/single_update.rs"),("HashToBits",ES+"gadgets/hash_to_bits.rs")],["constraints generated in setup and in proving; number of public inputs; whether a proof can be made"])
p("C31","Keys and parameters come from all of the caller's random source",
 "A generated private key is a function of fresh bytes of the random source it is given and of nothing else: the same bytes give the same key, any change of a bit that is not discarded by rejection or masking gives another key, at least 250 bits of the source matter, no two keys share the bytes they are made from, and the public key is the generator times the private key. Keys made through the C interface come from the platform's random source in the same way, and no two calls, threads or processes get the same key. The keys of the trusted setup likewise depend on the generator it is given, with no fixed or repeated randomness, and the same generator output gives the same parameters.",
 ["inputs","histories"],"every content of the random source, every sequence of key generations, every thread and process",
 "Tests generate keys and never look at where they come from.",
 [BC+"bls/secret.rs",SY+"signatures.rs",ES+"api/setup.rs"],[("PrivateKey::generate",BC+"bls/secret.rs"),("generate_private_key",SY+"signatures.rs"),("trusted_setup",ES+"api/setup.rs")],["the generated key for chosen random bytes; bytes drawn; keys of successive calls, threads and processes; verifying keys for chosen random bytes"])
p("C32","From validators' C calls to a verified proof",
 "The components fit together: when the validators of each epoch sign the next one's encoding through the C interface, and the keys and signatures travel in serialized form, are aggregated and checked (individually and in a batch) and handed to the prover, then the proof verifies through the C interface for the first and last block whenever everyone did their part (the right validators, enough of them, the right block, the right hasher, the epochs linked), whether or not the verifier pads the validators' list itself; and when any one of them did not, the library's own checks say so and no proof verifies. The proof does not verify for other blocks.",
 ["histories"],"every history up to the bound: changes of the validator set, who signs, thresholds, entropy, and one deviation of any participant at any epoch",
 "One end-to-end test with honest participants, in Rust only.",
 [SY+"snark/mod.rs",SY+"signatures.rs",ES+"api/prover.rs",ES+"epoch_block.rs",BC+"bls/signature.rs"],[("sign_message, aggregate_signatures, verify_signature, batch_verify_signature",SY+"signatures.rs"),("verify",SY+"snark/mod.rs"),("prove",ES+"api/prover.rs"),("encode_inner_to_bytes_cip22",ES+"epoch_block.rs")],["return values and outputs of every C call; Ok/Err of prove; verdict of verify"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
