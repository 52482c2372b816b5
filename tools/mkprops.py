#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
I=["inputs"]
p("C01","Scalar arithmetic is exact arithmetic modulo the group order",
 "For all scalars, addition, subtraction, multiplication, negation, inversion (the inverse of zero is zero), equality, zero test, integer/node-index conversion (node i maps to i+1) and big-endian wide reduction (up to 64 bytes) give exactly the result of integer arithmetic modulo the secp256k1 group order n, and a scalar is reported high exactly when it exceeds (n-1)/2. Results are the same whether or not the receiver is also an operand, and operands other than the receiver are left unchanged.",
 I,"all scalars in [0,n) including 0, 1, (n-1)/2, (n+1)/2, n-1, all byte strings up to 64 bytes, all uint64 and node indices, all receiver/operand aliasing patterns",
 "Tests never compare scalar results with an independent integer model, never test high/low classification, never alias receivers and never invert zero.",
 ["curve/scalar.go","curve/k256_scalar.go"],[("Secp256k1Scalar methods","curve/k256_scalar.go"),("Scalar factory","curve/scalar.go")],observe=["BigInt()/Serialize() of the result and of every operand"])
p("C02","Base-field arithmetic is exact arithmetic modulo the field prime",
 "For all field elements, addition, subtraction, multiplication, squaring, negation, inversion (of zero is zero), square root (a correct root together with a flag that is 1 exactly for squares), exponentiation by (p-3)/4, conditional assignment, equality, zero test, parity, byte encoding and wide reduction give exactly the result of integer arithmetic modulo the secp256k1 field prime. Results do not depend on whether the receiver is also an operand, and other operands are left unchanged.",
 I,"all field elements including 0, 1, p-1, squares and non-squares; all byte strings of up to 64 bytes; all aliasing patterns",
 "Tests check a few identities on a handful of values; square roots of non-squares, aliasing and the zero inverse are never compared with a model.",
 ["curve/fe.go","curve/k256_fe.go"],[("Secp256k1Field methods","curve/k256_fe.go")],observe=["BigInt()/AsBytes() of results and operands"])
p("C03","Points obey the secp256k1 group law, including at infinity",
 "For all points (including infinity, equal points and opposite points) and all scalars, addition, subtraction, doubling, scalar multiplication, multiplication by a node index (by i+1), two-term linear combinations, Pedersen combinations (sG+mH) and generator multiplication give exactly the point of the secp256k1 group that the group law prescribes, and equality and the infinity test decide equality of group elements. Results do not depend on receiver aliasing, other operands are unchanged, and the second generator H is the documented fixed point.",
 I,"all pairs of group elements with arbitrary projective representations, all scalars, all node indices up to 2^63-1",
 "Tests use fixed points and never compare with an independent group implementation at the exceptional cases (infinity, P+P, P-P).",
 ["curve/point.go","curve/k256_point.go"],[("Secp256k1Point arithmetic","curve/k256_point.go"),("MulPoints/Pedersen/MulByG","curve/point.go")],observe=["affine coordinates and serialization of results and operands"])
p("C04","Decoders accept exactly the canonical encodings and round-trip",
 "Every scalar and point encodes to one fixed-length byte string (32-byte big-endian scalar; 33-byte compressed point with infinity as 33 zero bytes; 65-byte uncompressed finite point; the same prefixed by the curve tag when tagged; and CBOR of the tagged form) and decoding it returns the same value. Decoders return an error, and never a value, for any string that is not such an encoding: wrong length, a scalar not below n, a coordinate not below p, coordinates that are not on the curve, an unknown curve or format tag.",
 I,"all byte strings offered to the scalar, point, tagged, uncompressed, key and CBOR decoders; all scalars and points offered to the encoders",
 "Tests decode a few well-formed strings; off-curve x, x>=p, off-curve (x,y), over/under-length scalars, tagged and CBOR forms and infinity are not tested against a model.",
 ["curve/encode.go","curve/point.go","curve/scalar.go","curve/k256_point.go","curve/k256_scalar.go","mega/key.go"],[("Deserialize/DeserializeTagged/DeserializeAnyFormat","curve/point.go, curve/scalar.go"),("decompress/fromUncompressed","curve/k256_point.go"),("MarshalCBOR/UnmarshalCBOR","curve/k256_*.go"),("MEGa key decoding","mega/key.go")],observe=["returned value and error of each decoder"])
p("C05","Hashing to field, scalar and curve follows RFC 9380",
 "For every message, domain separator (including ones longer than 255 bytes) and output length, expand_message_xmd with SHA-256, hashing to field elements or scalars (48 bytes reduced per element), the SSWU map with the 3-isogeny and hash-to-curve give exactly the values RFC 9380 prescribes for secp256k1. Requests longer than 255*32 bytes are refused with an error.",
 I,"all messages, DSTs, lengths 1..8160 and beyond, counts, and all field elements fed to the map (including 0)",
 "Tests check a handful of RFC vectors with one DST; oversize DSTs, lengths not multiple of 32, multi-element outputs and map inputs are not covered.",
 ["seed/xmd.go","curve/hash_to_curve.go"],[("ExpandMessageXmd","seed/xmd.go"),("HashToField/HashToScalar/MapToCurve/HashToCurveRo","curve/hash_to_curve.go")],observe=["output bytes / coordinates"])
p("C06","The random oracle binds every named, typed input",
 "A random-oracle output is a function of the domain separator, the output kind, and the set of (name, type, value) inputs only: it equals XMD / hash-to-scalar / hash-to-curve of the length-prefixed inputs sorted by name, so insertion order does not matter and any change of a name, type, value, length boundary or domain separator changes the output. Inputs of any length that fits the 4-byte length prefix are absorbed; empty or longer-than-255-byte names and duplicate names are refused with an error and leave the oracle unchanged, and an oracle without inputs refuses to produce output.",
 ["inputs","histories"],"all sequences of add operations (bytes, integers, points, scalars, point lists) with arbitrary names and values of any length, and all output requests",
 "Tests use a few short inputs; long inputs, permutations, duplicates, and collisions across name/value boundaries are never exercised.",
 ["ro/ro.go"],[("AddInput and typed adders","ro/ro.go"),("formRoInput","ro/ro.go")],observe=["returned errors and outputs"])
p("C07","Seeds and generators are deterministic, domain separated and unbiased",
 "A seed depends exactly on its input bytes and domain separator (XMD to 32 bytes), derivation with distinct labels gives distinct seeds, and a generator produces the ChaCha20 key stream of its seed regardless of how the stream is split into requests or what the destination buffers held. Random scalars are drawn by rejection: the first 32-byte block below n is returned, blocks not below n are discarded.",
 ["inputs","histories"],"all seeds, labels, request-size sequences, destination contents, and generators that emit out-of-range blocks",
 "Tests compare two or three vectors; request splitting, dirty destination buffers and the rejection branch are unreachable in them (probability 2^-128).",
 ["seed/seed.go","rand/chacha20.go","curve/scalar.go"],[("NewSeed/Derive/FromRng/FromBytes","seed/seed.go"),("ChaCha20","rand/chacha20.go"),("Scalar.Random","curve/scalar.go")],observe=["bytes produced"])
p("C08","Polynomial arithmetic and interpolation are exact over the scalar field",
 "For all polynomials (including zero and ones with leading or interior zero coefficients), sum, product, scalar multiple, evaluation, coefficient access, equality and zero test agree with exact polynomial arithmetic modulo n. Interpolation through samples with distinct x returns the unique polynomial of degree below the number of samples passing through all of them (also when some samples are redundant), and samples with repeated x are refused with an error.",
 I,"all coefficient lists, points and sample sets",
 "Tests use random dense polynomials only; interior zeros, redundant samples and receivers different from operands are not sampled.",
 ["poly/poly.go"],[("Polynomial Add/Mul/MulScalar/EvaluateAt/Equal","poly/poly.go"),("Interpolate","poly/poly.go")],observe=["Coeff/EvaluateAt of results"])
p("C09","Lagrange coefficients interpolate any polynomial at any value",
 "For every non-empty set of distinct node indices (any order, any gaps, any size) and every evaluation value, including one equal to a node, the Lagrange coefficients recover f(value) and f(value)*P from the samples of every polynomial f of degree below the number of nodes, for scalars and for points. Empty sets, repeated indices and sample lists of a different length are refused with an error.",
 I,"all index sets, evaluation values and sample vectors",
 "Tests use a few random index sets at zero; evaluation at a node, large or gapped indices and permutations are not covered.",
 ["poly/lagrange.go"],[("AtZero/AtValue","poly/lagrange.go"),("InterpolateScalar/InterpolatePoint","poly/lagrange.go")],observe=["coefficients and interpolated results"])
p("C10","Commitments bind: an opening checks exactly when it matches",
 "A Simple (Pedersen) commitment created from polynomials of at most the requested size has one point per requested coefficient, equal to aG (aG+bH), and is refused if a polynomial has degree not below the requested size; its constant term, its evaluation at any node index and its stable representation are those of the committed polynomials. An opening is accepted at an index exactly when it is of the commitment's own kind and equals the polynomial values there (every other value, index or kind is rejected without a crash), and two commitments are equal exactly when kind, length and all points agree.",
 I,"all polynomials, requested sizes, indices, openings of either kind by value or pointer",
 "Tests only create commitments of random polynomials; openings are checked only on the honest path, never with wrong kinds, interior zeros or wrong indices.",
 ["poly/commitment.go"],[("Create","poly/commitment.go"),("EvaluateAt/CheckOpening/ReturnOpeningIfConsistent","poly/commitment.go"),("Equal/StableRepresentation/VerifyIs","poly/commitment.go")],observe=["accept/reject, returned points and bytes"])
p("C11","Commitments and openings survive serialization unchanged",
 "Serializing any commitment or opening (Simple or Pedersen, any length, including points at infinity and zero scalars) and deserializing it gives back an equal object of the same kind, on which every operation gives the same answer as on the original; distinct objects never share a serialization. Truncated, corrupted-in-structure or unknown-kind inputs are rejected with an error and never yield a different object of zeros or a crash, and share kinds built from opening bytes carry exactly the opened values and are usable to create dealings.",
 I,"all commitments and openings, all truncations and structural corruptions of their encodings",
 "Tests round-trip one Simple opening and one Simple commitment of a single generator point.",
 ["poly/commitment.go","dealings/secret_shares.go","curve/scalar.go"],[("Serialize/Deserialize","poly/commitment.go"),("ToCommitmentOpeningBytes/ToCommitmentOpening","poly/commitment.go"),("Secret.From","dealings/secret_shares.go")],observe=["deserialized object, errors"],hook="commitment decoding is unexported; the harness adds an accessor file to package poly through go build -overlay")
p("C12","Honest zero-knowledge proofs always verify and interoperate",
 "For every witness, seed and associated data (any length), the proof of discrete-log equivalence, the proof of equal openings and the proof of product created from the witness verify against the statement it defines with the same associated data. The proofs are exactly sigma-protocol proofs whose challenge is the random oracle (with that proof's own domain separator) over all statement points, commitments and the associated data, so an independently written verifier accepts them and independently created proofs are accepted.",
 I,"all witnesses including zero and equal values, all seeds, associated data of any length, arbitrary bases",
 "Tests check one or two random witnesses per proof with one short associated data string.",
 ["zk/dlog.go","zk/equal_opening.go","zk/product.go"],[("Create/Verify/HashToChallenge","zk/*.go")],observe=["accept/reject on both the code's and the reference verifier"])
p("C13","Proofs are rejected for any other statement, context or proof kind",
 "A proof verifies only for the statement and associated data it was made for: changing any statement point, any byte or the length of the associated data, the challenge, any response, or the proof kind makes verification fail; the challenge binds every statement point, every commitment and the whole associated data, also for exceptional statements (zero secrets, points at infinity, equal points), so a proof whose challenge leaves one of them out or exchanges it is rejected; and so are proofs of false statements, simulated transcripts with a challenge not derived from the oracle, and commitments chosen after the challenge.",
 I,"all single-component changes of statement, proof and associated data (any length), false statements, and the listed forgeries",
 "Tests change the associated data once and never exercise long associated data, cross-kind proofs or forged transcripts.",
 ["zk/dlog.go","zk/equal_opening.go","zk/product.go","ro/ro.go"],[("Verify","zk/*.go"),("HashToChallenge absorbs every statement element","zk/*.go")],observe=["accept/reject"])
p("C14","MEGa encryption decrypts for the right recipient and only in its context",
 "For every list of one or more plaintexts and recipients, dealer index, associated data of any length and seed, each recipient decrypts exactly its own plaintext (single or pair) with its own key and index; the masks are the random-oracle values over mode, dealer, recipient, associated data, public key, ephemeral key and shared secret, so an independently written decryptor and encryptor interoperate. Decrypting with another key, public key, recipient index, dealer index or associated data never yields the plaintext, and mismatched list lengths, empty lists and out-of-range recipient indices are refused with an error.",
 I,"all plaintext vectors, recipient sets (1..hundreds), indices, associated data, seeds, and every single-parameter change on decryption",
 "Tests use two recipients, dealer 0 and one associated data string.",
 ["mega/ciphertext.go","mega/mega.go","mega/key.go"],[("EncryptCiphertextSingle/Pair","mega/ciphertext.go"),("Decrypt/DecryptFromSharedSecret","mega/ciphertext.go"),("megaHashToScalars","mega/mega.go")],observe=["plaintexts, errors"])
p("C15","A ciphertext whose proof of possession does not fit is rejected",
 "Validity checking, decryption and decrypt-and-check accept a ciphertext only if it has the expected number of recipients (validity check) and its proof of possession is valid for its own ephemeral key, proof key, encryption kind, dealer index and associated data. Changing any of these, replaying the proof from another ciphertext, dealer, kind or context, or replacing it by a forgery leads to an error.",
 I,"all single-component changes and cross-context replays of honest ciphertexts, for both kinds",
 "Tests check three tamperings of one single-kind ciphertext.",
 ["mega/ciphertext.go","mega/mega.go"],[("CheckValidity/VerifyPop/VerifyIs","mega/ciphertext.go, mega/mega.go")],observe=["accept/reject"])
p("C16","Honest dealings of every kind verify and carry the intended secret",
 "For every share kind, threshold 1..n, recipient count, dealer index, associated data and seed, the created dealing passes public verification for its transcript operation and private verification for every recipient; its commitment has exactly threshold points, its constant term commits to the dealer's secret (a fresh one for random dealings; the given share for resharing; the product for multiplication), and any threshold recipients' decrypted shares determine that secret. A threshold of zero or above the number of recipients, and unsupported share kinds, are refused with an error.",
 ["inputs","configurations"],"all share kinds, parameters and seeds",
 "Tests run one configuration per kind with 4-10 nodes and never open the dealing with an independent polynomial reconstruction.",
 ["dealings/dealings.go"],[("NewIDkgDealingInternal","dealings/dealings.go"),("PubliclyVerify/PrivateVerify","dealings/dealings.go")],observe=["verification results; independently decrypted shares and reconstructed secrets"])
p("C17","Dealings that do not fit their context are rejected, never crash",
 "Public verification rejects a dealing if its size, kind of commitment, ciphertext or proof, number of recipients, dealer index, associated data, previous transcript or any bound value does not match; private verification rejects exactly the recipients whose encrypted share does not open the commitment. No dealing obtained by combining or altering parts of dealings, including missing proofs and mismatched kinds, makes verification, opening or complaint generation crash.",
 ["inputs","fault_sequences"],"all dealings assembled from parts of honest and altered dealings, against all transcript operations, dealers, receiver counts and associated data",
 "Tests alter one ciphertext scalar or the dealer index; no test offers mismatched kinds, missing proofs or swapped parts.",
 ["dealings/dealings.go","mega/ciphertext.go","poly/commitment.go","dealings/zk_proof.go"],[("PubliclyVerify/PrivateVerify","dealings/dealings.go"),("CheckOpening","poly/commitment.go")],observe=["accept/reject/crash"])
p("C18","Transcripts conserve the shared secret",
 "A transcript combined from verified dealings commits to the sum of the dealt secrets (random), the same secret as its predecessor (both reshares, whichever sufficient dealer subset is used, at any new threshold) or the product of the two secrets (multiplication), with exactly as many points as the reconstruction threshold. Too few dealings, dealings of the wrong size or commitment kind, a reshare whose constant term differs, unsupported operations and predecessors of the wrong kind are refused with an error, and comparing transcripts is 0 exactly when their commitments are equal.",
 ["inputs","histories","configurations"],"all dealer subsets (with gaps), thresholds, chains of operations and ill-formed dealing sets",
 "Tests compare a few constant terms with contiguous dealers; they never know the underlying secrets, and transcript comparison is untested.",
 ["dealings/transcript.go","dealings/transcript_operation.go","dealings/combined_commitment.go"],[("NewTranscriptInternal","dealings/transcript.go"),("CombineCommitmentsViaInterpolation","dealings/transcript.go"),("Compare","dealings/transcript_operation.go")],observe=["transcript commitment against independently tracked secrets"])
p("C19","Every receiver obtains the share its transcript commits to",
 "Opening a transcript from verified dealings gives each receiver an opening that the transcript commitment accepts at its index, and any threshold of those openings interpolate to the transcript's secret; if some dealings cannot be decrypted, replacing them by shares reconstructed from any threshold (or more) of valid openings of other receivers gives the very same opening. Fewer openings than the threshold, or openings that are wrong or of the wrong kind, lead to an error rather than to a wrong share.",
 ["inputs","fault_sequences","configurations"],"all operations, dealer subsets, receivers, sets of provided openings including corrupted ones",
 "Tests reconstruct with one random subset per run and never offer wrong or mixed openings.",
 ["dealings/commitment.go","dealings/transcript.go"],[("FromDealings/FromDealingsAndOpenings/CombineOpenings","dealings/commitment.go"),("ReconstructShareFromOpenings","dealings/transcript.go")],observe=["openings against the harness's own share bookkeeping"])
p("C20","Complaints are issued and upheld exactly for bad shares",
 "Complaint generation returns a complaint for exactly those dealings whose share for the receiver does not open the commitment, and an error if there is none; each complaint verifies against its dealing, dealer, complainer, key and associated data. A complaint about a correct share is rejected, and so is any complaint presented with another dealing, dealer, complainer index, key, shared secret, proof or associated data of any length.",
 ["inputs","fault_sequences"],"all subsets of corrupted dealings and receivers, both ciphertext kinds, all single-parameter changes",
 "Tests have one complaint on one dealing with two wrong parameters.",
 ["complaints/complaints.go"],[("GenerateComplaints/NewComplaintInternal","complaints/complaints.go"),("Verify","complaints/complaints.go")],observe=["set of complaints; accept/reject"])
p("C21","A signature share verifies exactly when it is the signer's correct share",
 "Signature-share verification accepts the share a signer computes from its openings, and rejects a share with a changed numerator or denominator opening (value or mask), of another kind or with missing parts, from another signer, message, randomness, derivation path or presignature, or checked against other transcripts. Creating a share from openings of the wrong kind is refused with an error.",
 ["inputs","fault_sequences"],"all signers, messages, paths, randomness values, and all single-component changes",
 "Tests only call verification on honest shares, so a verifier that accepts everything passes.",
 ["sign/share.go"],[("NewThresholdEcdsaSigShareInternal","sign/share.go"),("Verify","sign/share.go")],observe=["accept/reject"])
p("C22","Any sufficient set of shares yields the same standard low-S signature",
 "Combining any set of at least the reconstruction threshold of correct shares yields one and the same signature for given transcripts, message hash, randomness and derivation path; it satisfies the library's verifier and standard ECDSA over secp256k1 for the derived public key and the message hash, and its s is in the lower half of the scalar range. Its r is the x coordinate of the rerandomized presignature point modulo the group order (for every point, also one whose x is not below the order), and the message representative is the leftmost 256 bits of the hash modulo the order. Fewer shares than the threshold are refused with an error, for message hashes, randomness and paths of any length.",
 ["inputs","configurations"],"all subsets of shares, thresholds, messages (hash lengths 0..64+), randomness lengths, derivation paths",
 "The test signs one message with all shares at threshold 3 of 10; s range and subset independence are not checked.",
 ["sign/combined_sig.go","sign/sign.go","sign/share.go","key/key_derivation.go"],[("NewThresholdEcdsaCombinedSigInternal","sign/combined_sig.go"),("DeriveRho/ConvertHashToInteger/EcdsaConversion/DerivePublicKey","sign/sign.go")],observe=["(r,s) against an independent ECDSA verifier and an independently computed signature"])
p("C23","Signature verification rejects every altered signature or context",
 "The combined-signature verifier accepts the signature produced for its message hash, randomness, derivation path, key and presignature, and rejects it if r or s is changed (including s replaced by n-s, zero values, and values valid under plain ECDSA but bound to another presignature), or if the message hash, randomness, path, key transcript or presignature transcript is changed, whatever their lengths.",
 I,"all single-component changes of signature and context",
 "Tests never call the verifier on anything but the honest signature.",
 ["sign/combined_sig.go","sign/sign.go"],[("ThresholdEcdsaCombinedSigInternal.Verify","sign/combined_sig.go")],observe=["accept/reject"])
p("C24","Key derivation is BIP32 public derivation extended to any index length",
 "For every public key and derivation path (any number of indices of any byte length) the derived key, chain code and tweak equal those of BIP32 public child derivation starting from the all-zero chain code, with derived key = master key + tweak*G; when an HMAC output is not a valid offset the next index is used, where the next index is the big-endian successor (growing on overflow). The signing code uses the same tweak, so signatures verify under the derived public key; malformed master keys are refused with an error.",
 I,"all keys, paths, index lengths, and forced invalid HMAC outputs",
 "Tests cover only the successor function; derivation values and the retry branch (probability 2^-127) are untested.",
 ["key/key_derivation.go","sign/sign.go"],[("DeriveTweak/ckdpub/Next","key/key_derivation.go"),("DerivePublicKey","sign/sign.go")],observe=["tweak, chain code, derived key"])
p("C25","Concurrent use of shared objects is race-free and changes no result",
 "Verifying, opening, encrypting, combining, signing and complaining concurrently from many goroutines on the same keys, dealings, commitments, transcripts, openings, proofs, seeds and signatures involves no data race, and every call returns the same result as when run alone.",
 ["schedules","inputs"],"all interleavings of concurrent calls on shared read-only protocol objects",
 "All tests are single-threaded.",
 ["curve/k256_scalar.go","curve/k256_point.go","curve/hash_to_curve.go","dealings/dealings.go","sign/share.go","complaints/complaints.go"],[("operations write only to fresh objects","all packages"),("package-level constants are read-only","curve/k256_scalar.go OrderHalf, curve/hash_to_curve.go K256C")],observe=["race detector reports; results against a sequential run"])
p("C26","Operations never modify their inputs",
 "Creating, verifying, decrypting, combining, opening, complaining, deriving and signing leave every argument (scalars, points, polynomials, keys, seeds, commitments, openings, dealings, maps, byte slices including spare capacity) with the value it had, so repeating any call gives the same result (a call depends on the values its arguments have at that moment, not on those they had in earlier calls), and objects returned by one call are not altered by later calls or by altering clones. A computed result (a sum, product, interpolation, evaluation, combination, clone, decoded value or proof) shares no mutable part with the arguments, the library's constants or other results, so updating it in place later changes nothing else; only accessors of parts and constructors that wrap their arguments share.",
 ["inputs","histories"],"all call sequences over shared protocol objects",
 "Tests use each object a few times in one fixed order, so a corrupted input usually goes unnoticed.",
 ["curve","poly","mega","dealings","complaints","sign","zk"],[("Clone before in-place arithmetic","all packages")],observe=["deep fingerprints of all arguments before and after each call"])
p("C27","Malformed input yields an error, never a crash",
 "Every decoder (scalars, points, tagged, SEC1, CBOR, commitment openings, commitments, MEGa keys, master public keys) returns normally on every byte string, and returns either an error or a value that re-encodes consistently. Parameters outside their documented range (thresholds, empty lists, mismatched counts, over-long wide-reduction inputs) yield an error rather than a crash.",
 I,"all byte strings, mutations of valid encodings, and out-of-range parameters",
 "Tests offer well-formed inputs almost exclusively.",
 ["curve/encode.go","curve/k256_point.go","curve/k256_scalar.go","curve/scalar.go","poly/commitment.go","mega/key.go","sign/sign.go"],[("length and tag checks","curve/*.go, poly/commitment.go, mega/key.go")],observe=["return value, error, crash"],hook="commitment decoding accessor as in C11")
p("C28","The whole signing protocol succeeds despite Byzantine dealers",
 "Running key generation, presignature generation and signing with any membership, thresholds and dealer subsets in which some dealers corrupt the shares of some receivers, honest receivers always recover through complaints and openings, all transcripts stay consistent with the secrets dealt, and the final signature verifies; the key survives resharing to new committees of any size and threshold unchanged and can keep signing for the same public key.",
 ["configurations","fault_sequences","histories"],"all committee sizes, thresholds, corruption patterns, reshare chains, messages",
 "Tests run one signing session and two reshare scripts with fixed sizes and a fixed seed.",
 ["dealings","complaints","sign","key","testutils/protocol_round.go"],[("protocol composition","dealings, complaints, sign")],observe=["events of the protocol run and a conservation ledger of secrets kept by the harness"])
p("C29","Secret randomness is fresh, separated and reproducible",
 "All outputs are deterministic functions of inputs and seed, and within one operation and across different seeds every secret random value (polynomial coefficients, masks, ephemeral keys, proof nonces, complaint nonces) is distinct from every other and from the secrets it protects. No proof nonce equals a key, mask or coefficient or is used for two different challenges when seeds differ.",
 ["inputs","histories"],"all seeds, share kinds, proof kinds, dealers and receivers",
 "Tests never extract nonces or compare secret values across operations.",
 ["dealings/dealings.go","mega/mega.go","zk/dlog.go","zk/equal_opening.go","zk/product.go","complaints/complaints.go","seed/seed.go"],[("seed.Derive with per-use labels","dealings/dealings.go, mega/mega.go, complaints/complaints.go")],observe=["nonces recovered from proofs with known witnesses; reconstructed polynomials"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
