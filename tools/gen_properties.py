#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Any quorum of signature shares combines into one valid low-S ECDSA signature",
  "For every committee size, threshold, message hash, randomness, derivation path and tolerated set of corrupted dealings, every set of at least the threshold of honest signature shares combines without error to one and the same pair (r, s), and fewer shares are refused with an error. That pair passes the library's own verification and is a standard low-S ECDSA signature on the hash (leftmost 256 bits) under the public key derived for that path, as judged by an independent ECDSA verifier.",
  ["inputs", "configurations", "fault_sequences"],
  "for all n, 1<=t<=n, message hashes (any length), randomness, derivation paths, node indices, share subsets, and corrupted-dealing patterns that leave a quorum of openings",
  "The protocol test runs one committee (10 nodes, threshold 3) with a fixed seed, a fixed path and all shares; it never varies subsets, thresholds, hash lengths, node indices or corruption patterns.",
  ["sign/share.go", "sign/combined_sig.go", "sign/sign.go", "dealings/transcript.go", "dealings/commitment.go", "curve/k256_scalar.go"],
  [("share creation", "sign/share.go:NewThresholdEcdsaSigShareInternal"), ("combination by Lagrange interpolation and low-S normalisation", "sign/combined_sig.go:NewThresholdEcdsaCombinedSigInternal"), ("verification", "sign/combined_sig.go:Verify")],
  ["combined signature R,S; errors of combine and verify"])

p("P02", "Combined-signature verification accepts exactly the valid signature of a context",
  "Verification of a combined signature succeeds exactly when r is the nonce the context dictates, s is non-zero and at most half the group order, and the ECDSA equation holds for the derived public key and that nonce point. Any other pair or context - altered r or s, s replaced by its negation, a zero component, a different message hash, randomness, derivation path, key transcript or presignature transcript - makes it return an error, never a panic.",
  ["inputs"],
  "for all valid signatures and all alterations of r, s and every context element (any length, any single bit)",
  "Existing tests verify one genuine signature and never present a forged, malleated or mismatched one, so every rejection path is untested.",
  ["sign/combined_sig.go", "sign/sign.go", "curve/k256_scalar.go"],
  [("range, low-S, nonce and equation checks", "sign/combined_sig.go:Verify"), ("high/low decision", "curve/k256_scalar.go:IsHigh")],
  ["error result of combined-signature verification"])

p("P03", "A signature share verifies exactly when it matches its signer's commitments",
  "A signature share made by an honest signer from its openings verifies for that signer in that context. A share with any altered component, or checked under a different signer, message hash, randomness, derivation path or transcript for which the commitments dictate another share, is rejected with an error; openings of the wrong kind are refused with an error when a share is made.",
  ["inputs", "configurations"],
  "for all transcripts, signers, contexts, and for all alterations of either half of the share or of any verification argument",
  "Existing tests only verify honest shares; a verifier that checks nothing passes them.",
  ["sign/share.go", "sign/sign.go", "dealings/zk_proof.go", "poly/commitment.go"],
  [("comparison of the share with the evaluated commitments", "sign/share.go:Verify"), ("share creation", "sign/share.go:NewThresholdEcdsaSigShareInternal")],
  ["error result of share verification"])

p("P04", "Presignature rerandomisation binds the whole signing context",
  "For every context all signers derive the same tweak, randomizer and nonce: the nonce point is the presignature's public point plus randomizer times the generator, and r is its x-coordinate reduced modulo the group order. The randomizer depends on every bit of the randomness, the message hash, the presignature point and the derived key tweak, whatever their lengths, so contexts differing in any of them get different nonces; a presignature transcript that is not an unmasked resharing is refused with an error.",
  ["inputs"],
  "for all message hashes, randomness strings (empty to beyond 255 bytes), paths, key and presignature points, and all single-bit changes of them",
  "Tests use one 32-byte hash and one 32-byte randomness value and never compare the nonces of two contexts.",
  ["sign/sign.go", "ro/ro.go", "key/key_derivation.go"],
  [("random-oracle derivation of the randomizer", "sign/sign.go:DeriveRho"), ("x-coordinate conversion", "sign/sign.go:EcdsaConversion"), ("hash conversion", "sign/sign.go:ConvertHashToInteger")],
  ["r, tweak, randomizer, nonce point"])

p("P05", "Honest dealings verify for everyone and share exactly the intended secret",
  "For each of the four kinds of dealing, every threshold from 1 to the number of receivers, every dealer index and associated data, an honestly created dealing passes public verification and passes private verification by every receiver. Its commitment has exactly threshold coefficients and commits to the dealt secret, each receiver decrypts the unique opening of the commitment at its index, and any threshold of those openings interpolates to the secret while threshold 0 or above the receiver count is refused with an error.",
  ["inputs", "configurations"],
  "for all kinds of secret, receivers n, thresholds 1<=t<=n, dealer indices over the 32-bit range, associated data of any length, secrets including 0 and boundary scalars, and seeds",
  "Tests create dealings for a handful of (n,t) with small dealer indices, 32-byte associated data and random secrets.",
  ["dealings/dealings.go", "dealings/secret_shares.go", "dealings/commitment.go", "mega/ciphertext.go", "poly/commitment.go"],
  [("dealing creation", "dealings/dealings.go:NewIDkgDealingInternal"), ("public verification", "dealings/dealings.go:PubliclyVerify"), ("private verification", "dealings/dealings.go:PrivateVerify"), ("opening", "dealings/commitment.go:OpenDealing"), ("secrets from openings", "dealings/secret_shares.go:From")],
  ["verification results, decrypted openings, commitment points"])

p("P06", "Dealing verification rejects every dealing that does not match what it claims",
  "Public verification rejects with an error, never a panic, a dealing whose threshold, receiver count, dealer index, associated data, operation kind, referenced transcript, commitment kind or length, ciphertext kind, proof of possession or resharing/product proof (wrong, missing or of another kind) does not match the arguments. Private verification rejects a dealing exactly for those receivers whose decrypted share is not the committed one, and rejects wrong keys, indices or associated data.",
  ["inputs", "fault_sequences"],
  "for all honest dealings of the four kinds and all single faults applied to a component of the dealing or to a verification argument, including combinations of components of two dealings",
  "Tests try a wrong dealer index, receiver count and associated data on fixed shapes; component swaps, missing proofs, kind mismatches and wrong base transcripts are not exercised.",
  ["dealings/dealings.go", "mega/ciphertext.go", "zk/equal_opening.go", "zk/product.go", "poly/commitment.go"],
  [("public verification", "dealings/dealings.go:PubliclyVerify"), ("private verification", "dealings/dealings.go:PrivateVerify"), ("ciphertext validity", "mega/ciphertext.go:CheckValidity")],
  ["error results of public and private verification"])

p("P07", "Transcript operations preserve the algebra of the shared secrets",
  "Over every history of operations - random generation, masked and unmasked resharing, multiplication, with any dealer subset of sufficient size, threshold changes, node removals and tolerated corrupted dealings - each transcript's secret equals, respectively, the sum of dealt secrets, the same secret, or the product, its commitment is consistent with every receiver's combined opening, and its length is the reconstruction threshold; transcripts compare equal exactly when their commitments do. Dealings that are too few, of the wrong kind or of the wrong commitment length are refused with an error.",
  ["histories", "configurations", "fault_sequences"],
  "for all sequences of transcript operations over committees of any size and threshold, with arbitrary dealer subsets and indices, against a model that tracks plain secrets",
  "Protocol tests run four fixed scripts with fixed sizes; other orders, subsets and thresholds are unsampled, and secrets are compared only between transcripts.",
  ["dealings/transcript.go", "dealings/commitment.go", "dealings/combined_commitment.go", "poly/lagrange.go"],
  [("transcript creation", "dealings/transcript.go:NewTranscriptInternal"), ("interpolation of commitments", "dealings/transcript.go:CombineCommitmentsViaInterpolation"), ("combination of openings", "dealings/commitment.go:CombineOpenings")],
  ["combined commitment, combined openings, errors"],
  [("transcript", "combined commitment of a multi-dealer operation", "dealings/transcript_operation.go:IDkgTranscriptInternal")])

p("P08", "A lost share is rebuilt from any quorum of openings, and never wrongly",
  "From openings of a dealing by any set of at least threshold receivers the share of any other index is rebuilt exactly and is consistent with the commitment, and combining shares with some dealings opened by others gives the same result as decrypting them all. Fewer openings or openings of the wrong kind yield an error, and whatever openings are supplied - altered, swapped or stale - the outcome is either an error or the true share, never one inconsistent with the commitment.",
  ["inputs", "fault_sequences"],
  "for all dealings of both commitment kinds, all opener subsets, target indices, numbers of openings and alterations of an opening",
  "Tests recover shares only inside the fixed protocol scripts with exactly threshold openings, all of them correct.",
  ["dealings/transcript.go", "dealings/commitment.go", "poly/lagrange.go"],
  [("share reconstruction", "dealings/transcript.go:ReconstructShareFromOpenings"), ("combination with provided openings", "dealings/commitment.go:FromDealingsAndOpenings")],
  ["recovered opening, errors"])

p("P09", "Complaints name exactly the bad dealings and only genuine ones verify",
  "For every set of dealings a receiver's complaints are exactly against the dealings whose share for that receiver is inconsistent with the commitment, and each such complaint verifies. A complaint about a good dealing, or one whose contents, dealer, complainer index, complainer key or associated data is altered, or which is presented for another dealing, is rejected with an error; complaints of one receiver, however many, do not give away its secret key.",
  ["inputs", "fault_sequences"],
  "for all dealing sets of both ciphertext kinds, corruption patterns, receivers and single alterations of a complaint or of its verification arguments",
  "The single complaint test has one corrupted dealing, one receiver and three wrong arguments.",
  ["complaints/complaints.go", "zk/dlog.go", "mega/ciphertext.go"],
  [("complaint generation", "complaints/complaints.go:GenerateComplaints"), ("complaint verification", "complaints/complaints.go:Verify")],
  ["set of complaints, error of complaint verification"])

p("P10", "Share encryption round-trips and is bound to its full context",
  "Every recipient of a single or pair ciphertext, using this library or an independent implementation of the scheme, decrypts exactly the plaintext meant for it, for every number of recipients, dealer index and associated data. Decryption with another key or recipient index does not yield that plaintext, decryption or validity checking under other associated data, another dealer, another ciphertext kind, recipient count or an altered possession proof is refused with an error, and mismatched or empty inputs are refused at encryption.",
  ["inputs"],
  "for all plaintext scalars, recipient counts, dealer indices over the 32-bit range, associated data of any length, seeds, and all single alterations",
  "Tests encrypt for two or three recipients with fixed associated data and check a few fixed wrong arguments.",
  ["mega/ciphertext.go", "mega/mega.go", "mega/key.go"],
  [("encryption", "mega/ciphertext.go:EncryptCiphertextSingle/EncryptCiphertextPair"), ("keystream derivation", "mega/mega.go:megaHashToScalars"), ("proof of possession", "mega/mega.go:VerifyPop"), ("decryption", "mega/ciphertext.go:Decrypt")],
  ["decrypted scalars, errors"])

p("P11", "Zero-knowledge proofs are complete, sound and bound to statement and data",
  "For each proof system (equal discrete logs, equal openings, product) a proof made from a true witness verifies for its statement and associated data. A proof is rejected with an error if any element of it, any element of the statement or the associated data (any bit, any length) is changed, if it was made from a witness that does not satisfy the relation, or if it was produced for another proof system's statement; its challenge is the hash of statement, data and nonce commitments under the system's own domain separator.",
  ["inputs"],
  "for all witnesses including zero and boundary scalars, bases, seeds, associated data of any length, and all single alterations",
  "Tests check one true and one false random witness per system and never alter proofs or long associated data.",
  ["zk/dlog.go", "zk/equal_opening.go", "zk/product.go", "ro/ro.go"],
  [("Fiat-Shamir challenge", "zk/*.go:HashToChallenge"), ("verification", "zk/*.go:Verify")],
  ["error of proof verification"])

p("P12", "Polynomial commitments open at every index to the evaluations and nothing else",
  "A commitment to a polynomial of at most the stated number of coefficients has that many points, its constant term commits to the constant coefficient, and at every node index it evaluates to the commitment of the polynomial's value there, so it accepts exactly the true opening and rejects any other value, mask, index or kind of opening. A polynomial that needs more coefficients is refused with an error, and commitments compare equal exactly when their points do, with a canonical byte representation that distinguishes kind, length and points.",
  ["inputs"],
  "for all polynomials (including zero, sparse and boundary coefficients), lengths, masks, node indices over the 32-bit range and alterations of openings",
  "Tests check creation for random dense polynomials and two fixed representation vectors; openings at arbitrary indices, sparse polynomials and rejections are not covered.",
  ["poly/commitment.go", "curve/k256_point.go"],
  [("commitment creation", "poly/commitment.go:Create"), ("evaluation in the exponent", "poly/commitment.go:EvaluateAt"), ("opening check", "poly/commitment.go:CheckOpening"), ("representation", "poly/commitment.go:StableRepresentation")],
  ["evaluated points, results of opening checks, bytes"])

p("P13", "Polynomials form a ring and interpolation inverts evaluation",
  "Addition, multiplication, scaling and equality of polynomials agree coefficient-wise with the ring of polynomials over the scalar field, and evaluation is a ring homomorphism. Interpolation through samples at distinct points returns the unique polynomial of least degree through them, for any sample values and order, repeated sample points are refused with an error, and no operation changes its operands other than the receiver.",
  ["inputs"],
  "for all coefficient lists (empty, zero, trailing zeros, boundary scalars), receivers distinct from or equal to operands, and all sample sets",
  "Tests use random dense polynomials and random abscissae; degenerate polynomials, zero differences and aliasing combinations are not sampled.",
  ["poly/poly.go"],
  [("ring operations", "poly/poly.go:Add/Mul/MulScalar"), ("Horner evaluation", "poly/poly.go:EvaluateAt"), ("Newton interpolation", "poly/poly.go:Interpolate")],
  ["coefficients, evaluations, errors"])

p("P14", "Lagrange interpolation recovers any polynomial's value at any point",
  "For every set of distinct node indices and every target value, including zero and values equal to a node, the coefficients interpolate scalars and points of any polynomial of degree below the set size to its exact value at the target, independently of the order of the nodes. Empty and repeated node sets and sample lists of the wrong length are refused with an error.",
  ["inputs"],
  "for all node-index sets over the 32-bit range, target values, polynomials and orders",
  "Tests sample random small indices and random polynomials, with no coefficient-level oracle and no target equal to a node.",
  ["poly/lagrange.go"],
  [("coefficients", "poly/lagrange.go:AtValue/AtZero"), ("interpolation", "poly/lagrange.go:InterpolateScalar/InterpolatePoint")],
  ["coefficients, interpolated values, errors"])

p("P15", "Scalar arithmetic and encodings are exact modulo the group order",
  "Every scalar operation (add, subtract, multiply, negate, invert, zero and high tests, equality, construction from integers and node indices, wide reduction) equals the operation on integers modulo the group order, with the inverse of zero being zero, for every input and for every aliasing of receiver and operands. A scalar's encoding is its fixed-length big-endian value, decoding accepts exactly the canonical encodings and refuses everything else with an error, and decoding inverts encoding in every format (plain, tagged, self-describing, byte containers).",
  ["inputs"],
  "for all scalars including 0, 1, n-1, the half-order boundary and sparse values, all aliasing patterns, and all byte strings of any length offered to the decoders",
  "Scalars have no tests of their own; operations are only exercised with random values through other packages.",
  ["curve/scalar.go", "curve/k256_scalar.go", "common/utils.go"],
  [("arithmetic", "curve/k256_scalar.go"), ("decoding", "curve/scalar.go:Deserialize/DeserializeTagged/FromBytesWide"), ("self-describing form", "curve/k256_scalar.go:MarshalCBOR/UnmarshalCBOR")],
  ["results as integers, bytes, errors"])

p("P16", "Base-field arithmetic and encodings are exact modulo the field prime",
  "Every field operation (add, subtract, multiply, square, negate, invert, conditional assignment, square root, sign, equality, wide reduction) equals the operation on integers modulo the field prime, with the inverse of zero being zero and a square root reported exactly for squares, for every input and aliasing. Encodings are fixed-length big-endian, decoding accepts exactly canonical encodings, and over-long input is never silently truncated.",
  ["inputs"],
  "for all field elements including 0, 1, p-1 and values near the modulus, all aliasing patterns and all byte strings offered to the decoders",
  "Tests sample random elements and a few identities; boundary values, aliasing and malformed encodings are not covered.",
  ["curve/fe.go", "curve/k256_fe.go"],
  [("arithmetic", "curve/k256_fe.go"), ("decoding", "curve/k256_fe.go:FromBytes/FromBytesWide")],
  ["results as integers, bytes, errors"])

p("P17", "Curve point operations implement the secp256k1 group",
  "Addition, subtraction, doubling, scalar multiplication, multiplication by a node index, two-term linear combination, the Pedersen and base-point shortcuts, equality and identity tests agree with the mathematical secp256k1 group for all points and scalars, including the identity, equal and opposite operands, zero and boundary scalars and every aliasing of receiver and operands. The two generators are fixed distinct points of the curve of full order.",
  ["inputs"],
  "for all points (identity, generators, opposite pairs, random), scalars, node indices up to 2^32-1 and aliasing patterns, against an independent implementation",
  "Tests check a few identities on random points; special-case operands, aliasing and an independent oracle are missing.",
  ["curve/point.go", "curve/k256_point.go"],
  [("group operations", "curve/k256_point.go"), ("generators and shortcuts", "curve/point.go")],
  ["affine coordinates and encodings of results"])

p("P18", "Point encodings are canonical and decoding accepts only points of the curve",
  "Encoding then decoding returns the same point in every format (compressed, uncompressed, tagged, self-describing), the identity included, and equal points have equal encodings. Any other byte string - wrong length or tag, coordinate not below the field prime, coordinates off the curve - is refused with an error, never a panic and never decoded to a different or invalid point.",
  ["inputs"],
  "for all points and for all byte strings of any length and tag, including bit flips, truncations and extensions of valid encodings",
  "Tests decode two known points and a few invalid tags at fixed lengths; off-curve, non-canonical and malformed inputs are not tried.",
  ["curve/point.go", "curve/k256_point.go", "curve/encode.go"],
  [("decoders", "curve/point.go:Deserialize/DeserializeTagged/DeserializeAnyFormat/FromFieldElems"), ("decompression", "curve/k256_point.go:decompress"), ("encoding container", "curve/encode.go")],
  ["decoded point, bytes, errors"])

p("P19", "Hashing to bytes, scalars, field elements and points follows RFC 9380",
  "Expansion of a message, hashing to scalars and field elements, and hashing to a curve point are deterministic and equal the expand-message-XMD (SHA-256), hash-to-field and simplified-SWU random-oracle constructions of RFC 9380 for secp256k1, for every message, domain separator (including oversize) and permitted length or count. The result always lies on the curve, and output lengths above the permitted maximum are refused with an error.",
  ["inputs"],
  "for all messages, domain separators of any length, output lengths up to the maximum and counts, against an independent implementation written from the RFC",
  "Tests compare a handful of RFC vectors with fixed separators and lengths.",
  ["seed/xmd.go", "curve/hash_to_curve.go"],
  [("message expansion", "seed/xmd.go:ExpandMessageXmd"), ("hash to field/scalar", "curve/hash_to_curve.go:HashToField/HashToScalar"), ("map to curve", "curve/hash_to_curve.go:MapToCurve"), ("hash to point", "curve/hash_to_curve.go:HashToCurveRo")],
  ["output bytes, scalars and points"])

p("P20", "The random oracle binds every named input injectively and order-independently",
  "The output depends only on the domain separator and the set of named, typed inputs, not on the order in which they were added, equals the documented framing hashed with the domain separator, and any difference in a name, type, content, number of inputs or domain separator gives a different output. Inputs of any length are accepted and bound; a repeated, empty or over-long name and an oracle with no input are refused with an error and leave the oracle unchanged.",
  ["inputs", "histories"],
  "for all sequences of add operations of every type, names of 1 to 255 bytes, inputs from empty to thousands of bytes, orders, and output kinds and lengths",
  "One fixed vector and one duplicate-name case are tested; order, long inputs, framing ambiguities and rejections are not.",
  ["ro/ro.go"],
  [("framing", "ro/ro.go:AddInput/formRoInput"), ("outputs", "ro/ro.go:OutputScalars/OutputByteString/OutputPoint")],
  ["oracle outputs, errors"],
  [("inputs", "name to encoded input, in name order", "ro/ro.go:RandomOracle")])

p("P21", "Seeds and generators are deterministic, domain separated and chunk independent",
  "Equal seed inputs give equal seeds, derived seeds, scalars, keys and byte streams, and different inputs, domain separators or derivation chains give different ones. A generator's bytes are the ChaCha20 key stream for its seed, do not depend on how reads are split or on the previous contents of the buffer being filled, and scalars drawn from it are the canonical values of successive 32-byte blocks.",
  ["inputs", "histories"],
  "for all seed inputs and lengths, domain separators, derivation chains, and all splittings of reads across the generator's methods",
  "Two fixed vectors are tested, with zeroed buffers and single reads.",
  ["seed/seed.go", "seed/xmd.go", "rand/chacha20.go", "curve/scalar.go", "mega/key.go"],
  [("seed derivation", "seed/seed.go:NewSeed/Derive/FromRng"), ("stream", "rand/chacha20.go"), ("scalar sampling", "curve/scalar.go:Random")],
  ["bytes, scalars"])

p("P22", "Public-key derivation follows BIP32 and matches the signing tweak",
  "For every master key and derivation path (of any number of indices, each of any length) the derived public key and chain key are those of iterated BIP32 public child derivation from a zero chain key, the tweak times the generator is exactly the difference between derived and master keys, and a path given as 32-bit integers equals its big-endian byte form. An invalid master key is refused with an error, and an index's successor is its big-endian increment, growing by one byte on overflow.",
  ["inputs"],
  "for all master public keys, path lengths, index byte strings and 32-bit index values, against an independent HMAC-SHA512 derivation",
  "Only the index successor is tested, on five values; derivation itself has no test.",
  ["key/key_derivation.go", "sign/sign.go"],
  [("child derivation", "key/key_derivation.go:ckdpub/DeriveTweak"), ("public derivation", "sign/sign.go:DerivePublicKey"), ("index successor", "key/key_derivation.go:Next")],
  ["derived key, chain key, tweak"])

p("P23", "Serialised openings, commitments and keys decode to equal values or fail cleanly",
  "Every opening (both kinds), commitment, scalar, point and key that is serialised decodes to an equal value of the same kind, including zero scalars and identity points. Any other byte string - random, truncated, extended, mutated, of another kind or with missing, null, non-canonical or off-curve contents - produces an error or a well-formed value that re-serialises to an equal value, never a panic and never a value that silently differs from what was encoded.",
  ["inputs"],
  "for all openings, commitments, keys, scalars and points, and all byte strings reached by structured mutation of their serialisations",
  "Tests round-trip one simple opening and one simple commitment; pairs, identity points and malformed data are untested.",
  ["poly/commitment.go", "curve/k256_point.go", "curve/k256_scalar.go", "mega/key.go"],
  [("openings", "poly/commitment.go:commitmentOpening.Deserialize/Serialize"), ("commitments", "poly/commitment.go:polynomialCommitment.Deserialize/Serialize"), ("keys", "mega/key.go:Deserialize")],
  ["decoded values, errors, re-serialised bytes"])

p("P24", "Operations leave their inputs unchanged and may run concurrently on shared data",
  "Creating, verifying, opening, combining, complaining, proving, interpolating, evaluating, serialising and signing never change the values passed to them (secrets, keys, dealings, commitments, transcripts, openings, associated data), and clones are independent of their originals. Repeating an operation on the same inputs therefore gives the same result, and read-only operations executed concurrently on shared inputs give the same results as executed alone, with no data race.",
  ["inputs", "histories", "schedules"],
  "for all operations of the public interface, generated arguments, repetition orders and concurrent mixes of read-only operations on shared objects",
  "Tests call each operation once on fresh values, so in-place mutation of an argument or a shared clone goes unnoticed.",
  ["curve/k256_scalar.go", "curve/k256_point.go", "poly/poly.go", "poly/commitment.go", "mega/ciphertext.go", "zk/dlog.go", "dealings/dealings.go", "dealings/transcript.go", "sign/share.go", "sign/combined_sig.go", "complaints/complaints.go"],
  [("defensive clones before in-place arithmetic", "curve/k256_scalar.go:Clone, curve/k256_point.go:Clone, throughout")],
  ["encodings of all inputs before and after each operation; race detector"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
