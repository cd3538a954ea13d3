#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one call of P(...) per property).
import json
out=[]
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    out.append(d)

P("C01","Calls never modify caller-supplied data, and results do not alias it",
 "No public operation changes any byte of memory the caller passed in (private and public keys, messages, identifiers, signatures, scalars, points, ciphertexts, salts, configuration), including unused capacity behind a slice; only parameters documented as outputs, and the receiver of an object whose state the method is meant to change, are written. No byte slice returned by the top-level API shares memory with an argument.",
 ["inputs","histories"],"for every argument value, length, capacity and selector, and every later use of the caller's buffers",
 "Tests pass literals without spare capacity and never look at their arguments again; a write into an argument only shows for particular capacities, key values or later reuse.",
 ["eccset.go","hashset.go","ecdsa.go","utils.go","sm2_std.go","eddsa/*.go","pasta/*.go","bls12_381/*.go","blake*/","sha3/","sm3/"],
 [("inputs are copied into fresh buffers before clamping, reversing, appending","eddsa/*.go, ecdsa.go, sm2_std.go"),("domain prefix prepended to a fresh slice","eccset.go Signature/Verify")],
 ["caller's buffers after any call"])

P("C02","Operations keep no shared mutable state",
 "After package initialisation no operation writes process-wide memory, and no result gives the caller a reference to it. Every operation's result therefore depends only on its arguments and fresh randomness, never on earlier calls, and calls from different goroutines on different objects cannot race.",
 ["schedules","histories"],"for every interleaving of calls from any number of goroutines and every earlier call history",
 "Tests call each operation once, sequentially; a write to shared curve parameters, tables or scratch state shows only under particular interleavings or call sequences.",
 ["init.go","curve.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/","bls12_381/","eddsa/"],
 [("curve parameters are set once during initialisation","init.go, curve.go"),("temporaries are allocated per call or per engine object","sm2_std.go, bls12_381/bls/")],
 ["package-level variables and what they point to"])

P("C03","Malformed input is rejected, never a crash",
 "For every byte string of any length (nil and empty included) given as key, message, identifier, signature, point, scalar, ciphertext or peer value, every public key-handling, signature, encryption, key-agreement, point and hash operation returns normally. It reports failure through its documented result instead of panicking or looping forever on an index, slice, nil or inverse-of-nothing error.",
 ["inputs"],"for every argument value and length, and every selector value",
 "Tests only use well-formed arguments; the failing lengths and values (empty ciphertext, non-residue abscissa, r = 0, off-curve key) are never sampled.",
 ["eccset.go","ecdsa.go","utils.go","secp256k1.go","secp256r1.go","sm2_std.go","eddsa/","pasta/","bls12_381/","hashset.go"],
 [("length and range checks ahead of every index and slice","eccset.go, ecdsa.go, sm2_std.go, eddsa/*.go, pasta/pasta.go"),("error results of point decoding checked before use","bls12_381/*.go, pasta/*.go")],
 ["return of every exported function"])

P("C04","Failure is never reported as success, and yields no output",
 "Whenever any step of a public operation fails (a decoding, a range check, a randomness read, an integrity check), the operation returns its failure indication, and never a success code or nil error. An operation that reports failure returns no key, plaintext, signature or point, and one that reports success returns a complete result.",
 ["inputs","fault_sequences"],"for every argument value and every failing sub-step, including failures of the operating system's random source",
 "Tests drive only the success path; each dropped error matters for one rare failure (bad padding, exhausted random source, non-point input).",
 ["eccset.go","ecdsa.go","utils.go","sm2_std.go","eddsa/","pasta/","bls12_381/"],
 [("error results propagated and mapped to return codes","eccset.go"),("errors returned by the scheme packages","ecdsa.go, sm2_std.go, eddsa, pasta, bls12_381")],
 ["return codes and error results"])

P("C05","Every selector reaches its own scheme, and unknown selectors are refused",
 "For every public operation and every 32-bit selector value, the operation runs exactly the scheme the selector names, with that scheme's curve, identifier and domain-separation tag, on the caller's own arguments in their own roles. For every selector the operation does not support it runs nothing and returns the documented wrong-type indication.",
 ["inputs","configurations"],"for each of the 2^32 selector values of each operation",
 "Tests exercise four of the selectors and no unsupported one; a swapped or shared case arm stays invisible.",
 ["eccset.go","hashset.go","ecdsa.go","profile.go"],
 [("switch on the selector","eccset.go, hashset.go"),("selector values","profile.go")],["callee and arguments per selector"])

P("C06","Hash and HMAC selectors compute exactly the named composition",
 "For every message and every selector, the hash result is the named digest function, at its named length, of exactly the message bytes (for the composed selectors, exactly the documented chain of two digests), and the HMAC result is the named digest's HMAC of the message under the given key with the arguments in that order. The variable-length digest honours the requested length over the whole range it supports and no other selector depends on the requested length.",
 ["inputs","configurations"],"for every message, requested length and selector",
 "No test asserts any digest; swapping two digest variants, truncating, or dropping the second pass passes the suite.",
 ["hashset.go","profile.go"],[("selector switch constructing the digest","hashset.go Hash, Hmac")],["Hash, Hmac results"])

P("C07","Curve and field constants are the published ones",
 "Every hard-coded domain parameter (primes, orders, coefficients, generators, cofactors, Montgomery and endomorphism constants, square-root exponents, initial hash values, round constants, permutations) and every entry of every precomputed table equals the value fixed by the algorithm's specification or derived from it by its defining relation. The order reported for a curve is the order its arithmetic uses.",
 ["inputs","configurations"],"for every entry of every table, so for every input that would select it",
 "One wrong entry in a table of a thousand is met only by scalars that select it; the suite tries a handful of fixed scalars.",
 ["secp256k1.go","secp256r1.go","sm2_std.go","eddsa/edwards25519/const.go","eddsa/*.go","pasta/const.go","pasta/poseidon_3w.go","bls12_381/bls/*.go","blake256/","blake512/","blake2s/","sha3/keccakf.go","sm3/","eccset.go"],
 [("package-level constant and table initialisers","the listed files")],["values of the initialised variables"])

P("C08","ECDSA signing and verification follow the ECDSA equations",
 "On the two ECDSA curves a signature is accepted exactly when both halves lie between 1 and the group order minus 1, the public key is a point of the curve, and the abscissa of (e/s)G + (r/s)Q reduced modulo the order equals r. Every signature produced has r equal to the reduced abscissa of kG, s equal to (e + r d)/k or its negative, is never zero, has s at most half the order, and its recovery bit is the parity of the nonce point, flipped exactly when s was negated.",
 ["inputs"],"for every key, 32-byte digest, signature and nonce",
 "No test asserts an ECDSA result; boundary values of r and s and the negated-s branch need chosen values.",
 ["ecdsa.go","utils.go"],[("range checks and verification equation","utils.go verifyesdsa, verifyGeneric"),("signing equation, low-s and recovery bit","utils.go signGeneric"),("digest to integer","utils.go hashToInt")],["Verify, Signature"])

P("C09","SM2 signing and verification follow the standard's equations",
 "With e the digest input to the equation, an SM2 signature is accepted exactly when r and s lie between 1 and the order minus 1, r + s is not a multiple of the order, the public key is a point of the curve, and (e + x) mod n equals r for x the abscissa of sG + (r+s)Q. Every produced signature has r = e + x(kG), s = (k - r d)/(1 + d) modulo the order, with none of r, r + k and s congruent to zero.",
 ["inputs"],"for every key, identifier, message, signature and nonce",
 "No test touches SM2; r + s = n and r + k = n happen with negligible probability in sampled runs.",
 ["sm2_std.go","ecdsa.go"],[("signing and verification equations","sm2_std.go sm2_std_sign, sm2_std_verify")],["Verify, Signature"])

P("C10","SM2 identity digests bind the parties and the curve",
 "The identity value used by SM2 signing, verification and both key-agreement roles is the hash of the identifier's bit length as two big-endian bytes, the identifier, both curve coefficients, both base-point coordinates and both public-key coordinates, each 32 bytes, in that order, for the key of the party concerned. Signer and verifier prepend it to the message in the same way.",
 ["inputs"],"for every identifier, key and message",
 "No test touches SM2, and a transcript changed consistently on both sides still verifies.",
 ["sm2_std.go"],[("identity hash","sm2_std.go"),("its use","sm2_std.go sign, verify, key agreement")],["hash input bytes"])

P("C11","SM2 encryption releases plaintext only for an authentic ciphertext",
 "Ciphertexts are the uncompressed ephemeral point, then the hash over shared abscissa, plaintext and shared ordinate, then the masked text; the mask is the counter-mode key derivation of the two shared coordinates, and decryption inverts exactly this layout. Decryption returns plaintext only if the ephemeral point was decoded as a point of the curve and the hash matches; otherwise it returns a failure and no plaintext.",
 ["inputs"],"for every key and every ciphertext of every length",
 "No test encrypts or decrypts; tampered, short and off-curve ciphertexts are never tried.",
 ["sm2_std.go","ecdsa.go","eccset.go"],[("encrypt, decrypt, kdf","sm2_std.go")],["Encryption, Decryption"])

P("C12","SM2 key agreement derives the standard's key and confirms it",
 "Both roles compute the shared point from their own static and ephemeral secret and the peer's static and ephemeral public point with the truncated-abscissa weights, derive the key from its coordinates followed by the initiator's then the responder's identity value, and compute the two confirmation values over the same transcript with the two distinct tags. A role that receives a wrong confirmation value reports failure and releases no key, and peer points that are not on the curve are refused.",
 ["inputs","histories"],"for every pair of identities, keys, ephemeral values, key length and confirmation value",
 "No test runs the protocol; role asymmetry, tag order and the mismatch path need two-party runs with altered messages.",
 ["sm2_std.go","eccset.go"],[("initiator and responder steps","sm2_std.go sm2_std_ka_*")],["KeyAgreement_* results"])

P("C13","Secret nonces come fresh from the system random source",
 "Every ephemeral secret that randomises a signature, encryption or key exchange depends on bytes drawn anew on each call from the operating system's cryptographic random source, in the full length its scheme asks for (the ECDSA and SM2 signing nonces are expanded from fresh entropy, key and digest; the X25519 nonce and the hedged Edwards nonce hash fresh bytes with the key; ED25519_NORMAL and Curve25519-SHA256 are deterministic and draw none), with a failed read aborting the operation; a caller-supplied value is used only where the interface asks for one. A secret used as drawn is a nonzero value below the group order, and a secret is never reused in a retry and never returned except where the interface hands it to its owner.",
 ["inputs","histories","fault_sequences"],"for every call, every retry and every failure of the random source",
 "Repeated or predictable nonces still produce signatures that verify.",
 ["utils.go","sm2_std.go","eddsa/*.go","pasta/","bls12_381/"],[("crypto/rand reads","utils.go signecdsa, sm2_std.go, eddsa, pasta/mina.go")],["origin of each nonce"])

P("C14","Edwards-curve signatures follow their equations and bind their transcript",
 "For each of the four Curve25519-family signature schemes, verification accepts exactly when the decoded public key, the scalar half of the signature (restricted to values whose top three bits are zero) and the challenge computed from the scheme's own transcript (nonce point, public key, message, in the scheme's order and hash) satisfy the scheme's equation. Signing computes the nonce point, challenge and scalar from the same transcript and the secret key so that this equation holds.",
 ["inputs"],"for every key, message and signature",
 "Only determinism of one scheme is printed; a challenge that omits the key or the message, or a missing range check, passes.",
 ["eddsa/curve25519.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go"],
 [("sign and verify of each scheme","eddsa/*.go")],["Signature, Verify"])

P("C15","BLS signatures bind key, message, domain and subgroup",
 "A BLS signature is accepted only after both the public key and the signature decoded as points of the right subgroup, and only when the pairing equation between the generator, the signature, the key and the message's hash point under the selected scheme's tag holds; in the augmented scheme the signed bytes are the public key followed by the message, for signing and verifying alike. Point decoding accepts exactly the canonical compressed form: correct length, flag bits, reduced coordinate, point on the curve and in the subgroup.",
 ["inputs"],"for every key, message, signature and encoding",
 "Tests use a few valid signatures; non-subgroup, non-canonical and infinity encodings are never tried.",
 ["bls12_381/*.go","bls12_381/bls/g1.go","bls12_381/bls/g2.go","eccset.go"],
 [("verification and decoding","bls12_381/bls12-381.go, bls12_381/g1.go, g2.go, bls/g1.go, bls/g2.go")],["Verify, Signature, AggregateSignatures"])

P("C16","Mina signatures follow their equation and bind their transcript",
 "A Mina signature is accepted exactly when the public key decodes to a curve point, both signature halves are canonical, and sG - eQ has an even ordinate and abscissa equal to the nonce half, where e hashes message, key and nonce abscissa under the network's prefix. Signing uses a fresh nonce, negated when its point has odd ordinate, and the same challenge. The package's point operations decode points the same way and return exactly the sum or the multiple, or an error for the identity.",
 ["inputs"],"for every key, message and signature",
 "Two fixed messages are signed and verified; a challenge ignoring the key or nonce, or an accepted invalid encoding, passes.",
 ["pasta/"],[("sign, verify, hash","pasta/*.go")],["Signature, Verify"])

P("C17","Encodings have fixed width and are big-endian left-padded",
 "Every public key, point, scalar, signature and shared value the library outputs for the Weierstrass curves has the documented constant length, with each integer right-aligned and zero-filled in its own field, whatever number of leading zero bytes it has. Hash transcripts use the same fixed-width form.",
 ["inputs"],"for every value, in particular those with leading zero bytes (about one key in 256)",
 "Sampled values rarely have leading zero bytes, and never in the second coordinate of the third operand.",
 ["ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","eccset.go","pasta/"],[("padding loops and right-aligned copies","the listed files")],["lengths and alignment of outputs"])

P("C18","Decoded and recovered points are valid curve points",
 "Decompression returns the unique curve point with the given abscissa and parity bit, and fails when the prefix byte is wrong, the abscissa is not reduced, or no such point exists. Public-key recovery returns only the key for which the signature verifies, and refuses out-of-range halves and abscissae that are no nonce point.",
 ["inputs"],"for every 33-byte string and every signature and digest",
 "No test decompresses or recovers for the Weierstrass curves; half of all abscissae have no point.",
 ["secp256k1.go","secp256r1.go","sm2_std.go","pasta/","eccset.go"],[("decompress and recover","secp256k1.go, secp256r1.go, sm2_std.go")],["PointDecompress, RecoverPubkey"])

P("C19","Hash objects honour the streaming contract",
 "For every hash object of the library, reading the digest leaves the object's state unchanged and appends the digest to the given slice, resetting restores exactly the state of a new object with the same parameters, writing never fails and reports all bytes consumed, and the reported digest and block sizes are those of the algorithm. Digests are independent of how the message was split into writes.",
 ["inputs","histories"],"for every sequence of write, sum, reset and size calls and every message split",
 "Tests hash in one call and never continue after reading the digest.",
 ["blake256/blake256.go","blake512/blake512.go","blake2s/blake2s.go","sha3/sha3.go","sm3/sm3.go"],[("Write, Sum, Reset, Size, BlockSize","the listed files")],["hash.Hash methods"])

P("C20","Hash functions equal their specifications",
 "For every message, salt, key and parameter set, BLAKE-224/256/384/512, BLAKE2s (keyed, salted, personalised and tree-configured included), SM3, Keccak, SHA-3 and SHAKE return exactly the digest their specifications define: compression function or permutation, message padding, length and counter encoding, block boundaries, finalisation and truncation. In particular one compression equals its specification for every chaining value, message block, counter and salt.",
 ["inputs"],"for every chaining state, block, counter and salt",
 "No test asserts these digests; an error limited to one round word or one counter half needs particular inputs.",
 ["blake256/blake256block.go","blake512/blake512block.go","blake2s/block.go","sm3/sm3.go","sha3/keccakf.go"],[("round code","the listed files")],["chaining value after one block"])

P("C21","Edwards25519 field and scalar arithmetic is exact and never overflows",
 "For every pair of field elements within the documented limb bounds, addition, subtraction, negation, multiplication, squaring and encoding return a representative of the exact result modulo 2^255-19 within the bounds the next operation needs, with no intermediate overflow; scalar reduction and multiply-add are likewise exact modulo the group order, in every copy of that code.",
 ["inputs"],"for all limb values within bounds",
 "Carry and limb errors show for a vanishing fraction of inputs.",
 ["eddsa/edwards25519/edwards25519.go","eddsa/x25519.go"],[("limb arithmetic and carry chains","the listed files")],["limb values"])

P("C22","Group-law formulas compute the group law",
 "On the BLS12-381 groups G1 and G2, the Pallas curve of the Mina scheme, secp256k1, SM2 and Edwards25519 (package edwards25519), the doubling, addition, mixed addition, subtraction, negation, comparison, on-curve and coordinate-conversion routines agree, for all points in every scaling of their projective coordinates, with the group law of the curve: generic, equal, opposite and identity operands included, and for every sharing of storage between operands and destination. Scalar multiplication on secp256k1 and SM2, and fixed-base, double-scalar and two-point multiplication on Edwards25519, yield the multiple their scalars name.",
 ["inputs"],"for all pairs of points, coordinates and operand coincidences",
 "A wrong term in a formula reached only by equal, opposite or identity points is invisible to random scalars.",
 ["secp256k1.go","sm2_std.go","eddsa/edwards25519/edwards25519.go","pasta/crypto.go","bls12_381/bls/g1.go","bls12_381/bls/g2.go"],[("point formulas","the listed files")],["coordinates as rational functions"])

P("C23","Extension-field arithmetic of the pairing is exact",
 "Every operation of the pairing's quadratic, sextic and twelfth-degree extension fields returns, for all operands and for every aliasing of output and inputs its callers use, exactly the result fixed by the field's defining polynomials.",
 ["inputs"],"for all operands and aliasings",
 "Three signing vectors exercise these formulas only on generic operands.",
 ["bls12_381/bls/fp2.go","bls12_381/bls/fp6.go","bls12_381/bls/fp12.go"],[("tower formulas","the listed files")],["coefficients as polynomials"])

P("C24","Prime-field arithmetic of the Pasta curves is exact",
 "For all reduced operands, the addition, subtraction, negation, Montgomery multiplication, squaring and conversion routines of both Pasta fields return the reduced representative of the exact result modulo their own prime.",
 ["inputs"],"for all 256-bit operands below the modulus",
 "A wrong carry or modulus limb shows for rare operand patterns.",
 ["pasta/pasta_fp.go","pasta/pasta_fq.go"],[("word-level arithmetic","the listed files")],["limb values"])

P("C25","SM2 prime-field limb arithmetic is exact and never overflows",
 "For all operands within the documented limb bounds the SM2 field routines (addition, subtraction, multiplication, squaring, carry reduction, conversion from and to integers) return a representative of the exact result modulo the SM2 prime, within the bounds the next operation needs, with no machine-word overflow that changes it.",
 ["inputs"],"for all limb values within bounds",
 "Carry errors show for a vanishing fraction of operands.",
 ["sm2_std.go"],[("nine-limb arithmetic","sm2_std.go")],["limb values"])

P("C26","Every valid signature verifies",
 "For every private key a scheme accepts and every message, the signature the library produces verifies under the public key the library derives from that private key, and fails under any other message or key except with negligible probability.",
 ["inputs"],"for all keys and messages",
 "A handful of fixed keys are tried for three of the schemes.",
 ["eccset.go"],[("whole stack","repository")],["Signature then Verify"])

P("C27","Secret-dependent work is constant time",
 "Running time and memory access pattern of operations on private keys and nonces do not depend on their values.",
 ["inputs","schedules"],"for all secret values",
 "Tests do not measure time.",
 ["utils.go","sm2_std.go","eddsa/","pasta/","bls12_381/"],[("none for the big-integer curves","repository")],["timing"])

P("C28","Assembly and portable code compute the same function",
 "The processor-specific routines (pairing base field, Keccak permutation) return for every input the same value as the portable routines they replace, on every processor variant they select between.",
 ["inputs","configurations"],"for all operands and processor features",
 "Tests run one processor variant on few operands.",
 ["bls12_381/bls/arithmetic_x86.s","sha3/keccakf_amd64.s"],[("assembly routines","the listed files")],["register results"])

P("C29","The pairing engine computes the optimal ate pairing product",
 "Each doubling and addition step of the Miller loop moves the running point by the group law and yields the tangent or chord line through it (up to factors the final exponentiation removes); the loop multiplies, over any number of pairs added in either orientation, the squares and lines in the order the curve parameter's bits prescribe and skips pairs containing the identity; the final exponentiation raises to a fixed multiple, coprime to the group order, of (p^12-1)/r; and Result, Check, AddPair, AddPairInv and Reset expose exactly that product.",
 ["inputs","history"],"for all pairs and any sequence of additions and resets",
 "Signing vectors pair two or three fixed points; identity pairs, reused engines and inverted pairs are never exercised.",
 ["bls12_381/bls/pairing.go","bls12_381/bls/gt.go"],[("Miller loop and final exponentiation","bls12_381/bls/pairing.go")],["line coefficients","engine pair list"])

P("C30","Edwards25519 decoding, conversions and the Montgomery ladders follow the curve",
 "For every 32-byte encoding, the two Edwards point decoders (edwards25519 FromBytes, and the negating one of package eddsa) accept exactly when an abscissa exists for the encoded ordinate and store the extended coordinates of the point (respectively its negative) whose sign bit is the one encoded; the inversion and square-root chains raise to the exponents they stand for; conversion between Edwards ordinates and Montgomery abscissas is the birational map, and refuses abscissas that are not reduced; Point_add and ScalarMultBaseAdd of package eddsa yield the encoding of the exact sum, and report the identity; and the Montgomery ladders of curve25519_sha256.go return the abscissa of k G, of k P for a given P, and of v P + h G (of the two points with the given abscissa, the one with even ordinate), with differential addition and doubling formulas that hold for every point.",
 ["inputs"],"for all encodings and points; for the ladders, all points and a list of scalars",
 "Tests convert and add a few fixed keys; non-square ordinates, the second square-root branch, and sums that are the identity are not sampled.",
 ["eddsa/x25519.go","eddsa/ed25519.go","eddsa/convert.go","eddsa/curve25519_sha256.go","eddsa/edwards25519/edwards25519.go"],[("point decoding","eddsa/edwards25519/edwards25519.go, eddsa/x25519.go"),("ladders","eddsa/curve25519_sha256.go core and Verify")],["decoded coordinates","ladder points"])


open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in out))
print(len(out))
