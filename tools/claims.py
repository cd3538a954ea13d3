CLAIMS={
"C01":("interprocedural write-effect and alias analysis on SSA","other","Decides, for every exported function on every path, that no memory reachable from a non-output parameter is written; trusts models of the standard library and that assembly writes only its first operand."),
"C02":("interprocedural global-state effect and escape analysis on SSA","other","Decides that no exported function can reach a write to package-level memory after initialisation; trusts models of the standard library and sync.Once."),
"C04":("gated value-graph abstract interpretation of SSA with condition diagrams, and an error-flow lint","other","Derives for every public operation, selector and argument the conditions of success and of each output and decides that they agree and that success excludes the failure of every step taken; over all functions of the library decides that no error result is dropped; trusts models of the standard library and that a scheme function returns nil bytes with an error."),
"C05":("gated value-graph abstract interpretation of SSA with the scheme packages as uninterpreted functions","other","Derives, for each operation and selector, which scheme function runs, on which arguments and with which tag, and for the Weierstrass code which curve reaches the result; one evaluation with an unconstrained selector covers every unsupported value."),
"C06":("gated value-graph abstract interpretation of SSA, compared with a written composition","other","Derives, for every selector and an unconstrained message, key and length, the symbolic value returned by Hash/HMAC (digest constructors and HMAC as uninterpreted atoms) and compares it with the documented composition; the digest cores themselves are C07/C19/C20."),
"C07":("constant folding of package initialisers on SSA (abstract interpretation) against independently derived values","other","Folds the initialiser of every table and domain parameter to numbers and compares every entry with the value its specification or defining relation gives; constants inside assembly are not read; the Poseidon tables are compared with a recorded digest and with the initial states they must produce."),
"C08":("gated value-graph abstract interpretation of SSA with group/residue normal forms","other","Derives the symbolic (r, s) and error returned by signing for all message/key lengths and compares them with the scheme's equations modulo the group order; group law, hashes and math/big are algebraic models."),
"C09":("gated value-graph abstract interpretation of SSA with condition diagrams","other","Derives the exact condition under which verification returns SUCCESS and compares it as a Boolean function with the scheme's acceptance condition (ranges, on-curve, point equation)."),
"C10":("gated value-graph abstract interpretation of SSA, compared with the transcript terms of the standard","other","Derives the symbolic ZA and message-hash terms for any ID, key and message length and compares them with the GM/T 0003 construction; SM3 and group law are uninterpreted atoms."),
"C11":("gated value-graph abstract interpretation of SSA with loop invariants and residue normal forms","other","Derives the ciphertext layout and masked text, the decryption output and its exact acceptance condition, and compares both with the SM2 encryption equations; group law, SM3 and randomness are algebraic models."),
"C12":("gated value-graph abstract interpretation of SSA with group/residue normal forms","other","Derives the shared key, both confirmation hashes and the acceptance conditions of the three key-agreement steps and compares them with the standard's formulas; group law and SM3 are algebraic models."),
"C13":("gated value-graph abstract interpretation of SSA with taint from random reads, and call-graph effect analysis","other","Recovers each ephemeral secret from the symbolic output and decides that it is a function of every byte of a fresh draw from crypto/rand, in range where used directly, with success excluding a failed read; decides over the whole program that no other random source and no state between calls feeds it; trusts crypto/rand and models of the standard library."),
"C14":("gated value-graph abstract interpretation of SSA with field/group normal forms and condition diagrams","other","Derives every key and signature byte and the exact acceptance condition of the four Curve25519-family schemes for unknown keys, messages and signatures and compares them with the equations; field, group and scalar routines are algebraic models there and are checked separately."),
"C15":("gated value-graph abstract interpretation of SSA with group/field normal forms and condition diagrams","other","Derives the exact acceptance condition of Verify and of every point decoder, every key, signature, sum and encoding byte, and the hash-to-curve construction (expansion, field elements, SWU map, isogeny, cofactor) as terms over unknown inputs and compares them with the scheme's and RFC 9380's; the group law, the pairing and field inversion are algebraic models, and square roots and ladders are checked separately by exponent tracking."),
"C16":("gated value-graph abstract interpretation of SSA with field/group normal forms and condition diagrams","other","Derives the exact acceptance condition, every key, signature and point byte, and the sponge and permutation steps, for unknown keys, messages and signatures; limb arithmetic and group formulas are algebraic models there (separate properties), and message parsing is uninterpreted."),
"C17":("gated value-graph abstract interpretation of SSA with symbolic byte strings","other","Derives the symbolic byte string every encoding entry point of the three Weierstrass curves returns and compares it with the fixed-width encoding; the other schemes' encodings are not covered."),
"C18":("gated value-graph abstract interpretation of SSA with group/residue normal forms and condition diagrams","other","Derives the exact acceptance condition and result of PointDecompress and RecoverPubkey and compares them with the decoding rule and the signature equations; the group law and ModSqrt are algebraic models."),
"C19":("gated value-graph abstract interpretation of SSA over scripts of interface calls on unknown message bytes","other","Derives every digest byte as a term over the message bytes for scripts of write, sum, reset, clone and read calls and compares it with that of one write to a new object; scripts and lengths are an enumerated set around the block boundaries, contents are unknown; the Keccak permutation is an uninterpreted function."),
"C20":("gated value-graph abstract interpretation of SSA to word-level terms (affine/xor normal forms) compared with an independent specification","other","Compares every digest byte, as a term over unknown message, salt and key bytes, with the specification for message lengths around the block boundaries, and one absorb step and the finalisation from an arbitrary chaining value, counter and buffer; the amd64 assembly of Keccak-f is assumed, its portable source is checked."),
"C23":("gated value-graph abstract interpretation of SSA to polynomials over the prime field, with a call-graph fix point over operand coincidences","other","Derives each coefficient of the result of every extension-field operation as a polynomial in the unknown coefficients of its operands, once per operand coincidence that a chain of static calls can produce, and compares it with the product, sum, inverse, conjugate or Frobenius image in the defining polynomial ring; cyclotomic squaring by membership in the span of the subgroup's relations; the prime-field routines are algebraic models."),
"C22":("gated value-graph abstract interpretation of SSA to polynomials, with normal forms modulo the prime and the curve equations","other","Runs every point routine from its source on points written through unknown affine coordinates and an unknown scale factor, once per class of operands (identity, equal, opposite, equal ordinates, generic) and per sharing of storage, and decides the chord-and-tangent identities by polynomial normal forms; branch conditions on field elements are decided by the same normal forms; the secp256k1, SM2 and Edwards25519 multiplications are run on multiples of unknown points, one listed scalar at a time (recoding, table look-ups and carries included). The prime-field routines are algebraic models."),
"C29":("gated value-graph abstract interpretation of SSA to polynomials and formal products","other","Decides the point update and line coefficients of each Miller-loop step as polynomial identities modulo the twist equation, tracks the loop as a formal product of lines for engines holding zero to three pairs in every orientation, with identities and after resets, and tracks the final exponentiation as an integer exponent; tower arithmetic is the subject of C23 and modelled here."),
"C30":("gated value-graph abstract interpretation of SSA to polynomials, exponents and formal point multiples","other","Decides both decoders on an unknown encoding (acceptance condition and coordinates), the exponent chains, the birational maps with their wrappers, point addition over valid encodings and the differential formulas for all inputs; the ladders of core and Verify are decided for unknown points over a list of scalars; the discrete-logarithm bookkeeping of core (parameter s) is outside the property, limb arithmetic is modelled."),
"C25":("value-graph abstract interpretation of SSA limb code in a domain of polynomials over limbs, floors and conditional selections, with path-sensitive ranges","other","Evaluates every word exactly over the input limbs; at joins of control flow a word becomes an atom with the alternatives' ranges under their conditions, and the identities modulo the prime are decided after writing these atoms with 0/1 indicators. Multiplication is split at the call of the Montgomery reduction: product limbs are shown exact and within the bounds for which the reduction is shown. All sharings of storage; carry table for its eight indices; FromBig for integers of up to 256 bits."),
"C21":("value-graph abstract interpretation of SSA limb code in a domain of polynomials over limbs and floor terms, with ranges","other","Evaluates every limb and carry as an exact integer polynomial over the input limbs and floor(x/2^k) terms, so that carries cancel identically in the value the limbs stand for; ranges show that nothing wraps and that output limbs stay within bounds; canonical encodings by a case split on the quotient with a Lagrange bound. Field operations are shown for every sharing of storage; FeIsNonZero is shown for encodings with one byte that may be other than 0; reduction of scalars for all 64-byte inputs, multiply-add for all 32-byte factors."),
}
NA={
"C03":"the code is variable in length, index and slice bounds that come from the caller; showing the absence of every run-time panic needs bounds on run-time quantities (big.Int sizes, buffer lengths, recursion through user data) that no sound static argument here provides without alarms on correct code; the reachable cases that matter (rejection of malformed inputs before use) are decided in C04-C06",
"C24":"the Pasta field code is generated limb code whose correctness rests on unbounded carry/borrow reasoning over wrapped 64-bit words (fiat-crypto contracts of AddCarryX, SubBorrowX, MulX), which the carry-cancelling domain of C21 does not express; its users are decided over the algebraic model (C16, C22)",
"C26":"round-trip equality of whole schemes over runtime values; its structural necessary conditions (equations, transcripts, ranges) are claimed separately as C08-C16",
"C27":"the big-integer code is variable time by construction (math/big, branching ladders); timing is not visible in the shape of the code",
"C28":"equality of hand-written assembly with Go code is a numerical equivalence outside static analysis of the Go sources",
}
