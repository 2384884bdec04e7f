#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json,os
A='src/arithmetic.cpp'; S='src/arithmetic.s'; F='src/fp.cpp'; G='src/g.cpp'; P='src/pairing.cpp'; SC='src/scalar.cpp'; SH='src/sha256.cpp'; SG='src/signatures.cpp'
HS='include/bls12-381/scalar.hpp'; HF='include/bls12-381/fp.hpp'; HG='include/bls12-381/g.hpp'; HSG='include/bls12-381/signatures.hpp'; HA='include/bls12-381/arithmetic.hpp'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
R=[
p("P01","Base-field ring arithmetic is exact on every backend",
 "For all reduced base-field operands, addition, subtraction, negation, doubling, multiplication, squaring and the conversions into and out of Montgomery form return exactly the residue modulo p that integer arithmetic gives, fully reduced, whatever way the output overlaps the inputs. This includes the documented lazy use (one unreduced addition, doubling or non-borrowing subtraction feeding a multiplication), and the unreduced operations themselves equal the 384-bit integer operation. The BMI2/ADX, the plain x86-64 and the portable implementations all satisfy it and so agree bit for bit.",
 ["inputs","configurations"],"every pair of reduced 384-bit operands including carry-chain extremes, every aliasing pattern, every arithmetic backend (ADX, BLS_DISABLE_BMI2, portable)",
 "The input space is 2^762; tests sample uniformly random operands, which never reach carry/borrow corner cases of probability 2^-64, run only the backend the CPU selects and never compile the portable one.",
 [A,S,F,HA],[("assembly add/sub/double/negate/multiply",S),("runtime choice between the two assembly multipliers and portable C++ code",A),("fp member wrappers, toMont/fromMont",F)],
 ["public fp methods and the _add/_ladd/_double/_ldouble/_subtract/_lsubtract/_negate/_multiply/_square functions"]),
p("P02","Inverse, powers, roots, ordering and reduction in Fp and Fp2 are exact",
 "For every element of the base field and of its quadratic extension, inversion yields the multiplicative inverse (zero maps to zero), exponentiation equals the mathematical power for every exponent, and a square root is produced exactly when one exists, is a genuine root, and agrees with the residuosity test (nonzero arguments). Parity/sign, lexicographic-largest, comparison, halving/doubling shifts, validity and the multiplication by a cube root of unity agree with the integer each element represents. Reducing an arbitrary multi-word integer into the field yields that integer modulo p.",
 ["inputs","configurations"],"all field elements of Fp and Fp2 (including those with one zero coefficient, roots of unity, values next to 0, p/2 and p), all exponents, all multi-word integers",
 "Tests use a few random elements and squares; zero-coefficient branches of the Fp2 root, boundary values of the ordering predicates and long-division corner cases are hit with negligible probability.",
 [F,HS,SC],[("fp::inverse, fp::exp, fp::sqrt, isQuadraticNonResidue, isLexicographicallyLargest, sign, phi, div2, mul2",F),("fp2::inverse/sqrt/exp/sign",F),("fp::modPrime via word-wise long division",HS)]),
p("P03","Extension-field towers Fp2, Fp6 and Fp12 obey exact ring arithmetic",
 "For all elements of the quadratic, sextic and dodecic extensions, every sum, difference, negation, doubling, product, square, inverse, power, conjugation, and every specialised product (by the non-residue, by a curve coefficient, by a base-field or subfield element, by sparse elements) equals the same operation in the quotient ring Fp[w]/(w^12-2w^6+2), with fully reduced coefficients. In-place and returning variants of each operation give the same value. Equality, zero and one tests answer by mathematical value.",
 ["inputs","configurations"],"all pairs of elements, including sparse ones, subfield members, zero/one and coefficients whose lazy intermediate sums sit at the reduction limits; every backend",
 "Random dense elements with uniform coefficients never drive the unreduced intermediates of the Karatsuba-style formulas to their extremes, and most specialised products are not tested at all.",
 [F,HF],[("fp2/fp6/fp12 multiply/square with lazy reductions",F),("mulByNonResidue, mulByB, mulByFq, mulBy01, mulBy1, mulByBaseField, mulBy014, fp4Square",F),("inverse chains",F)]),
p("P04","Frobenius maps, cyclotomic operations and GT membership are exact",
 "Applying a Frobenius power k to any extension-field element raises it to the p^k-th power for every k, in the in-place and the returning form alike. On every element of the cyclotomic subgroup the special squaring and exponentiation equal the ordinary ones, for every exponent. The target-group membership test accepts exactly the elements of order dividing r.",
 ["inputs"],"all elements of Fp2, Fp6, Fp12 and all powers k (any 64-bit value); all elements of the cyclotomic subgroup; elements inside GT, elements of the cyclotomic subgroup outside GT, and arbitrary elements",
 "No test compares a Frobenius map with an actual p-th power; only the powers the pairing happens to use are exercised and the membership test is never given a near-miss element.",
 [F,P],[("frobeniusMap/frobeniusMapAssign with coefficient tables",F),("cyclotomicSquare/cyclotomicExp",F+", "+HS),("fp12::isGtValid",F)]),
p("P05","Multi-precision integer and hex helpers are exact",
 "Addition, multiplication, comparison, equality, bit length, right shift, division with remainder and the single-word carry primitives on multi-word integers return the mathematically exact result for all operands, and an addition whose result does not fit its destination reports an error rather than a wrong number. Byte export and import of multi-word integers are inverse bijections in both byte orders. Hex formatting and parsing round-trip for every byte string, with or without the 0x prefix and in either letter case.",
 ["inputs"],"all word values including 0 and 2^64-1 and all carry chains, all sufficient and (for addition) insufficient destination widths, all shift amounts, all non-zero divisors, all byte strings and their hex forms",
 "Tests use a handful of constants; carries that propagate through an all-ones word occur with probability 2^-64 under random sampling.",
 [HS,SC,A],[("scalar::add/multiply/cmp/bitLength/rsh/to/fromBytes",HS),("Add64/Sub64/Mul64/madd*",A),("bn_divn_low/bn_divn_safe",SC),("hexToBytes/bytesToHex",HS+", "+SC)]),
p("P06","Field-element byte encodings round-trip and reject exactly the invalid",
 "Encoding an element of any of the fields Fp, Fp2, Fp6, Fp12 and decoding it again returns the same element, in big- and little-endian order and both with and without Montgomery conversion, and the bytes are the documented fixed-width concatenation of integers. With validity checking on, a byte string is accepted exactly if every coefficient is below p, so each element has a single accepted encoding; the decoded value is the integer written.",
 ["inputs"],"all field elements and all byte strings of the fixed lengths, with coefficients at and around p at any position, both byte orders, all option combinations",
 "Tests round-trip random elements; coefficients equal to or just above p in each individual slot and each byte order are only sampled at a few points.",
 [F,HF],[("fromBytesBE/fromBytesLE/toBytesBE/toBytesLE of each field",F),("fp::isValid",F)]),
p("P07","G1 and G2 addition, doubling, negation follow the group law",
 "For all points of either curve (inside or outside the prime-order subgroup), in any projective representation including every representation of infinity, addition, subtraction, doubling, negation and normalisation yield exactly the point that affine chord-and-tangent arithmetic gives. Equality and is-infinity answer by the point represented, never by its coordinates, is-affine tells exactly whether the representation is normalised, and in-place forms (also with an operand aliased to the destination) agree with the returning ones.",
 ["inputs","configurations"],"all pairs of curve points including P=Q with different representations, P=-Q, infinity in every representation, small-order points, and affine/non-affine mixtures",
 "Tests use random multiples of the generator with few representations; coincident, opposite and differently scaled operands are the special branches of the formulas and are barely sampled.",
 [G,HG],[("g1/g2 add, addAssign, doubleAssign, negate, subtract, affine, equal, isZero",G)]),
p("P08","Scalar multiplication and weighted sums equal repeated addition",
 "Multiplying a G1 or G2 point by a non-negative integer of any width equals adding it to itself that many times, for every curve point and every scalar (also at or above the group order). A weighted sum over any number of points equals the sum of the individual products, treating missing points or scalars as zero, for every list length, any infinities, repeats or opposite points, and any 256-bit scalars. A supplied yield callback is invoked during long sums, never changes the result, and an exception it throws reaches the caller.",
 ["inputs","histories"],"all points, all scalars including 0, 1, r-1, r, 2^256-1; all list lengths including 0, 1, the window-size change points and unequal lengths; all callback behaviours",
 "The bucket method's window width depends on the list length; tests use one batch of a fixed size with random in-range scalars and no special points.",
 [G,HS],[("scale",HS),("g1::weightedSum, g2::weightedSum windows and buckets",G)]),
p("P09","On-curve and subgroup tests, cofactor clearing and endomorphisms are exact",
 "The on-curve test accepts a projective triple exactly if it satisfies the curve equation or is infinity, and the subgroup test accepts a curve point exactly if its order divides r, for every point of both curves including those of small cofactor order. Clearing the cofactor of any curve point lands in the prime-order subgroup and equals multiplication by the documented effective cofactor. The endomorphisms used as shortcuts act as the corresponding curve endomorphism on every point and as its eigenvalue on the subgroup.",
 ["inputs"],"all points of both curves: prime-order, each small prime order dividing the cofactor, mixed order, infinity, any projective scaling; and triples off the curve",
 "Tests check a handful of subgroup members and random off-subgroup points; an endomorphism shortcut that accepts one small-order coset passes them.",
 [G],[("isOnCurve, inCorrectSubgroup",G),("clearCofactor, glvEndomorphism, psi, frobeniusMap",G)]),
p("P10","Point encodings round-trip and are canonical",
 "For every point of G1 and G2 and of their curves, decoding the compressed, affine or projective encoding of a point returns the same point, in both byte orders where offered. The compressed and affine bytes depend only on the point, not on its projective representation, distinct points have distinct encodings, and they follow the standard layout: flag bits, big-endian x with the second coefficient first for G2, sign bit set exactly when y is the lexicographically larger root, and 0xC0 followed by zeros for infinity.",
 ["inputs"],"all curve points in all representations, including infinity, points with x=0, and points whose y has a zero coefficient",
 "Tests encode random affine generator multiples; infinity, x=0, y with zero imaginary part and non-affine inputs are not covered.",
 [G],[("to/fromCompressedBytesBE, to/fromAffineBytes*, to/fromJacobianBytes*",G),("isLexicographicallyLargest tie-breaking",F)]),
p("P11","Point decoders accept exactly the canonical valid encodings",
 "The compressed decoders return a point exactly for byte strings that are the standard encoding of some curve point: compression flag set, coordinates below p, x on the curve, and for infinity nothing but the flag bits set; they return nothing for every other string, so no point has a second accepted compressed encoding. The affine and projective decoders always reject any coordinate not below p, and with validity checking on they additionally reject every triple or pair off the curve and nothing else.",
 ["inputs"],"all byte strings of the encoding lengths, in particular valid encodings with a coordinate shifted by p, flag-bit changes, stray bits in an infinity encoding, and x with no curve point",
 "Tests try a few garbage buffers; malleable encodings (x+p, decorated infinity) need targeted mutation of valid encodings.",
 [G,F],[("fromCompressedBytesBE flag, range and curve checks",G),("fromAffineBytes*/fromJacobianBytes* validation",G)]),
p("P12","Hash-to-curve and map-to-curve match RFC 9380",
 "Hashing any message under any domain-separation tag to the signature group gives exactly the point specified by RFC 9380 for BLS12381G2_XMD:SHA-256_SSWU_RO_ with that tag, including the prescribed treatment of tags longer than 255 bytes. Mapping any field element to G1 or G2 gives the point of the RFC's simplified SWU map, isogeny and cofactor clearing, for every field element including the exceptional ones, and the result always lies in the prime-order subgroup.",
 ["inputs"],"all messages of all lengths (empty, hash-block boundaries, long), all tags of all lengths (empty, 255, 256, longer), all field elements including 0 and the exceptional inputs of the map and the isogeny",
 "Test vectors cover a few short messages and random map inputs; exceptional inputs of the map have density 2^-381 and long tags are never used.",
 [G,SG,SH],[("fromMessage, xmd_sh256",SG),("swuMapG1/G2, isogenyMapG1, isogenyMap, mapToCurve",G),("SHA-256",SH)]),
p("P13","HMAC, HKDF and expand_message follow their RFCs for every length",
 "For all keys, salts, infos, messages and output lengths the HMAC, HKDF-Extract, HKDF-Expand, combined HKDF and expand_message_xmd functions produce exactly the bytes of RFC 2104, RFC 5869 and RFC 9380 with SHA-256, writing only the requested output bytes. Requests outside the specified limits return a non-zero error code without writing, and no call leaks memory.",
 ["inputs"],"all input lengths including 0 and the 55/56/63/64/65-byte block boundaries and multi-megabyte inputs, all output lengths 0..8160 and beyond, all tag lengths including 255 and 256",
 "The functions are only tested through a few end-to-end key-derivation vectors with two fixed lengths.",
 [SG,SH],[("hkdf256_hmac/extract/expand/extract_expand, xmd_sh256",SG),("sha256 update/digest buffering and padding",SH)]),
p("P14","Key generation and hardened derivation follow the specified KDF",
 "Deriving a secret key from any seed of at least 32 bytes yields exactly HKDF-SHA256 key generation (salt 'BLS-SIG-KEYGEN-SALT-', 48 output bytes, reduced modulo r), a value in [1, r-1], and a shorter seed yields the zero key. Hardened child derivation equals the EIP-2333 Lamport construction over that key generation for every parent key and every 32-bit index. Importing key bytes returns the big-endian integer if it is below r and otherwise zero, or its residue modulo r when reduction is requested, and export is the inverse of import.",
 ["inputs"],"all seeds of all lengths, all parent keys in [0, r-1], all 32-bit indexes, all 32-byte strings including r-1, r, r+1, 2r and all-ones",
 "Four published vectors with small indexes; byte-order of large indexes, seed-length extremes and the boundaries at multiples of r are not covered.",
 [SG,HS],[("secret_key, ikm_to_lamport_sk, parent_sk_to_lamport_pk, derive_child_sk",SG),("sk_from_bytes, sk_to_bytes",SG)]),
p("P15","Unhardened derivation commutes between secret and public keys",
 "For every secret key and every 32-bit index, the public key of the unhardened child secret key equals the unhardened child of the public key, over any chain of derivations, and does not depend on the projective representation of the parent public key. In both groups the child public key is the parent plus the generator multiplied by the SHA-256 hash of the compressed parent public key and the big-endian index, reduced modulo r. A public key is exactly the secret key times the generator, normalised.",
 ["inputs","histories"],"all secret keys, all index paths (any length, any 32-bit index), parent public keys in any representation",
 "One fixed seed and two small indexes are tested; index bytes above the lowest and reductions at the group order are not exercised.",
 [SG],[("derive_child_sk_unhardened, derive_child_g1_unhardened, derive_child_g2_unhardened, public_key",SG)]),
p("P16","The pairing is the exact, bilinear, non-degenerate optimal ate pairing",
 "For every pair of subgroup points the pairing value equals the optimal ate pairing raised to the fixed power the library uses, as computed from the definition, is a member of the target group, and is one exactly when an argument is infinity. It is bilinear: scaling or adding arguments scales or multiplies the values for all scalars and points. Final exponentiation maps every non-zero field element to that fixed power of its (p^12-1)/r-th power.",
 ["inputs"],"all subgroup points and scalars, including infinity, the generators, equal and opposite points; all non-zero Fp12 elements for the final exponentiation",
 "One expected value and a few random bilinearity samples that compare the implementation only with itself; consistent errors in the loop or the exponent survive them.",
 [P,F],[("doubling_step, addition_step, miller_loop, final_exponentiation, calculate",P)]),
p("P17","Multi-pairings equal the product of single pairings",
 "The product pairing over any list of point pairs equals the product of the individual pairing values, in any order and for any list length, and is one for the empty list. Pairs are gathered so that infinities contribute a factor of one and points in any projective representation are normalised first. Supplying a yield callback never changes the value, and an exception it throws reaches the caller.",
 ["inputs","histories"],"all lists of subgroup pairs of any length (0, 1, the yield threshold and beyond), with infinities anywhere, repeated and mutually cancelling pairs, any representation, any callback",
 "Tests use a fixed 9-pair cancelling product; wrong results that cancel and lists past the callback threshold are not covered.",
 [P],[("add_pair, miller_loop over several pairs, calculate",P)]),
p("P18","Signing is deterministic and honest signatures always verify",
 "For every secret key in [1, r-1] and every message, the signature equals the secret key times the RFC 9380 hash of the message under the basic-scheme tag, is a subgroup point, is the same on every call, and verifies under the key's public key. This holds for messages of every length and survives encoding and decoding of key and signature in any supported format and any projective representation of either.",
 ["inputs"],"all secret keys including 1 and r-1, all messages including empty, block-boundary and very long ones, all encodings and representations of the public values",
 "Published vectors and a few random messages; extreme keys, lengths at block boundaries and non-normalised inputs are not sampled.",
 [SG,G,P],[("sign, verify, public_key, fromMessage",SG)]),
p("P19","Verification accepts nothing but the genuine signature",
 "Signature verification accepts a public key, message and signature only if key and signature are points of the prime-order subgroups and the signature is exactly the secret multiple of the message hash that corresponds to the public key. Any other message, any other key, any other subgroup point, and any key or signature that is off the curve or carries a cofactor component, including one that satisfies the pairing equation, is rejected.",
 ["inputs"],"all key/message/signature triples: bit-flipped or extended messages, related keys (negated, shifted, other), related signatures (negated, doubled, shifted by small-order or full-order points, infinity), off-curve triples, in any representation",
 "Tests try a few wrong messages and keys; small-order shifts that pass the pairing equation and off-curve coordinates with lucky cancellations require constructed inputs.",
 [SG,G,P],[("verify: curve and subgroup checks plus pairing equation",SG),("inCorrectSubgroup",G)]),
p("P20","Aggregation of keys and signatures is the exact group sum",
 "Aggregating secret keys yields their sum modulo r, aggregating public keys or signatures yields the group sum, for any list length including none, any order and any projective representations, so the public key (signature) of aggregated secrets equals the aggregate of the public keys (signatures). The accessor and selector forms aggregate exactly the selected members, each passed its own element and index. Aggregate values of disjoint sub-lists can be combined in any grouping with the same result.",
 ["inputs","histories"],"all lists of keys/points of any length including duplicates, infinities, opposite points, keys summing past r; all selector predicates",
 "Tests use two or three keys; carries in the key sum, cancelling members and selectors over longer lists are not reached.",
 [SG,HSG,HS],[("aggregate_secret_keys, aggregate_public_keys, aggregate_signatures (span and accessor/selector forms)",SG+", "+HSG)]),
p("P21","Aggregate verification accepts exactly the correct aggregates",
 "Verifying an aggregate signature over n keys and n messages accepts exactly when every key and the signature are subgroup points and the signature equals the sum of each key's signature on its message; differing list lengths are rejected. Permuting the key/message pairs together never changes the answer, and changing, dropping, adding or re-pairing any one of them or the signature rejects unless the sum is unchanged. With the duplicate check requested, any repeated message rejects, and it never rejects a list of distinct messages otherwise accepted.",
 ["inputs","histories"],"all lists of keys and messages of any length with repeated keys or messages anywhere, rogue keys, small-order shifts, infinities, one-element perturbations",
 "Tests cover a few lists of two or three signers; position-dependent errors and non-adjacent duplicates need generated lists.",
 [SG],[("aggregate_verify: subgroup checks, length check, duplicate detection, pairing product",SG)]),
p("P22","Proof-of-possession scheme is complete and sound",
 "For every secret key in [1, r-1] the proof of possession verifies under its public key in any representation, equals the secret multiple of the hash of the key's little-endian affine bytes under the proof tag, and verifies under no other key; altered proofs, signatures on messages, off-curve and off-subgroup keys or proofs are rejected. Fast aggregate verification accepts exactly when the signature verifies under the group sum of the keys, whatever their order, and rejects the empty list.",
 ["inputs","histories"],"all secret keys, keys and proofs in any representation, related/shifted keys and proofs, all key lists and common messages",
 "Two or three fixed seeds; representation independence and shifted proofs are not sampled.",
 [SG],[("pop_prove, pop_verify, pop_fast_aggregate_verify",SG)]),
p("P23","Every operation is a pure function of its arguments",
 "The result of every public operation depends only on its arguments: not on earlier calls, on the order or repetition of calls, on other threads calling the library at the same time, on uninitialised or leftover memory, or on which arithmetic implementation is selected. Inputs passed by constant reference are never modified. Calls made concurrently from many threads on shared inputs give the same results as alone, without data races.",
 ["histories","schedules","configurations","inputs"],"all call sequences over pools of repeated and related arguments, all interleavings of concurrent callers, all stack/heap contents, all backends",
 "The tests run each operation in one fixed order on one thread with one backend and compare with constants.",
 [A,F,G,P,SG],[("absence of mutable global state; const arguments",SG+", "+G),("load-time selection of the multiplier",A)]),
p("P24","No input makes the library misbehave in memory or fail to terminate",
 "For every byte string, list, string or field/curve value a caller can pass through the public interface, including malformed encodings, off-curve and unnormalised points, empty lists, empty or odd-length or non-hex text, and zero or maximal lengths, every operation terminates without out-of-bounds access, use of invalid memory, undefined arithmetic, leaked memory or abnormal termination. Failure is reported only by the documented return value or a standard exception.",
 ["inputs","programs"],"all arguments within each function's stated lengths, including those no honest caller would produce, and all short sequences of such calls feeding results into one another",
 "Tests run without sanitizers on well-formed inputs; memory errors on rare inputs stay invisible.",
 [SG,G,F,SC,SH,HS,P],[("length and validity checks at the entry points",SG+", "+G),("buffer handling in hashing, long division and hex parsing",SC+", "+SH)]),
p("P25","Running out of memory is reported and never becomes a wrong result",
 "Whichever memory allocations fail during a public operation (any single one, everything after some point, every large one, or any subset), the operation either delivers exactly the result it delivers when memory is plentiful or reports failure by the means it has: a standard exception, a non-zero error code, the all-zero secret key, or a verification that does not succeed. It never returns a wrong key, derived bytes, point, list or acceptance as if it had succeeded, never crashes, leaks nothing and leaves its inputs alone, and later calls give their normal results.",
 ["crash_points","histories","inputs"],"all operations with all arguments, all subsets of their allocations failing, all histories of calls with failures scattered over them",
 "Tests never run short of memory; the failure branches, and the places where one is missing, are never executed, and a key made from uninitialised memory looks like any other key.",
 [SG,G,P,SC],[("malloc in hkdf256_hmac, hkdf256_expand and secret_key and the propagation of their error codes",SG),("vectors, sets and strings built inside verification, weighted sums, pairing products and hex conversion",SG+", "+G+", "+P+", "+SC)]),
p("P26","Calls give the same results at every point of a process's life",
 "Every public operation gives the same result whenever the program makes the call: inside a static initialiser that runs before any of the library's own, in main, in any thread, in the destructor of a thread-local object, and during exit after the library's static objects are gone. No such early or late call crashes, and none changes what later calls return.",
 ["schedules","histories","inputs"],"all operations with all arguments, all placements of the calls before, in and after main and at the end of threads, all link orders",
 "Tests call the library from main only; constants that are still zero give results (keys and points at infinity, signatures with an empty tag) that look like ordinary values.",
 [F,G,SG,HSG],[("constants of the fields, the curves and their endomorphisms",F+", "+G),("domain separation tags used by signing and verification",SG+", "+HSG)]),
p("P27","Long multi-point operations stay interruptible",
 "A weighted sum over a long list, and a multi-pairing of at least 20 pairs, given a callback, invoke it on the calling thread: the weighted sum so regularly that only a small fraction of its total work passes between two invocations, the multi-pairing before most of its work is done. An exception thrown by the callback, of whatever type and at whichever invocation, ends the operation at once and reaches the caller unchanged, with no further invocation, nothing leaked, the inputs untouched and later calls (including the number of their callbacks) unaffected. The callback may itself start, finish or abort such operations or hand over to another fiber that does, and several threads may do so at once. With a callback that returns, the result is the one without.",
 ["crash_points","schedules","inputs","histories"],"all list lengths and contents, all callback invocations at which an exception of any type is thrown, nested, interleaved and concurrent operations",
 "Tests pass no callback at all.",
 [G,P],[("g1::weightedSum, g2::weightedSum: periodic yield",G),("miller_loop, calculate: yield for 20 and more pairs",P)]),
p("P28","Field elements and points are regular values and usable as keys",
 "Copies of field elements and points, made in any way, equal the original bit for bit and share no state with it; a default-constructed value is all zero and a value built from coordinates holds each in its place. The comparison operators of fp, fp2, g1 and g2 form a strict total order in which two values are equivalent exactly when their representations are identical (for fp, the order of the represented integers), so that sets, maps and sorting over them behave like those over the underlying byte strings.",
 ["inputs","histories"],"all limb values including unreduced ones, values that differ in a single limb or bit, all histories of insertions, lookups and removals",
 "Tests never put values into ordered containers and compare only a handful.",
 [HF,HG],[("fp::cmp, operator<=>, operator== of fp, fp2, g1, g2",HF+", "+HG),("constructors and copies",HF+", "+HG)]),
p("P29","A call neither depends on its surroundings nor leaves anything behind in them",
 "Whatever the state of the process around it (rounding mode, flush-to-zero or trapping of floating-point exceptions, C and C++ locale, errno, environment variables, a missing working directory, closed standard streams, no free descriptors, blocked or arriving signals, an exception in flight, constant arguments in read-only memory), every public operation gives the result it gives ordinarily. It leaves that state as it found it: it prints nothing, opens, reads and writes no file, starts no thread, process or timer, and changes no locale, environment, floating-point mode, signal handling, C random-number sequence, stream formatting or memory other than its outputs. Field, curve, scalar and pairing computations interrupted at any instruction by a signal handler that makes such a computation itself finish with the right result, and so does the handler.",
 ["inputs","configurations","schedules"],"all operations with all arguments, all combinations of process states at the call, all instructions at which a signal handler may run and all field and curve operations it may call",
 "Tests run in one ordinary process state, look only at returned values and are never interrupted.",
 [F,G,SC,P,SG,A],[("pure computation on arguments and locals",F+", "+G+", "+P),("hex and byte conversion without locale or errno",SC),("hashing, key derivation, verification",SG)]),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for r in R: f.write(json.dumps(r,ensure_ascii=False)+"\n")
