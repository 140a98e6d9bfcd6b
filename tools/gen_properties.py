import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=hook)))
H="cfg onion_pir_verif re-exports"
p("C01","PIR retrieval returns exactly the queried database entry",
"For every database shape (first dimension, inner dimension, number of dimensions) that fits a packed query, every database content and every valid index, the response the server computes from the client's encrypted query decrypts to exactly the plaintext stored at that index (first dimension varying fastest). This holds for every secret key, every choice of encryption and evaluation-key randomness, and does not depend on the other entries of the database.",
["inputs","configurations","histories"],"all database shapes with first_dim+dim*(d-1) <= N, all indices, all contents, all keys and randomness",
"The only end-to-end test runs one shape and one index, asserts nothing about the answer, and panicked on the pinned commit.",
["src/evaluations.rs","src/rgsw.rs","src/ksk.rs","src/bfv.rs"],
[("first-dimension plaintext products, then RGSW folding","src/evaluations.rs Server::decode"),("RLWE to RGSW assembly","src/evaluations.rs Server::decode, src/ksk.rs try_from_decomposed_rlwes"),("query packing","src/evaluations.rs Client::encode")],
["decryption of the single ciphertext Server::decode returns"],[("db_scaled","database in NTT form","src/evaluations.rs Server")],H)
p("C02","Oblivious expansion yields one ciphertext per packed coefficient, in order",
"Expanding a ciphertext that encrypts a polynomial yields exactly N ciphertexts, and the j-th decrypts to the constant polynomial equal to the j-th coefficient of the packed message (no residue of any other coefficient, no factor N). This holds for every degree, every packed vector, scaled or unscaled payload, every key and randomness.",
["inputs","configurations"],"all coefficient vectors, degrees, moduli sets, keys and randomness",
"The expansion tests compare nothing (they print an error count) and panicked on the pinned commit; one degree, one random vector.",
["src/evaluations.rs","src/rq.rs"],
[("recursive even/odd splitting with automorphisms N/2^i+1","src/evaluations.rs Evaluation::unpack"),("X^-(2^i) monomials","src/evaluations.rs gen_x_pows"),("multiplication by N^-1 mod Q","src/evaluations.rs unpack")],
["decryption of all N outputs; exact phase with zero-noise randomness"],None,H)
p("C03","Decryption inverts encryption at every level for every message",
"A plaintext polynomial with coefficients below the plaintext modulus, encoded at any level the parameters offer and encrypted with any secret key and any randomness the samplers can produce, decrypts to exactly the same coefficients and reports the same level. The scaled plaintext carried by the ciphertext is floor(Q*m/t) for every coefficient m, with Q the modulus of that level.",
["inputs","configurations"],"all messages, levels, parameter sets whose every modulus exceeds the plaintext modulus t and whose level modulus Q exceeds 2t(E+1) for the worst-case error E, keys, randomness including extremal errors",
"The test draws 100 random messages at level 0 of one parameter set; extremal errors, other levels and moduli shapes are never reached.",
["src/bfv.rs","src/rns.rs","src/rq.rs"],
[("scaling by (-t)^-1 * (Q mod t)","src/bfv.rs Plaintext::to_poly"),("t/Q scaling and rounding","src/bfv.rs SecretKey::decrypt, scalars"),("level bookkeeping","src/bfv.rs encrypt_poly, ctx_level")],
["SecretKey::decrypt values and level"],None,H)
p("C04","SIMD batching is a slot-wise ring isomorphism with correct rotations",
"SIMD encoding followed by decoding returns every vector of slot values unchanged, also through encryption. Addition and multiplication of plaintexts or ciphertexts act slot by slot, and applying the automorphism with exponent 3^k rotates both rows of slots left by k while exponent 2N-1 swaps the two rows.",
["inputs","configurations"],"all slot vectors, degrees, plaintext moduli, rotation exponents",
"SIMD round trip failed on the pinned commit; the rotation test asserts nothing.",
["src/bfv.rs","src/ntt.rs"],
[("slot index map","src/bfv.rs matrix_reps_index_map"),("plaintext NTT","src/bfv.rs pt_ntt")],
["Plaintext::decode"],None,H)
p("C05","Any history of homomorphic operations agrees with the plaintext ring",
"Starting from fresh encryptions, after every sequence of additions, subtractions, plaintext/polynomial/scalar additions and multiplications, ciphertext products (relinearized or not), automorphisms, inner products and RGSW products that stays within the noise budget, decryption equals the result of the same sequence on plaintext polynomials modulo t and X^N+1. Results stay usable as operands of further operations and keep their level.",
["histories","inputs"],"all operation sequences up to the bound over a small store of ciphertexts, at every level",
"Tests exercise single operations in isolation, several without any assertion; no composition is tested.",
["src/bfv.rs","src/rgsw.rs","src/omr.rs"],
[("ciphertext operators","src/bfv.rs Add/Sub/Mul impls"),("inner product","src/omr.rs inner_product")],
["decryption after every step"],None,H)
p("C06","Ciphertext products decrypt to the message product, relinearized or not",
"The product of two ciphertexts at the same level decrypts to the negacyclic product of their messages modulo t, both as the three-component tensor product and after relinearization to two components. This holds at every level that has noise budget, for every parameter set, message pair, key and randomness.",
["inputs","configurations"],"all message pairs, levels, parameter sets, keys, randomness",
"The only test multiplies 100 by 200 at level 0 and asserts nothing; the tensor product operator is never exercised.",
["src/bfv.rs","src/rq.rs","src/rns.rs"],
[("basis extension, tensor, t/Q scale down","src/bfv.rs Mul, multiply_with_strategy, MultiplicationParameters"),("relinearization key","src/bfv.rs RelinearizationKey")],
["SecretKey::decrypt"],None,H)
p("C07","Automorphisms X -> X^k are exact in every representation and on ciphertexts",
"For every odd k the substitution maps a polynomial p(X) to p(X^k) modulo X^N+1, identically in coefficient and evaluation representation, composes multiplicatively in the exponent modulo 2N, and even exponents are rejected. Applying a Galois key to a ciphertext yields a ciphertext under the original key that decrypts to the substituted message, at every level with noise budget.",
["inputs","configurations"],"all odd exponents (also beyond 2N), degrees, polynomials, levels, keys",
"One exponent (3), one degree, level 0, random messages; the substitution test prints and asserts nothing.",
["src/rq.rs","src/bfv.rs"],
[("coefficient and bit-reversed index maps","src/rq.rs Substitution, Poly::substitute"),("Galois key switching","src/bfv.rs GaliosKey")],
["polynomial coefficients; decryption"],None,H)
p("C08","Key switching re-encrypts input times source key with bounded noise",
"Switching any polynomial c with a key-switching key for a source polynomial f yields a pair whose phase under the secret key equals c*f up to an error of at most the sum over the decomposition moduli of N*(q_i-1)*2*variance, and exactly c*f when the sampled errors are zero. This holds for every level, every source and input polynomial and when the key lives at a level with more moduli than the input.",
["inputs","configurations"],"all inputs, source polynomials, level pairs, keys, randomness",
"100 random trials at a two-modulus level 0 with a loose 70-bit bound.",
["src/ksk.rs","src/rns.rs"],
[("RNS decomposition against garner coefficients","src/ksk.rs Ksk::new, key_switch")],
["phase of the returned pair"],None,H)
p("C09","External product multiplies messages, also for RGSW assembled by the server",
"The external product of an RGSW encryption of a polynomial u with a ciphertext of m decrypts to u*m modulo t and X^N+1, at every level with noise budget. RGSW ciphertexts assembled from encryptions of the gadget multiples of u, with the second half derived through an RGSW encryption of the secret key, behave identically.",
["inputs","configurations"],"all message pairs, levels, parameter sets, keys, randomness, direct and assembled RGSW",
"Random messages at level 0; the assembly tests assert nothing.",
["src/rgsw.rs","src/ksk.rs"],
[("two key switches summed","src/rgsw.rs external_product"),("assembly","src/ksk.rs try_from_decomposed_rlwes, src/rgsw.rs try_from_ksks")],
["SecretKey::decrypt of the pair"],None,H)
p("C10","The NTT is an exact bijection turning products into negacyclic convolution",
"For every supported prime and power-of-two size the forward transform followed by the backward transform (and vice versa) is the identity on all residue vectors, outputs are always canonical residues, and pointwise products of transforms correspond to multiplication modulo X^n+1. Unsupported sizes and moduli are refused at construction, vectors of another length when transformed.",
["inputs","configurations"],"all supported (prime, size) pairs, all residue vectors",
"One size (8) and one modulus (1153) on one random vector.",
["src/ntt.rs"],
[("Harvey butterflies with lazy reduction","src/ntt.rs forward/backward"),("parameter check","src/ntt.rs supports_ntt")],
["transformed slices"],None,H)
p("C11","Modular arithmetic is exact and canonical for every modulus up to 62 bits",
"For every modulus below 2^62 addition, subtraction, negation, multiplication, exponentiation, inversion, precomputed-operand multiplication and reduction of unsigned, signed, 128-bit and big integers return the mathematically exact residue in [0,p) over their whole input domain, and the vector forms agree element-wise. Lazy variants return a congruent value in [0,2p).",
["inputs","configurations"],"all moduli, all operand values in the documented domains",
"There is no test of the modulus module at all.",
["src/modulus.rs"],
[("Barrett constants","src/modulus.rs Modulus::new, lazy_reduce_ct, lazy_reduce_u128"),("constant time correction","src/modulus.rs reduce_ct"),("Shoup multiplication","src/modulus.rs lazy_mul_shoup")],
["return values"],None,H)
p("C12","RNS representation and RNS scaling are exact",
"Projecting an integer below the product of the moduli to residues and lifting it back is the identity, and lifting any residue vector gives the unique representative. Scaling a residue vector over at most 16 moduli by a rational factor into any target basis yields the residues of the nearest integer to the scaled centred value (either neighbour when the exact value lies within 2^-60 of a half-integer, either centring within a relative 2^-60 of +-Q/2), for polynomials in either representation.",
["inputs","configurations"],"all residue vectors, source and target bases (including partially common ones), scaling factors",
"No direct test of the RNS module; only reached through random encryptions.",
["src/rns.rs","src/rq.rs","src/utils.rs"],
[("garner coefficients","src/rns.rs RnsContext"),("fixed-point theta/omega accumulation","src/rns.rs RnsScaler"),("common moduli shortcut","src/rq.rs RqScaler")],
["scaled residues"],None,H)
p("C13","Modulus switching rounds to the nearest multiple at every step",
"Switching a polynomial down by one modulus replaces every coefficient x by round(x/q_last) in the smaller ring, for every value of x and every chain of moduli, and leaves it in the next context. Switching to a target context performs exactly the needed number of steps, is the identity for the own context, and is refused when the target is not below the source or the polynomial is not in coefficient form.",
["inputs","configurations"],"all coefficients, moduli chains (increasing and decreasing sizes), source/target pairs",
"One random polynomial on one chain.",
["src/rq.rs"],
[("add half, reduce, multiply by inverse of last modulus","src/rq.rs mod_switch_down_next"),("context chain","src/rq.rs switch_iterations")],
["lifted coefficients and context"],None,H)
p("C14","Polynomials compute in Z_Q[X]/(X^N+1) whatever their construction",
"Polynomials built from unsigned, signed or big integers represent those integers modulo Q with missing coefficients zero; addition, subtraction, negation, multiplication and scalar multiplication agree with integer arithmetic modulo Q and X^N+1, changing representation back and forth changes nothing, and reading back gives canonical representatives. Pointwise inversion in evaluation form yields the multiplicative inverse.",
["inputs","configurations"],"all operands, contexts, representations",
"Only the representation round trip is tested, on random data with one modulus.",
["src/rq.rs","src/rns.rs"],
[("RNS component-wise operators","src/rq.rs Add/Sub/Mul/Neg impls"),("constructors","src/rq.rs try_from_*")],
["Vec<BigUint> view of a polynomial"],None,H)
p("C15","Integer helpers (digits, primes, inverses, wide words) are exact",
"Bit and digit decompositions recompose to the input, integer logarithm and ceiling division are exact, modular inverses are inverses (or absent when none exists), and the 256-bit word type matches integers modulo 2^256 under addition, subtraction, complement and shifts. Primality answers are exact, and prime generation returns the largest prime of the requested bit size, below the bound, congruent to 1 modulo the given step, or nothing if there is none.",
["inputs"],"all values in the enumerated ranges and at word boundaries",
"Two tests, one value each; prime generation, inverses and wide words untested.",
["src/utils.rs"],
[("bit_vector, decompose_bits, ilog2, div_ceil, mod_inverse, is_prime, generate_prime, U256","src/utils.rs")],
["return values"],None,H)
p("C16","Secret and error sampling follows the exact centred binomial distribution",
"For every variance from 1 to 16 and every vector length, each sampled coefficient is the difference of the counts of two disjoint sets of 2*variance uniform random bits, distinct coefficients use disjoint bits, and the requested number of coefficients is produced. Variances outside 1..16 are refused, and secret keys and error polynomials carry exactly such samples of the configured variance consistently in all residues.",
["inputs","configurations"],"all random bit streams, variances, lengths",
"The sampler has no test; any wrong distribution still decrypts.",
["src/utils.rs","src/bfv.rs","src/rq.rs"],
[("bit pool with masks","src/utils.rs sample_vec_cbd"),("small polynomials","src/rq.rs random_small"),("key generation","src/bfv.rs SecretKey::generate")],
["sampled vectors as a function of the generator's bits"],None,H)
p("C17","Every encryption and key row is masked by fresh uniform and error samples",
"Every RLWE sample handed out - encryptions, and every row of key-switching, Galois, relinearization and RGSW keys - has the form (payload + e - a*s, a) where a is a new uniformly random element over all moduli and e a new error of the configured variance. No mask or error is ever zero-filled, constant, reused between samples or derived from the message or the key, so repeated encryptions of the same message differ.",
["inputs","histories"],"all sequences of encryptions and key generations, all random streams",
"Correctness tests pass unchanged when masks repeat or errors vanish; nothing tests secrecy.",
["src/bfv.rs","src/ksk.rs","src/rgsw.rs","src/rq.rs","src/pvw.rs"],
[("seeded mask expansion","src/rq.rs random_from_seed"),("per-sample error","src/bfv.rs encrypt_poly, src/ksk.rs Ksk::new")],
["(b,a) pairs relative to the secret key"],None,H)
p("C18","PVW encryption round-trips every message vector",
"For every parameter choice whose worst-case noise m*2*variance stays below half of floor(q/2) (about q/4), every secret key, public key, encryption randomness and binary message vector, PVW decryption returns the encrypted message in every slot. Ciphertexts carry one mask of length n and one payload per slot, and encryption is randomized.",
["inputs","configurations"],"all small parameter sets, keys, randomness and messages; default parameters",
"Five random messages with default parameters.",
["src/pvw.rs","src/modulus.rs"],
[("P = sk*A + e","src/pvw.rs gen_pk"),("subset sum encryption","src/pvw.rs PvwPk::encrypt"),("threshold decoding","src/pvw.rs PvwSk::decrypt")],
["PvwSk::decrypt output"],None,H)
p("C19","Generated parameters are valid and consistent at every level",
"Generated ciphertext moduli are pairwise distinct primes of exactly the requested bit sizes, congruent to 1 modulo 2N, and generation reports failure only when there are not enough such primes. A parameter set exposes one context per level, each dropping the last remaining modulus, all chained to each other, with the level lookup inverting this numbering, a plaintext scale matching Q and t, and an extension basis large enough for ciphertext products.",
["configurations"],"all degrees, bit-size lists and plaintext moduli in the enumerated range",
"Two parameter shapes used implicitly; nothing checks the generated moduli or the level tables.",
["src/bfv.rs","src/rq.rs","src/utils.rs"],
[("generate_moduli","src/bfv.rs"),("per-level tables","src/bfv.rs BfvParameters::new"),("ctx_level","src/bfv.rs")],
["public fields of the parameter set"],None,H)
p("C20","Query encoding selects exactly one entry per dimension and rejects bad shapes",
"For every database shape and every valid per-dimension index the encoded query is the concatenation, first dimension first, of one-hot vectors of the dimension lengths. Indices outside their dimension and databases whose size does not match the hypercube are rejected.",
["inputs","configurations"],"all first_dim, dim, number of dimensions, indices, database sizes in range",
"One encoding is printed, none is checked.",
["src/evaluations.rs"],
[("Client::encode","src/evaluations.rs")],
["returned coefficient vector or panic"],None,H)
p("C21","Noise measurement reports the true noise of a ciphertext",
"For every ciphertext (fresh, computed, with two or three components, at any level) the reported noise equals the bit length of the largest centred coefficient of its phase minus the exact scaled plaintext. Injecting an error of known magnitude below the decryption threshold changes neither the decrypted message nor yields a wrong reading, and any error below the threshold floor(Q/t)/2 (up to a relative 2^-58) still decrypts correctly.",
["inputs","histories"],"all error magnitudes from 0 to the threshold, positions, levels, component counts",
"measure_noise is only printed.",
["src/bfv.rs"],
[("measure_noise","src/bfv.rs"),("t/Q rounding","src/rns.rs")],
["returned bit count; decryption at the threshold"],None,H)
p("C22","Incompatible operands are refused, never silently miscomputed",
"Combining ciphertexts, plaintexts, polynomials or keys of different levels, parameters or rings, in a representation or with a number of components (or query ciphertexts) the operation does not accept, fails loudly - in builds without debug assertions too - instead of returning a value; so do even automorphism exponents, levels that do not exist, plaintexts without encoding and keys with fewer moduli than the polynomials they are for. Compatible operands are never refused. Operations that need only the ring (automorphisms, external products, key switching, polynomial encryption, decryption) may but need not refuse operands of the same ring that come from different parameter sets.",
["inputs","configurations"],"for every operation all pairs of (parameter set, level, representation, component count) over eight parameter sets that differ in one respect each, and all lengths",
"No test provokes a mismatch.",
["src/bfv.rs","src/rq.rs","src/ksk.rs","src/rgsw.rs","src/evaluations.rs"],
[("assertions at operation entry","src/bfv.rs, src/rq.rs, src/ksk.rs, src/evaluations.rs")],
["panic or value"],None,H)
p("C23","Evaluation is pure: no randomness, no side effects, no history dependence",
"Homomorphic operations, key switching, expansion, server evaluation and decryption are deterministic functions of their operands: they draw no randomness, leave their operands unchanged, and return the same result whatever was computed before with the same or other parameters, keys or levels, and on whichever thread. Expanding the same mask seed always gives the same polynomial.",
["histories","schedules"],"all orders of operations over six parameter sets that differ in one respect each, two keys and all levels, repeated, handed over between threads and concurrent",
"Each test builds one parameter set and runs an operation once.",
["src/bfv.rs","src/rq.rs","src/evaluations.rs","src/ksk.rs"],
[("by-reference operators returning new values","src/bfv.rs, src/rq.rs"),("seeded expansion","src/rq.rs random_from_seed")],
["operands before/after; results across histories; generator draw counters"],None,H)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
