"""Writes tools/notes.json (per-property bounds, used in the evidence) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "The implementation's only source of nondeterminism, the thread generator, is replaced by an explorer-controlled one (vendor/rand); generators seeded from it (ChaCha8 mask expansion) are the real ones."
REF = "The reference models (harness/src/refm.rs: 128-bit and big-integer schoolbook arithmetic) are trusted."
B = {
"C01": "All shapes with first+dim*(d-1) <= N at N=8 (every index, twelve database alphabets incl. near-identical, shifted, permuted and cancelling neighbours, extremal and pseudo-random environments, all key shapes), chains of 1-10 moduli of 20-62 bits, shapes of bounded size at N=16/32, listed shapes at N=64..1024 (thorough 2048 and 4096).",
"C02": "N = 8..2048 (thorough 4096), chains of up to 18 moduli: all unit vectors for small N, saturated and dense vectors, scaled and gadget-scaled payloads, six key shapes, five environment patterns; exact phases in the zero-noise environment.",
"C03": "All levels of all listed parameter sets (N=8..32768, 1-16 moduli, every variance, plaintext moduli of every size 5..60 bits), message lattice incl. all positions and all single values of Z_t (t<2000), short messages, all extremal error patterns, six key shapes.",
"C04": "All listed (N,t) up to N=32768 and t of 60 bits, all slot unit vectors, all rotations 3^k and the row swap, all pairs of basis slot vectors; ciphertexts at every level with budget.",
"C05": "All operation sequences up to depth 4 (5) over an alphabet of 27 homomorphic operations on a two-register store, pruned only by the worst-case noise bound; states deduplicated by plaintext, noise class, level and component count; scalars at every residue boundary; inner products of up to 70 terms; histories at N up to 256.",
"C06": "All pairs of the message lattice, and related operands (the same object, a copy, a fresh encryption, a sum or rotation of the other), at every level that has noise budget, extremal environments, six key shapes, extremal mask polynomials, parameter sets whose budget barely admits one product, N up to 1024; exact phase of the tensor product.",
"C07": "All odd exponents in two representatives per class, all monomials, N=8..64, all compositions for N<=16, exponent alphabet at N up to 32768, chains of up to 18 moduli; Galois keys for all exponents at all levels.",
"C08": "All (ciphertext level, key level) pairs of about twenty parameter sets of up to 21 moduli, all unit source/input polynomials at boundary residues, extremal environments, N up to 4096 (8192); exact equality with zero errors.",
"C09": "All pairs of the multiplier and message lattices at all levels of parameter sets of up to 21 moduli and N up to 4096 (8192), RGSW built directly, from a polynomial and assembled from RLWE rows.",
"C10": "All supported primes below the limit for N=8..256, extremal primes of 11 sizes, all unit vectors and pairs of boundary values; every prime 1 mod 2n below n*2^17 (2^20 thorough) for n = 8, 16, 64, 256 and the 500 (5000) largest of 33, 50, 61 and 62 bits; N up to 32768 on structured vectors; several operators of different sizes over one prime, interleaved; vectors of every other length refused; all (n,p) refusals in range.",
"C11": "Every modulus 2..400 with every operand pair and exponent; boundary lattice of operands for about 200 moduli up to 62 bits; full signed, 128-bit and big reduction lattices.",
"C12": "Every residue vector of all small bases and factors; lattices around every rounding decision and centring boundary for bases up to sixteen 62-bit moduli (projection and lifting: 32), disjoint, partially common and reordered targets.",
"C13": "Every value of Z_Q for all ordered pairs and triples of small primes; lattice around every multiple and half multiple of the dropped modulus for chains of up to 8 moduli of every size, N up to 1024; all (source, target) level pairs.",
"C14": "All operator and representation histories to depth 4 (5) on small rings, operand lattices incl. all unit vectors in all listed rings, all residues for inversion.",
"C15": "Every value in the stated ranges (digits 2^11/2^16, sieve 2^20/2^23, inverses below 400/1500, every bound of small prime sizes, sixteen congruence steps), boundary values up to 64 bits, all 4-word combinations of boundary words.",
"C16": "Influence of every single random bit for all variances 1..16 and lengths up to 4096 (8192), all bit streams of the smallest instances, refusal of all listed other variances.",
"C17": "Single-bit influence analysis of every environment answer for every encryption/key operation, all ordered pairs, all histories of length 3 (4) over six operations, PVW key generation and encryption; at N = 1024..8192 (32768) over enumerated environments, no stretch of errors and no mask residue handed out twice; the mask of every operation tabulated over an enumerated set of environments, per modulus in evaluation and coefficient form and jointly with position, neighbouring, mirrored and opposite coefficient, the other moduli and the previous mask. Operating-system entropy requests are answered by the same controlled generator (vendor/getrandom).",
"C18": "Every mask and payload of small rings for decryption; round trips with extremal errors at the edge of the noise budget for all variances; default parameters.",
"C19": "All sizes 10..62 for ten degrees, all lists of up to four small sizes, every small size run dry; every level of about 120 parameter sets against the reference definition of each precomputed constant.",
"C20": "All shapes up to 17x9^9 (20x12^11) with at most 1200 (5000) entries and longer listed ones, three parameter sets, every index vector, all out-of-range indices and neighbouring database sizes.",
"C21": "Injected errors of every magnitude (small rings) or on the lattice around powers of two and the threshold, positions, every level, 2 and 3 components, 1-16 moduli, plaintext moduli of 5-60 bits, N up to 4096; all computed ciphertexts of the listed configurations.",
"C22": "All ordered pairs of eight parameter sets x levels x component counts for every operation, all pairs of rings x representations for polynomials, all lengths up to five.",
"C23": "Each history runs in a fresh process: all single letters, all related ordered pairs (operation x parameter set x key x level x operands) on one and two threads, with everything, nothing or only the keys rebuilt in between, full tours in three orders, triples (thorough); operation-granularity schedules are exhaustive, finer interleavings are only run freely (four threads), because the code has no synchronisation points to control.",
}
A = {k: [ENV, REF, "Both builds (debug assertions and overflow checks on / off) are explored."] for k in B}
for k in ("C10", "C11", "C12", "C13", "C14", "C15", "C20"):
    A[k] = [REF, "Both builds (debug assertions and overflow checks on / off) are explored."]
json.dump({k: {"bounds": B[k], "assumptions": A[k]} for k in B}, open(os.path.join(HERE, "tools", "notes.json"), "w"), indent=1)
T = {
"C05": "explicit-state exploration of all operation histories on the real code, plaintext-ring model as oracle",
"C17": "exhaustive bit-influence exploration of the controlled generator over all operation histories",
"C16": "exhaustive exploration of the random bit stream (every bit, all small streams)",
"C23": "exhaustive exploration of operation histories and thread hand-overs in fresh processes",
"C22": "exhaustive enumeration of operand combinations against an admissibility model",
}
checks = [{
    "property": p,
    "quick_cmd": "python3 check.py %s" % p,
    "thorough_cmd": "python3 check.py %s --thorough" % p,
    "evidence_file": "evidence/%s.json" % p,
    "technique": T.get(p, "bounded exhaustive explicit-state model checking of the real code against a reference model"),
    "level": "model_checking",
    "level_note": "Every case inside the stated bounds is executed on the compiled implementation and compared with the model; nothing is sampled. " + B[p] + " Trusted: reference arithmetic, the controlled generator, rustc.",
} for p in sorted(B)]
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "--cfg onion_pir_verif", "enable": "RUSTFLAGS='--cfg onion_pir_verif' (set by check.py for harness/, which has a path dependency on /repo)",
              "source_commits": ["17acbc15e0ea5dae1a261fdf70e4dd9e94a2d0c1"]},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
