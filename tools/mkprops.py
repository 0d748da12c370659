import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("P01","Prime-field arithmetic is exact arithmetic modulo p",
 "For every prime p, the integers modulo p behave as the field Z/p: sums, differences, products, negations, quotients, inverses, integer powers and equality of elements equal the exact results modulo p, every result is the canonical representative in 0..p-1, and inverting zero fails. Building an element from any integer (also negative or far larger than p) or from a byte string of any length gives the residue of that number, and the 32-byte encoding of an element decodes to the same element.",
 ["inputs"],"every prime p, every pair of elements, every integer or byte string as constructor argument, every exponent >= 0",
 "The tests exercise a handful of sums and products modulo 7 and a few other primes; they cannot settle all primes, all elements, all constructor arguments and all exponents.",
 ["starks/modp.py","starks/numbertype.py","starks/euclidean.py"],
 [("IntegersModP","starks/modp.py:IntegersModP"),("typecheck / __pow__ / __truediv__","starks/numbertype.py"),("extended_euclidean_algorithm","starks/euclidean.py")],
 ["element operators","int(element)","to_bytes / constructor from bytes"])
p("P02","Extension-field arithmetic is exact arithmetic in GF(p^m)",
 "For every prime p, degree m and irreducible modulus, elements of the extension field add, subtract, multiply, negate, divide, invert, exponentiate and compare exactly as residue classes of polynomials over Z/p modulo that polynomial, every element is stored reduced (degree below m), and inverting zero fails. Building an element from an integer, a base-field element, a coefficient list or polynomial of any length, or a byte string gives its residue class, and an element's byte encoding decodes to the same element.",
 ["inputs"],"every (p, m, modulus) accepted by the constructor, all pairs of elements, every constructor argument, every exponent >= 0",
 "Tests check a few fixed products in two or three binary fields; equality, inversion and reduction over all fields, moduli and elements are not sampled.",
 ["starks/finitefield.py","starks/polynomial.py","starks/euclidean.py"],
 [("Fq operators reduce through the polynomial remainder","starks/finitefield.py:FiniteField.Fq"),("inverse through extended Euclid","starks/finitefield.py:Fq.inverse")],
 ["element operators",".poly.coefficients of results","to_bytes / constructor from bytes"])
p("P03","Equal parameters give one structure, different parameters give different ones",
 "Asking for a field, rational field, polynomial ring or multivariate ring with the same parameters (passed positionally, by name or by default) yields the same structure every time and in any order, so elements built through different requests interoperate. Requests that differ in any parameter (prime, degree, modulus polynomial, coefficient ring, number of variables) never share a structure, and an existing structure is unaffected by later requests.",
 ["histories","inputs"],"every sequence of constructor requests, in any order, with any mix of positional, keyword and default arguments",
 "The outcome depends on the history of requests in the process; each test only makes one or two requests.",
 ["starks/numbertype.py","starks/modp.py","starks/finitefield.py","starks/polynomial.py","starks/multivariate_polynomial.py","starks/rationals_modp.py"],
 [("memoize","starks/numbertype.py:memoize")],["identity of the returned classes","modulus / ring / variable count they carry"],
 state=[("cache","map from argument tuple to the structure built for it","starks/numbertype.py:memoize.cache")])
p("P04","Univariate polynomials form the ring R[x] with Euclidean division",
 "Over every supported field, univariate polynomials add, subtract, negate, multiply, exponentiate (also modulo a polynomial), compare and evaluate (at scalars and, over prime fields, at polynomials) exactly as in R[x], with no trailing zero coefficient and the right degree, also for zero and constants. Division returns the unique quotient and remainder with dividend = quotient*divisor + remainder and remainder of smaller degree, and dividing by zero fails.",
 ["inputs"],"every coefficient field (prime and extension), polynomials of every degree including zero, every evaluation point",
 "Tests use a few small polynomials over rationals or small primes; the ring laws and the division identity quantify over all of them.",
 ["starks/polynomial.py","starks/numbertype.py"],
 [("Polynomial operators and strip","starks/polynomial.py:polynomials_over.Polynomial"),("powmod","starks/numbertype.py:DomainElement.powmod")],
 ["coefficients of results","degree()","call","divmod, /, %"])
p("P05","Multivariate polynomials form the ring R[X1..Xn] with evaluation",
 "Over every supported field and number of variables, multivariate polynomials add, subtract, negate, multiply, exponentiate, compare, report total degree and iterate over their monomials exactly as in R[X1..Xn], never keeping a zero coefficient. Evaluation at a point is a ring homomorphism, whether the point consists of field elements or (over prime fields) of polynomials.",
 ["inputs"],"every field, number of variables, pair of polynomials and evaluation point (scalars, univariate or multivariate polynomials)",
 "Tests check a few sums and products with one or two monomials.",
 ["starks/multivariate_polynomial.py"],[("MultivariatePolynomial operators","starks/multivariate_polynomial.py:multivariates_over")],
 ["coefficients of results","call","degree()","iteration"])
p("P06","Euclid's algorithm returns true gcds and Bezout certificates",
 "For all integers and all univariate polynomials over a field, the gcd routine returns a common divisor that every common divisor divides, independent of argument order and also when an argument is zero. The extended routine returns x, y, d with a*x + b*y = d, where d is such a gcd.",
 ["inputs"],"all pairs (a, b) of non-negative integers or of polynomials over a field, in both orders, including zero and equal arguments",
 "Tests cover four or five integer pairs and one or two polynomial pairs.",
 ["starks/euclidean.py"],[("gcd","starks/euclidean.py:gcd"),("extended_euclidean_algorithm","starks/euclidean.py:extended_euclidean_algorithm")],["returned triples"])
p("P07","Irreducibility and primitivity tests are exact; generators meet them",
 "The irreducibility test accepts a monic polynomial of positive degree over Z/p if and only if it has no factor of smaller positive degree, and the primitivity test accepts one of degree m if and only if it is irreducible and x generates the whole multiplicative group of GF(p^m). The random generators always return a monic polynomial of exactly the requested degree that is irreducible (respectively primitive), whatever random choices they make, and the field constructor refuses every reducible modulus.",
 ["inputs","schedules"],"every prime, degree and monic polynomial; every random choice of the generators",
 "Tests try a few known polynomials; the if-and-only-if ranges over all polynomials and the generators are random.",
 ["starks/poly_utils.py","starks/finitefield.py"],
 [("is_irreducible","starks/poly_utils.py:is_irreducible"),("is_primitive","starks/poly_utils.py:is_primitive"),("generate_*_polynomial","starks/poly_utils.py")],
 ["boolean verdicts","generated polynomials","ValueError of FiniteField"])
p("P08","Interpolation, vanishing polynomials and batch inversion are exact",
 "Given distinct points and values in any supported field, every interpolation routine (general, two-point, four-point, batched four-point) returns the unique polynomial of degree below the number of points that takes those values, also when values or points are zero. The vanishing polynomial of a list of points is the monic polynomial with exactly those roots with multiplicity, and batch inversion returns the inverse of each entry and zero for zero entries.",
 ["inputs"],"every field (prime and extension), every set of distinct points and every list of values, including zeros",
 "Tests interpolate one or two hand-made point sets.",
 ["starks/poly_utils.py"],[("lagrange_interp, lagrange_interp_2, lagrange_interp_4, multi_interp_4","starks/poly_utils.py"),("zpoly, multi_inv","starks/poly_utils.py")],["coefficients of returned polynomials","returned lists"])
p("P09","Function arithmetization agrees with the function at every point",
 "For every finite field F_q and every function from F_q^n to F_q, the multivariate polynomial constructed for the function takes the function's value at every point of F_q^n and has degree below q in each variable. The multivariate delta polynomial at a point is one at that point and zero at every other point.",
 ["inputs","programs"],"every (small) field, prime or extension, every arity n and every function table",
 "Tests check a single step function at a few points.",
 ["starks/poly_utils.py"],[("construct_multivariate_coefficients, construct_multivariate_dirac_delta","starks/poly_utils.py")],["values of the polynomial at all points"])
p("P10","The FFT evaluates and interpolates exactly on the root-of-unity domain",
 "For every field and root of unity w of order n, the forward transform of a polynomial of degree below n is the list of its values at 1, w, ..., w^(n-1) in that order, and the inverse transform of n values is the polynomial of degree below n with those values, so each undoes the other. Multiplication through the transform equals the polynomial product whenever that product fits in n coefficients.",
 ["inputs"],"every field, every order n dividing the size of the multiplicative group (powers of two and others), every polynomial of degree < n (also short and zero ones), every value list",
 "Tests transform one polynomial on one domain.",
 ["starks/fft.py"],[("NonBinaryFFT, fft_1d, _fft","starks/fft.py"),("mul_polys","starks/fft.py")],["fft values","inv_fft coefficients","mul_polys result"])
p("P11","Merkle openings verify exactly for the committed leaf and position",
 "For every list of 2^k >= 4 leaves (integers, bytes or field elements), the branch opened for any position verifies against the root and yields exactly the leaf committed at that position. Any change to the leaf, to any sibling, to the root or to the claimed position (for different leaves) makes verification fail.",
 ["inputs","fault_sequences"],"every leaf list of power-of-two length, every position, every single alteration of leaf, sibling, position or root",
 "Tests open a few positions of one tree and never try forged branches.",
 ["starks/merkle_tree.py"],[("permute4 / get_index_in_permuted","starks/merkle_tree.py"),("merkelize, mk_branch, verify_branch","starks/merkle_tree.py")],["tree nodes","branches","verify_branch result or failure"],
 state=[("tree","2n nodes: leaves in permuted order at n.., parent i hashes 2i and 2i+1, root at 1","starks/merkle_tree.py:merkelize")])
p("P12","Joint Merkle leaves pack and unpack every evaluation losslessly",
 "Committing several evaluation vectors together places at position i the concatenated 32-byte encodings of the i-th value of every vector, in order, so opening position i and unpacking the leaf returns exactly the i-th value of every vector. This holds for every number of polynomials and dimensions, including zero values and values with leading zero bytes.",
 ["inputs"],"every number of vectors, dimension and value, every position",
 "Tests pack one small example.",
 ["starks/merkle_tree.py","starks/modp.py"],[("merkelize_polynomial_evaluations, unpack_merkle_leaf","starks/merkle_tree.py")],["unpacked values per position"])
p("P13","Proof compression is lossless",
 "Compressing a list of Merkle branches or a low-degree proof and decompressing the result returns the original, whatever values repeat inside and across branches and however many components, branches or entries there are. Compression never fails on such data within its 2-byte back-reference range, and its reported binary length is the length of the compressed byte content with its markers.",
 ["inputs"],"every nesting of branches and entries (not 2 bytes long and not a separator), with every repetition pattern, including empty lists",
 "Tests compress one proof; the repetition patterns that drive the back-references are not enumerated.",
 ["starks/compression.py"],[("compress_fri / decompress_fri","starks/compression.py"),("compress_branches / decompress_branches","starks/compression.py")],["decompressed structures"],
 state=[("oindex","map from an entry already written to its position","starks/compression.py")])
p("P14","Spot-check positions are a deterministic, in-range function of the entropy",
 "The positions drawn from given entropy are the requested number of indices, all below the modulus and, when multiples of a factor are excluded, never a multiple of it; every allowed position can occur. They depend only on the entropy and parameters: index i is the i-th big-endian 4-byte word of the entropy, extended by hashing its last 32 bytes as often as needed, reduced to the number of allowed positions and mapped to the allowed positions in increasing order.",
 ["inputs"],"every entropy string, modulus below 2^24, count, and exclusion factor dividing the modulus",
 "Tests draw once from one entropy value.",
 ["starks/utils.py"],[("get_pseudorandom_indices","starks/utils.py")],["returned indices"])
p("P15","MiMC, power cycles and monomial helpers compute what they define",
 "The MiMC permutation over s steps applies cube-plus-round-constant exactly s-1 times modulo the 256-bit STARK prime, using the round constants cyclically. The power cycle of a field element lists its distinct powers from 1 up to but not including the return to 1, the variable generator returns exactly the polynomials X_1..X_w, and the power-of-two test accepts exactly the powers of two.",
 ["inputs"],"every input, step count, round constant list, non-zero field element, width and positive integer",
 "Tests check one or two calls of each helper.",
 ["starks/utils.py"],[("mimc, get_power_cycle, generate_Xi_s, is_a_power_of_2","starks/utils.py")],["returned values"])
p("P16","AIR traces follow the step polynomials and constraints detect deviations",
 "The computational trace starts with the input, each next state is the value of every step polynomial at the previous state, it has the requested number of states and its last state is the output; the witness and input boundary constraints are this trace column by column. Each transition constraint evaluates to zero on (state, next state) if and only if the next state's coordinate equals the step polynomial's value.",
 ["inputs","programs"],"every field, width, input state, step polynomials and number of steps; every pair of states",
 "Tests build a few AIRs and check lengths or single values.",
 ["starks/air.py"],[("get_computational_trace","starks/air.py"),("AIR.generate_constraint_polynomials, generate_witness, generate_boundary_constraints","starks/air.py")],["trace, output, constraints, witness, boundary constraints"])
p("P17","Affine spaces enumerate their elements; vanishing polynomials vanish there",
 "Iterating an affine space yields exactly the shift plus every linear combination of the basis with coefficients from the field, once per combination, and its reported size is that count. The vanishing polynomial of an affine space is zero exactly on the elements of the space.",
 ["inputs"],"every prime field, basis (field elements or polynomials), and shift",
 "Tests enumerate one or two spaces.",
 ["starks/reedsolomon.py","starks/poly_utils.py"],[("AffineSpace","starks/reedsolomon.py"),("construct_affine_vanishing_polynomial","starks/poly_utils.py")],["enumerated elements, size, polynomial coefficients and values"])
p("P18","Rationals modulo p compute as the field Z/p",
 "Fractions modulo a prime with non-zero denominators add, subtract, multiply, divide, negate, invert and compare (equal and not equal) as the corresponding elements numerator/denominator of Z/p, whatever representatives they were built from. Inverting zero fails and the byte encoding decodes to an equal fraction.",
 ["inputs"],"every prime, every numerator and every non-zero denominator, every operation sequence",
 "Tests check a few operations modulo one prime.",
 ["starks/rationals_modp.py"],[("RationalModP","starks/rationals_modp.py")],["numerator and denominator of results, comparisons"])
p("P19","Floating point over binary fields follows its four-component semantics",
 "Numbers (significand, exponent, zero flag, sign) over a binary field add, subtract, multiply and divide by the documented rules: a zero operand is neutral for addition and absorbing for multiplication, signs multiply by exclusive or, significands multiply and divide in the field and exponents are shifted accordingly, and division by zero fails. Conversion to fixed point, power-of-two, ordering and binary addition helpers agree with the documented rules, equality holds exactly for equal numbers, and no operation changes its operands.",
 ["inputs"],"every binary field, all significands, exponents, zero flags and signs",
 "Tests compute a few fixed sums and products and their equality compares almost nothing.",
 ["starks/floatingpoint.py","starks/finitefield.py"],[("Fp operators","starks/floatingpoint.py:FloatingPoint"),("two_pow, LT, Regular_Binary_Addition","starks/finitefield.py")],["the four components of results and operands"])
p("P20","Every honest STARK proof verifies",
 "For every valid execution trace, the proof produced by the prover is accepted by the verifier built with the same parameters, for every field with a suitable root of unity, width, step polynomials, number of steps, extension factor and number of spot checks. This includes traces whose inputs, outputs or intermediate values are zero.",
 ["inputs","configurations"],"every computation (width, step polynomials, input), steps and extension factor within the degree bound, spot-check count",
 "Tests run a few widths with the 256-bit prime and fixed inputs.",
 ["starks/stark.py","starks/fri.py","starks/fft.py","starks/merkle_tree.py"],[("STARK.mk_proof / verify_proof","starks/stark.py")],["verifier verdict, proof contents"])
p("P21","STARK verification rejects every proof that does not support the claim",
 "The verifier accepts a proof exactly when all its openings are authentic, the low-degree proof is valid, and at every spot-checked position the opened values satisfy the transition, boundary and linear-combination equations for the claimed input and output. In particular a proof altered in any opened value, branch, root or low-degree component, presented for a different input or output, or built from an invalid execution is rejected.",
 ["inputs","fault_sequences"],"every honest proof and every single alteration of it, every wrong claim, every invalid trace",
 "Tests only check that honest proofs pass.",
 ["starks/stark.py","starks/merkle_tree.py","starks/fri.py"],[("STARK.verify_proof, verify_proof_at_position","starks/stark.py")],["verifier verdict on altered proofs"])
p("P22","Low-degree proofs: honest ones verify, false ones are rejected",
 "For every polynomial of degree below the claimed bound on a smooth multiplicative subgroup the generated low-degree proof is accepted by the verifier. A proof is rejected when any opened value, branch, root or final value is altered, when it is presented for a different commitment, or when the committed function is far from every polynomial of the claimed degree.",
 ["inputs","fault_sequences"],"every field, domain size, degree bound and exclusion factor; every polynomial; every single alteration",
 "Tests verify one or two honest proofs.",
 ["starks/fri.py","starks/poly_utils.py"],[("SmoothSubgroupFRI.generate_proximity_proof / verify_proximity_proof","starks/fri.py")],["verifier verdict, proof contents"])
p("P23","STARK component polynomials satisfy their defining identities",
 "For every valid trace, the trace polynomials take the witness values on the trace domain, the constraint polynomials equal next-state minus step polynomial composed with them, the remainder polynomials times the transition vanishing polynomial equal the constraint polynomials, and the boundary polynomials times the boundary vanishing polynomial equal the trace polynomial minus the input/output interpolant. The joint polynomial is the documented linear combination of these with coefficients derived from the commitment, and for an invalid trace no remainder polynomial is produced.",
 ["inputs","configurations"],"every field, width, steps, step polynomials and valid or corrupted trace",
 "Tests check degrees or single evaluations for one computation.",
 ["starks/stark.py"],[("construct_trace/constraint/remainder/boundary_polynomials","starks/stark.py"),("compute_pseudorandom_linear_combination, get_pseudorandom_ks","starks/stark.py")],["coefficients of the polynomials"])
p("P24","Univariate and multivariate views of a polynomial convert faithfully",
 "Embedding a univariate polynomial as a polynomial in the i-th of w variables keeps every coefficient and puts its exponent on that variable only. Projecting a multivariate polynomial onto one variable yields the polynomial in that variable whose coefficients are the polynomials in the remaining variables, so that evaluating both at any point agrees, including for zero and constant polynomials.",
 ["inputs"],"every polynomial, field, width and variable index",
 "Tests convert one or two polynomials.",
 ["starks/poly_utils.py"],[("make_multivar, project_to_univariate","starks/poly_utils.py")],["coefficients of the result"])
p("P25","Mixed-type arithmetic agrees with explicit conversion",
 "Combining an integer, base-field element, extension-field element, univariate or multivariate polynomial with a value of a compatible richer type, in either operand order, gives the same result as first converting the poorer operand to the richer type. Equality between compatible types agrees with this conversion as well.",
 ["inputs","programs"],"all compatible type pairs (a polynomial over an extension field is not combined with a scalar of that field) in both orders and all operators +, -, *, == (and / for fields)",
 "Tests use mixed operands in only a few combinations.",
 ["starks/numbertype.py","starks/modp.py","starks/finitefield.py","starks/polynomial.py","starks/multivariate_polynomial.py"],[("typecheck and operatorPrecedence","starks/numbertype.py"),("reflected operators","starks/numbertype.py:DomainElement")],["type and value of results"])
p("P26","A blockchain node's chain stays valid and keeps every transaction once",
 "Under every interleaving of mining, transaction, registration and consensus requests, a node's chain starts with one genesis block and every later block has the next index, the hash of its predecessor and a valid proof of work on it. Every accepted transaction enters exactly one block the node mines, namely its next one, at the announced index unless the chain was replaced or extended meanwhile, and every block mined by the node pays exactly one reward.",
 ["schedules","histories"],"every history and thread interleaving of the node's HTTP requests",
 "The existing tests only call the class sequentially once or twice and never run concurrent requests.",
 ["misc/blockchain.py","misc/run_blockchain.py"],[("new_block, new_transaction, proof_of_work, valid_proof","misc/blockchain.py"),("request handlers and their lock","misc/run_blockchain.py")],["HTTP responses of /mine, /transactions/new, /chain"],
 state=[("chain","list of blocks of a node","misc/blockchain.py:Blockchain.chain"),("current_transactions","transactions waiting for the next block","misc/blockchain.py"),("nodes","registered peers","misc/blockchain.py")])
p("P27","Consensus adopts exactly the longest valid chain among peers",
 "Resolving conflicts replaces a node's chain only by a valid chain of a reachable peer that is strictly longer than its own, chooses a longest such chain, and otherwise leaves it unchanged; chain length is what the peer's blocks show, not what the peer reports. Chains with a broken index, link, proof or hash are never adopted, unreachable peers do not disturb the outcome, and once every node has resolved against all others, all chains have the maximal length.",
 ["histories","fault_sequences","configurations"],"every network topology, history of mining and resolution, and corrupted, lying or failing peers",
 "No test exercises consensus between nodes.",
 ["misc/blockchain.py","misc/run_blockchain.py"],[("resolve_conflicts, valid_chain, register_node","misc/blockchain.py")],["chain before and after /nodes/resolve"],
 state=[("chain","list of blocks of a node","misc/blockchain.py"),("nodes","registered peers","misc/blockchain.py")])
p("P28","Commitments open to the committed value and to nothing else",
 "Committing to a bit or an integer and revealing the secrets verifies and decodes to exactly the committed value, for every value that fits and every choice of secrets. An opening with a secret that does not map to the commitment, with missing, extra or swapped parts, or against a commitment whose image was altered is rejected, and no accepted opening decodes to a different value.",
 ["inputs","fault_sequences"],"every bit or integer, modulus, secret choice and every altered opening",
 "Tests run a few random commitments and never try a dishonest opening.",
 ["misc/commitment.py","misc/blum_blum_shub.py"],[("BBSBitCommitmentScheme/Verifier","misc/commitment.py"),("BBSIntCommitmentScheme/Verifier","misc/commitment.py")],["verify and decode results"])
p("P29","Primality testing and the Blum-Blum-Shub setup are exact",
 "The probabilistic primality test never rejects a prime, and accepts a composite only with the stated negligible probability; decomposition writes n as 2^e times an odd number. Good primes are exactly the primes congruent to 3 modulo 4, generated moduli are products of two of them of the requested size, the generator squares modulo that modulus, and parity is the sum of the bits modulo 2.",
 ["inputs","schedules"],"every integer and every random choice",
 "Tests check two or three primes.",
 ["misc/primality.py","misc/blum_blum_shub.py"],[("probablyPrime, decompose, isWitness","misc/primality.py"),("good_prime, find_good_prime, make_modulus, parity","misc/blum_blum_shub.py")],["returned values"])
p("P30","Graph-isomorphism proofs are complete, sound and simulatable",
 "With a true isomorphism every protocol round is accepted for either challenge; for any first message, a prover able to answer both challenges determines a real isomorphism between the two graphs, so non-isomorphic graphs are caught on at least one challenge. The verifier accepts a response exactly when it is a bijective relabelling taking the committed graph to the challenged graph, and simulated transcripts are accepted without knowing the isomorphism.",
 ["inputs","schedules","fault_sequences"],"every pair of graphs, isomorphism, permutation choice, challenge and (dishonest) response map",
 "Tests run a few random rounds with an honest prover.",
 ["misc/zero_knowledge.py"],[("ZKProver, ZKVerifier.accepts, simulate_protocol","misc/zero_knowledge.py")],["accepts verdict, transcripts"])
p("P31","3-coloring proofs accept proper colorings and catch improper edges",
 "With a proper coloring every round is accepted for every challenged edge, and the revealed colours are a permutation of the prover's colours. A round is rejected whenever the opened endpoints have equal colours, a colour outside the three, or openings that do not match the commitments, and asking for a non-edge is refused.",
 ["inputs","schedules","fault_sequences"],"every graph, coloring, colour permutation, challenged edge and altered opening",
 "Tests run one graph with an honest prover.",
 ["misc/zkp_3_coloring.py","misc/commitment.py"],[("ZK3ColProver, ZK3ColVerifier","misc/zkp_3_coloring.py")],["accepts verdict, revealed colours"])
p("P32","Operations never change their operands and repeat identically",
 "No arithmetic operation, transform, conversion, interpolation, commitment, proof generation or verification changes the values or lists passed to it or any value computed earlier, even when results share structure with their operands. Repeating a deterministic operation later with equal arguments gives an equal result, whatever happened in between.",
 ["histories","programs"],"every program built from the library's operations over shared values",
 "Tests use fresh values for each call and never look at operands again.",
 ["starks/numbertype.py","starks/polynomial.py","starks/multivariate_polynomial.py","starks/finitefield.py","starks/poly_utils.py","starks/fft.py","starks/merkle_tree.py","starks/stark.py"],[("immutable-by-convention elements and polynomials","starks/polynomial.py, starks/modp.py, starks/finitefield.py")],["all live values after every operation"])
p("P33","The APR instance derived from an AIR meets its defining equations",
 "For every AIR instance over a binary field, the APR reduction's boundary vanishing polynomial of each register vanishes exactly at the positions that constrain that register and its boundary interpolant takes the constrained values there. Neighbour maps, affine evaluation spaces and rate parameters equal their definitions in terms of the instance's time bound, width, degree and expansion constants.",
 ["inputs","configurations"],"every AIR instance over a binary extension field: width, inputs, step polynomials and expansion parameter",
 "The one test of this class does not even construct an instance today.",
 ["starks/apr.py"],[("construct_Z_boundaries, construct_Eps_boundaries","starks/apr.py"),("construct_neighbors, construct_L, construct_L_cmp, compute_rho_js, compute_rho_cmp","starks/apr.py")],["attributes of the constructed instance"])
for d in P:
    assert d["statement"].count(". ")<=2,(d["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
try:
  import jsonschema
except ImportError:
  jsonschema = None
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
  if jsonschema: jsonschema.validate(d,s)
print(len(P))
