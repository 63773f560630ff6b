import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
B="crates/fhe/src/bfv/"; M="crates/fhe-math/src/"; MB="crates/fhe/src/mbfv/"

add("C01","Homomorphic computation refines plaintext arithmetic",
 "For every accepted parameter set, every program of encryptions and homomorphic additions, subtractions, negations, products, plaintext operations, dot products and relinearisations whose worst-case noise stays within the budget decrypts to exactly what the same program computes on the plaintexts modulo t (coefficient-wise in the negacyclic ring, or slot-wise for batched encodings). This holds for every encoder, decoder, key and operator form, whichever process evaluates the program and in whatever order its requests arrive, and no operation of such a program panics or reports an error.",
 ["programs","inputs","configurations","schedules","fault_sequences"],
 "All parameter sets the builder accepts, all in-budget programs and operands (including the empty ciphertext), secret- and public-key encryption at every level, one or several tenants sharing an evaluator, every arrival order, duplication and re-execution of requests.",
 "Tests run single operations on a handful of fixed parameter sets and random operands; they never compose deep random programs over random parameters, edge-valued plaintexts, several tenants and re-executions, and cannot enumerate them.",
 [B+"ops/mod.rs",B+"ops/mul.rs",B+"ops/dot_product.rs",B+"ciphertext.rs",B+"plaintext.rs",B+"plaintext_vec.rs",B+"encoding.rs",B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"keys/relinearization_key.rs",B+"keys/key_switching_key.rs",B+"parameters.rs",M+"rq/ops.rs",M+"rq/scaler.rs",M+"rns/scaler.rs",M+"zq/mod.rs",M+"ntt/native.rs",M+"ntt/tfhe.rs"],
 [("ciphertext operators",B+"ops/mod.rs"),("Multiplicator strategies",B+"ops/mul.rs"),("lazy dot product accumulation",B+"ops/dot_product.rs"),("RNS scaling of the tensor product",M+"rns/scaler.rs"),("decryption by scaling",B+"keys/secret_key.rs"),("encoders and decoders",B+"plaintext.rs")],
 observe=["SecretKey::try_decrypt","Plaintext::try_decode"])
add("C02","Level changes and key/ciphertext level combinations preserve meaning",
 "Every history of modulus switches, switches to a target level, encryptions at a level, leveled keys and operations at matching levels preserves the plaintext, reports the level it should, keeps the number of polynomials, and works down to the last level whenever the noise bound allows. Switching down divides the noise by the dropped modulus up to a rounding term, and switching step by step or to the target at once means the same.",
 ["histories","programs","configurations","fault_sequences"],
 "All histories mixing level changes with every other operation, all chains of one to six or seven moduli of mixed sizes, all admissible ciphertext/key level pairs.",
 "Tests switch freshly encrypted ciphertexts on two or three parameter sets; histories interleaving switches with leveled keys, products and restored ciphertexts on mixed-size moduli chains are unbounded.",
 [B+"ciphertext.rs",B+"parameters.rs",B+"context/level.rs",B+"ops/mul.rs",B+"keys/key_switching_key.rs",B+"keys/public_key.rs",M+"rq/mod.rs",M+"rq/switcher.rs",M+"rq/context.rs"],
 [("switch_down / switch_to_level",B+"ciphertext.rs"),("mod_switch_down_next of polynomials",M+"rq/mod.rs"),("level contexts",B+"parameters.rs"),("encryption below level 0",B+"keys/public_key.rs")],
 observe=["SecretKey::try_decrypt","Ciphertext::to_bytes"])
add("C03","Evaluation keys rotate, sum and expand exactly and announce what they support",
 "With an evaluation key that announces support for an operation, every column rotation, row rotation, inner sum and oblivious expansion of any in-budget ciphertext at the key's level decrypts to exactly that permutation, sum or family of coefficients. A key announces exactly the operations it was built for, before and after being stored and restored, and refuses the others with an error.",
 ["programs","configurations","inputs","fault_sequences"],
 "All combinations of enabled operations, ciphertext and key levels, rotation steps, expansion sizes (including sizes that are not powers of two), plaintexts and computation histories, with keys restored after crashes.",
 "Tests build keys with one or few capabilities at fixed degrees; the product of capability sets, levels, steps, sizes and restored keys is not sampled.",
 [B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"keys/key_switching_key.rs",M+"rq/mod.rs"],
 [("Galois automorphism and key switch",B+"keys/galois_key.rs"),("capability predicates",B+"keys/evaluation_key.rs"),("expansion tree and monomials",B+"keys/evaluation_key.rs"),("substitution in NTT order",M+"rq/mod.rs")],
 observe=["EvaluationKey::rotates_columns_by","EvaluationKey::expands","EvaluationKey::supports_*"])
add("C04","External products multiply by the encrypted plaintext",
 "The product, in either operand order, of any two-polynomial ciphertext and a gadget (RGSW) encryption at the same level decrypts to the product of the two plaintexts whenever the worst-case noise is within budget, including chains of such products and gadget ciphertexts restored from bytes.",
 ["programs","inputs","configurations","fault_sequences"],
 "All plaintext pairs (bits, monomials, full polynomials and slot vectors), levels, parameter sets and chains of products interleaved with other operations, crashes and restores.",
 "The test multiplies one ciphertext by one gadget encryption on fixed parameters; chains and level/parameter combinations are unbounded.",
 [B+"rgsw_ciphertext.rs",B+"keys/key_switching_key.rs"],
 [("external product as two key switches",B+"rgsw_ciphertext.rs"),("gadget decomposition",B+"keys/key_switching_key.rs")],
 observe=["Ciphertext * RGSWCiphertext"])
add("C05","Everything serialised survives a crash and stays interchangeable",
 "Any parameters, secret, public, relinearisation, evaluation key, gadget or plain ciphertext, whatever computation produced it, is restored from its bytes as an equal object, the bytes of the restored object are those it was restored from, and every later operation gives byte-identical results on the original and on the restored object. An evaluator that crashes at any point and rebuilds its state from a snapshot and a (possibly torn) log of requests reaches the same results.",
 ["crash_points","histories","programs","configurations","fault_sequences"],
 "All objects reachable by any history (fresh, seeded, mutated in place, switched, relinearised, restored several times), all crash points between requests, all amounts of lost log tail.",
 "Round-trip tests serialise fresh objects once; they never serialise results of long histories, mutate objects after encryption, or continue a computation on a mixture of restored and live objects.",
 [B+"ciphertext.rs",B+"keys/key_switching_key.rs",B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"keys/relinearization_key.rs",B+"keys/public_key.rs",B+"keys/secret_key.rs",B+"rgsw_ciphertext.rs",B+"parameters.rs",M+"rq/serialize.rs",M+"rq/convert.rs","crates/fhe-util/src/lib.rs"],
 [("seed compression of c1",B+"ciphertext.rs"),("seed invalidation after mutation",B+"ops/mod.rs"),("polynomial bit packing",M+"rq/serialize.rs"),("key restoration with derived monomials",B+"keys/evaluation_key.rs")],
 state=[("seed","when present, stands for the last polynomial in the byte form",B+"ciphertext.rs")],
 observe=["Serialize::to_bytes","DeserializeParametrized::from_bytes"])
add("C06","Damaged or hostile bytes are refused or give a valid object",
 "Restoring any object from bytes that were truncated, torn, bit-flipped, spliced, misdirected or crafted field by field never panics, never allocates out of proportion to the input and the parameters, and either fails with an error or yields an object that is well formed: it can be stored again, compared and used in every operation without a panic, an out-of-range value or an inconsistent level. Whatever the outcome, the object previously held and everything else in the process stay usable.",
 ["inputs","fault_sequences","crash_points"],
 "All byte strings, in particular all single and multiple storage/network faults on the bytes of real objects and all field-level mutations of their messages, including every level, count, seed, modulus and coefficient.",
 "Tests feed a few hand-written invalid messages; the space of damaged encodings and the later use of accepted ones is not explored.",
 [M+"rq/serialize.rs",M+"rq/convert.rs",B+"ciphertext.rs",B+"keys/key_switching_key.rs",B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"keys/relinearization_key.rs",B+"keys/public_key.rs",B+"keys/secret_key.rs",B+"rgsw_ciphertext.rs",B+"parameters.rs","crates/fhe/src/errors.rs"],
 [("structural validation of messages",B+"keys/key_switching_key.rs"),("polynomial length and representation checks",M+"rq/convert.rs"),("parameter validation on restore",B+"parameters.rs")],
 observe=["DeserializeParametrized::from_bytes","Deserialize::try_deserialize"])
add("C07","Misrouted or mismatched objects are refused and nothing is changed",
 "A fallible operation given an object of another parameter set, level, encoding, size or capability than it needs returns an error rather than a result or a panic, and the operators without an error channel refuse by panicking rather than returning a value. A refused call leaves every argument, including in-place and output arguments, byte for byte as it was, and the correctly routed call afterwards succeeds as if the refused one had not happened.",
 ["histories","fault_sequences","configurations","inputs"],
 "All pairings of keys, ciphertexts, plaintexts and gadget ciphertexts across tenants with different or equal-looking parameter sets, levels, sizes, encodings and enabled capabilities, interleaved with correct requests.",
 "Tests check selected error variants on fresh objects; they do not check the whole matrix of mismatches nor that state and later results are unaffected.",
 [B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"keys/relinearization_key.rs",B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"keys/key_switching_key.rs",B+"ops/mul.rs",B+"ops/dot_product.rs",B+"ops/mod.rs",B+"ciphertext.rs",B+"plaintext.rs",B+"plaintext_vec.rs",MB+"secret_key_switch.rs",MB+"public_key_switch.rs",MB+"relin_key_gen.rs"],
 [("parameter identity checks",B+"parameters.rs"),("level checks before key switching",B+"keys/relinearization_key.rs"),("in-place relinearisation",B+"keys/relinearization_key.rs"),("encoding checks",B+"plaintext.rs")],
 observe=["returned errors","bytes of all arguments before and after"])
add("C08","Collective keys and threshold decryption equal the single-key scheme",
 "For any number of parties, the aggregated public key is a public key of the sum of the secret shares with an error no larger than the parties' errors add up to, and threshold decryption by all parties of any in-budget ciphertext computed under it, at any level, gives exactly the plaintext. This holds when parties crash and restart from their secret share, when requests and shares are lost, duplicated, delayed or recomputed, and when a party's generator fails part way.",
 ["histories","schedules","fault_sequences","configurations","inputs"],
 "All party counts, parameter sets, programs over the collective key, crash points of parties and arrival orders of shares.",
 "Tests run three to eleven honest parties in order on fixed parameters; no crash, loss, reordering, recomputation or level change.",
 [MB+"public_key_gen.rs",MB+"secret_key_switch.rs",MB+"crp.rs",MB+"aggregate.rs"],
 [("public key share",MB+"public_key_gen.rs"),("decryption share and final scaling",MB+"secret_key_switch.rs")],
 observe=["Plaintext::from_shares","PublicKey::from_shares"])
add("C09","The two-round collective relinearisation key relinearises",
 "For any number of parties, the key produced by the two-round protocol is a relinearisation key of the sum of the secret shares with an error within the protocol's worst-case bound, also after it is stored and restored, and products relinearised with it decrypt correctly under threshold decryption. If a party crashes between or during the rounds, restarting the protocol succeeds and no share of the abandoned attempt influences the result.",
 ["histories","crash_points","fault_sequences","configurations"],
 "All party counts, moduli chains, crash and generator-failure points within both rounds, arrival orders and restarts.",
 "The test runs the two rounds once, in order, without failures, on one parameter set.",
 [MB+"relin_key_gen.rs",MB+"round.rs",MB+"aggregate.rs"],
 [("ephemeral key held between rounds",MB+"relin_key_gen.rs"),("round-one aggregate carried by round-two shares",MB+"relin_key_gen.rs")],
 state=[("u","ephemeral secret a party keeps between the rounds",MB+"relin_key_gen.rs")],
 observe=["RelinearizationKey::from_shares"])
add("C10","Key switching hands the plaintext to the receiver, with bounded noise",
 "For any number of parties, switching any in-budget ciphertext of the collective key to another shared key or to a receiver's public key gives a two-polynomial ciphertext at the same level that decrypts to the same plaintext under the receiving key, with no more noise than the protocol's worst case, whatever faults interrupted the parties. Its bytes can be stored and restored like those of any other ciphertext.",
 ["histories","fault_sequences","configurations","inputs"],
 "All party counts, levels, computation histories of the input ciphertext, receiving keys (fresh, zero, restored) and fault sequences among the parties.",
 "Tests switch one fresh ciphertext among honest in-order parties.",
 [MB+"secret_key_switch.rs",MB+"public_key_switch.rs"],
 [("secret key switch share",MB+"secret_key_switch.rs"),("public key switch share at the ciphertext's level",MB+"public_key_switch.rs")],
 observe=["Ciphertext::from_shares"])
add("C11","Aggregation is order-independent, complete, and refuses bad input",
 "Every aggregate of multiparty shares is byte for byte the same for every order of the same shares; an empty collection, a collection containing a failed share, a ciphertext of unsupported size, a wrong number of common polynomials or keys of another parameter set are refused with an error. Fewer than all decryption shares do not give the plaintext, every share counts, and each share carries a bounded, nonzero masking error.",
 ["schedules","histories","fault_sequences","configurations"],
 "All orders and subsets of shares of all protocols, all positions of a failed share, all party counts and levels.",
 "Tests aggregate in one order and check emptiness for some types; subsets, permutations, failed shares and masking are not exercised.",
 [MB+"aggregate.rs",MB+"public_key_gen.rs",MB+"relin_key_gen.rs",MB+"secret_key_switch.rs",MB+"public_key_switch.rs"],
 [("Aggregate implementations",MB+"aggregate.rs"),("size checks on switch shares",MB+"secret_key_switch.rs"),("share errors",MB+"public_key_switch.rs")],
 observe=["from_shares","aggregate"])
add("C12","Sharing objects between threads changes nothing, under every schedule",
 "When threads share parameters, keys, ciphertexts and evaluators by reference and run any mix of operations concurrently, every operation returns, under every interleaving, exactly the bytes it returns when run alone, shared objects stay as they were, and all threads finish. First uses of anything computed on demand may race without harm.",
 ["schedules","programs","configurations"],
 "All interleavings, at the granularity of single memory accesses, of two to four threads running all evaluator, key generation, encryption, decryption and serialisation operations on shared objects.",
 "No test uses threads at all.",
 [B+"parameters.rs",B+"ops/dot_product.rs",B+"plaintext.rs",M+"rq/context.rs",M+"rq/mod.rs",M+"rns/mod.rs",M+"ntt/native.rs",B+"keys/secret_key.rs"],
 [("shared immutable state behind reference counts",B+"parameters.rs"),("thread-local generator for seeds",B+"keys/secret_key.rs")],
 observe=["results of concurrent calls"])
add("C13","A failed operation leaves no trace",
 "If the caller's generator fails at any draw, or an operation reports an error at any point, every object involved is byte for byte what it was, remains fully usable, and repeating the operation without the failure gives the result it would have given the first time. Operating-system entropy that is interrupted or delivered in pieces is absorbed without an error.",
 ["fault_sequences","crash_points","programs"],
 "All fallible or randomised operations, every draw of the caller's generator at which it can fail, every in-place operation with a failing argument, repeated failures, and all patterns of interrupted entropy reads.",
 "Tests never inject a failing generator nor observe state after a failure.",
 [B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"keys/relinearization_key.rs",B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"ciphertext.rs",B+"ops/mul.rs",MB+"relin_key_gen.rs",M+"rq/mod.rs"],
 [("validation before mutation",B+"keys/relinearization_key.rs"),("in-place level switches",B+"ciphertext.rs"),("multiplicator configuration",B+"ops/mul.rs")],
 observe=["bytes before and after the failure"])
add("C14","Secret key and plaintext material does not outlive its owner in memory",
 "When a secret key, a plaintext or a vector of plaintexts is dropped, and when key generation, key serialization, encoding, decoding, encryption, decryption or a multiparty share computation ends, normally, with an error or by an unwinding failure of the generator, no heap block freed on the way still holds the secret key's coefficients, its polynomial, powers or substitutions, its product with a public mask, an ephemeral secret, or the values and polynomials of the plaintext. What the caller owns (inputs, outputs, published shares) and arbitrary-precision integers are outside.",
 ["fault_sequences","programs","crash_points"],
 "All operations on secret-bearing objects, all failure points of the generator inside them, and all parameter sets.",
 "No test inspects freed memory, and none drops secrets on unwinding paths.",
 [B+"keys/secret_key.rs",B+"plaintext.rs",B+"plaintext_vec.rs",B+"keys/key_switching_key.rs",MB+"secret_key_switch.rs",MB+"relin_key_gen.rs",M+"rq/mod.rs"],
 [("Zeroize implementations and ZeroizeOnDrop",B+"keys/secret_key.rs"),("Zeroizing wrappers around temporaries",B+"keys/secret_key.rs"),("Zeroize of polynomials",M+"rq/mod.rs")],
 observe=["contents of heap blocks at deallocation"])
add("C15","Every encryption, key and share uses fresh and correctly sized randomness",
 "Over any history, no two encryptions, keys, key components or shares reuse a mask, an error or an ephemeral secret, even for equal plaintexts, after restores and across failures of the generator, and every one of them carries its nonzero errors, within the range and with the sample variance of the configured distribution, and uniformly spread masks. Secret-key encryptions mask differently even when the caller's generator repeats itself.",
 ["histories","inputs","configurations","fault_sequences"],
 "All histories of encryptions and key generations with shared generators, all levels and parameter sets, duplicated and retried requests.",
 "Tests decrypt results, which succeeds equally well with reused masks or missing errors; nothing observes randomness across a history.",
 [B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"keys/key_switching_key.rs",B+"rgsw_ciphertext.rs",MB+"public_key_gen.rs",MB+"relin_key_gen.rs",M+"rq/mod.rs","crates/fhe-util/src/lib.rs"],
 [("seed drawn per encryption",B+"keys/secret_key.rs"),("errors sampled per component",B+"keys/key_switching_key.rs"),("centred binomial sampling","crates/fhe-util/src/lib.rs")],
 observe=["masks and errors recovered with the secret key"])
add("C16","Noise never exceeds its worst case and is measured exactly",
 "After any in-budget history the noise of every ciphertext is within the worst-case bound of that history, for every operation and every strategy, and the library's own noise measurement equals the noise computed independently from the secret key and the ciphertext. Decryption equals rounding t times the phase over the modulus for every well-formed ciphertext.",
 ["histories","programs","configurations"],
 "All histories of all evaluator operations over all parameter sets, levels and key levels.",
 "Tests assert a few noise upper bounds on one operation each; growth over histories and exactness of the measurement are not checked.",
 [B+"keys/secret_key.rs",B+"ops/mul.rs",B+"ops/mod.rs",B+"keys/key_switching_key.rs",B+"ciphertext.rs",M+"rns/scaler.rs"],
 [("noise measurement",B+"keys/secret_key.rs"),("exact scaling",M+"rns/scaler.rs")],
 observe=["SecretKey::measure_noise","phase of ciphertexts"])
add("C17","Variable-time permission is only granted for public data and never by bytes",
 "An object is computed on in variable time only if the caller declared its data public or the library derived it from public operands only: combining with, copying into, converting or switching an operand without that permission never yields an object with it, and restoring bytes never grants a permission the format does not carry for public objects. The permission never changes a computed value.",
 ["histories","programs","inputs"],
 "All sequences of polynomial operations, conversions, substitutions, switches and round trips on mixtures of permitted and unpermitted operands.",
 "Tests check the flag after single operations.",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs",M+"rq/scaler.rs",M+"rq/serialize.rs",B+"plaintext.rs",B+"keys/secret_key.rs"],
 [("flag propagation in operators",M+"rq/ops.rs"),("flag on conversion",M+"rq/convert.rs"),("explicit permission with a public-data witness",M+"rq/mod.rs")],
 state=[("allow_variable_time_computations","permission carried by each polynomial",M+"rq/mod.rs")],
 observe=["permission accessors of polynomials","results"])
add("C18","Replicated evaluators agree byte for byte",
 "Given the same sequence of requests with the same inputs and caller randomness, every evaluator produces byte-identical results and snapshots, whatever its operating-system entropy, memory contents, previous requests, other tenants, crashes, log replays, duplicated deliveries and build profile. Re-executing a request never gives a different answer, and relinearisation keys, evaluation keys, gadget ciphertexts and public-key encryptions made from the same caller randomness have the same bytes in every process.",
 ["schedules","crash_points","fault_sequences","histories","configurations"],
 "All request sequences on two or three replicas with independent entropy, uninitialised-memory contents, delivery orders of independent requests, crashes, replays and duplicates, on builds with and without internal assertions.",
 "Tests run one process, once; nothing compares two executions.",
 [B+"ops/mod.rs",B+"ops/mul.rs",B+"ops/dot_product.rs",B+"ciphertext.rs",B+"keys/evaluation_key.rs",B+"keys/public_key.rs",M+"rq/ops.rs",M+"rq/scaler.rs",M+"zq/mod.rs"],
 [("pure evaluation",B+"ops/mod.rs"),("canonical reduced residues before serialisation",M+"rq/serialize.rs"),("seed expansion",M+"rq/mod.rs")],
 observe=["Ciphertext::to_bytes on every replica"])
add("C19","Polynomials compute exactly in their ring, whatever history made them",
 "Every history of additions, subtractions, products, dot products, integer multiples, negations, substitutions, changes of representation or permission, divisions by a monomial, modulus switchings and roundings to another chain of moduli gives exactly the polynomial which the same history over the integers gives, up to the documented precision of roundings, with reduced residues, for every operator form, representation, permission, back end, degree and chain of moduli. Crashing at any point and continuing from serialised polynomials changes nothing, and calls that cannot give a result are refused leaving their operands alone.",
 ["histories","inputs","crash_points","configurations"],
 "All chains of one to five NTT-friendly moduli of 10 to 62 bits, degrees 8 to 64 and more, all operation sequences on shared operands including extreme residues, and all crash points.",
 "Tests apply one operation to random operands of one fixed chain of moduli.",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs",M+"rq/scaler.rs",M+"rq/switcher.rs",M+"rq/context.rs",M+"rns/scaler.rs",M+"rns/mod.rs",M+"zq/mod.rs",M+"ntt/native.rs"],
 [("operators",M+"rq/ops.rs"),("rounding scaling",M+"rns/scaler.rs"),("modulus switching",M+"rq/mod.rs"),("lazy reductions",M+"zq/mod.rs")],
 observe=["coefficients of Poly<PowerBasis> after every operation"])
add("C20","What a secret is never decides the path taken",
 "With plaintext moduli of at most a word and below half of every ciphertext modulus, key generation, encoding, encryption, decryption, decoding, derived keys, multiparty shares, operations of ciphertexts with plaintexts and polynomial and residue arithmetic without permission for variable time execute the same branches, address the same memory and make the same requests whatever the secret keys, plaintexts, errors and ephemeral secrets are; also when the caller's generator or the system's entropy fails in the middle, and in whatever order calls precede each other. Outside: functions documented as variable time, serialisation of secrets, arithmetic on arbitrary-precision integers, rejection sampling of public masks, and the latency of single instructions.",
 ["inputs","histories","fault_sequences"],
 "All pairs of secrets for one public input and one public history of calls.",
 "Timing and memory addresses are not observable by unit tests, and a pair of executions is not one.",
 [B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"plaintext.rs",B+"plaintext_vec.rs",B+"ops/mod.rs",M+"rq/ops.rs",M+"rq/mod.rs",M+"rq/scaler.rs",M+"rns/scaler.rs",M+"zq/mod.rs",M+"ntt/native.rs","crates/fhe-util/src/lib.rs"],
 [("constant-time routines",M+"zq/mod.rs"),("scaling without branches on the operand",M+"rns/scaler.rs"),("binomial sampling","crates/fhe-util/src/lib.rs"),("permission decides which code runs",M+"rq/ops.rs")],
 observe=["branch edges and addresses executed inside each call of two executions"])
# not applicable to this family
add("N01","Word-size modular arithmetic is exact for every operand",
 "Addition, subtraction, negation, multiplication, exponentiation, inversion and reduction modulo every supported word-size modulus agree with integer arithmetic for every pair of operands in range.",
 ["inputs"],"All moduli up to 62 bits and all operands in the documented range of each routine.",
 "Random sampling cannot cover 2^124 operand pairs; boundary errors of one are missed.",
 [M+"zq/mod.rs",M+"zq/primes.rs"],[("Barrett and Shoup reduction",M+"zq/mod.rs")])
add("N02","Bit packing of residues is lossless for every width",
 "Packing integers of any supported width into bytes, unpacking them and converting between widths is lossless for every input and rejects widths it does not support.",
 ["inputs"],"All widths and all integer sequences.","Tests sample some widths and lengths.",
 ["crates/fhe-util/src/lib.rs"],[("transcoding","crates/fhe-util/src/lib.rs")])
add("N04","The number-theoretic transform is a ring isomorphism for every input",
 "For every supported degree and modulus and every polynomial, the backward transform inverts the forward one and point-wise products correspond to negacyclic products, in every implementation.",
 ["inputs","configurations"],"All degrees, moduli and coefficient vectors.","Tests sample random vectors for a few moduli.",
 [M+"ntt/native.rs",M+"ntt/tfhe.rs",M+"ntt/mod.rs"],[("butterflies",M+"ntt/native.rs")])
add("N05","Prime generation returns primes with the requested properties",
 "The generator of ciphertext moduli returns, for every size, degree and upper bound, the largest prime below the bound that supports the transform, or nothing if there is none.",
 ["inputs"],"All sizes, degrees and bounds.","Tests check a few sizes.",
 [M+"zq/primes.rs"],[("search for primes",M+"zq/primes.rs")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s); assert p["statement"].count(". ")<=2,(p["id"]); assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
