#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], na=na))

prop("C01", "Field arithmetic is exact arithmetic modulo the prime, in every operator form",
 "For both curves' scalar, base and embedded-curve fields, addition, subtraction, multiplication, division, negation, doubling, squaring, inversion, parity and equality of field elements give exactly the result of integer arithmetic modulo that field's published prime, whichever combination of owned, borrowed or assigning operands is used. A square root is returned exactly when one exists and it squares back to its argument. Division by zero and inversion of zero are refused, never answered.",
 ["inputs"], "all field elements of all six fields, all operator forms",
 "The only test adds, multiplies and inverts two random elements of one field; operator forms, boundary values, square roots and the other five fields are never run.",
 ["src/native/num.rs", "src/macros.rs", "src/native/bn256.rs", "src/native/bls12_381.rs"],
 [("operator implementations and forwarding macros", "src/native/num.rs, src/macros.rs"), ("field moduli and generators", "src/native/bn256.rs, src/native/bls12_381.rs")],
 "reference-model monitor: every operator result compared online with BigUint arithmetic on hostile operands",
 "Held on the executions observed; trusts num-bigint and the ff field representation (limbs).")

prop("C02", "Conversions to and from field elements preserve the integer value",
 "Converting signed and unsigned machine integers (including the most negative ones), booleans, decimal strings, arbitrary-size integers, big-endian byte strings of any length or elements of another field into a field element yields that integer reduced modulo the prime, and converting back to integers, decimal strings, fixed-width big-endian bytes or little/big-endian bit sequences yields the canonical value. Conversions that would lose information (to a 64-bit integer or a boolean) are refused. Hashing a seed to a field element always gives the value of the personalised Blake2s digest modulo the prime.",
 ["inputs"], "all integers, byte strings, bit strings and field pairs",
 "No test converts a negative, out-of-range or cross-field value; most conversions have no test at all.",
 ["src/native/num.rs"], [("From/Into implementations, byte and bit conversions", "src/native/num.rs")],
 "reference-model monitor: conversions compared with BigInt arithmetic and an independent Blake2s",
 "Held on the executions observed; trusts num-bigint.")

prop("C03", "JSON and Borsh values round-trip and malformed encodings are rejected",
 "Field elements, fixed-length vectors, curve points and Merkle proofs written as JSON, and field elements written as Borsh, read back equal, in the documented form (canonical decimal strings; fixed-width little-endian bytes). Reading refuses numbers not below the prime, strings that are not decimal numbers, sequences of the wrong length and truncated data, instead of wrapping, truncating or crashing.",
 ["inputs"], "all values and all malformed encodings",
 "There are no serialization tests.",
 ["src/native/num.rs", "src/core/sizedvec.rs", "src/native/ecc.rs", "src/native/poseidon.rs"],
 [("Serialize/Deserialize and Borsh implementations with range checks", "src/native/num.rs, src/core/sizedvec.rs")],
 "round-trip and rejection monitor with an independent encoder and mutated encodings",
 "Held on the executions observed; trusts serde_json's and borsh's own framing.")

prop("C04", "Curve operations implement the embedded curve's group law everywhere",
 "For every point of either embedded Edwards curve, including the identity, points of order 2, 4 and 8 and points outside the prime-order subgroup, addition, doubling, negation, scalar and cofactor multiplication, equality, zero tests and on-curve tests agree with the group law, in affine and projective form and whatever projective representative is used. Conversion to Montgomery form and back is the documented birational map with its special points handled.",
 ["inputs"], "all pairs of curve points, all scalars, all projective representatives, both curves",
 "Tests use a few random points of one curve; low-order points, distinct representatives and exceptional cases are never reached.",
 ["src/native/ecc.rs"], [("extended-coordinate formulas, conversions", "src/native/ecc.rs")],
 "reference-model monitor: results compared with independent affine arithmetic on hostile points",
 "Held on the executions observed; trusts ff field arithmetic (monitored by C01).")

prop("C05", "Subgroup tests, decompression and hash-to-curve return exactly the right points",
 "The subgroup test accepts exactly the points of prime order and the identity; decompression from an x coordinate returns the unique prime-order-subgroup point with that x and refuses when there is none; recovery from a y coordinate and sign returns the point with that y whose x has that parity (the only point with that y if its x is zero) and refuses when there is none. Mapping a scalar to the curve is deterministic and always lands in the prime-order subgroup at the specified point, and random points lie on the curve. Both published curve parameter sets are the specified ones, with a generator of the full prime order.",
 ["inputs", "configurations"], "all coordinates, all points including every coset of the subgroup, all scalars, both parameter sets",
 "Tests check one random subgroup member; rejection is never tested, and neither is the second curve.",
 ["src/native/ecc.rs", "src/native/bn256.rs", "src/native/bls12_381.rs"],
 [("is_in_subgroup, subgroup_decompress, get_for_y, from_scalar", "src/native/ecc.rs"), ("curve parameters", "src/native/bn256.rs, src/native/bls12_381.rs")],
 "reference-model monitor over subgroup, coset, torsion and off-curve workloads",
 "Held on the executions observed; trusts ff field arithmetic.")

prop("C06", "EdDSA signatures verify exactly when they are valid",
 "For every key and message the produced signature verifies under the matching public key, and signing is deterministic with a nonce bound to the entire secret key and message, so different messages or keys never share a nonce commitment. Verification accepts exactly the signatures satisfying the EdDSA equation for canonical prime-order points, and returns false, without failing, for any altered signature, key or message and for coordinates that are no valid point.",
 ["inputs"], "all keys, messages and signatures, both curves",
 "One test signs and verifies one random message; there is no negative test.",
 ["src/native/eddsaposeidon.rs"], [("sign, verify, nonce hash", "src/native/eddsaposeidon.rs")],
 "reference-model monitor: signatures and verdicts compared with an independent EdDSA, tampering workloads",
 "Held on the executions observed; unforgeability itself is a cryptographic assumption.")

prop("C07", "Poseidon hashes and parameters equal their specification",
 "For every width, round numbers, field and input count, the generated Poseidon parameters and the hash (plain and salted) equal an independent implementation of the specification: same round constants and matrix, full rounds split around the partial rounds, exponent five, zero-padded state. Empty or too many inputs are refused.",
 ["inputs", "configurations"], "all parameter choices, input vectors, salts and fields",
 "Tests only compare the circuit with the native hash, both of which could change together.",
 ["src/native/poseidon.rs", "src/core/seedbox.rs"], [("parameter generation, permutation", "src/native/poseidon.rs")],
 "reference-model monitor: hashes and parameters compared with an independent implementation",
 "Held on the executions observed; trusts the harness's Blake2s and ff.")

prop("C08", "Merkle roots and membership proofs agree for every leaf of every tree",
 "The root computed from a list of leaves is the binary Poseidon tree over those leaves in order, padded with zeros to the next power of two, for every non-zero number of leaves. For every leaf the proof made of its sibling path reproduces that root, the path bits being the leaf index with the lowest level first and a set bit meaning the current node is on the right; a proof with any changed leaf, sibling or path bit does not reproduce it.",
 ["inputs", "configurations"], "all leaf counts, leaves, indices and tampered proofs",
 "No test builds a tree or checks a native proof against one.",
 ["src/native/poseidon.rs"], [("merkle_tree_root, merkle_proof_root", "src/native/poseidon.rs")],
 "reference-model monitor over trees of all small sizes, all leaves, tampered proofs",
 "Held on the executions observed.")

prop("C09", "The deterministic random stream is the specified Blake2s counter stream",
 "The seeded generator yields, from its first word on and however it is read (32-bit words, 64-bit words, bytes or field elements), exactly the personalised Blake2s stream of its counter and the hash of its salt; equal salts give equal streams, different salts (including none and empty) different ones, and blocks never repeat within a stream.",
 ["inputs", "histories"], "all salts, read patterns and stream positions",
 "There is no test of the generator.",
 ["src/core/seedbox.rs"], [("counter, block refill, limb cursor", "src/core/seedbox.rs")],
 "online stream checker against an independent Blake2s under mixed read patterns",
 "Held on the executions observed.")

prop("C10", "Signal arithmetic keeps value, linear form and constraints consistent",
 "In any sequence of signal operations, every signal's carried value equals its linear combination evaluated on the allocated variables and equals the same computation on plain field elements, and all emitted constraints are satisfied; this holds for every operator form and mix of constants, plain numbers and signals. Operations on constants, additions, and multiplications or divisions by constants allocate no variable and emit no constraint, and a signal is reported as constant exactly when its linear form is.",
 ["programs", "inputs"], "all operation sequences and operand kinds",
 "Two tests add two constants; no test looks at linear forms or mixes operators.",
 ["src/circuit/num.rs", "src/macros.rs", "src/circuit/bool.rs"],
 [("sorted sparse linear combinations and operator overloads", "src/circuit/num.rs")],
 "instrumented constraint system audits every signal of random programs against its linear form",
 "Held on the executions observed.")

prop("C11", "A circuit's shape never depends on witness values",
 "Building any circuit from the library's gadgets with different witness values, or with no values at all as key generation does, produces identical variables, constraints and public inputs in identical order, and building without values never fails.",
 ["inputs", "programs"], "all witness values and gadget compositions",
 "Only one circuit is ever built without values, and shapes are never compared.",
 ["src/circuit", "src/core/signal.rs", "src/core/cs.rs"],
 [("value-independent control flow in every gadget", "src/circuit/*.rs")],
 "recorded circuit shapes compared across hostile witnesses and the value-less run",
 "Held on the executions observed.")

prop("C12", "Bit, comparison, selection and equality gadgets compute the right answer",
 "For every input, constant or variable, bit decomposition (plain and strict) gives the little-endian bits and recomposition inverts it, comparison with a constant tells whether the number is greater, three-bit selection returns the addressed constant of each table, conditional selection returns the chosen branch, and the zero, equality, bit, non-zero and constant assertions hold exactly when their condition does. Widths of one bit up to the full field, constants above the signal's range and boundary values are included.",
 ["inputs"], "all widths, values, constants and constant/variable mixes",
 "These gadgets have no tests of their own.",
 ["src/circuit/bitify.rs", "src/circuit/mux.rs", "src/circuit/num.rs", "src/circuit/bool.rs"],
 [("gadgets", "src/circuit/bitify.rs, mux.rs, num.rs, bool.rs")],
 "instrumented constraint system: gadget outputs and satisfaction compared with integer oracle, small widths exhaustively",
 "Held on the executions observed.")

prop("C13", "Bit, comparison, selection and equality gadgets cannot be cheated",
 "No assignment satisfying the emitted constraints makes these gadgets (bit decomposition, strict decomposition, comparison, three-bit and conditional selection, zero and equality tests, allocated booleans, bit/non-zero/equality/constant assertions, arithmetic) output anything but the correct answer for the input values: allocated booleans are bits, strict bits are those of the canonical representative, and failed assertions have no satisfying assignment.",
 ["inputs"], "all dishonest witness assignments",
 "Tests only use honest witnesses; a missing constraint is invisible to them.",
 ["src/circuit/bitify.rs", "src/circuit/mux.rs", "src/circuit/num.rs", "src/circuit/bool.rs"],
 [("enforced constraints of each gadget", "src/circuit")],
 "adversarial prover: searches the recorded constraints for satisfying dishonest witnesses",
 "A reported forgery is concrete; absence is only for the attacks tried.")

prop("C14", "Poseidon and Merkle gadgets equal the native functions and cannot be cheated",
 "For every parameter set, input and mix of constant and variable inputs, the Poseidon, salted Poseidon, Merkle-proof and Merkle-tree gadgets output exactly the native function's value with all constraints satisfied. No satisfying assignment gives another output for the same inputs, and a Merkle proof is only satisfiable with path bits that are bits.",
 ["inputs", "configurations"], "all parameters, inputs and dishonest witnesses",
 "Tests compare one random honest run of two shapes.",
 ["src/circuit/poseidon.rs"], [("hash and Merkle gadgets", "src/circuit/poseidon.rs")],
 "instrumented constraint system vs reference Poseidon, plus adversarial prover",
 "Held on the executions and attacks tried.")

prop("C15", "Curve gadgets equal the native curve operations",
 "For all points and scalars in their documented domains, constant or variable, the gadgets for addition, doubling, cofactor and scalar multiplication, conversion between Edwards and Montgomery form, subgroup decompression and mapping a scalar to a point output the native result with all constraints satisfied, including the identity, zero scalars and every scalar bit length; on-curve and subgroup assertions are satisfiable for valid points.",
 ["inputs"], "all in-domain points, scalars, bit widths and constant/variable mixes, both curves",
 "Each gadget is tested on one random point and a full-width random scalar on one curve.",
 ["src/circuit/ecc.rs"], [("curve gadgets", "src/circuit/ecc.rs")],
 "instrumented constraint system vs independent curve arithmetic",
 "Held on the executions observed.")

prop("C16", "Curve gadgets cannot be cheated",
 "No satisfying assignment makes a curve gadget output a point other than the correct one for its in-domain inputs, makes the on-curve assertion accept a point off the curve, the subgroup assertion accept a point outside the prime-order subgroup, decompression return a point outside that subgroup or with another x, or the scalar-to-point map return a different point.",
 ["inputs"], "all dishonest witness assignments, both curves",
 "Tests only use honest witnesses and valid points.",
 ["src/circuit/ecc.rs"], [("enforced curve and subgroup constraints", "src/circuit/ecc.rs")],
 "adversarial prover with torsion, sign, alias and off-curve witnesses on the recorded constraints",
 "A reported forgery is concrete; absence is only for the attacks tried.")

prop("C17", "The EdDSA gadget accepts exactly the signatures the native verifier accepts",
 "For well-formed inputs the signature gadget's output bit equals the native verification result, on valid signatures and on ones with any of signature, key or message altered, and honest proofs of valid signatures always satisfy the constraints. No satisfying assignment makes it accept an invalid signature or reject a valid one, and signatures or keys that are not subgroup points leave the circuit unsatisfiable or rejecting.",
 ["inputs"], "all signatures, keys, messages and dishonest witnesses",
 "One valid random signature is tested.",
 ["src/circuit/eddsaposeidon.rs"], [("verification gadget", "src/circuit/eddsaposeidon.rs")],
 "instrumented constraint system vs independent EdDSA, plus adversarial prover",
 "Held on the executions and attacks tried.")

prop("C18", "Composite signals act on every component, in order",
 "For tuples of every supported size, fixed-length vectors and derived structures, nested in any way, allocation, constants, reading values, constant detection, selection, equality (test and assertion), constant assertion, publication and flattening act on every component in declaration order and exactly as on the components alone. A missing component value gives no value rather than a failure, and equality holds only if all components are equal.",
 ["programs", "inputs"], "all component types, sizes, nestings and values",
 "Composite signals are only used incidentally by two tests.",
 ["src/core/signal.rs", "src/core/sizedvec.rs", "fawkes-crypto_derive/src/signal.rs"],
 [("tuple, vector and derive implementations", "src/core/signal.rs, fawkes-crypto_derive/src/signal.rs")],
 "instrumented constraint system: composite operations compared component-wise, adversarial equality search",
 "Held on the executions observed.")

prop("C19", "The test constraint system reports exactly what the circuit does",
 "Running a circuit in the dry-run system counts exactly the constraints, public inputs and auxiliary variables it creates, gives each variable its own index and keeps its value. It fails if and only if some emitted constraint is violated by the supplied values, and never when values are missing.",
 ["programs", "inputs"], "all circuits and assignments, satisfying or not",
 "Tests only run satisfied circuits and never look at the counters or at violations.",
 ["src/core/cs.rs"], [("TestCS", "src/core/cs.rs")],
 "random circuits run in lock-step in the dry-run system and in an independent recorder",
 "Held on the executions observed.")

prop("C20", "Honest Groth16 proofs always verify",
 "For every circuit whose private variables all occur in constraints and every satisfying assignment, on both pairing curves, keys generated for the circuit make a proof that verifies against the circuit's public inputs, whatever the number of public inputs (including none), constraints and constants published. Proofs by the same keys for other satisfying assignments verify as well.",
 ["programs", "inputs"], "all circuits, assignments and both engines",
 "One fixed circuit on one curve is proved once.",
 ["src/helpers/groth16/prover.rs", "src/helpers/groth16/verifier.rs", "src/helpers/groth16/mod.rs"],
 [("key generation, proving, verification", "src/helpers/groth16")],
 "end-to-end workload of random circuits through keygen, prove and verify",
 "Held on the executions observed; trusts bellman's Groth16.")

prop("C21", "Groth16 verification rejects everything else",
 "Verification does not accept a proof with any changed public input, permuted inputs, a changed proof element or a key of another setup, nor a proof made from an assignment violating the circuit; the verdict always equals the Groth16 pairing equation. A number of public inputs that does not match the key is an error, never a verdict.",
 ["inputs", "programs"], "all altered inputs, proofs, keys and unsatisfying witnesses",
 "There is no negative verification test.",
 ["src/helpers/groth16/verifier.rs", "src/helpers/groth16/prover.rs"],
 [("pairing check and input-count check", "src/helpers/groth16/verifier.rs")],
 "verdict monitor: verify compared with an independently computed pairing equation under tampering",
 "Held on the executions observed; trusts the pairing library.")

prop("C22", "Keys and proofs round-trip through every encoding",
 "Proofs and truncated verifying keys written in the compact binary form, as point data, as JSON or as Borsh read back as the same points on both curves, points at infinity in point data included, and verification gives the same verdict before and after; a failing write is reported. The encodings have the documented layout: decimal strings with the imaginary part first in JSON, fixed-width little-endian with the real part first in Borsh, and compressed points in the binary form.",
 ["inputs"], "all keys, proofs and encodings on both curves",
 "No encoding is tested.",
 ["src/helpers/groth16/mod.rs", "src/helpers/groth16/near.rs", "src/helpers/groth16/prover.rs", "src/helpers/groth16/verifier.rs"],
 [("point data conversions, Borsh and binary codecs", "src/helpers/groth16")],
 "round-trip monitor with independently written encoders over random points and keys",
 "Held on the executions observed.")

prop("C23", "Malformed keys and proofs are refused by every decoder",
 "Reading a proof or verifying key in any encoding refuses points off the curve, points outside the prime-order subgroup, coordinates not below the field prime, infinity in the binary form, and data that ends early (in the binary key form, inside a point), at every position of the structure and on both curves, and passes on read errors of the source. Nothing read successfully ever contains an invalid point.",
 ["inputs", "fault_sequences"], "all malformed encodings, positions and read failures",
 "No decoder is tested.",
 ["src/helpers/groth16/mod.rs", "src/helpers/groth16/near.rs", "src/helpers/groth16/prover.rs", "src/helpers/groth16/verifier.rs"],
 [("curve and subgroup checks on decoding", "src/helpers/groth16")],
 "fault-injecting decoder workload with an independent validity oracle",
 "Held on the executions observed.")

prop("C24", "The generated Solidity verifier gives the native verdict",
 "For every verifying key the generated contract, executed with Ethereum semantics, accepts exactly the proofs and public inputs that the native verifier accepts for that key, given in the exported coordinate order. It reverts on public inputs not below the scalar field or proof elements not below the base field, so no proof is accepted under two different encodings of its inputs.",
 ["inputs", "programs"], "all keys, numbers of inputs, proofs and inputs",
 "The generated contract is never compiled, run or compared.",
 ["src/helpers/groth16/ethereum.rs"], [("contract template and key substitution", "src/helpers/groth16/ethereum.rs")],
 "generated contract executed by an EVM-semantics interpreter in lock-step with the native verifier",
 "Held on the executions observed; trusts the harness's Solidity interpreter and precompile model.")

prop("C25", "The command-line bindings set up, prove and verify end to end",
 "For each target (Ethereum, Waves on either curve, NEAR) the generated command-line program produces test data, keys, verifier code and proofs in files that its own verify command accepts, and that the native verifier and the exported formats accept when decoded independently. Verification fails for changed proofs, inputs or keys and damaged files, objects that are malformed are refused, and a command whose output could not be written completely does not report success.",
 ["inputs", "configurations", "fault_sequences"], "all circuits, targets, tampered files and write failures",
 "The binding macros are not even compiled by the tests.",
 ["src/macros.rs"], [("groth16_*_bindings macros", "src/macros.rs")],
 "end-to-end file workload through the real bindings with an independent decoder",
 "Held on the executions observed; the argument parser is a stand-in because clap 3 beta is not available offline.")

prop("C26", "Keys and proofs use fresh, unpredictable randomness",
 "Two key generations for one circuit and two proofs of one statement never coincide in any randomised component, within a process, across threads and across processes, also when the process forks. The random source behaves as uniform independent words, random field elements are uniform below their prime, and a failure of the operating system's entropy is never answered with predictable values.",
 ["histories", "schedules"], "all repetitions, threads and processes",
 "Each test creates one key and one proof.",
 ["src/core/osrng.rs", "src/helpers/groth16/prover.rs", "src/native/num.rs"], [("operating-system random source used for keys and proofs", "src/core/osrng.rs, src/helpers/groth16/prover.rs")],
 "history monitor over recorded keys, proofs and random words, with interposed, pinned and failing entropy",
 "Statistical: thresholds far beyond chance (below 1e-12 false alarms).")

prop("C27", "No use of the library causes memory errors or undefined behaviour",
 "No sequence of uses of the public interface, including the prover bridge and point conversions that reinterpret memory, reads or writes out of bounds, uses freed or uninitialised memory, or otherwise triggers undefined behaviour. Out-of-range indexing into fixed-length vectors and out-of-range gadget sizes are refused.",
 ["inputs", "programs"], "all uses of the public interface",
 "Tests run without sanitizers and reach only part of the unsafe code.",
 ["src/helpers/groth16/mod.rs", "src/core/sizedvec.rs", "src/circuit/num.rs"],
 [("transmutes between library and pairing types; linked lists", "src/helpers/groth16/mod.rs, src/circuit/num.rs")],
 "Miri and AddressSanitizer over touch-everything workloads of the real code",
 "Held on the executions observed; sanitizers see only executed paths.")

prop("C28", "The proving backend receives exactly the circuit that was built",
 "For every circuit, the proving backend receives exactly the variables, values, public inputs and constraints that the circuit created, in order and with the same coefficients, and the public inputs a verifier must supply are the published signals in publication order. Missing values are reported to the backend as missing, never replaced.",
 ["programs", "inputs"], "all circuits and assignments, both engines",
 "The single end-to-end test has one public input and would not see reordered or dropped terms in general.",
 ["src/helpers/groth16/mod.rs", "src/helpers/groth16/prover.rs", "src/core/signal.rs"],
 [("bridge from signals to bellman linear combinations", "src/helpers/groth16/mod.rs")],
 "recording backend: bridged circuit compared term by term with the independent recorder",
 "Held on the executions observed; trusts bellman's variable model.")

claimed = set(x.strip() for x in open(os.path.join(V, "tools", "claimed.txt")).read().split() if x.strip())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=p["id"], quick_cmd="bash check.sh " + p["id"],
               thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
               level="exploration", level_note=p["note"]) for p in P if p["id"] in claimed],
  not_applicable=[dict(property=p["id"], reason=p["na"] or "check not built yet") for p in P if p["id"] not in claimed],
  notes="Runtime monitors in /verif/harness run the real crate from /repo's working tree; no hooks in /repo are needed because the constraint-system trait and the proving backend trait are public seams.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
for p in P:
    n = p["statement"].count(". ") + 1
    if n > 3: print("too many sentences", p["id"], n)
