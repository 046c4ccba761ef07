#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, hook=hook))


CK, RL = "mkckks/", "mkrlwe/"
TEST = "The repository's tests run one fixed operation each on one large parameter set per package, at the top level, with random messages and the companies of one fixed set; "

prop("C01", "Encryption then decryption returns the message",
     "A message encrypted under one party's public key, by any of the encryption entry points, at any level and scale and in either polynomial domain, decrypts with that party's secret key to the same message in every slot, up to the scheme's encryption noise. Padding the encryption to further parties, encrypting over an earlier ciphertext, or handing the decryptor additional unrelated keys changes nothing. Decrypting into a plaintext leaves the result in the domain that plaintext declares and at the ciphertext's level, and leaves the ciphertext as it was.",
     ["inputs", "configurations"], "all messages whose scaled values fit the modulus, all levels, scales, domains, parameter sets and secret-key distributions",
     TEST + "encryption is checked at the top level with the default scale only.",
     [CK + "encryptor.go", CK + "decryptor.go", RL + "encryptor.go", RL + "decryptor.go"],
     [("Encryptor.EncryptMsg / EncryptMsgNew / EncryptMsgNewExpand / EncryptPtxt", CK + "encryptor.go"), ("Encryptor.Encrypt", RL + "encryptor.go"), ("Decryptor.Decrypt", CK + "decryptor.go and " + RL + "decryptor.go")],
     ["decrypted messages", "phase of every ciphertext computed by the harness with the secret keys"],
     "runtime monitor: exact phase of each ciphertext against the encoding with a noise bound, over generated workloads",
     "every execution's phase is computed with big integers and compared with the encoding within the worst-case noise bound; inputs are sampled")

prop("C02", "Addition and subtraction act slot by slot on any two ciphertexts",
     "The sum and the difference of two ciphertexts decrypt, under the secret keys of all parties of both operands, to the slot-wise sum and difference of the two messages. This holds for operands of disjoint, overlapping, nested or equal party sets, of different levels and of different scales, including one ciphertext combined with itself. The operand of the lower scale enters multiplied by the ratio of the scales (where that is not a whole number, by a neighbouring whole number, which is all the inaccuracy there is); with equal scales or a whole ratio no noise is added at all.",
     ["inputs", "configurations"], "all pairs of ciphertexts (party sets, levels, scales) whose values fit the modulus",
     TEST + "both operands always have the same level and scale.",
     [CK + "evaluator.go", RL + "elements.go"],
     [("Evaluator.AddNew / SubNew and the scale matching in front of them", CK + "evaluator.go")],
     ["phase and decrypted message of every result"],
     "runtime monitor: phase arithmetic oracle (exact for equal scales) over generated operand pairs",
     "exact comparison for equal scales and a derived bound for matched scales; operands are sampled")

prop("C03", "Multiplication with relinearization multiplies slot by slot",
     "The product of two ciphertexts decrypts, under the secret keys of all parties of both operands, to the slot-wise product of the two messages, up to a bounded relinearization and rescaling noise. This holds for operands of disjoint, overlapping or equal party sets, for a ciphertext with itself, at different levels and scales, and for chains of products down to the last level. The evaluation keys of parties outside the two operands do not influence the result's meaning.",
     ["inputs", "configurations", "programs"], "all pairs of ciphertexts and chains of products whose values fit the modulus, with every supported parameter set",
     TEST + "products are taken at the top level of fresh encryptions, mostly squares of equal party sets.",
     [CK + "evaluator.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", RL + "keygen.go"],
     [("Evaluator.MulRelinNew", CK + "evaluator.go"), ("KeySwitcher.MulAndRelin", RL + "keyswitch.go")],
     ["phase and decrypted message of every product"],
     "runtime monitor: phase of the product against the product of the phases with a derived noise bound, over generated operands and chains",
     "noise bounds are worst case plus high-probability terms with wide margin (observed ratios are in the evidence); operands are sampled")

prop("C04", "Multiplication by an encoded message multiplies slot by slot",
     "Multiplying a ciphertext of any party set, level and scale with an encoded message gives a ciphertext of the same parties which decrypts to the slot-wise product, up to rescaling noise; when no rescaling takes place the result is exact. The encoded message may have any scale, be in either polynomial domain and have any level not below the ciphertext's. Neither the encoded message nor the operand changes.",
     ["inputs", "configurations"], "all ciphertexts and encoded messages whose product fits the modulus",
     TEST + "one product with an encoding at the default scale and the top level.",
     [CK + "evaluator.go", CK + "encryptor.go"], [("Evaluator.MulPtxtNew", CK + "evaluator.go"), ("Encryptor.EncodeMsgNew", CK + "encryptor.go")],
     ["phase and decrypted message of every product"],
     "runtime monitor: phase of the product against the product with the encoding, over generated operands", "exact without rescaling, rescaling bound otherwise; operands are sampled")

prop("C05", "Multiplication by a constant multiplies every slot by it",
     "Multiplying a ciphertext by a constant of any accepted numeric type - integer, unsigned, floating-point or complex; whole, fractional, negative, zero or large - multiplies every slot's message by that constant, up to the rounding of the constant's encoding. Real and imaginary parts both take effect; a whole constant leaves the scale as it is, any other multiplies it by the top prime of the level, so that one rescaling restores it. The result has the operand's parties and level, whether it is written into the operand itself or into a separate output; an output at a lower level keeps that level, one at a higher level takes the operand's, and parties only the output has get no share.",
     ["inputs", "configurations"], "all constants of all accepted types whose scaled product fits the modulus, all operands",
     TEST + "no test multiplies by a constant other than through one encoded message.",
     [CK + "evaluator.go"], [("Evaluator.MultByConst and the constant scaling", CK + "evaluator.go")],
     ["phase and decrypted message of every product"],
     "runtime monitor: phase of the result against the exactly scaled phase, over generated constants of every type", "constants and operands are sampled; whole constants compared exactly")

prop("C06", "Rotation moves every slot by the requested number of places",
     "Rotating a ciphertext of any party set, level and scale by any integer - positive, negative, zero, or beyond the ring - decrypts to the message cyclically shifted to the left by that many slots, up to key-switching noise. It works with the power-of-two keys alone, by composition, as well as with dedicated keys for further indexes. A rotation by a multiple of the cycle length is the identity and needs no key.",
     ["inputs", "configurations"], "all rotation indexes, all ciphertexts, all sets of rotation keys that contain the power-of-two ones",
     TEST + "rotations use a few random indexes at the top level.",
     [CK + "evaluator.go", RL + "keyswitch.go", RL + "keygen.go"], [("Evaluator.RotateNew", CK + "evaluator.go"), ("KeySwitcher.Rotate", RL + "keyswitch.go")],
     ["phase and decrypted message of every rotated ciphertext"],
     "runtime monitor: phase against the automorphism of the operand's phase with a noise bound; all indexes of small rings",
     "indexes are walked through completely on the small rings; operands are sampled")

prop("C07", "Conjugation conjugates every slot",
     "Conjugating a ciphertext of any party set, at any level and scale, decrypts to the slot-wise complex conjugate of the message, up to key-switching noise, and conjugating twice returns the message.",
     ["inputs", "configurations"], "all ciphertexts at all levels",
     TEST + "one conjugation at the top level.",
     [CK + "evaluator.go", RL + "keyswitch.go"], [("Evaluator.ConjugateNew", CK + "evaluator.go"), ("KeySwitcher.Conjugate", RL + "keyswitch.go")],
     ["phase and decrypted message of every conjugate"],
     "runtime monitor: phase against the conjugation automorphism of the operand's phase with a noise bound", "operands are sampled, all levels")

prop("C08", "Rescaling and level dropping keep the message",
     "Rescaling divides by as many of the top primes as keep the scale at least half the requested one and stops at level zero; the message stays the same up to rounding, and the scale is divided by exactly those primes. Dropping levels keeps scale and message exactly. Rescaling a level-zero ciphertext, to a non-positive scale, or of a ciphertext without a scale, or into a ciphertext of another level or other parties returns an error and changes nothing, and in place, into a new and into a given ciphertext all agree.",
     ["inputs", "configurations"], "all ciphertexts (levels, scales) and all target scales",
     TEST + "rescaling only happens inside products, by one prime.",
     [CK + "evaluator.go"], [("Evaluator.Rescale / RescaleNew / DropLevel / DropLevelNew", CK + "evaluator.go")],
     ["level, scale, phase and message of every result; returned errors"],
     "runtime monitor: phase divided with big integers, level and scale against the documented rule, error returns observed", "operands and target scales (around the thresholds) are sampled")

prop("C09", "Results carry the right parties, level, scale and shape",
     "Every ciphertext which an operation returns belongs to exactly the union of its operands' parties, lies at the lowest operand level less the levels its rescaling consumed, and carries the scale its contents really have. Each of its components has the same number of moduli and the same domain as the whole. A fresh encryption has zero components for the parties it was only padded with.",
     ["programs", "configurations"], "all programs of operations over ciphertexts of any party sets, levels and scales",
     TEST + "no test inspects party sets, levels or scales of results.",
     [CK + "evaluator.go", CK + "elements.go", RL + "elements.go", RL + "keyswitch.go", RL + "idset.go"], [("IDSet.Union and the construction of result ciphertexts", RL + "idset.go and " + CK + "evaluator.go")],
     ["parties, level, scale and component shapes of every result of random programs"],
     "runtime monitor: online checker of a party/level/scale specification over random programs", "programs are sampled; every result in them is checked")

prop("C10", "Hoisted operations agree with the plain ones",
     "Multiplying or rotating with a precomputed hoisted form of one operand, of both or of none decrypts to the same as the plain operation on the same ciphertexts, within their noise. A hoisted form can be reused for any number of operations, also with operands of lower levels, and is left unchanged by them.",
     ["inputs", "configurations", "histories"], "all ciphertexts, all combinations of hoisted and plain operands, all reuse histories",
     TEST + "one hoisted product and rotation per party count at the top level, never with operands of different levels.",
     [CK + "evaluator.go", RL + "keyswitch_hoisted.go"], [("Evaluator.HoistedForm / MulRelinHoistedNew / RotateHoistedNew", CK + "evaluator.go"), ("MulAndRelinHoisted / RotateHoisted", RL + "keyswitch_hoisted.go")],
     ["phases of hoisted and plain results side by side; fingerprints of the hoisted forms"],
     "runtime monitor: differential oracle hoisted against plain plus phase oracle", "operands and reuse orders are sampled")

prop("C11", "Operations leave operands and keys alone and share no memory with them",
     "No operation which returns a new result changes its operand ciphertexts, encoded messages, hoisted forms, keys, key sets or the common reference strings. What it returns shares no memory with them: overwriting an operand afterwards does not alter the result, and overwriting the result does not alter an operand. Encryption and decryption likewise leave messages, keys and ciphertexts alone, and a decrypted message does not change with later decryptions.",
     ["programs", "histories"], "all programs of operations, over all operands alive at the time",
     TEST + "operands are not looked at again after an operation.",
     [CK + "evaluator.go", CK + "encryptor.go", CK + "decryptor.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", RL + "elements.go"], [("results built in freshly allocated polynomials; internal pools", CK + "evaluator.go, " + RL + "keyswitch.go")],
     ["fingerprints of everything alive before and after each operation; overwrite probes"],
     "runtime monitor: fingerprints around every call and overwrite probes for aliasing", "programs are sampled; in them every operand and key is fingerprinted around every call")

prop("C12", "Results do not depend on what an instance did before",
     "An evaluator, encryptor or decryptor which has been used for any history of operations, at any levels, scales and party sets, gives the same results as a fresh one: computations agree within their noise, and decryptions agree exactly. In particular nothing remains of the level, party set or contents of earlier operands.",
     ["histories"], "all histories of operations on one instance",
     TEST + "levels never go up again within one test, which is what stale scratch space needs to show.",
     [CK + "evaluator.go", CK + "decryptor.go", CK + "encryptor.go", RL + "keyswitch.go", RL + "decryptor.go", RL + "encryptor.go"], [("internal scratch pools", RL + "keyswitch.go, " + RL + "decryptor.go, " + RL + "encryptor.go, " + CK + "decryptor.go")],
     ["results of the used instance next to a fresh instance's and the oracle's, after each step of a long history"],
     "runtime monitor: differential oracle used instance against fresh instance along long random histories", "histories are sampled (30 operations each)")

prop("C13", "Sessions with changing membership decrypt correctly at the end",
     "Along any program of additions, subtractions, products, rotations, conjugations, rescalings and level drops in which parties join (with newly generated keys and encryptions) and leave (no further input), every ciphertext decrypts at the end, with the keys of its own parties, to what the same program computes on the plain messages. Parties outside a ciphertext's party set are not needed for its decryption, and those inside it are.",
     ["programs", "histories", "configurations"], "all sessions: sequences of joins, leaves and operations within the noise budget",
     TEST + "the party set is fixed when a test starts.",
     [CK + "evaluator.go", CK + "encryptor.go", CK + "decryptor.go", RL + "keygen.go", RL + "keys.go", RL + "idset.go"], [("party sets, key sets and the evaluator together", CK + "evaluator.go, " + RL + "keys.go")],
     ["final decryptions of all surviving ciphertexts"],
     "runtime monitor: end-to-end oracle against a plaintext interpreter over random sessions", "sessions are sampled")

prop("C14", "Decryption needs the secret key of every party involved",
     "Decrypting a ciphertext with a key set that lacks the key of any party of the ciphertext is refused, whatever other keys it holds, and leaves key set and ciphertext as they were; keys of uninvolved parties make no difference. As long as a party which contributed has not taken part, what the others can compute stays indistinguishable in size from noise over the whole modulus, and so it does under a wrong secret key.",
     ["inputs", "configurations"], "all ciphertexts (fresh, padded, computed), all proper subsets of the parties, wrong keys",
     TEST + "decryption is only ever tried with all keys.",
     [CK + "decryptor.go", RL + "decryptor.go", RL + "keys.go"], [("Decryptor.Decrypt, PartialDecrypt and SecretKeySet.GetSecretKey", RL + "decryptor.go, " + RL + "keys.go")],
     ["refusals; size of the partially decrypted phase"],
     "runtime monitor: each party left out in turn, refusals and residual phase size observed", "ciphertexts are sampled; each party of each is left out in turn. Secrecy is observed only as size of the remaining phase, which is no cryptographic proof")

prop("C15", "Partial decryptions can be merged in any order",
     "A partial decryption by one party removes exactly that party's component: it adds its share to the shared part and leaves the other components, the level, scale and domain, and the secret key as they were. After all parties of a ciphertext have partially decrypted, in any order and in either domain, the shared part holds exactly the decryption, as does any mixture of partial decryptions followed by a full decryption with the rest of the keys.",
     ["schedules", "inputs"], "all orders in which the parties partially decrypt, all ciphertexts, both domains",
     TEST + "partial decryption in another order than the decryptor's is never run.",
     [RL + "decryptor.go", CK + "decryptor.go"], [("Decryptor.PartialDecrypt", RL + "decryptor.go")],
     ["components and exact phase after every single partial decryption"],
     "runtime monitor: exact phase invariant after each step of random partial-decryption orders", "orders and ciphertexts are sampled; the check itself is exact")

prop("C16", "Public keys are fresh encryptions of zero under the owner's secret",
     "Every generated public key consists of the common reference string and its product with the owner's secret plus an error: the error is the same small polynomial modulo every prime including the special ones, within the sampler's cut-off and of its width, and freshly drawn for every key. The key carries the owner's name, shares no memory with the reference string, and generating it changes neither the secret nor the reference strings, whatever keys were generated before.",
     ["inputs", "configurations", "histories"], "all parameter sets, secret distributions and key generation histories",
     TEST + "keys are only used, never inspected: an error that is missing, reused or inconsistent modulo a special prime still decrypts.",
     [RL + "keygen.go", RL + "keys.go", CK + "keys.go"], [("KeyGenerator.GenPublicKey / GenKeyPair", RL + "keygen.go")],
     ["error polynomial of every public key, recovered with the secret key modulo every prime"],
     "runtime monitor: error recovered with the secret, consistency, size, width and freshness checked", "keys are sampled; statistical checks use limits of seven standard deviations and a fixed seed")

prop("C17", "Evaluation keys encrypt the right secret with fresh small errors",
     "Every generated relinearization, rotation, conjugation and switching key holds, in each of its digits and modulo every prime, exactly the secret (or image of a secret) it is for, times the special modulus and the digit's gadget factor, masked with the common reference string of its own index and a fresh small error. Rotation keys of negative or reduced indexes carry the equivalent index, and the default set contains every power of two. Generation is refused when the reference string is missing, and it changes neither secrets nor reference strings.",
     ["inputs", "configurations", "histories"], "all parameter sets and digit layouts, key kinds, rotation indexes and generation histories",
     TEST + "evaluation keys are only used through operations at the top level, which tolerate large or reused errors.",
     [RL + "keygen.go", RL + "keys.go", RL + "params.go"], [("KeyGenerator.GenSwitchingKey / GenRelinearizationKey / GenRotationKey / GenConjugationKey / GenDefaultRotationKeys", RL + "keygen.go")],
     ["error polynomial of every digit of every key, recovered with the secrets modulo every prime"],
     "runtime monitor: every digit's error recovered with the secrets, consistency, size, width and freshness checked", "keys are sampled; statistical checks use limits of seven standard deviations and a fixed seed")

prop("C18", "Secret keys follow the requested distribution, consistently",
     "Generated secret keys have coefficients of the requested distribution - uniform-sign ternary, ternary with a given density, exactly the requested number of non-zero coefficients, or Gaussian within its cut-off - and represent the same polynomial modulo every prime including the special ones. They carry the requested owner's name, positive and negative signs are equally likely, and no two keys are the same. A generated key pair belongs together.",
     ["inputs", "configurations"], "all parameter sets, distributions and their parameters",
     TEST + "secrets are never inspected and the sparse and Gaussian generators never run.",
     [RL + "keygen.go", CK + "keys.go"], [("KeyGenerator.GenSecretKey / GenSecretKeyGaussian / GenSecretKeyWithDistrib / GenSecretKeySparse / GenKeyPairSparse", RL + "keygen.go")],
     ["coefficients of every secret key modulo every prime"],
     "runtime monitor: coefficients read modulo every prime and counted", "keys are sampled; statistical limits of seven standard deviations and a fixed seed")

prop("C19", "Encryption masks both components with fresh small randomness",
     "Every encryption masks its two components with one ternary polynomial (minus one, zero and one with probabilities one quarter, one half, one quarter) and adds an independent small error of the declared width to each component. Mask and errors are freshly drawn for every encryption, at every level and in either domain; no two encryptions, and no two errors of one, are equal or zero.",
     ["inputs", "configurations", "histories"], "all encryption entry points, levels, domains and histories",
     TEST + "encryption without mask or errors would still decrypt.",
     [RL + "encryptor.go", CK + "encryptor.go"], [("Encryptor.Encrypt and its samplers", RL + "encryptor.go")],
     ["mask and errors of every encryption, laid bare with public keys made up by the harness"],
     "runtime monitor: mask and errors recovered exactly through crafted public keys; size, width, freshness checked", "encryptions are sampled; statistical limits of seven standard deviations and a fixed seed")

prop("C20", "Common reference strings are complete, uniform and shared",
     "A parameter set comes with a common reference string for every standard purpose and power-of-two rotation, each with one full-size uniformly distributed polynomial per digit and prime, no two of them equal. Adding a string for a further index adds exactly that one and leaves the others as they are, and every copy of the parameters sees the same strings. Two set-ups have different strings.",
     ["configurations", "histories"], "all parameter sets and digit layouts, all added indexes",
     TEST + "reference strings are never inspected; a constant or repeated string computes correctly.",
     [RL + "params.go", CK + "params.go"], [("NewParameters and AddCRS", RL + "params.go")],
     ["every residue of every reference string"],
     "runtime monitor: full scan of all residues (range, uniformity, repetition)", "parameter sets are sampled, every residue of their strings is read")

prop("C21", "Gadget decomposition recomposes exactly with small digits",
     "Decomposing a polynomial at any level gives digits which are, modulo their own block of primes, congruent to the polynomial, and the same small representative modulo all other primes including the special ones. The digits therefore recompose to the polynomial exactly, for every number of digits and every number of primes, including incomplete last blocks. The input is left as it was.",
     ["inputs", "configurations"], "all polynomials (including extreme residues), levels, digit layouts and domains",
     TEST + "decomposition only runs inside operations at the top level of one layout.",
     [RL + "keyswitch.go", RL + "basis_extension.go", RL + "params.go"], [("Decomposer.DecomposeSingle and KeySwitcher.Decompose", RL + "keyswitch.go, " + RL + "basis_extension.go")],
     ["every digit modulo every prime"],
     "runtime monitor: digits reconstructed with big integers and compared", "polynomials are sampled including extreme ones; all levels and layouts of the sets")

prop("C22", "Basis extension and division by a modulus are exact up to rounding",
     "Carrying a polynomial from one set of primes to the other gives, modulo each target prime, the same integer (its representative below the source modulus). Dividing by the special or by the ordinary modulus gives the rational quotient rounded down or up, exactly when it is whole, in either domain and at every combination of levels. Inputs of an extension are left as they were.",
     ["inputs", "configurations"], "all polynomials (including extreme and lazily reduced residues), level pairs and domains",
     TEST + "basis extension only runs inside operations at the top level.",
     [RL + "basis_extension.go"], [("BasisExtender.ModUpQtoP / ModUpPtoQ / ModDownQPtoQ / ModDownQPtoQNTT / ModDownQPtoP", RL + "basis_extension.go")],
     ["every coefficient of inputs and outputs as big integers"],
     "runtime monitor: big-integer oracle on every coefficient", "polynomials and level pairs are sampled")

prop("C23", "Key switching multiplies by the encoded secret up to small noise",
     "The external product of a polynomial with a switching key equals, at every level and digit layout, the polynomial times the value the key encodes, up to the rounding of the final division and the key's errors; with an error-free key it is off by at most one. The hoisted variant gives the same, and the generic layer's multiplication, rotation and conjugation built on it act on the phase of ciphertexts of several parties as the ring operation does, within the noise.",
     ["inputs", "configurations"], "all polynomials, keys, levels, digit layouts and party sets",
     TEST + "key switching only runs with generated keys at the top level of one layout.",
     [RL + "keyswitch.go", RL + "keyswitch_hoisted.go"], [("KeySwitcher.ExternalProduct / ExternalProductHoisted / MulAndRelin / Rotate / Conjugate", RL + "keyswitch.go, " + RL + "keyswitch_hoisted.go")],
     ["result polynomials against big-integer products; phases of the generic layer's results"],
     "runtime monitor: error-free gadget vectors make the product exactly checkable; phase oracle for the generic layer", "polynomials, keys and ciphertexts are sampled")

prop("C24", "Instances used in parallel on shared data do not interfere",
     "Goroutines which each own an evaluator, encryptor, decryptor and key generator (or a shallow copy of one basis extender), but share the parameters, keys, key sets, ciphertexts, encoded messages and hoisted forms, run without data races and get the results a sequential run gets. Shared objects come out unchanged.",
     ["schedules", "programs"], "all interleavings of operations of independent instances on shared read-only objects",
     TEST + "everything runs on one goroutine.",
     [CK + "evaluator.go", CK + "encryptor.go", CK + "decryptor.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", RL + "keys.go", RL + "keygen.go", RL + "params.go"], [("scratch space owned by the instances, shared objects only read", RL + "keyswitch.go, " + CK + "evaluator.go")],
     ["race detector reports; concurrent results next to sequential ones; operation start order"],
     "race detector plus differential oracle under stress with random yields", "the race detector sees the happens-before order of the runs made; interleavings are sampled and counted")

prop("C25", "Low-level arithmetic stays within its polynomials' memory",
     "No operation reads or writes outside the rows of the polynomials it is given or owns, for any level, digit layout, ring size and party set, although the inner loops address memory without bounds checks.",
     ["inputs", "configurations"], "all operations on all parameter sets, levels and layouts",
     TEST + "an out-of-bounds access next to the heap object of a large ring goes unnoticed.",
     [RL + "basis_extension.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", CK + "evaluator.go", CK + "utils.go"], [("loops over unsafe 8-word blocks bounded by the ring degree and level", RL + "basis_extension.go, " + CK + "evaluator.go")],
     ["address sanitizer reports; guard words around rows"],
     "address sanitizer build with unsafe-pointer checks, plus guard words around polynomial rows", "sanitizer and guards watch the executions made; workloads are sampled")

prop("C26", "Key sets and party sets behave as keyed collections",
     "A secret, public, relinearization, rotation or conjugation key set hands out exactly the key last stored for a party (and index) and refuses, with a panic, a key it does not hold; deleting and replacing affect one party only. Party sets have set semantics - membership, size, union, equality, removal, copies - and refuse the reserved name; no result shares storage with an operand.",
     ["histories", "inputs"], "all sequences of additions, replacements, removals and look-ups over all names and indexes",
     TEST + "sets are filled once and read.",
     [RL + "keys.go", RL + "idset.go", CK + "keys.go"], [("the key set types and IDSet", RL + "keys.go, " + RL + "idset.go")],
     ["all look-ups after every step, against a model"],
     "runtime monitor: model-based trace checker over random operation sequences", "sequences are sampled, all look-ups checked after each step")

prop("C27", "Copies are deep and complete, padding and creation are neutral",
     "A copy of a ciphertext, key or party set equals its original in every component, level, scale, domain and name, and neither is affected by later changes to the other. Padding a ciphertext with further parties adds zero components of the right shape and domain only for those not yet present and leaves the decryption as it was. New ciphertexts and messages are zero and of the requested shape.",
     ["inputs", "configurations"], "all objects, levels, domains and party sets",
     TEST + "copies and padding are not tested on their own.",
     [RL + "elements.go", RL + "keys.go", RL + "idset.go", CK + "elements.go"], [("CopyNew, Copy, PadCiphertext and the constructors", RL + "elements.go, " + CK + "elements.go, " + RL + "keys.go")],
     ["fingerprints of original and copy around overwriting either"],
     "runtime monitor: fingerprints and overwrite probes on both sides of each copy", "objects are sampled")

prop("C28", "Row and column sums of packed matrices are right",
     "For a matrix packed row by row into the slots, with power-of-two dimensions, the encrypted row-wise sum leaves in every slot the sum of the entries at that slot and at the following multiples of the row length (cyclically), and the encrypted column-wise sum with a mask of the first column leaves each row's sum, times the mask's value, in all slots of that row. The operand ciphertext is unchanged. This holds in each of the training programs.",
     ["inputs", "configurations"], "all power-of-two shapes, all matrices, all party sets",
     "No test touches the lr programs.",
     ["lr/lr.go", "lr/lr_toy.go", "lr/lr_minibatch.go", "lr/lr_minibatch_toy.go"], [("SumRowVec and SumColVec", "lr/*.go")],
     ["all slots of the decrypted sums"],
     "runtime monitor: all slots of the encrypted sums against plain sums, in each program", "shapes are sampled on rings of 2^6 to 2^11")

prop("C29", "Encrypted training computes accelerated gradient descent",
     "Each training program's decrypted iterates equal, after every iteration and up to small noise, those of accelerated (Nesterov) gradient descent on the plain data: the gradient of the batch with the cubic sigmoid approximation, divided by the batch size and times the learning rate, and the weighted combination of old and new iterate with that iteration's weight. The mini-batch programs take the batches of training samples in turn, and the toy programs standardize the non-categorical features with the training samples' mean and deviation first. The constants they ship with are the weights of Nesterov's sequence and a cubic which stays within 0.12 of the logistic function on [-8, 8]. The result does not depend on the number of companies.",
     ["inputs", "configurations"], "all data sets of the programs' shape, companies, batch sizes and counts, learning rates, weights and sigmoid coefficients",
     "No test touches the lr programs; they print two components of the iterates and no expected values.",
     ["lr/lr.go", "lr/lr_toy.go", "lr/lr_minibatch.go", "lr/lr_minibatch_toy.go"], [("main", "lr/*.go")],
     ["iterates printed by the programs and every message they decrypt"],
     "runtime monitor: the real programs on generated data, printed and decrypted iterates against a plaintext reference", "data and configurations are sampled; ring sizes and iteration counts are reduced where the programs allow it. Trusts the reference of 40 lines in lr/prog_test.go.txt",
     hook="decryptions are reported to an observer under the build tag verif")

prop("C30", "Data loading and inference in the training programs are faithful",
     "The programs read every sample of their data file: all columns but the last are its features, the last its label, the header is skipped, and a file which is missing or holds something that is no number is refused. The score which a program decrypts for a sample is the cubic sigmoid approximation of the inner product of the final model with that sample's (standardized, where the program does so) features, and the reported count of correct predictions is the number of samples for which the score is at least one half exactly when the label is the target class.",
     ["inputs", "configurations"], "all data files of the programs' shape and all trained models",
     "No test touches the lr programs.",
     ["lr/lr.go", "lr/lr_toy.go", "lr/lr_minibatch.go", "lr/lr_minibatch_toy.go"], [("readData and the inference part of main", "lr/*.go")],
     ["printed verdicts, decrypted scores, loaded values"],
     "runtime monitor: the real programs on generated data, scores and verdicts against a plaintext reference; loaded values compared exactly", "data and configurations are sampled",
     hook="decryptions are reported to an observer under the build tag verif")

prop("C31", "Numeric helpers compute what they are named for",
     "The exported numeric helpers - standard deviation, bit-reversal permutations of real, complex and big complex slices, and the rescaling parameters for switching keys - agree with their mathematical definitions for every input, and the ones that return a value leave their inputs as they were.",
     ["inputs"], "all inputs within floating-point range",
     TEST + "the helpers are not tested on their own.",
     [CK + "utils.go"], [("StandardDeviation, SliceBitReverseInPlace*, GenSwitchkeysRescalingParams", CK + "utils.go")],
     ["returned values"], "runtime monitor: big-number references on generated inputs", "inputs are sampled")

prop("C32", "Parameters report and realize what they were declared with",
     "Every parameter accessor reports the declared ring degree, primes, scale, slot count and error width, and the digit layout derived from them: digits cover all primes at every level, with the special modulus split into the requested number of parts. Keys, encodings and reference strings built from the parameters have exactly those shapes.",
     ["configurations"], "all valid parameter literals and digit layouts",
     TEST + "two literals are used.",
     [RL + "params.go", CK + "params.go", RL + "keys.go"], [("NewParameters, Alpha, Beta, Gamma", RL + "params.go")],
     ["accessors and shapes"], "runtime monitor: accessor values and object shapes against the declared literal", "parameter sets are sampled")

prop("C33", "Impossible requests are refused and leave instances usable",
     "An operation that lacks the evaluation key of one of the parties involved, a rescaling or encryption into a ciphertext of the wrong parties, a generic product, rotation or conjugation into a level above an operand's, a partial decryption by a party which is not involved, or a request to drop more levels than there are or a negative number of them is refused - with a panic or an error, never a wrong result. The refused call leaves its operands as they were, and the same instances go on giving correct results afterwards.",
     ["fault_sequences", "histories"], "all refused calls at any point of a history, for any party missing",
     TEST + "no test makes a call that has to be refused.",
     [CK + "evaluator.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", RL + "keys.go", RL + "keygen.go", RL + "decryptor.go"], [("key set look-ups and argument checks", RL + "keys.go, " + CK + "evaluator.go")],
     ["panics and errors; operands; later results"],
     "runtime monitor: fault injection (missing keys, wrong outputs) with oracle-checked work afterwards", "refused calls and parties are sampled")

prop("C34", "All randomness comes fresh from the system's cryptographic source",
     "Everything that has to be unpredictable - reference strings, secret keys of every kind, the errors of every kind of key, the masks and errors of encryptions - is derived from the system's cryptographic random source and from nothing else: not from a fixed or counted seed, the time, a party's name or a message. Two processes which do the same thing with the same inputs never draw the same values, neither do two instances within one process, and no value derives from fewer than 128 bits of it.",
     ["histories", "configurations"], "all processes, instances, entry points and parameter sets",
     TEST + "tests look at one process and never compare two draws.",
     [RL + "keygen.go", RL + "encryptor.go", RL + "params.go", CK + "encryptor.go", CK + "keys.go"], [("NewKeyGenerator, GenSecretKey*, NewEncryptor, NewParameters, AddCRS", RL + "keygen.go, " + RL + "encryptor.go, " + RL + "params.go")],
     ["secrets, errors and masks recovered from keys and encryptions; bytes read from the system's random source"],
     "runtime monitor: eight processes in step on controlled streams of system randomness, fingerprints of everything drawn compared across processes (equal under the same stream, different under different ones)", "entry points are all exercised, parameter sets sampled; assumes the source is reached through Go's crypto/rand")

prop("C35", "Long-lived instances hold on to nothing",
     "However many calls an evaluator, encryptor, decryptor, key generator, key switcher or basis extender has served, and however many parameter sets and instances have been created and dropped, the memory which stays reachable and the number of goroutines do not grow with the number of calls: operands, results and keys are released once the caller drops them. This includes everything about parties who come and go: what an instance set up for a party it meets no more, and what a key set holds for a party whose keys were deleted.",
     ["histories"], "all sequences of calls of any length on the same kind of operands",
     TEST + "tests are short and never look at memory.",
     [CK + "evaluator.go", CK + "encryptor.go", CK + "decryptor.go", RL + "keyswitch.go", RL + "keyswitch_hoisted.go", RL + "keygen.go", RL + "params.go", RL + "basis_extension.go", RL + "keys.go"], [("pools of evaluators, key switchers, encryptors, decryptors, extenders", CK + "evaluator.go, " + RL + "keyswitch.go")],
     ["reachable heap after garbage collection, goroutine count"],
     "runtime monitor: heap and goroutine accounting between long stretches of calls", "call sequences are repetitions of one kind of call each; growth below 48 bytes a call is not seen")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=p["hook"])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Report decryptions to a monitor"], capture_output=True, text=True).stdout.split()
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="build tag verif", enable="go test -c -tags verif (lrcheck.py, for C29 and C30)", source_commits=hook),
             checks=[dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
             not_applicable=[])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
