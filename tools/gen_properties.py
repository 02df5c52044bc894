#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

DR="jester_double_ratchet/src/lib.rs"
DRTEST="The only test of the double ratchet is an unimplemented!() stub, so no delivery order at all is exercised. "
CLONE="derive(Clone) on the message type under cfg(jester_sim), so that the simulated network can duplicate a message in flight"

p("R01","Every first delivery decrypts to what was sent, in any order and under loss",
  "In an established double-ratchet session, every message that reaches its recipient for the first time is decrypted to exactly the bytes its sender passed to encryption, however the messages of both directions are delayed, reordered, overtaken by later messages of the same or of newer sending chains, or lost. A message that arrives in sequence or ahead of it is returned as an ordinary success, and one that arrives after a later message was already read is returned flagged as out of order together with its plaintext. Losing any set of messages never makes another one unreadable.",
  ["schedules","fault_sequences","histories"],
  "All histories of sends by both parties and all orders, delays and losses of the resulting messages, across any number of ratchet turns.",
  DRTEST+"Orders and losses are unbounded in number and each ratchet turn multiplies them.",
  [DR],[("skipped-message key store","decrypt_message"),("gap detection from message number and previous chain length","detect_missing_messages"),("ratchet step","decrypt_message")],
  [("missed_messages","keys of messages that were skipped and may still arrive",DR),("receiving_chain_length","messages consumed from the current receiving chain",DR)],
  ["DoubleRatchetProtocol::decrypt_message result"],CLONE)
p("R02","Duplicates and replays are refused and change nothing",
  "Delivering again a message that was already decrypted - one of the current or of any earlier sending chain of the peer, at once or arbitrarily later, once or many times, to an established session - yields an error that carries no plaintext and never panics. It leaves the session as it was: every other message in either direction, delivered before or after, is decrypted as if the duplicate had never arrived.",
  ["schedules","fault_sequences","histories"],
  "All histories in which the network duplicates any messages and delivers the copies at any later time.",
  DRTEST+"A replay matters at every later state of the session, which no sample of a few messages covers.",
  [DR],[("message key removed on use","decrypt_message"),("retired receiving keys","detect_missing_messages")],
  [("missed_messages","keys of skipped messages",DR)],["DoubleRatchetProtocol::decrypt_message result"],CLONE)
p("R03","A session is established from whichever first response arrives first",
  "The initiator can establish the session from any of the messages the responder sent before hearing back, not only the first: that message's plaintext is returned, the responder's earlier messages are still decrypted if they arrive later, and its later ones decrypt as usual. This holds whichever of them are lost, delayed or reordered, and the traffic that follows in both directions is decrypted correctly.",
  ["schedules","fault_sequences","histories"],
  "All orders and losses of the responder's messages around establishment, and the traffic after it.",
  DRTEST+"The order in which the first responses arrive is the network's choice.",
  [DR],[("first-message handling","decrypt_first_message"),("skipped-message key store","decrypt_message")],
  [],["DoubleRatchetProtocol::decrypt_first_message result","DoubleRatchetProtocol::decrypt_message result"],CLONE)
p("R04","Forward secrecy: message keys are single-use and old key material is erased",
  "No two messages of a session, in either direction, are encrypted under the same message key, and no message key is used for more than one decryption. After every operation a party's session state holds no message key other than those of messages it skipped and has not received, and at most one root key, one sending and one receiving chain key and one Diffie-Hellman private key. Hence whoever copies the whole state of a party at any moment and has recorded all traffic cannot derive the key of any message that party had already encrypted or decrypted.",
  ["schedules","crash_points","histories"],
  "All message histories and delivery orders, with a state compromise at any point of them.",
  DRTEST+"Retained or reused keys change no output at all, so only an observer of key lifetimes over a whole history can see them.",
  [DR],[("chain keys consumed by derivation","encrypt_message / decrypt_message"),("message key removed on use","decrypt_message"),("private key taken on ratchet","decrypt_message")],
  [("missed_messages","message keys kept for skipped messages",DR)],["keys handed to the encryption scheme; lifetimes of key values"],CLONE)
p("R05","Break-in recovery: each change of direction ratchets with a fresh key pair",
  "Whenever a party first hears a new ratchet public key from its peer it replaces its own Diffie-Hellman key pair by one newly generated from the supplied random number generator and derives its next sending chain from a Diffie-Hellman secret that was never used before in the session. Hence, if the whole state of a party is exposed at any moment to an eavesdropper, no message that party sends after its next such step, and no message its peer sends after having heard that new key, can be decrypted with what was exposed and all public traffic.",
  ["schedules","crash_points","histories"],
  "All message histories and delivery orders, with a state exposure at any point of them.",
  DRTEST+"Both parties can agree on keys while no fresh entropy enters, so agreement tests stay green.",
  [DR],[("DH ratchet step","decrypt_message / decrypt_first_message"),("root chain","decrypt_message")],
  [("diffie_hellman_private_key","own ratchet key",DR),("root_chain_key","root chain state",DR)],["inputs of the root key derivation; key pairs generated"],CLONE)
p("R06","Damaged and stray messages do not disturb the session",
  "A message whose ciphertext was altered in transit affects only itself: delivering it never panics and every other message of the session is still decrypted correctly. A message carrying a ratchet key the recipient does not know whose header claims fewer messages in the previous chain than the recipient already received from the current one is refused as an invalid header, and the session continues unchanged.",
  ["schedules","fault_sequences","histories"],
  "All histories with corruption of ciphertext bodies and misdirected messages of other sessions at any point.",
  DRTEST+"Faults can hit any message in any session state.",
  [DR],[("header validation before any state change","detect_missing_messages"),("chain advanced independently of the body","decrypt_message")],
  [],["DoubleRatchetProtocol::decrypt_message result"],CLONE)
p("R07","The full key schedule matches the Double Ratchet, HKDF and HMAC specifications",
  "When the double ratchet is instantiated with the library's own Diffie-Hellman over a prime field, HKDF, HMAC and hash functions, every message key either party uses equals the one prescribed by the Double Ratchet specification, RFC 5869 and RFC 2104 for the key pairs that were generated. It holds for every provided field and hash function, every root key, chain key, salt, input and info length and every requested output length up to 255 hash outputs (the derived key has exactly the requested length), and for every schedule and loss of messages.",
  ["schedules","histories","configurations"],
  "All message histories, combined with all choices of field, hash function and key, salt, info and output lengths.",
  "HKDF's test is a TODO, HMAC is tested with one 3-byte key, and nothing composes them with the ratchet; agreement of both ends cannot show deviation from the specification.",
  [DR,"jester_hashes/src/kdf.rs","jester_hashes/src/hmac.rs","jester_hashes/src/sha1.rs","jester_hashes/src/md5.rs","jester_hashes/src/blake/blake2b.rs","jester_hashes/src/blake/blake2s.rs","jester_encryption/src/diffie_hellman.rs","jester_maths/src/prime.rs"],
  [("HKDF expand loop","kdf::hkdf_derive_key"),("key shortening and padding","hmac::hmac"),("modular exponentiation","diffie_hellman")],
  [],["keys handed to the encryption scheme"],CLONE)

SH="jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs"
MPCF=["jester_sharing/src/multiplication/beaver_randomization_multiplication.rs","jester_sharing/src/inversion/unbounded_inversion.rs","jester_sharing/src/shared_or_function/joint_unbounded_or.rs","jester_sharing/src/conditional_selection/joint_conditional_selection.rs","jester_sharing/src/random_number_generation/sum_random_number_generation.rs"]
MPCT="The tests run one party whose 'shares' are the secret itself over the field of order 7, with futures that are ready at once: no second party, no message, no pending future, no random mask is ever exercised. "
p("S01","Any t or more surviving shares reconstruct the secret, in any order",
  "A secret shared t-of-n (t at least 2, n below the field's order) is reconstructed exactly from any t or more distinct shares, whichever up to n-t shares were lost and in whatever order the others arrive, for every provided prime field and every number of parties. This remains so after any sequence of share-wise additions, subtractions, scalar additions, subtractions and multiplications and summations of shared values by the holders, the result being the same operations on the secrets.",
  ["fault_sequences","schedules","inputs"],
  "All secrets, fields, n and t, all sets of lost shares, all arrival orders, all sequences of linear operations.",
  "Reconstruction is tested once, with 5 of 5 shares in order in the field of order 7; no loss, no surplus share, no other order, no larger party count.",
  [SH],[("polynomial evaluation","generate_shares"),("Lagrange interpolation at zero","reconstruct_secret"),("share-wise linear operations","LinearSharingScheme impl")],
  [],["reconstruct_secret result"],None)
p("S02","Joint evaluation equals plain evaluation for every party and schedule",
  "When n parties jointly evaluate a program of share additions, subtractions, scalar operations, multiplications, inversions of non-zero values, OR functions over bits, conditional selections and joint random numbers, then under any timing and delivery order of their messages every party ends with a share of exactly the value that evaluating the program on the plain values gives, element by element for the operations that take many inputs. All parties that open a value obtain the same one.",
  ["schedules","programs","inputs"],
  "All programs, inputs, party counts, thresholds, fields, and all delivery orders, delays, duplications and stalls of the parties' messages.",
  MPCT+"Mix-ups between concurrent openings need delayed, reordered answers to show.",
  MPCF,[("Beaver recombination","unbounded_multiply / multiply"),("ordered joins","join_all"),("masked inversion","unbounded_inverse"),("polynomial evaluation of OR","unbounded_shared_or")],
  [],["result share of every operation at every party; opened values"],None)
p("S03","Parties issue the same joint operations in the same order under every schedule",
  "The sequence of joint operations (openings, secret distributions, requests for triples and their counts) that a party issues while evaluating a program depends only on the program: it is the same at every party and under every timing and delivery order of messages. With the same randomness, every value opened is therefore the same under every schedule, and no party's contribution to one operation is ever matched with another's contribution to a different one.",
  ["schedules","programs"],
  "All programs and all pairs of schedules of the same program.",
  MPCT+"A future issued from a place whose order depends on arrival is invisible when every future is ready at once.",
  MPCF,[("openings issued eagerly in program order","unbounded_multiply"),("helpers requested before the future is polled","unbounded_inverse")],
  [],["calls of the communication traits at each party"],None)
p("S04","Results stay t-of-n shared: any t live parties can open them",
  "Every share produced by a joint operation carries its holder's own index and lies with the other parties' shares on one polynomial of degree below t, so any t parties can open the result and evaluation can go on. If up to n-t parties crash at arbitrary moments, the remaining ones, opening values as soon as t contributions have arrived in any order, still finish every multiplication, selection and linear operation with the correct value.",
  ["crash_points","schedules","programs"],
  "All programs, all sets of up to n-t crashing parties, all crash points and delivery orders.",
  MPCT+"With one party there is no degree to grow and nobody to lose.",
  MPCF+[SH],[("recombination is linear in shares","unbounded_multiply"),("interpolation from any t","reconstruct_secret")],
  [],["result share of every operation at every party"],None)
p("S05","Fewer than t parties and all opened values reveal nothing",
  "The joint distribution of any fewer than t shares of a secret is uniform and independent of the secret. The values opened during a multiplication are each masked by a fresh independent triple that is used for no other product, so they are uniform and independent of the factors and of each other; the values opened during inversion and OR are uniform and independent of the inputs (but for a chance of the order of one over the field's size), for every field and however many elements are processed at once.",
  ["histories","inputs","configurations"],
  "All inputs and fields, over the random choices of the parties and the triple source.",
  MPCT+"A reused or missing mask leaves every result correct; only the distribution of the transcript over many runs shows it.",
  [SH]+MPCF+["jester_maths/src/prime.rs"],[("independent random coefficients","generate_shares"),("fresh triple per product","unbounded_multiply / multiply"),("random helper per element","unbounded_inverse / unbounded_shared_or"),("uniform field sampling","PrimeField::generate_random_member")],
  [],["shares held by a coalition; opened values"],None)
p("S06","Joint operations finish, in a number of rounds independent of input count",
  "Once all messages are delivered, every pending joint operation completes: no party waits for anything but the contributions of its peers, under any order of arrival, spurious or late wake-ups, stalls and healed partitions. The operations that take many inputs at once (products, inverses, OR over bits) need a number of communication rounds that does not grow with the number of inputs.",
  ["schedules","fault_sequences","inputs"],
  "All programs and input counts, all delays, stalls, partitions that heal, and poll orders.",
  MPCT+"Every future is ready at once in the tests, so neither waiting nor rounds exist.",
  MPCF,[("openings issued together and joined","unbounded_multiply / unbounded_inverse / unbounded_shared_or")],
  [],["virtual time at which each operation completes"],None)
p("S07","Concurrent and cancelled OR evaluations in one process do not disturb others",
  "OR evaluations that run concurrently in one process - for different sessions, different prime fields and different bit counts, interleaved in any way - each yield the OR of their own bits. Cancelling any of them at any point where it waits neither blocks the others nor changes a result computed later in the same process, and no interleaving deadlocks.",
  ["schedules","crash_points","configurations"],
  "All interleavings at every wait and lock acquisition, all mixtures of fields and sizes, all cancellation points.",
  MPCT+"Two tests of three bits over a single field, so the process-wide coefficient cache is never shared across fields or sizes nor contended.",
  ["jester_sharing/src/shared_or_function/joint_unbounded_or.rs"],[("per-field, size-independent cache keys","get_inverted_vandermonde_upper / lower"),("lock released before recursion","get_inverted_vandermonde_upper")],
  [("INVERTED_VANDERMONDE_MATRIX_UPPER/LOWER","process-wide coefficient cache","jester_sharing/src/shared_or_function/joint_unbounded_or.rs")],
  ["result of every session"],"a scheduling point in front of every acquisition of the cache lock under cfg(jester_sim)")
p("S08","Joint random numbers are agreed, complete and uniform if one party is honest",
  "Generating a joint random number gives every party a share of one and the same value, which is the sum of one contribution of each party, drawn from that party's own random number generator and used for this number only. It is uniform over the whole field as long as one contribution is, whatever the others contribute and however messages are delayed or reordered; several numbers requested at once are independent.",
  ["schedules","histories","configurations"],
  "All party counts, thresholds, fields, generators of the other parties and delivery orders.",
  "The joint generator itself is never run by a test (a test-only variant with one party is); distribution and agreement need several parties and many runs.",
  ["jester_sharing/src/random_number_generation/sum_random_number_generation.rs","jester_maths/src/prime.rs"],[("sum of all distributed contributions","SumRandomNumberGeneration"),("uniform field sampling","PrimeField::generate_random_member")],
  [],["result shares of all parties"],None)

HF=["jester_hashes/src/sha1.rs","jester_hashes/src/md5.rs","jester_hashes/src/blake/blake2b.rs","jester_hashes/src/blake/blake2s.rs","jester_hashes/src/blake/mod.rs","jester_hashes/src/lib.rs"]
p("H01","Streamed hashing is independent of how the data arrives",
  "For MD5, SHA-1, BLAKE2b and BLAKE2s (any output length, keyed or not), feeding a message piece by piece gives exactly the standard digest of the whole message, for every way of cutting it - empty pieces, single bytes, pieces that end on, before or after block boundaries, pieces of many blocks - and every message length including ones beyond 2^32 bits. Any number of hash computations can be in progress at once, interleaved in any way or abandoned, without influencing one another.",
  ["schedules","inputs","histories"],
  "All messages, all segmentations, all interleavings of any number of concurrent computations.",
  "Each algorithm is streamed once, in three fixed pieces of a fixed text, one computation at a time.",
  HF,[("buffering of partial blocks","update_hash"),("padding and length","finish_hash")],
  [("remaining_data / remaining_data_buffer","bytes not yet compressed","jester_hashes/src")],["finish_hash result"],None)
p("H02","A link authenticated with HMAC accepts exactly the messages sent",
  "A receiver that authenticates messages with the library's HMAC over any of its hash functions, interoperating with an independent RFC 2104 implementation, accepts every message that arrives as it was sent and rejects every message whose body or code was altered, truncated, extended, spliced with another message or authenticated under another key in transit. It holds for keys and messages of every length, including keys shorter than, equal to and longer than the block size.",
  ["fault_sequences","inputs","configurations"],
  "All hash functions, key lengths, message lengths and sequences of corruption faults on the link.",
  "HMAC is tested with one 3-byte key and one message for two of the four hash functions, and no altered message is ever checked.",
  ["jester_hashes/src/hmac.rs"]+HF,[("key shortening and padding, inner and outer hash","hmac::hmac")],
  [],["computed authentication code; accept or reject"],None)
p("E01","Group key agreement yields one key whatever order contributions travel in",
  "When any number of parties run Diffie-Hellman over one of the provided prime fields by passing partial results around and each applying its private key once, every party obtains the same secret, equal to the generator raised to the product of all private keys, whatever order the contributions are applied in and however concurrent agreements interleave, with lost and repeated transmissions. A party's public key is the generator raised to the private key generated with it, private keys are drawn uniformly from the field, and key pairs generated from independent randomness are independent.",
  ["schedules","histories","configurations"],
  "All party counts, fields, orders of contribution, interleavings of agreements, losses and duplicates.",
  "One two-party exchange over one field is tested.",
  ["jester_encryption/src/diffie_hellman.rs","jester_maths/src/prime.rs"],[("modular exponentiation","generate_asymmetrical_key_pair / generate_shared_secret")],
  [],["secret computed by each party"],None)

# ---- properties this family cannot address
p("M01","Prime field arithmetic obeys the field axioms",
  "For every provided prime field, addition, subtraction, multiplication, powers and inverses of elements agree with integer arithmetic modulo the prime, and results are always reduced.",
  ["inputs"],"All elements of all provided fields.","Two fixed sums are tested.",
  ["jester_maths/src/prime.rs"],[("reduction after every operation","prime_fields! macro")])
p("M02","Byte and string conversions of field elements round-trip",
  "Converting a field element to little- or big-endian bytes and back gives the element, and byte strings denoting numbers not below the prime are refused.",
  ["inputs"],"All elements and byte strings.","Not tested.",
  ["jester_maths/src/prime.rs"],[("range check","from_bytes_le / from_bytes_be")])
p("M03","The provided moduli are prime",
  "The order of every provided field is a prime number and equals the published Mersenne or RFC 5114 constant.",
  ["configurations"],"The 14 provided fields.","Only two of the fields are used in any test.",
  ["jester_maths/src/prime.rs"],[("constants","prime_fields! invocation")])
p("E02","RSA decryption inverts encryption",
  "For every valid key pair whose modulus is below the field's order and every message below the modulus, decrypting an encrypted message gives the message's integer value back.",
  ["inputs"],"All valid keys and messages.","Not tested.",
  ["jester_encryption/src/rsa.rs"],[("modular exponentiation","RSACryptoSystem")])
p("S09","Joint random bits are bits nobody knows",
  "Jointly generating a random bit gives every party a share of the same value, which is 0 or 1 with equal probability.",
  ["schedules","histories"],"All schedules and random choices.","Not tested.",
  ["jester_sharing/src/random_number_generation/root_random_bit_generation.rs"],[("square root of an opened square","RootRandomBitGeneration (unimplemented!)")])
p("S10","Delegated protocol implementations behave as the delegate",
  "A protocol type that names a delegate for a scheme behaves exactly as that delegate: every required method of the scheme is forwarded to the delegate's method of that name with the same arguments and results, so that parties going through their delegates and parties calling the implementing types directly issue the same joint operations, draw the same randomness, end up with the same shares and can take part in the same computation.",
  ["programs","schedules"],"All scheme traits and delegates, programs and schedules.","Covered only by the delegates the unit tests happen to use.",
  ["jester_sharing/jester_sharing_proc/src/lib.rs"],[("generated forwarding impls","delegatable_protocol")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
