NOTES = ("No hooks in /repo are needed: every monitor observes the public interface of the crates, "
         "sockets, files and processes. Runtime monitoring gives 'held on the executions observed'; "
         "the evidence file of each check says what those were.")

MODEL = "Assumes the library hash/AEAD/curve primitives are right; the model was written independently from the specification."

# ------------------------------------------------------------------ vru-kyber
KY = ["vru-kyber/src/kem.rs", "vru-kyber/src/indcpa.rs", "vru-kyber/src/poly.rs",
      "vru-kyber/src/poly_inner.rs", "vru-kyber/src/coefficient.rs", "vru-kyber/src/size.rs"]
prop("K01", "Both ends of a key encapsulation agree on the shared secret",
     "For every key-generation seed and every encapsulation seed, in every parameter set, decapsulating an honestly produced ciphertext with the matching key pair yields exactly the secret the encapsulating side obtained. This holds whether each key or ciphertext object is used as produced or after being written out and read back, and decapsulating again gives the same answer.",
     ["inputs"], "all 64-byte key seeds, 32-byte encapsulation seeds, three parameter sets, all fresh/re-read combinations of key and ciphertext objects",
     "The tests replay one test-vector seed per parameter set; they never mix fresh and re-read objects or structured seeds.",
     KY, [("re-encryption of the decrypted message and comparison with the received ciphertext", "vru-kyber/src/kem.rs decapsulate"),
          ("compression rounding, NTT and sampling", "vru-kyber/src/poly.rs, poly_inner.rs, indcpa.rs")],
     ["return values of generate_pair / encapsulate / decapsulate"],
     "runtime agreement monitor over generated executions", "Held on the seeds and object combinations run; decryption failures have probability below 2^-100 and are not expected. " + MODEL)
prop("K02", "Key encapsulation computes the specified function bit for bit",
     "Generated keys, ciphertexts and shared secrets are, for every seed, the ones the implemented encapsulation scheme (round-2 Kyber with the variant hash of this crate) specifies, so that they interoperate with any independent implementation. Decapsulation of any ciphertext, honest, tampered or arbitrary, under any key bytes, likewise yields the specified secret.",
     ["inputs"], "all seeds, all ciphertext bytes, all key bytes, three parameter sets",
     "The tests compare one stored vector per parameter set; wrong rounding, reduction or sampling in rare values passes them.",
     KY, [("polynomial arithmetic and compression", "vru-kyber/src/poly.rs, poly_inner.rs, coefficient.rs"), ("hash domain of the transform", "vru-kyber/src/kem.rs")],
     ["encoded keys, ciphertexts and secrets"],
     "differential runtime monitor against an independent reference model", MODEL + " The model itself reproduces the crate's published test vectors.")
prop("K03", "Tampered or foreign ciphertexts are implicitly rejected",
     "Decapsulating a ciphertext that differs in any bit from the honest one, or that was made for another key, never fails and never yields the honest secret: it yields a stable pseudo-random secret that depends on the exact received ciphertext and on the key's secret rejection value. Two different rejected ciphertexts never give the same secret, and an honest decapsulation does not depend on the rejection value.",
     ["inputs"], "all modifications of all ciphertexts, all key pairs, three parameter sets",
     "The tests never decapsulate anything but the honest ciphertext.",
     KY[:2], [("rejection secret hashed with the received ciphertext", "vru-kyber/src/kem.rs decapsulate")],
     ["return value of decapsulate on tampered input"],
     "metamorphic runtime monitor over tampered executions", "Every single-bit change of the sampled ciphertexts is enumerated in both tiers; other mutations are sampled.")
prop("K04", "Key and ciphertext encodings are lossless",
     "Reading any byte string of the right length as a ciphertext or public key and writing it again gives the same bytes, and for secret keys the canonical form, which is a fixed point. A key behaves the same in encapsulation and decapsulation before and after being written and read back.",
     ["inputs"], "all byte strings of the encoded lengths and all generated objects, three parameter sets",
     "The tests compare encodings with one vector and never read arbitrary bytes.",
     KY, [("bit packing of coefficients", "vru-kyber/src/poly.rs"), ("layout of key and ciphertext", "vru-kyber/src/kem.rs, indcpa.rs")],
     ["encode / parse functions of the key and ciphertext types"],
     "round-trip runtime monitor", "Held on the byte strings tried: random, constant, single-bit, run and counter patterns.")

# ------------------------------------------------------------------ vru-noise
NO = ["vru-noise/src/symmetric_state.rs", "vru-noise/src/hash.rs", "vru-noise/src/cipher_state.rs", "vru-noise/src/config.rs"]
prop("N01", "The handshake state machine conforms to the Noise specification",
     "For every protocol name, every sequence of transcript mixes, shared-secret mixes, pre-shared-key mixes and messages of any length, in every cipher suite, the transcript hash after each step, each handshake ciphertext, the final handshake hash and the resulting channel ciphertexts are those the Noise specification prescribes. Honest peers following the same sequence decrypt each other's messages, and the published Noise test vectors are reproduced.",
     ["inputs", "histories"], "all names, all sequences of handshake steps, all data lengths, hash functions of 32 and 64 bytes with little- and big-endian ciphers",
     "The only test replays one published vector (one suite, one pattern, no pre-shared key, short payloads); block-boundary lengths and other suites are untouched.",
     NO, [("buffered hashing of ciphertext parts", "vru-noise/src/hash.rs mix_parts"), ("key derivation and truncation", "vru-noise/src/hash.rs split_2/split_3/split_final"), ("nonce placement", "vru-noise/src/symmetric_state.rs encrypt/decrypt")],
     ["transcript hash, ciphertexts, tags, channel output"],
     "differential runtime monitor against an independent Noise model and published vectors", MODEL)
prop("N02", "A handshake message is accepted only if both transcripts are identical",
     "If anything the two parties fed into the handshake differs (protocol name, any hashed datum, any shared or pre-shared secret, an added, missing or differently used step) or a message was altered in any bit, then the next handshake message is rejected. If no further message follows, the final handshake hash or the channel keys differ.",
     ["inputs", "histories"], "all handshake sequences, all single divergences at all positions, all message alterations",
     "The test runs only equal transcripts and untampered messages.",
     NO[:3], [("transcript hash used as associated data", "vru-noise/src/symmetric_state.rs"), ("chaining of keys", "vru-noise/src/hash.rs")],
     ["result of decrypting the next message; final hash; channel interoperability"],
     "metamorphic runtime monitor over diverged executions", "Divergences are sampled; names that pad to the same string are the same name by specification.")
prop("N03", "The secure channel delivers in order exactly once and rejects all else",
     "A channel end accepts a message if and only if it is, unmodified and with the same associated data, the next not yet received message of its direction, and then returns exactly the sent plaintext. Replayed, skipped-ahead, reflected, altered, truncated or extended messages are rejected, release no plaintext, and leave the channel able to continue with the expected message, for any number of messages. A copy of an end, and ends that both exchange their directions, carry on from where they were.",
     ["histories", "inputs", "fault_sequences"], "all interleavings of sends, in-order deliveries and hostile deliveries in both directions; runs beyond 65536 messages",
     "The tests exchange at most 16 messages strictly in order.",
     NO[2:3], [("per-direction counter advanced only on success", "vru-noise/src/cipher_state.rs Unidirectional"), ("separate keys per direction", "vru-noise/src/hash.rs split_final")],
     ["accept/reject result and buffer contents of each delivery"],
     "online trace monitor under an adversarial scheduler", "Histories are sampled by a seeded scheduler; long runs go past 65536 messages.",
     state=[("counter", "number of messages processed in a direction", "vru-noise/src/cipher_state.rs")])
prop("N04", "No key is ever used twice with the same nonce",
     "Across a handshake and the channel made from it, no encryption key is used twice with the same nonce: per key the nonce is a 64-bit counter that starts at zero, advances by exactly one per successfully processed message, is not moved by a rejected one, and does not wrap at 32 bits. When a key rotation interval is configured, both directions rotate exactly once per that many successful messages, sender and receiver in lockstep, and the rotation is given that direction's key and chaining key.",
     ["histories", "inputs"], "all sequences of handshake and channel operations; over 2^32 messages on one channel; all tried rotation intervals",
     "The tests send fewer than 20 messages, never observe nonces and never configure rotation.",
     NO[:3], [("type-level handshake nonce", "vru-noise/src/symmetric_state.rs"), ("channel counter and rotation", "vru-noise/src/cipher_state.rs next")],
     ["key and nonce received by an instrumented cipher plugged in as the suite's AEAD"],
     "instrumented AEAD recording key/nonce use, online uniqueness monitor", "Observes the real state machine through a cipher of our own; the library ciphers are not involved.",
     state=[("counter", "number of messages processed in a direction", "vru-noise/src/cipher_state.rs")])
prop("N05", "Malformed channel frames are reported, never fatal",
     "Decrypting any buffer that is not a well-formed next message, including empty ones and ones shorter than an authentication tag, returns an error without crashing and without disturbing the channel. Framed encryption appends exactly the tag, and framed decryption of an honest frame restores exactly the original bytes.",
     ["inputs"], "all buffers of all lengths, at any point of a channel's life",
     "The tests only decrypt well-formed messages.",
     NO[2:3], [("length check before splitting off the tag", "vru-noise/src/cipher_state.rs decrypt_ext")],
     ["result of framed decryption"],
     "runtime monitor with malformed-input workload", "All lengths up to 47 bytes are tried in each suite; contents are sampled.")

# ------------------------------------------------------------------ vru-session
SE = ["vru-session/src/handshake/xx.rs", "vru-session/src/handshake/key.rs", "vru-session/src/handshake/noise.rs"]
prop("S01", "The two ends of the session handshake agree and follow the wire format",
     "For all static keys, fresh randomness and payloads, two honest parties running the four-message handshake both succeed, end with the same handshake hash, learn each other's static key and every payload unchanged, and obtain channels that talk to each other in both directions. Every message, the hash and the channel ciphertexts are byte for byte the ones the documented pattern and suite prescribe, so independent implementations interoperate.",
     ["inputs"], "all seeds of the eight sources of randomness, payloads of several sizes (equal, all empty, different) in all four slots",
     "The only test runs one pair of fixed seeds with four 16-byte payloads and compares one hash.",
     SE, [("message order and mixing", "vru-session/src/handshake/xx.rs"), ("encrypt/decrypt of typed lines", "vru-session/src/handshake/noise.rs")],
     ["return values of out0, take0_out1, take1_out2, take2_out3, take_3"],
     "agreement monitor and differential runtime monitor against an independent wire model", MODEL)
prop("S02", "Any alteration of a handshake message makes the handshake fail",
     "If any bit of any of the four handshake messages is changed in transit, or a message is replaced by that of another run, at least one of the two parties reports an error no later than on the next message it receives, and no party that could notice completes the handshake. Nothing panics.",
     ["inputs", "fault_sequences"], "all alterations and substitutions of all four messages of all runs",
     "The test never alters a message.",
     SE, [("ephemeral keys and ciphertexts bound into the transcript", "vru-session/src/handshake/xx.rs")],
     ["Result of each step"],
     "metamorphic runtime monitor over tampered runs", "Every byte of every message of one run is altered in the quick tier, every bit in the thorough tier; the rest is sampled. A message that the honest sender could itself have sent in that position is no alteration.")
prop("S03", "Only the holder of the dialled identity's secret can complete the handshake",
     "The initiator completes the handshake only with a responder that owns both secret halves of the static key whose identity was dialled. The responder completes it only with an initiator that owns the elliptic secret of the static key it presents, and an initiator lacking the lattice secret cannot use the resulting channel. Messages of different runs cannot be combined.",
     ["inputs", "histories"], "all keys; impostors lacking the elliptic secret, the lattice secret or both on either side; wrong dialled identities; mixed concurrent runs",
     "The test has only honest parties.",
     SE, [("static-ephemeral Diffie-Hellman and static encapsulation", "vru-session/src/handshake/xx.rs"), ("identity check of the received static key", "vru-session/src/handshake/xx.rs take1_out2")],
     ["Result of each step; usability of the channels"],
     "adversarial-run monitor (impostor scenarios judged by an oracle)", "Impostors are the protocol-following ones listed; cryptanalysis is out of reach.")
prop("S04", "Hostile handshake bytes are answered with an error, never a panic",
     "Whatever bytes arrive as any handshake message, including invalid or small-order curve encodings, keys outside the lattice range, and such values sent correctly encrypted by a malicious peer, processing terminates and returns either an error or a continuing state, and never panics.",
     ["inputs"], "all byte strings for each of the four messages, from outsiders and from malicious authenticated peers",
     "The test only processes honest messages.",
     SE, [("decoding of received points and keys", "vru-session/src/handshake/xx.rs, key.rs")],
     ["Result or panic of each step"],
     "panic and termination monitor over hostile runs", "One known finding: take0_out1 panics on an undecodable point in message 0.")
prop("S05", "Session key objects survive every encoding unchanged",
     "A public key compressed and decompressed, serialised and deserialised in a binary or text format, or cloned, is the same key in every use: same identity, same bytes, same Diffie-Hellman result, interchangeable in encapsulation and decapsulation. Invalid, truncated or contradictory encodings (such as one whose hash is not that of its key) are reported as errors without panic, and a secret key's clone behaves identically.",
     ["inputs"], "all generated keys, all byte strings offered as encodings",
     "The test compares one compressed key; it never serialises, clones or reads invalid bytes.",
     [SE[1], "rac/src/line.rs"], [("serde implementations and cloning", "vru-session/src/handshake/key.rs mod implementations")],
     ["serialised bytes, deserialisation results, identity, dh, encapsulate/decapsulate"],
     "round-trip runtime monitor with hostile encodings", "Sampled inputs.")
prop("S06", "Identities are collision-free names that round-trip through text",
     "An identity is the SHA3-256 hash of the encoded public key, so equal keys have equal identities and different keys different ones. Its text form parses back to the same identity, its binary form round-trips, and any other text (also one that differs only in what precedes the hash) is rejected with an error, never a panic.",
     ["inputs"], "all keys, all strings",
     "No test prints or parses an identity.",
     [SE[1]], [("Display / FromStr / AsRef", "vru-session/src/handshake/key.rs Identity")],
     ["display text, parse results"],
     "round-trip runtime monitor with hostile texts", "Sampled keys; texts around the boundaries of the format and random ones.")
prop("S07", "Session keys depend on every source of randomness of both parties",
     "Changing any of the inputs that feed a session (either static key, either ephemeral seed, any of the four encapsulation seeds) changes the handshake hash and both channel keys, the two directions never share a key, and ends of different runs cannot talk to each other.",
     ["inputs"], "all seeds, single-bit and whole-seed changes of each of the eight sources",
     "The test runs a single set of seeds.",
     SE[:2], [("each secret mixed into the chaining key", "vru-session/src/handshake/xx.rs")],
     ["handshake hash and channel ciphertexts of paired runs"],
     "metamorphic runtime monitor over paired runs", "Bits that the scalar clamping discards are not counted as a change; so are the last 32 bytes of a key seed, which only feed the implicit-rejection value.")

# ------------------------------------------------------------------ rac
RA = ["rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs", "rac/src/elliptic.rs"]
prop("R01", "Fixed-length line encodings are lossless, positional and all-or-nothing",
     "Writing any value of a fixed-length type and reading the bytes back gives the same value. A pair is laid out as its first part followed by its second, at any nesting, and is readable exactly if both parts are. Serialising through serde in a binary or text format is lossless, and truncated or mistyped encodings are errors, never panics.",
     ["inputs"], "all byte strings; arrays of any length, empty arrays, arbitrarily nested pairs, pairs of curve types in both orders",
     "No test in rac touches encodings.",
     ["rac/src/line.rs", "rac/src/concat.rs"], [("slices of the pair", "rac/src/concat.rs"), ("serde wrapper", "rac/src/line.rs LineLike")],
     ["bytes written, values read, serde results"],
     "round-trip and layout runtime monitor", "Sampled types and byte strings.")
prop("R02", "The curve types implement the standard groups and key agreement commutes",
     "For the Edwards and Montgomery forms of curve 25519 and for secp256k1, the base point, scalar multiplication, point addition, compressed form and coordinate are those of the standard curve for every scalar and point, including small-order points. Scalar addition, subtraction and multiplication are those of the group order's field (an operation whose result is not representable reports an error), and both sides of a Diffie-Hellman exchange obtain the same point.",
     ["inputs"], "all scalars (read or computed) and all points of three curves; operations declared unimplemented in the source are excluded, as is a sum equal to the point at infinity of secp256k1, which the interface cannot represent",
     "The one test checks a single random signature; it would pass with any consistent but wrong group.",
     RA, [("exp_ec / mul_ec / add_ff / sub_ff / mul_ff", "rac/src/curve25519_dalek_m.rs, rac/src/secp256k1_m.rs")],
     ["encoded results of the operations"],
     "differential runtime monitor against independent textbook arithmetic", "The model shares no code with curve25519-dalek or libsecp256k1.")
prop("R03", "Exactly the valid encodings of scalars and points are accepted",
     "Reading 32-, 33- or 64-byte strings as points, compressed points, scalars or compact signatures succeeds exactly for the valid encodings of the curve (for a 25519 scalar: always, after clamping, and the clamped form is stable), never panics, yields the encoded value, and writing it again gives the canonical encoding. A scalar that is the result of arithmetic survives being written and read back.",
     ["inputs"], "all byte strings of the encoded lengths, including values around the field and group orders, non-canonical and small-order points",
     "No test reads an encoding other than random scalars.",
     RA, [("try_clone_array / decompress", "rac/src/curve25519_dalek_m.rs, rac/src/secp256k1_m.rs")],
     ["acceptance and re-encoding"],
     "differential runtime monitor against an independent decoder", "One known finding (derived 25519 scalars).")
prop("R04", "Every genuinely made Schnorr signature verifies, and is the prescribed one",
     "For every secret key, per-signature scalar and message of any length, signing yields the commitment coordinate followed by k - d*H(r || m), deterministically, and it verifies under the signer's public key. This holds also for signatures made by another implementation and after writing the signature out and reading it back.",
     ["inputs"], "all keys, seeds and messages (0..400 bytes, hash block boundaries) on the Edwards curve; signatures of an independent signer on both curves",
     "The test signs one four-byte message and never writes or reads a signature.",
     ["rac/src/schnorr.rs"] + RA[:2], [("challenge and response", "rac/src/schnorr.rs sign/verify"), ("layout", "rac/src/schnorr.rs clone_line/try_clone_array")],
     ["signature bytes, verdicts"],
     "differential runtime monitor against an independent signer", "Signing on secp256k1 is unimplemented in the source (sub_ff); only verification is exercised there. One known finding.")
prop("R05", "A Schnorr signature verifies for nothing but its own message and key",
     "Verification of any signature bytes under any key and message gives the verdict of the verification equation and never panics. In particular a genuine signature is rejected for any other message (altered, extended, truncated), for any other key, including the opposite one, and when any meaningful bit of it is altered.",
     ["inputs"], "all alterations of message, key and signature; arbitrary signature bytes and keys, including small-order keys, on two curves",
     "The test never verifies anything invalid.",
     ["rac/src/schnorr.rs"], [("verification equation", "rac/src/schnorr.rs verify")],
     ["verdicts"],
     "differential and metamorphic runtime monitor over altered signatures", "Bits that scalar clamping discards, and key pairs that differ by a small-order point, are equivalent by construction of the scheme. One known finding.")

# ------------------------------------------------------------------ vru-udp
UD = ["vru-udp/src/global.rs", "vru-udp/src/local.rs", "vru-udp/src/linkage/datagram.rs", "vru-udp/src/command.rs"]
prop("U01", "Every datagram is accounted for by exactly one truthful event, in order",
     "A UDP node turns every datagram that reaches its socket into exactly one event: one of exactly 1280 bytes is processed, one of any other size (including empty and far larger ones) is reported with its sender and its true size. Datagrams of one sender are reported in their order of arrival, from any number of concurrent senders, and the node sends nothing that it was not told to send. A failed wait or receive is reported as what it is and costs no datagram.",
     ["inputs", "histories", "schedules"], "all datagram sizes 0..65507 and contents, all senders, sequential and concurrent",
     "No test starts a UDP node.",
     UD[:1] + UD[2:], [("size check before processing", "vru-udp/src/global.rs NodeState::run"), ("event channel", "vru-udp/src/command.rs EventSender")],
     ["the node's event stream, its UDP port, the kernel's drop counter"],
     "online event-accounting monitor over hostile traffic", "Schedules are those the kernel produced on 64 concurrent cases; datagrams the kernel itself drops are excluded.",
     state=[("pending dials", "addresses the node was told to dial", "vru-udp/src/global.rs pending_outgoing")])
prop("U02", "A dialled address gets exactly one fresh, well-formed handshake datagram",
     "After being told to dial an address, the node answers the first full-size datagram from that address with exactly one 1280-byte datagram holding a valid, freshly generated first handshake message that the dialled peer can process, filled up with fresh random bytes; however long the datagram takes to come, the dial is not forgotten. Nothing else triggers it: not other addresses, not datagrams of other sizes, not later datagrams; dialling an address whose dial is still pending is reported as a failed connection.",
     ["histories", "inputs"], "all histories of dials and datagrams over several addresses and identities",
     "No test starts a UDP node.",
     UD[:1] + ["vru-session/src/handshake/xx.rs"], [("take the pending dial on the first datagram", "vru-udp/src/global.rs NodeState::process"), ("duplicate check", "vru-udp/src/global.rs Node::command")],
     ["datagrams received by the dialled sockets, the event stream"],
     "history monitor against a reference model of dialling", "Sampled histories of up to 30 steps; freshness means no equal parts over the whole run.")
prop("U03", "A UDP node stops cleanly from every state and frees its port",
     "Told to stop while idle, after or under traffic, with connections, with pending dials or after local commands, the node ends within a bounded time, joining it returns without panic, its event stream ends and its port can be bound again. Once joining has returned the port is free. A port in use, or any other failure to open it, is reported as an error at start with its cause. Until it is told to stop the node serves, however long nothing happens and whatever signal interrupts its wait, and while nothing happens it uses hardly any processor time.",
     ["histories", "schedules", "fault_sequences"], "all states in which the stop request arrives, all loads, interruptions at any time",
     "No test starts a UDP node.",
     UD[:2], [("running flag checked on every timeout", "vru-udp/src/global.rs NodeState::run"), ("stop message before joining a worker", "vru-udp/src/local.rs Peer::join")],
     ["time and result of join, end of the event stream, the port"],
     "shutdown monitor under traffic and injected interruptions", "Bound checked: 20 s (normally 2 s).")
prop("U04", "No command can crash or silence a UDP node",
     "Any command at any time (dialling odd or unreachable addresses, texts of any length to connected, unknown or repeated destinations, commands after the stop request) returns without panic on any thread, and afterwards the node still reports datagrams and performs dials. If the answer to a dial cannot be sent, that is reported with its address and cause and concerns no other dial.",
     ["histories", "inputs"], "all command sequences, interleaved with traffic",
     "No test gives a command to a UDP node.",
     UD[:2], [("handles of connected peers", "vru-udp/src/global.rs Node::command"), ("worker loop", "vru-udp/src/local.rs PeerState::run")],
     ["panics on any thread, event stream, handshake datagrams"],
     "panic and liveness monitor over random command histories", "Sampled histories of up to 25 commands.")

# ------------------------------------------------------------------ vru-tcp
TC = ["vru-tcp/src/lib.rs"]
prop("T01", "A TCP node listens until told to stop, then ends and frees its port",
     "A spawned TCP node listens on its address until it is joined or its running flag is cleared: neither local commands, nor signals that interrupt its wait, nor long idleness, nor connections that cannot be accepted (each reported as an error) end it, and while nothing happens it uses hardly any processor time. Told to stop in any of these ways it ends within a bounded time, its event stream ends and, once joining has returned, its port is free; an address in use, or any other failure to open it, is reported as an error at start with its cause.",
     ["histories", "schedules", "fault_sequences"], "all moments and ways of stopping, interruptions at any time",
     "No test starts a TCP node.",
     TC, [("waker and running flag", "vru-tcp/src/lib.rs NodeState::run, Node::join")],
     ["kernel socket table, time and result of join, end of the event stream"],
     "lifecycle monitor under injected interruptions", "Known finding: an inbound connection ends the node, because the peer protocol over TCP is not written yet.")
prop("T02", "Each TCP connect command makes exactly one attempt and reports its failure",
     "Every command to connect makes exactly one connection attempt, to the given address and to no other; one that fails at once yields exactly one error event with the cause, never a panic; a peer that does not answer holds nothing up. Local commands cause no event and the node keeps listening.",
     ["histories", "inputs"], "all sequences of commands; IPv4 and IPv6, live, refusing and unreachable addresses",
     "No test gives a command to a TCP node.",
     TC, [("Node::command", "vru-tcp/src/lib.rs")],
     ["connections accepted by the target listeners, event stream"],
     "online conservation monitor (commands versus connections and errors)", "The expected cause is what the kernel says about the same address at the same time.")

# ------------------------------------------------------------------ vru-node
ND = ["vru-node/src/main.rs", "vru-node/src/database.rs", "vru-node/src/listener_unix.rs"]
prop("D01", "The identity a node announces survives every crash and restart",
     "Once the daemon has announced an identity for a data directory, every later start on that directory announces the same one, however and whenever the daemon was ended (killed at any moment, including right after the announcement or at any point of a start, power lost, terminated, interrupted, its disk full or failing). Different directories have different identities, and a directory left by a crash can be started and used again.",
     ["crash_points", "histories"], "every call of a start that changes a file as a crash or fault point, kills at any later moment, chains of up to hundreds of starts",
     "No test runs the daemon or opens the database.",
     ND[:2], [("seed stored and flushed before use", "vru-node/src/database.rs key_or_insert")],
     ["announced identity on standard output across process lives"],
     "crash-injection monitor over process histories", "A power failure is simulated as the loss of all that no sync had covered, with directory operations kept in order.",
     level="fault_enumeration", state=[("key_seed", "the stored key seed", "vru-node/src/database.rs")])
prop("D02", "The control socket serves every valid command whatever other clients do",
     "After and among any number of control clients that send garbage, truncated, oversized or unknown commands, send nothing, stall, or keep sending without ever finishing a command, the daemon neither ends nor panics nor leaks files, and every valid command is still executed within a bounded time, exactly once, however long it is and in whatever pieces it comes, however many clients there have been, also if accepting or reading a client fails for a moment, peers of earlier commands do not answer or if the very same command is given again and again.",
     ["histories", "inputs", "fault_sequences"], "all client behaviours, more clients than the process may open files",
     "No test uses the control socket.",
     ND[2:] + ND[:1], [("one read per client with a timeout", "vru-node/src/listener_unix.rs next"), ("errors logged, loop continues", "vru-node/src/main.rs")],
     ["connections made on behalf of valid commands, open files, process state"],
     "liveness and leak monitor under hostile clients", "Garbage is chosen so that it does not by chance encode a connection to an arbitrary address.")
prop("D03", "A command reaches the daemon exactly as the user typed it",
     "The client program turns every valid command line into exactly one control message with the given identity and address or text, byte for byte (also texts that are not UTF-8, and in directories of any name), refuses invalid identities, addresses and subcommands without sending anything, and does not end with success when the message could not be handed over to the daemon. The daemon executes each command exactly once, in whatever pieces or bursts its bytes arrive.",
     ["inputs", "histories"], "all identities, IPv4/IPv6 addresses and texts (including multi-byte and control characters), all ways to cut or batch the bytes",
     "No test runs the client or the daemon.",
     ["vru-node/src/bin/client.rs", "vru-session/src/node.rs", "vru-session/src/handshake/key.rs"] + ND[2:], [("serde encoding of the command", "vru-session/src/node.rs Command"), ("argument parsing", "vru-node/src/bin/client.rs")],
     ["bytes on the control socket, connections made by the daemon"],
     "differential monitor of control-socket bytes and effects", "The expected bytes come from an independent encoder of the same format.")
prop("D04", "The daemon serves until interrupted, then ends cleanly and can be restarted",
     "In every situation (idle for any time, after commands, with one or many stalled clients, while clients keep coming or one never finishes its command, suspended and resumed, with a leftover control socket, with nobody reading its output any more, under repeated interrupts) the daemon keeps serving until interrupted, without using noticeable processor time while nothing happens, and then ends with success within a bounded time, freeing its port and directory for the next start. A second daemon on the same directory or port, or an impossible environment, is refused with an orderly end, without panic, hang or harm to the running one.",
     ["histories", "schedules", "fault_sequences", "configurations"], "all situations at the moment of the interrupt, all start environments listed",
     "No test runs the daemon.",
     ND + TC, [("ctrl-c handler clears the running flag", "vru-node/src/main.rs"), ("timeouts of the waits", "vru-node/src/listener_unix.rs, vru-tcp/src/lib.rs")],
     ["exit status, log, kernel socket table, restart"],
     "process lifecycle monitor with injected signals and obstacles", "Bound checked: 30 s (normally 2 s).")

# ------------------------------------------------------------------ secret-independent execution
CTNOTE = "Judged on the optimised x86-64 build of the installed compiler; a positive control in every case shows that the monitor sees leaks. Timing of single instructions is not judged."
CT = "dynamic taint monitor (valgrind memcheck, secrets marked undefined) over generated executions"
prop("K05", "Encapsulation and decapsulation do not branch or index memory by secrets",
     "In an optimised build, no branch taken and no memory address used while encapsulating depends on the encapsulation seed, and none while reading a secret key, decapsulating with it (an honest, an altered or an arbitrary ciphertext) or writing it depends on the secret key, the decrypted message or on whether the ciphertext was accepted. Only public values (public key, ciphertext bytes, lengths) may steer the execution.",
     ["inputs"], "all seeds, secret keys and ciphertexts, three parameter sets",
     "Tests compare results; a comparison that stops early or a branch on the rejection flag gives the same results.",
     KY, [("constant-time comparison and conditional selection of the rejection secret", "vru-kyber/src/kem.rs decapsulate"),
          ("branch-free reduction", "vru-kyber/src/coefficient.rs freeze"), ("message decoding", "vru-kyber/src/poly_inner.rs to_message/from_message")],
     ["every executed jump and memory access"], CT, CTNOTE + " Key generation is excluded: it samples the public matrix from a public part of the seed's hash by rejection.")
prop("N06", "Key mixing and encryption do not branch or index memory by secrets",
     "In an optimised build, no branch and no memory address depends on the contents of shared secrets, pre-shared keys, derived keys or plaintexts while the handshake state mixes them, encrypts handshake messages, derives the channel, or encrypts channel messages; only lengths, transcript data and message counters may steer the execution.",
     ["inputs", "histories"], "all handshake scripts, secrets and plaintexts, six cipher suites",
     "Tests compare results only.",
     NO, [("key derivation", "vru-noise/src/hash.rs split_2/split_3/split_final"), ("in-place encryption", "vru-noise/src/symmetric_state.rs, cipher_state.rs")],
     ["every executed jump and memory access"], CT, CTNOTE + " Decryption is excluded: its outcome, which the secret determines, is public and branched on.")
prop("S08", "Session keys are used without branching or indexing by secrets",
     "In an optimised build, no branch and no memory address depends on the curve scalar or rejection value of a session key pair, on encapsulation seeds or on payloads while a key pair is generated, its secret copied, a key agreement computed (also with a small-order point), a shared secret encapsulated, and the outgoing handshake messages of either party produced.",
     ["inputs"], "all key seeds, encapsulation seeds and payloads, five payload shapes",
     "Tests compare results only.",
     SE, [("key agreement and encapsulation", "vru-session/src/handshake/key.rs"), ("message construction", "vru-session/src/handshake/xx.rs")],
     ["every executed jump and memory access"], CT, CTNOTE + " Steps that authenticate a received message branch on the (public) outcome and are excluded, as is the lattice part of key generation.")
prop("R06", "Curve 25519 multiplications do not branch or index memory by the scalar",
     "In an optimised build, no branch and no memory address depends on a secret scalar while it is read, written, or multiplied with the base point or any other point (random, small-order) on the Edwards or Montgomery form of curve 25519, nor while the resulting point is encoded.",
     ["inputs"], "all scalars and points",
     "Tests compare results only.",
     RA[:1], [("exp_ec, scalar clamping", "rac/src/curve25519_dalek_m.rs")],
     ["every executed jump and memory access"], CT, CTNOTE + " Scalar field arithmetic (in the library it branches on this compiler) and secp256k1 are excluded.")
