import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------- rac
p("R01","Fixed-length encodings round-trip and reject invalid input cleanly",
 "Encoding any byte array, scalar, curve point, signature or nested pair and decoding the result yields the same value (a Curve25519 secret is clamped when decoded, so this is stated for decoded secrets), and a pair's encoding is exactly the first part's encoding followed by the second's. Decoding arbitrary bytes of the right length either yields a value or reports failure without panicking, and secp256k1 secrets, points and signatures outside their valid ranges are refused. Copying or serialising a value through its fixed-length form preserves it.",
 ["inputs"],"all values of every encodable type, all nestings of pairs used, all byte strings of the type's length",
 "The only rac test draws one random key and signature and never encodes or decodes anything except scalars; secp256k1 code is not tested at all.",
 ["rac/src/line.rs","rac/src/concat.rs","rac/src/curve25519_dalek_m.rs","rac/src/secp256k1_m.rs","rac/src/schnorr.rs"],
 [("fixed-length encode/decode traits","rac/src/line.rs:6-63"),("pair concatenation","rac/src/concat.rs:26-88"),("serialisation and clone through bytes","rac/src/line.rs:65-103")])
p("R02","Scalar and group arithmetic obeys the mathematics of the curve",
 "For Edwards 25519 and secp256k1, scalar addition, subtraction and multiplication (where offered) agree with integer arithmetic modulo the group order, and point addition and scalar multiplication satisfy g^(a+b)=g^a*g^b, g^(ab)=(g^a)^b and agree with an independent computation from the curve equation. Compressing and decompressing a point, and reading its coordinate, are consistent with that point.",
 ["inputs"],"all scalars (including boundary values near zero and the group order) and all points reachable from the base point or from decoding",
 "The one existing test checks a single random signature; no algebraic law, no boundary scalar and no secp256k1 operation is exercised.",
 ["rac/src/curve25519_dalek_m.rs","rac/src/secp256k1_m.rs","rac/src/elliptic.rs"],
 [("Edwards scalar and point operations","rac/src/curve25519_dalek_m.rs:28-139"),("secp256k1 operations","rac/src/secp256k1_m.rs:20-116")])
p("R03","Diffie-Hellman over the Montgomery curve agrees and is X25519",
 "For any two 32-byte secrets, both parties compute the same shared value from the other's public value, and public and shared values are the ones the X25519 function of RFC 7748 produces. This also holds for any 32-byte string received as a public value.",
 ["inputs"],"all pairs of 32-byte secrets and all 32-byte public strings, including low-order and non-canonical ones",
 "X25519 is only touched by one fixed handshake vector with four fixed keys.",
 ["rac/src/curve25519_dalek_m.rs"],
 [("scalar clamping on decode","rac/src/curve25519_dalek_m.rs:10-26"),("Montgomery ladder","rac/src/curve25519_dalek_m.rs:46-91")])
p("R04","Every honestly made Schnorr signature verifies, also after transport",
 "A signature made with any secret key, message and nonce verifies under the matching public key and message, and so does the signature obtained by encoding it to bytes and decoding it again. On secp256k1, a signature built according to the same equation is accepted as well.",
 ["inputs"],"all secret keys, nonces, messages of any length, and both in-memory and decoded signatures and keys",
 "The test signs one 4-byte message with one random key and verifies the in-memory signature only; the encoded form is never used.",
 ["rac/src/schnorr.rs","rac/src/curve25519_dalek_m.rs","rac/src/secp256k1_m.rs"],
 [("sign","rac/src/schnorr.rs:75-94"),("verify","rac/src/schnorr.rs:96-115"),("signature encode/decode","rac/src/schnorr.rs:39-64")])
p("R05","Schnorr verification rejects anything that was not signed",
 "Changing any bit of the message or of the encoded signature, extending or truncating the message, verifying under an unrelated public key, or combining halves of two signatures makes verification (or decoding) fail. Verification of arbitrary signature bytes always answers accept or reject, and random bytes are rejected.",
 ["inputs"],"all messages, keys, signatures and all single and multiple alterations of them",
 "No existing test verifies a signature that should be rejected.",
 ["rac/src/schnorr.rs","rac/src/curve25519_dalek_m.rs","rac/src/secp256k1_m.rs"],
 [("verify","rac/src/schnorr.rs:96-115"),("challenge hash over commitment and message","rac/src/schnorr.rs:104-108")])
# ---------------- kyber
p("K01","Encapsulated secrets are recovered whatever form keys and ciphertext take",
 "For every key-generation seed and encapsulation seed, and for every parameter size (2, 3, 4), decapsulating an honest ciphertext with the matching key pair returns the secret the sender got. This holds whether public key, secret key and ciphertext are used as returned or after any number of encode/decode trips.",
 ["inputs"],"all key seeds, all encapsulation seeds, parameter sizes 2, 3 and 4, all combinations of in-memory and re-decoded keys and ciphertexts",
 "One fixed vector per size, always with the re-decoded public key and re-decoded ciphertext.",
 ["vru-kyber/src/kem.rs","vru-kyber/src/indcpa.rs","vru-kyber/src/poly.rs","vru-kyber/src/poly_inner.rs","vru-kyber/src/coefficient.rs"],
 [("generate, encapsulate, decapsulate","vru-kyber/src/kem.rs:25-106"),("lattice encryption","vru-kyber/src/indcpa.rs:98-208")])
p("K02","Keys, ciphertexts and secrets equal those of the Kyber (round 1) specification",
 "For every seed and every parameter size, the encoded public key, encoded secret key, encoded ciphertext and shared secret are bit-for-bit those defined by the round-1 Kyber specification (q=7681), as computed by an independent implementation with plain modular arithmetic.",
 ["inputs"],"all key seeds, encapsulation seeds and parameter sizes 2, 3 and 4",
 "Three fixed vectors sample three points; rare coefficient values (rounding boundaries, lazy-reduction extremes) need many inputs.",
 ["vru-kyber/src/indcpa.rs","vru-kyber/src/poly.rs","vru-kyber/src/poly_inner.rs","vru-kyber/src/coefficient.rs","vru-kyber/src/kem.rs"],
 [("matrix sampling","vru-kyber/src/indcpa.rs:23-66"),("number-theoretic transform","vru-kyber/src/poly.rs:175-240"),("modular reductions","vru-kyber/src/coefficient.rs:13-49"),("noise sampling","vru-kyber/src/poly_inner.rs:190-275")])
p("K03","Altered ciphertexts are implicitly rejected with a ciphertext-dependent secret",
 "Decapsulating any ciphertext that is not the honest encapsulation of a message under the key yields no error but a secret unrelated to the genuine one: a hash of the key owner's private rejection value and the received ciphertext. Hence two different invalid ciphertexts give different secrets, the same one gives the same secret, and changing the rejection value changes it.",
 ["inputs"],"all key pairs, all genuine ciphertexts and all alterations of them, ciphertexts for other keys and random ciphertext bytes",
 "No test decapsulates an invalid ciphertext.",
 ["vru-kyber/src/kem.rs"],
 [("re-encryption check and conditional rejection","vru-kyber/src/kem.rs:86-105")])
p("K04","Any bytes of the right length are usable as keys and ciphertexts, without panic",
 "Decoding arbitrary bytes as a public key, secret key or ciphertext succeeds, re-encoding gives the same bytes for public keys and ciphertexts and the fully reduced coefficients for secret keys, and encapsulating or decapsulating with them never panics or overflows. The result is the one the specification's arithmetic gives for those bytes.",
 ["inputs"],"all byte strings of the encoded lengths for parameter sizes 2, 3 and 4, including extreme coefficient values no honest key contains",
 "Tests only use encodings produced by key generation, whose coefficients never reach the extremes.",
 ["vru-kyber/src/indcpa.rs","vru-kyber/src/poly_inner.rs","vru-kyber/src/poly.rs","vru-kyber/src/coefficient.rs"],
 [("packing and unpacking","vru-kyber/src/poly_inner.rs:21-149"),("encode/decode of keys and ciphertexts","vru-kyber/src/indcpa.rs:210-353"),("lazy reductions","vru-kyber/src/poly.rs:187-232")])
p("K05","Every KEM input matters and secrets are separated",
 "Key generation, encapsulation and decapsulation are deterministic functions of their inputs, and changing any bit of the key seed, the rejection value, the encapsulation seed, the public key or its hash changes the outputs that depend on it. A ciphertext for one key never yields its secret under another key pair, public-key hash or parameter set.",
 ["inputs"],"all seeds and keys and all single-bit changes of them, all pairs of distinct key pairs",
 "A fixed vector cannot show that every input bit influences the result.",
 ["vru-kyber/src/kem.rs","vru-kyber/src/indcpa.rs"],
 [("seed expansion and hashing","vru-kyber/src/kem.rs:47-74"),("key seed expansion","vru-kyber/src/indcpa.rs:111-120")])
# ---------------- noise
p("N01","The handshake state computes exactly what the Noise specification defines",
 "For every protocol name and every sequence of mix-hash, mix-key, mix-psk, encrypt and decrypt steps with data of any length, the transcript hash, every ciphertext and tag, and the final chaining key and transport keys equal those defined by the Noise specification, for each supported hash and cipher. In particular every published 25519 test vector for these hashes and ciphers is reproduced.",
 ["inputs","histories"],"all operation sequences, all data lengths (including those around hash-block boundaries), all protocol names, hashes with 32- and 64-byte output, ChaChaPoly and AESGCM",
 "One of the hundreds of vectors in the repository is run; it has no psk and its messages are all short.",
 ["vru-noise/src/symmetric_state.rs","vru-noise/src/hash.rs","vru-noise/src/cipher_state.rs"],
 [("state operations","vru-noise/src/symmetric_state.rs:63-191"),("hash over parts, key derivation","vru-noise/src/hash.rs:26-184")])
p("N02","Two parties running the same handshake stay in lockstep",
 "When one party encrypts handshake payloads and the other performs the same steps decrypting what it receives, every payload is recovered unchanged, both transcript hashes stay equal, and the resulting transport ciphers pair up: what one sends the other receives, in both directions, with in-place and growing-buffer calls interchangeable.",
 ["inputs","histories"],"all step sequences and payload lengths, either party encrypting at each step, every configuration",
 "The unit test only runs the encrypting side; decryption of handshake payloads is not tested in this crate.",
 ["vru-noise/src/symmetric_state.rs","vru-noise/src/cipher_state.rs"],
 [("handshake encrypt/decrypt","vru-noise/src/symmetric_state.rs:144-191"),("split into transport ciphers","vru-noise/src/symmetric_state.rs:134-141"),("swap for the responder","vru-noise/src/cipher_state.rs:151-156")])
p("N03","Any divergence between the parties' handshakes is detected at the next decrypt",
 "If a handshake ciphertext or tag is altered, or the parties' transcripts or keys have come apart in any way (another protocol name, mixed data, mixed key, pre-shared key, order or number of steps), then the next handshake decryption is refused; if none follows, the final hashes differ when the transcripts do and every transport message is refused when the keys do. A refused decryption hands out no plaintext.",
 ["inputs","histories"],"all step sequences, every position and kind of divergence, every bit of every ciphertext",
 "No test presents altered or mismatching handshake data.",
 ["vru-noise/src/symmetric_state.rs","vru-noise/src/hash.rs"],
 [("transcript hash as associated data","vru-noise/src/symmetric_state.rs:150-190"),("chaining key evolution","vru-noise/src/symmetric_state.rs:105-132")])
p("N04","Transport delivers each message once, in order, unaltered, or refuses it",
 "Over any interleaving of sends and receives in both directions, a received message is accepted exactly when it is the next unreceived message of the peer with the same associated data, and then yields the original plaintext. Replayed, skipped-ahead, reordered, reflected or altered messages are refused, and a refusal does not disturb either direction, so the right message is still accepted afterwards.",
 ["histories","inputs"],"all interleavings of encryptions and deliveries in two directions with an adversarial channel",
 "Existing tests only exchange a few messages in strict order and never present a wrong one.",
 ["vru-noise/src/cipher_state.rs"],
 [("per-direction counter advanced only on success","vru-noise/src/cipher_state.rs:74-107"),("directional split","vru-noise/src/cipher_state.rs:125-169")],
 state=[("nonce","messages processed in that direction","vru-noise/src/cipher_state.rs:57")])
p("N05","The n-th transport message uses exactly counter n for its nonce",
 "For every n below 2^64-2 the n-th message of a direction is encrypted and decrypted with the nonce that the Noise specification assigns to n (little-endian for ChaChaPoly, big-endian for AESGCM), so no two messages of a direction share a nonce. Encrypting or decrypting advances the counter by exactly one, on success only.",
 ["histories","inputs"],"all message counts, including those past 2^8, 2^16, 2^32 and 2^63",
 "Tests send at most 16 messages, so counter truncation or wrap is invisible.",
 ["vru-noise/src/cipher_state.rs"],
 [("nonce construction","vru-noise/src/cipher_state.rs:81-107"),("counter advance","vru-noise/src/cipher_state.rs:74-79")],
 state=[("nonce","messages processed in that direction","vru-noise/src/cipher_state.rs:57")],
 hook="a guarded way to place a transport cipher at a chosen message counter, since 2^32 messages cannot be sent in a test")
p("N06","Key rotation happens on schedule and in step on both sides",
 "With a rotation policy of interval I, each direction of a transport cipher rotates its key exactly after every I-th successfully processed message and at no other time, the two directions independently; sender and receiver therefore always use the same key, and refused messages do not count. The policy is initialised with the handshake's final chaining key and that direction's key.",
 ["histories","configurations"],"all rotation intervals, all message counts and interleavings, with refused deliveries in between",
 "The only policy used by any test never rotates.",
 ["vru-noise/src/cipher_state.rs"],
 [("rotation on interval","vru-noise/src/cipher_state.rs:11-36"),("advance and rotate","vru-noise/src/cipher_state.rs:66-79")])
p("N07","Hostile bytes never crash a receiver",
 "Handing any byte string of any length, with any associated data, to the transport or handshake decryption functions returns an error or a plaintext, never a panic, and after an error the same receiver still accepts the genuine next message.",
 ["inputs","histories"],"all byte strings including those shorter than an authentication tag, at every point of a session",
 "No test decrypts anything but genuine messages.",
 ["vru-noise/src/cipher_state.rs","vru-noise/src/symmetric_state.rs"],
 [("growing-buffer decryption","vru-noise/src/cipher_state.rs:177-190")])
# ---------------- session
p("S01","An honest handshake always completes and both parties agree",
 "For all static and ephemeral seeds and payloads of any supported size, the four-message handshake completes on both sides with the same final hash, each side receives the other's payloads unchanged and learns the other's true static public key. The resulting ciphers carry any number of messages in both directions.",
 ["inputs","histories"],"all seeds, payload sizes and contents, and all subsequent message exchanges; messages passed in memory or through their byte encoding",
 "One fixed set of seeds with 16-byte payloads, and 16 messages in one direction.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs","vru-session/src/handshake/noise.rs"],
 [("four handshake steps","vru-session/src/handshake/xx.rs:77-288")])
p("S02","An altered, replayed or spliced handshake message is always refused",
 "If any bit of any handshake message is changed in transit, or any component is replaced by the corresponding component of another session (with its own ephemeral keys) or of another message, the handshake is refused by the receiving side or, for the first message, by the initiator on reading the reply. No run in which a message was altered ends with both sides completed.",
 ["inputs","fault_sequences"],"all honest runs, every component and bit of every message, and all substitutions from other runs",
 "The handshake test delivers every message intact.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/noise.rs"],
 [("authenticated payloads and keys","vru-session/src/handshake/xx.rs:112-183"),("implicit rejection in the KEM","vru-kyber/src/kem.rs:86-105")])
p("S03","A handshake completes only with the holder of the expected static key",
 "An initiator that dials an identity completes only with a responder whose static public key has that identity and which holds its secret keys; a responder completes only with an initiator that holds the secret keys of the static public key it presents. A party answering under another identity, or lacking the elliptic-curve or the lattice secret of the static key it claims, never gets a working session: the handshake, or at the latest its first transport message, is refused.",
 ["inputs"],"all combinations of honest and dishonest parties: wrong identity, stolen public keys, half-stolen secrets, man in the middle with own keys",
 "The test only runs two honest parties who know each other.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs"],
 [("identity bound to the handshake","vru-session/src/handshake/xx.rs:68-82"),("static key agreement and encapsulation","vru-session/src/handshake/xx.rs:125-148")])
p("S04","Handshake transcripts and keys are the documented protocol's, bit for bit",
 "For all seeds, identities and payloads, each handshake message, the final hash and the transport keys equal those of the documented pattern (e; ec,e,ee,s,es; ec,sc,s,se; sc) over Noise with SHA3-256, ChaChaPoly, Ed25519 and the width-3 lattice KEM, as computed by an independent implementation; so every secret of the pattern contributes to the final keys in its place.",
 ["inputs"],"all seeds, keys and payloads",
 "A single hard-coded final hash is compared; it does not depend on the transport keys or on the last messages' secrets.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/noise.rs","vru-session/src/handshake/key.rs"],
 [("message pattern","vru-session/src/handshake/xx.rs:72-75"),("cipher suite","vru-session/src/handshake/noise.rs:8-12")])
p("S05","A public key is the same key in every representation",
 "For every seed, key generation is deterministic, and compressing, decompressing, cloning, serialising and deserialising a public key (in any order, any number of times) leave its encoding, identity and lattice hash unchanged, and the key keeps working with its secret key for key agreement and encapsulation. Different keys have different identities, and the identity is the SHA3-256 of the encoding.",
 ["inputs","histories"],"all seeds and all chains of representation changes, for public and secret keys",
 "The test only compares compressed bytes of two keys; cloning and serialisation are never exercised.",
 ["vru-session/src/handshake/key.rs"],
 [("generate, compress, decompress, identity","vru-session/src/handshake/key.rs:23-93"),("serialise and clone","vru-session/src/handshake/key.rs:133-183")])
p("S06","Identities survive their text form and bad text is refused without a crash",
 "Every identity's displayed text parses back to the same identity, distinct identities have distinct text, and binary serialisation round-trips. Parsing any other text (invalid characters, too short, too long, empty) returns an error and never panics.",
 ["inputs"],"all identities and all strings",
 "No test parses or prints an identity.",
 ["vru-session/src/handshake/key.rs"],
 [("text form","vru-session/src/handshake/key.rs:109-126")])
p("S07","Malformed peer input is answered with an error, not a crash",
 "Whatever bytes of the right length a peer sends as a handshake message, a serialised public key or a command, processing it returns an error or continues the protocol, and never panics. In particular encodings that are not points of the curve are refused.",
 ["inputs"],"all byte strings of the message lengths, in particular invalid and low-order curve points placed in each message",
 "The test only feeds messages produced by the library itself.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs"],
 [("decoding of received public keys","vru-session/src/handshake/key.rs:42-52"),("deserialisation","vru-session/src/handshake/key.rs:150-162")])
p("S08","Sessions are isolated: fresh seeds give unrelated keys",
 "Two sessions between the same static keys that differ in any ephemeral key or encapsulation seed have different transport keys: messages of one are refused by the other, and a cipher never accepts its own direction's messages. Repeating a session with identical seeds reproduces identical messages and keys.",
 ["inputs","histories"],"all pairs of sessions differing in one or more seeds, and all cross-deliveries of their messages",
 "Only one session is ever created.",
 ["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs"],
 [("seeds to ephemeral keys and encapsulations","vru-session/src/handshake/xx.rs:77-230"),("directional split","vru-session/src/handshake/xx.rs:278-281")])
# ---------------- udp
p("U01","The UDP node accounts for every datagram",
 "For any history of datagrams and connect commands, each received datagram that is not exactly 1280 bytes is reported once as a size error with its sender, each full-size datagram from an unknown sender is reported once as incoming, and a full-size datagram from an address with a pending connect consumes that request and is answered with exactly one 1280-byte datagram opening a handshake with a fresh key. A second connect to an address that is still pending is reported as failed and changes nothing.",
 ["histories","inputs"],"all histories of datagrams of any size from several senders and connect commands",
 "The crate has no tests.",
 ["vru-udp/src/global.rs","vru-udp/src/command.rs","vru-udp/src/linkage/datagram.rs"],
 [("receive loop","vru-udp/src/global.rs:135-173"),("dispatch","vru-udp/src/global.rs:175-209"),("pending connects","vru-udp/src/global.rs:94-104")],
 state=[("pending connects","addresses waiting for a first datagram","vru-udp/src/global.rs:42")])
p("U02","No history of commands and datagrams crashes the UDP node",
 "Whatever commands the application issues (connects, texts to known, unknown or repeatedly addressed peers) and whatever datagrams arrive, no call into the node panics and none of its threads dies from a panic; the node keeps reporting events afterwards.",
 ["histories"],"all histories of commands and datagrams",
 "The crate has no tests.",
 ["vru-udp/src/global.rs","vru-udp/src/local.rs"],
 [("command dispatch","vru-udp/src/global.rs:94-121"),("peer worker","vru-udp/src/local.rs:81-91")])
p("U03","Shutting down a UDP node always terminates",
 "After the running flag is cleared, joining the node returns, whatever connections, commands and datagrams preceded and whatever datagrams still arrive during shutdown, and the event stream then ends for its reader.",
 ["histories","schedules"],"all histories before shutdown and all arrivals during shutdown",
 "The crate has no tests.",
 ["vru-udp/src/global.rs","vru-udp/src/local.rs"],
 [("loop exit and worker join","vru-udp/src/global.rs:143-173"),("worker join","vru-udp/src/local.rs:28-30")])
# ---------------- tcp
p("T01","The TCP node's life cycle and connect commands never panic the caller",
 "Starting a node on a usable address succeeds and on an unusable one returns an error; any sequence of commands with any destination address returns normally, a refused or unreachable destination being reported as an error event at most. Joining the node returns and ends its event stream, after which its address can be bound again.",
 ["histories","inputs"],"all addresses, all command sequences, repeated start/stop cycles",
 "The crate has no tests.",
 ["vru-tcp/src/lib.rs"],
 [("spawn","vru-tcp/src/lib.rs:58-105"),("command","vru-tcp/src/lib.rs:107-114"),("join","vru-tcp/src/lib.rs:116-119")])
# ---------------- node
p("D01","A node's identity is permanent once announced",
 "Once a node started on a data directory has announced its identity, every later start on that directory announces the same identity, whatever sequence of clean shutdowns, kills and concurrent start attempts happens in between, including a kill immediately after the announcement. Nodes on different directories have different identities.",
 ["crash_points","histories"],"all histories of starts, clean stops, kills at any moment and concurrent starts over one or several directories",
 "The node binary has no tests.",
 ["vru-node/src/database.rs","vru-node/src/main.rs"],
 [("stored key seed","vru-node/src/database.rs:20-32"),("announcement","vru-node/src/main.rs:53-61")])
p("L01","The command socket executes every well-formed command and outlives bad ones",
 "Every well-formed command written to a running node's command socket (one per connection) is carried out exactly once, in the order of the connections where these do not overlap, for any number of commands over the node's life; connections that carry garbage, truncated commands or nothing, or stay open without a word, do not stop it or keep later commands from being carried out. The socket is usable again after a restart even if a stale socket file was left behind, and an interrupt stops the node, however busy the socket is kept.",
 ["histories","inputs"],"all histories of well-formed and malformed command connections, of any length, and restarts",
 "The node binary has no tests.",
 ["vru-node/src/listener_unix.rs","vru-node/src/main.rs"],
 [("command loop","vru-node/src/listener_unix.rs:55-94"),("socket creation","vru-node/src/listener_unix.rs:31-42")])
p("C01","The command-line client sends exactly the command the user typed",
 "For every identity, socket address and text, invoking the client delivers to the node's command socket exactly one command that decodes to the same identity, address or text bytes, and nothing else. Unusable arguments are refused with a non-zero exit and nothing is sent.",
 ["inputs"],"all identities, IPv4/IPv6 addresses with ports and texts expressible on a command line",
 "The client has no tests.",
 ["vru-node/src/bin/client.rs","vru-session/src/node.rs","vru-session/src/handshake/key.rs"],
 [("argument parsing and encoding","vru-node/src/bin/client.rs:5-40"),("command format","vru-session/src/node.rs:13-23")])
p("D02","A start that cannot succeed ends by itself, says so, and does no harm",
 "When a node cannot start or cannot take commands (its data directory or store is a file, its port is taken, another node runs on the directory, the command socket cannot be created, the arguments make no sense), the program ends by itself, with an error message and without a crash. It leaves what stood in the way as it was, a node already running on the directory keeps its command socket and goes on carrying out commands, and once the obstacle is gone a start on the same directory works, with the identity announced before, if any.",
 ["histories","inputs"],"all histories of failing and succeeding starts on one or several directories",
 "The node binary has no tests.",
 ["vru-node/src/main.rs","vru-node/src/database.rs","vru-node/src/listener_unix.rs","vru-tcp/src/lib.rs"],
 [("start sequence and its failures","vru-node/src/main.rs:36-112"),("socket creation","vru-node/src/listener_unix.rs:31-42")])
p("D03","An identity belongs to its data directory, however named and wherever moved",
 "Naming a data directory by another path (relative, through links, with detours, any bytes a file name can have), starting the node in another working directory, with another port or with unrelated files in the directory makes no difference to the identity it announces, and the client reaches the running node by each of these names. A directory that is moved or copied while no node runs on it takes its identity along; a directory that does not exist yet, or that lost its store, gets an identity no other directory has or had.",
 ["histories","inputs"],"all directory names and ways to name them, and all histories of starts, moves, copies and losses of directories",
 "The node binary has no tests.",
 ["vru-node/src/main.rs","vru-node/src/database.rs","vru-node/src/bin/client.rs","vru-node/src/listener_unix.rs"],
 [("paths given","vru-node/src/main.rs:12-20"),("store opened and key seed","vru-node/src/database.rs:10-40")])
p("L02","The node tells its operator about every failure, once",
 "Of every connect command that the system refuses at once, the node's output tells the operator the system error, and of every connection to the command socket that did not carry a command there is one warning: exactly once each, in any number and mixture, with none invented and none lost, also when the node is interrupted right after the last command was carried out.",
 ["histories","inputs"],"all histories of command connections, with any number of failing ones, ended by an interrupt",
 "The node binary has no tests, and the TCP node is tested only with connections that succeed.",
 ["vru-node/src/main.rs","vru-tcp/src/lib.rs","vru-node/src/listener_unix.rs"],
 [("event loop and shutdown","vru-node/src/main.rs:78-112"),("failed connects as events","vru-tcp/src/lib.rs:107-120")])
p("L03","A suspended node goes on where it was",
 "A node that is suspended and resumed, for any time, any number of times and at any moment (also in the middle of receiving a command, or while an interrupt is pending), goes on as if nothing had happened: it keeps its port, its identity and its command socket, and every well-formed command written before, meanwhile and afterwards is carried out exactly once and in order. An interrupt still ends it cleanly; signals that mean nothing to it change nothing.",
 ["histories","schedules"],"all histories of commands, suspensions and signals, at any moment of the node's work",
 "The node binary has no tests.",
 ["vru-node/src/main.rs","vru-node/src/listener_unix.rs","vru-tcp/src/lib.rs"],
 [("waiting for connections","vru-tcp/src/lib.rs:146-166"),("waiting for commands","vru-node/src/listener_unix.rs:60-98")])
p("U04","Signals an application handles do not disturb a node",
 "A signal for which the application has a handler, delivered to any thread of a UDP or TCP node at any moment and however often, neither ends the node nor changes what it does: every datagram is still accounted for as without signals, pending connects are answered, a TCP node keeps its address and its connects succeed or are reported as before, and shutting down terminates.",
 ["histories","schedules"],"all histories of datagrams, commands and shutdowns with signals at any moment",
 "The crates have no tests.",
 ["vru-udp/src/global.rs","vru-udp/src/local.rs","vru-tcp/src/lib.rs"],
 [("UDP receive loop","vru-udp/src/global.rs:147-176"),("TCP accept loop","vru-tcp/src/lib.rs:141-196")])
p("U05","Nodes that were shut down leave nothing behind",
 "After a UDP or TCP node was joined, all its threads end, all sockets and descriptors it opened are closed and its port can be bound again, whatever peers, commands and datagrams it had and whether or not its events were read; a failed start leaves nothing behind either. So nodes can be started and stopped any number of times in one process.",
 ["histories"],"all sequences of life cycles of nodes in one process, with any history in each",
 "The crates have no tests.",
 ["vru-udp/src/global.rs","vru-udp/src/local.rs","vru-tcp/src/lib.rs"],
 [("UDP shutdown and peers","vru-udp/src/global.rs:84-92"),("peer worker","vru-udp/src/local.rs:22-65"),("TCP spawn and join","vru-tcp/src/lib.rs:58-125")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
