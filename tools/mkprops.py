#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HS = "src/protocol/handshakestate.c"; SY = "src/protocol/symmetricstate.c"; CS = "src/protocol/cipherstate.c"
PA = "src/protocol/patterns.c"; DH = "src/protocol/dhstate.c"; SG = "src/protocol/signstate.c"
HA = "src/protocol/hashstate.c"; RA = "src/protocol/randstate.c"; NA = "src/protocol/names.c"; UT = "src/protocol/util.c"
PB = "src/protobufs/protobufs.c"; LO = "src/keys/loader.c"; CE = "src/keys/certificate.c"

prop("C01", "Honest handshakes complete, agree, and match the Noise specification on the wire",
 "For every protocol name the library supports, two correctly configured parties that exchange their handshake messages unmodified both reach the split point, recover each other's payloads, report the same handshake hash, and obtain cipher pairs with which each side decrypts what the other encrypts. Every handshake message, the handshake hash and the first transport messages are byte for byte what the Noise specification (revision 30, with the fallback, noidh and hfs extensions this library documents) prescribes for those keys, PSK, prologue and payloads.",
 ["configurations", "inputs"],
 "Every handshake pattern x prefix x DH x hybrid DH x cipher x hash that can be instantiated, each with and without prologue and for several payload-length profiles (including empty), for both roles, with fixed ephemerals so that every byte is determined.",
 "The vector files sample one key/payload set per protocol name with the same code computing both ends in-process; they do not vary prologue/payload shape per name, do not cover all names (hybrids, one-way noidh, PSK+hfs), and the unit tests only check construction.",
 [HS, SY, CS, PA, DH, HA, NA], [("token interpreter", HS+": write/read message"), ("pattern tables", PA), ("mix_key/mix_hash/encrypt_and_hash/split", SY)],
 ["handshake messages", "payloads returned", "handshake hash", "transport ciphertexts"])

prop("C02", "Handshake calls obey message order; failure is final; split happens once",
 "Whatever order the handshake calls are made in, only the step that the pattern and role allow next succeeds: starting twice, writing or reading out of turn, configuring after the start, splitting early or splitting twice are refused with an invalid-state error and change nothing. A handshake whose message step failed reports the failed action from then on, refuses every further message or split call, and never releases transport ciphers or a handshake hash. The action reported to the application always names exactly the call that will be accepted next.",
 ["histories"],
 "All sequences of API calls up to a depth bound over {set prologue, set PSK, start, write (ample / too-small buffer), read (the peer's genuine next message / garbage / truncated), split (both, one side), get hash}, for both roles of patterns with 1, 2 and 3 messages, with and without PSK.",
 "Unit tests call the API in the one correct order and a handful of wrong ones; call histories are unbounded and errors interact (failure after partial progress, split after failure).",
 [HS], [("action field gate", HS+": action checks in every entry point"), ("failure latch", HS+": write_message/read_message set FAILED")],
 ["return codes", "noise_handshakestate_get_action", "cipher objects returned"],
 [("action", "next permitted step", HS)])

prop("C03", "No tampering with handshake messages survives into a completed, agreeing session",
 "If an attacker alters, truncates, extends, drops, replays, reorders, or reflects any handshake message, or splices it in from another session, then either the receiving call fails or the two parties end with different handshake hashes and no transport message of one is accepted by the other; no receiver ever obtains a payload different from the one sent in a message that was encrypted under a shared key. Two parties never both finish with equal handshake hashes unless every message arrived exactly as sent.",
 ["inputs", "histories"],
 "For each pattern and prefix: every single-bit change at every position of every handshake message, every truncation length, extensions, every replacement by another message of the same or of a parallel session (replay, reorder, reflection, cross-session splice).",
 "The tests never run a man in the middle: they check that good messages are accepted, not that each of the thousands of bad variants is rejected or leads to disagreement.",
 [HS, SY, CS], [("transcript hash as associated data", SY+": encrypt_and_hash/decrypt_and_hash"), ("AEAD verification", CS)],
 ["read_message results", "handshake hashes", "decrypt results after split"])

prop("C04", "A handshake starts only when every key its pattern needs has been supplied",
 "Starting succeeds exactly when the local keypair, remote public key and pre-shared key that the pattern, role and prefix require beforehand are all present, and otherwise returns the error naming a missing item without consuming the object, so that supplying it afterwards makes the start succeed. The needs/has queries agree with this at every moment, and a fallback pattern cannot be started unless it was entered through a fallback.",
 ["configurations", "histories"],
 "Every pattern x prefix x role x every subset (and both orders) of the optional inputs local key, remote key, PSK, prologue, including keys that are set then cleared or replaced.",
 "Tests configure each protocol fully; the exponential set of partial configurations per pattern and role is not visited.",
 [HS, PA], [("requirement flags", HS+": requirements()"), ("pattern flags", PA)], ["noise_handshakestate_start", "needs_*/has_* queries"])

prop("C05", "Parties configured differently never complete a session with each other",
 "Two parties whose prologue, pre-shared key, pre-known static key, protocol name (pattern, prefix, DH, cipher or hash) or role assignment differ can never both complete a handshake and exchange a transport message that the other accepts; at the latest the first encrypted message after the disagreement became relevant is rejected.",
 ["configurations", "inputs"],
 "Every pattern and prefix x every single-item difference (each prologue bit and length, each PSK bit, wrong static for each pre-message key, every other cipher/hash/pattern of equal message shape, same role on both sides).",
 "The vectors always configure both ends consistently, so binding of each input to the session keys is never observed.",
 [HS, SY], [("mixing of prologue/PSK/pre-messages", HS+": start()"), ("protocol name initialises the hash", SY)],
 ["read_message", "transport decrypt"])

prop("C06", "Cipher nonces are used once, in order, and never wrap",
 "Successive successful encryptions (and decryptions) under one key use nonces n, n+1, n+2,... from the initial or explicitly advanced value; a failed operation, an over-long or too-short request never consumes a nonce, the nonce can be moved forward but not backward to a used value, and after the last permitted nonce (2^64-2) every operation is refused forever with an invalid-nonce error. Setting a key restarts at zero, and without a key data passes through unchanged.",
 ["histories"],
 "All call sequences up to a depth bound over {encrypt, decrypt good/corrupted/short, init key A/B, set nonce 0/1/n+k/2^64-3/2^64-2/2^64-1, oversize}, for each cipher and backend, compared with a reference AEAD at the model's nonce.",
 "Tests encrypt one or two messages from nonce zero; boundary nonces and error/advance interleavings are histories they never build.",
 [CS, "src/backend/ref/cipher-chachapoly.c", "src/backend/ref/cipher-aesgcm.c", "src/backend/sodium/cipher-chachapoly.c", "src/backend/openssl/cipher-aesgcm.c"],
 [("n field and checks", CS+": encrypt/decrypt/set_nonce")], ["ciphertext bytes against a reference AEAD at each nonce", "return codes"],
 [("n", "next nonce", CS)])

prop("C07", "Only the exact ciphertext, associated data, nonce and key decrypt",
 "Decryption returns the original plaintext for exactly the ciphertext, associated data, nonce and key produced by encryption, for every length; any change to any bit of any of them, or any truncation or extension, yields an authentication (or length) error and leaves no decrypted plaintext in the caller's buffer. Encryption agrees with the standard AEAD algorithm for every message and associated-data length, in every build configuration.",
 ["inputs"],
 "All message lengths 0..N and associated-data lengths 0..M crossed, with every single-bit change of ciphertext, tag, associated data, key and nonce, every truncation; each cipher in each build configuration.",
 "Tests check a few fixed vectors per cipher and flip a couple of bytes; block-boundary length combinations and every-bit authenticity are inputs they do not reach.",
 [CS, "src/backend/ref/cipher-chachapoly.c", "src/backend/ref/cipher-aesgcm.c", "src/crypto/chacha/chacha.c", "src/crypto/ghash/ghash.c", "src/crypto/aes/rijndael-alg-fst.c", "src/crypto/donna/poly1305-donna.c"],
 [("MAC check before release", "src/backend/*/cipher-*.c")], ["decrypt result, buffer and size"])

prop("C08", "A null public key never becomes a session's shared secret",
 "A remote ephemeral or hybrid public key that is null (all zeroes) is never accepted: reading a message that carries a null ephemeral or hybrid key fails the handshake, whatever the pattern or position, and no later call on that object, including falling back to another pattern, can complete a session that rests on the null key. A null key is accepted only as a static key, which the application can recognise as null.",
 ["inputs", "histories"],
 "Every message position of every pattern that carries an ephemeral or hybrid key with the key replaced by null (with otherwise valid, model-computed remainder), followed by every continuation (retry read, fallback then full fallback handshake by an attacker who knows only the null secret).",
 "No test sends a null key inside a handshake or continues after the rejection.",
 [HS, DH], [("is_null checks", HS+": read of E and F tokens"), ("fallback conditions", HS+": fallback_to")], ["read_message", "fallback", "completed hash"])

prop("C09", "Falling back keeps the session's identity and only happens when it should",
 "After a responder could not (or chose not to) accept the first message of a pattern that relied on its static key, both sides can fall back, swap roles, and complete the fallback handshake with exactly the transcript the specification prescribes: same initiator ephemeral, chosen prologue and PSK, fresh keys otherwise. Fallback is refused with an error and without side effects before the original handshake started, on the wrong side of it, after it completed, for patterns that are not compatible, for targets that are not fallback patterns, for a responder that has not received the initiator's ephemeral key, and a second time.",
 ["histories", "configurations"],
 "Every original pattern x prefix x fallback target x moment in the history of either role (before start, after each message, after each kind of failure, after split, after fallback), then the full fallback handshake compared to the reference model, with and without changed prologue/PSK.",
 "The fallback vectors run one happy path per name; moments, roles and incompatible patterns are not enumerated.",
 [HS, PA], [("fallback_to", HS)], ["return codes", "messages vs reference model", "hash"])

prop("C10", "Running out of memory at any point is reported, harmless and leak-free",
 "Whichever memory allocation fails during any library operation, the operation reports the failure as an out-of-memory error (or, where it has another implementation to turn to, succeeds completely with that one), never as success with missing data and never by crashing; creating functions leave the caller's handle null, nothing allocated on the failed path is leaked or freed twice, and objects that existed before remain safe to use or to free.",
 ["fault_sequences"],
 "For every scenario (creating every object by id and name, full handshakes, fallback, split, key generation, PBKDF2, protobuf reads, certificate/chain/private-key build, load and save): every single allocation failure index, and every 'fail from index i on'.",
 "Tests never make an allocation fail.",
 [UT, HS, SY, CS, DH, HA, SG, LO, CE, PB], [("noise_new checks and cleanup paths", "all constructors")], ["return codes", "handles", "allocation ledger", "address sanitizer"])

prop("C11", "Secrets are erased before their memory is released or the object is cleared",
 "When a protocol or key object is freed, cleared or re-keyed, no byte of the private keys, shared secrets, chaining keys, cipher keys, pre-shared keys, passphrase-derived keys, decrypted private-key files or random-generator state it held remains in the memory it returns to the heap or leaves behind in the cleared object, on success and on error paths alike.",
 ["histories", "fault_sequences"],
 "Every object type and algorithm x every way its life can end (free after each stage of handshake, failed handshake, failed load, clear, copy, re-key, out-of-memory unwinding), with every heap block inspected at the moment it is freed for any 16-byte window of any known secret.",
 "Tests cannot see freed memory; nothing looks at the heap after a free.",
 [UT, CS, HS, SY, DH, HA, SG, RA, LO, PB, CE], [("noise_free/noise_clean", UT)], ["heap blocks at the moment of free", "object contents after clear"])

prop("C12", "No call reads or writes outside the caller's buffers, whatever sizes are given",
 "For every capacity of output buffer and every input length, each call either succeeds having written only inside the stated capacity, or returns an invalid-length error; it succeeds exactly when the capacity is at least what the result needs. Messages of the protocol never exceed 65535 bytes, and a request that would exceed that is refused.",
 ["inputs"],
 "All capacities 0..needed+2 and all input lengths in a window around each boundary (including around 65535-MAC and 65535) for every handshake message of every pattern, transport encryption and decryption, symmetric-state encryption, key get/set, hash outputs, with guard bytes and exactly sized heap buffers under address sanitizer.",
 "Tests always pass amply sized buffers.",
 [HS, CS, SY, DH, SG, HA, RA], [("max_size checks", "all buffer-taking entry points")], ["return codes", "guard bytes"])

prop("C13", "Protobuf values survive a write/read round trip in canonical form",
 "Whatever sequence of fields is written, reading it back yields the same values in order; the bytes are the canonical protobuf encoding (shortest varints, standard wire types), the size predicted by measuring equals the size produced, and both ways of finishing an output deliver the same bytes. Every well-formed UTF-8 string is accepted and every ill-formed one is refused, and writing into any buffer that is too small reports an error without touching memory outside it.",
 ["inputs", "programs"],
 "All field types x boundary values (every varint length edge, sign edges, all lengths 0..300 for strings/bytes, tags 1..2^29-1 at varint edges), all sequences of up to three nested or flat fields, all buffer capacities up to the needed size; all UTF-8 sequences of up to 4 bytes over the boundary-byte alphabet, alone and embedded.",
 "The unit tests write a few fixed values per type; lengths above 127, tags above 15 and non-final multibyte characters do not occur.",
 [PB], [("reverse writer", PB+": write_*"), ("utf8 check", PB)], ["encoded bytes vs reference encoder", "decoded values"])

prop("C14", "Parsing arbitrary bytes as protobufs is safe, exact and deterministic",
 "For any input bytes and any sequence of read calls the reader never reads outside the input, never loops forever, and either returns exactly the value the protobuf wire format defines or a sticky error; nested elements never extend beyond their parent, peeking reports precisely the tag and size that the following read would consume and changes nothing, and skipping moves exactly past one field.",
 ["inputs", "histories"],
 "All byte strings up to a length bound over an alphabet of structural bytes, x all read-call sequences up to a depth bound (peek, skip, typed reads with matching/wrong/zero/negative tag, nested start/end), compared with an independent reference decoder.",
 "Tests decode only bytes the library produced itself, plus a few fixed bad inputs.",
 [PB], [("bounds checks", PB+": read_varint/read_space/start_element"), ("error latch", PB)], ["return codes, positions, values"])

prop("C15", "Certificates and private keys load back as saved, and only when intact",
 "Loading a saved certificate, chain or private key yields an equal object; a certificate or a chain is loadable through either certificate entry point as documented. An encrypted private key is only released for the exact passphrase it was saved with (passphrases that HMAC itself maps to the same key, such as those differing in trailing zero bytes only, count as equal), any modification, truncation or extension of the saved bytes that could alter its contents makes loading fail with an error and a null result, and saving never fails to terminate.",
 ["inputs", "configurations"],
 "Certificate shapes (all presence combinations of fields, 0..N signatures/keys/meta, strings of boundary lengths) and private keys x all supported protection names x every single-bit flip, every truncation, appended bytes, every passphrase within edit distance one, iteration/salt/algorithm field variants, every buffer size.",
 "No test covers the key-file code at all.",
 [LO, CE, PB], [("loader", LO), ("generated reader/writer", CE)], ["returned objects, bytes", "error codes"])

prop("C16", "File failures while loading or saving keys are never reported as success",
 "When any file operation fails, is short, or the disk fills at any point while a certificate or key is saved, the save reports an error; when a load cannot read the whole file it reports an error and returns no object. Success is reported for a save only if the complete file content reached the file, and no failure crashes, hangs or leaks an open file.",
 ["fault_sequences", "crash_points"],
 "Each load/save entry point x every file-system call it makes failing (open, each seek/tell/read/write, flush, close) or being short at each byte count.",
 "No test covers file handling and none injects I/O errors.",
 [LO], [("fopen/fread/fwrite/fclose use", LO)], ["return code vs bytes in the file", "open-file ledger"])

prop("C17", "Protocol names and identifiers convert one to one and strictly",
 "Every combination of known prefix, pattern, DH, hybrid, cipher and hash identifiers formats to one name that parses back to the same identifiers, distinct combinations have distinct names, and an object created from the name is the same as one created from the identifiers. Names that differ from a valid name in any character, or have missing, extra, empty or over-long parts, are refused, as are unknown identifiers and too-small buffers, with the output cleared.",
 ["inputs", "configurations"],
 "All identifier tuples (and all with one unknown or absent component), all names; every single-character deletion, insertion, substitution and truncation of names; every buffer length.",
 "Tests list a few dozen names; near-miss names and the full product are not covered.",
 [NA], [("name tables and parser", NA)], ["noise_protocol_name_to_id/id_to_name", "noise_name_to_id/id_to_name", "constructors by name"])

prop("C18", "Hashes, HKDF and PBKDF2 depend only on the data, not on how it is supplied",
 "For each hash algorithm the digest of a message is the standard digest no matter how the message is split into updates, what the object computed before, or whether one-shot or incremental calls are used; key derivation (two-output HKDF) and PBKDF2 give the standard results for all input lengths and all requested output lengths, including when outputs overwrite inputs as the protocol does.",
 ["inputs", "histories"],
 "All message lengths across two block boundaries x all two-way and selected three-way splits; all call orders (reset, update, finalize, one-shot) to a depth bound; all HKDF output length pairs up to the limit and key/data lengths around the block size; PBKDF2 over iteration and length grids; each algorithm in each build configuration.",
 "Tests use a few vectors each with one-shot calls; padding-boundary lengths, splits and reuse histories are not enumerated.",
 [HA, "src/crypto/blake2/blake2s.c", "src/crypto/blake2/blake2b.c", "src/crypto/sha2/sha256.c", "src/crypto/sha2/sha512.c"],
 [("update buffering and padding", "src/crypto/*"), ("hmac/hkdf/pbkdf2", HA)], ["digests vs independent implementation"])

prop("C19", "Diffie-Hellman key objects always hold what they say they hold",
 "After any sequence of set, generate, clear, copy, role and null-key calls, the has-keypair, has-public-key and is-null answers and the retrieved bytes reflect exactly the last effective call; a mismatched keypair of a curve algorithm or a wrong length is refused and leaves no half-set key usable, copies are independent, and calculation succeeds only with a private key and a public key of the same algorithm. Both ends always compute the same, standard shared secret, and fingerprints depend only on the public key.",
 ["histories", "inputs"],
 "All call sequences up to a depth bound over two objects of each algorithm (set keypair good/mismatched/short, private only, public, null, generate, clear, copy each way, set role, get, calculate), compared with a reference model and an independent implementation of the curves.",
 "Tests perform each operation once on a fresh object with fixed keys.",
 [DH, "src/backend/ref/dh-curve25519.c", "src/backend/ref/dh-curve448.c", "src/backend/ref/dh-newhope.c", "src/backend/sodium/dh-curve25519.c"],
 [("key_type tracking", DH)], ["return codes, key bytes, shared secrets"],
 [("key_type", "none / public / keypair", DH)])

prop("C20", "Signatures verify exactly for the signed message and key",
 "A signature made with a key verifies under that public key and message, and under no other message, key or altered signature; signing requires a private key and verifying a public key, objects follow their last successful key operation, mismatched keypairs are refused, and signatures are the standard deterministic Ed25519 values in every build.",
 ["histories", "inputs"],
 "All call sequences up to a depth bound over two signing objects (set keypair good/mismatched, private only, public only, generate, clear, copy, sign, verify), all message lengths 0..N, and every single-bit flip of signature, public key and message.",
 "Tests use a few fixed vectors on fresh objects.",
 [SG, "src/backend/ref/sign-ed25519.c", "src/backend/sodium/sign-ed25519.c", "src/crypto/ed25519/ed25519.c"],
 [("key_type tracking", SG)], ["return codes, signature bytes"])

prop("C21", "Random output never repeats and rests on fresh entropy; padding is exact",
 "Every generator is seeded from the operating system before it produces output and mixes in new entropy on request and at least every 1,600,000 bytes of output; output is never produced from a key and position that produced output before, and state captured after a request does not reveal earlier output. If the operating system fails to deliver entropy the library never proceeds with predictable bytes, and padding fills exactly the bytes between the original and padded lengths in the requested mode.",
 ["histories", "fault_sequences"],
 "All sequences up to a depth bound of generate (lengths around block, rekey and reseed limits), reseed and pad on one and two generators with a scripted entropy source; every failing or short entropy read.",
 "Tests can only check that output looks non-constant.",
 [RA, "src/protocol/rand_os.c", "src/protocol/rand_sodium.c"], [("reseed counter, rekey", RA), ("urandom read loop", "src/protocol/rand_os.c")], ["entropy requests vs output bytes", "process exit on entropy failure"])

prop("C22", "Sessions are independent of each other",
 "What one object computes is unaffected by anything done with other objects, in any interleaving of calls in one thread or, for distinct objects, of calls in several threads: no operation reads or writes state shared between objects. Interleaved sessions produce the same bytes as the same sessions run one after another.",
 ["schedules"],
 "All interleavings of the call sequences of two sessions (handshakes of different patterns and algorithms, hashing, signing, protobuf work) at call granularity, compared with running them alone, plus a separate free-running multi-threaded run of the same bodies under a thread sanitizer to exclude unsynchronised shared state.",
 "Tests run one session at a time in one thread.",
 ["src/protocol", "src/backend", "src/crypto", PB], [("no mutable globals", "whole library")], ["transcripts of each session", "thread sanitizer reports"])

prop("C23", "The build configurations are interchangeable",
 "The reference, libsodium and OpenSSL builds, and the reference build with the field arithmetic that other machines select (--with-ed448-arch, 32-bit code, no inline assembly), expose the same algorithms, compute identical bytes for the same inputs, return the same error codes for the same misuse, and interoperate with each other in every handshake.",
 ["configurations", "inputs"],
 "The same operation sequences (handshakes over all names with every combination of initiator and responder build, AEAD grids, hashes, signatures, DH key handling, error cases) executed in each build and compared event by event.",
 "The tests run each build against its own expectations and never against another build, and only with the sampled vectors.",
 ["src/backend", "src/protocol/internal.c"], [("backend selection", "src/protocol/internal.c and Makefile.am")], ["event traces of each build"])

prop("C24", "A transport channel delivers a prefix of what was sent, in order, or fails",
 "Over an established channel a receiver accepts a message only if it is exactly the next one the peer sent: replayed, reordered, skipped, altered, truncated, reflected or wrong-direction messages are rejected and do not disturb later delivery of the right message. The sequence of accepted plaintexts is always a prefix of the sequence sent in that direction.",
 ["schedules", "histories"],
 "All delivery schedules up to a bound of an adversarial network (deliver any sent message any number of times in any order to either side, with alterations) over channels produced by real handshakes of each cipher, both directions and one-way patterns.",
 "Tests encrypt and decrypt in lockstep.",
 [CS, HS, SY], [("implicit nonces", CS), ("split direction", HS+": split")], ["accepted plaintext sequences"])

prop("C25", "The symmetric state behaves as the specification's object in any call order",
 "After any sequence of mix-key, mix-hash, encrypt-and-hash, decrypt-and-hash and split calls the symmetric state produces the ciphertexts, MAC lengths and split keys that the specification defines for that sequence; a failed decryption leaves it unchanged, and after splitting every operation is refused.",
 ["histories"],
 "All call sequences up to a depth bound over {mix key, mix hash, encrypt, decrypt good/bad, split both/one side/null}, for every cipher and hash combination, compared with an independent reference model.",
 "Tests run only the fixed sequences of the vectors.",
 [SY], [("mix_key/mix_hash/encrypt/decrypt/split", SY)], ["ciphertexts, split cipher outputs, return codes"])

prop("C26", "Generated protobuf message code is faithful to its schema",
 "For every schema the generator accepts, the generated C code compiles and its accessors, reader and writer implement the schema: set values are read back and counted, unset fields are absent, encodings are the standard ones, unknown fields are skipped, malformed input is refused without leaks, and repeated fields keep their order under add, insert and clear. The library's own certificate code behaves the same as freshly generated code for the published schema.",
 ["programs", "inputs", "histories"],
 "All small schemas over {field types} x {singular, repeated} x {tag ranges} x {nested message, enum, package}, each generated, compiled and driven through all accessor sequences to a depth bound; the committed certificate code through the same.",
 "The generator and the generated code have no tests.",
 ["tools/protoc/proto3-generate-c.c", "tools/protoc/proto3-ast.c", CE, PB], [("code templates", "tools/protoc/proto3-generate-c.c")], ["compiled behaviour of generated code"])

prop("C27", "The echo transport frames messages correctly under any socket behaviour",
 "However the operating system fragments, interrupts or ends the byte stream, sending transmits exactly the frame bytes once and in order, receiving returns exactly one whole frame or reports a lost connection, and a frame larger than the buffer is refused without writing outside it. Protocol identifiers survive conversion to the wire form and back, unknown identifiers are refused, and key files are accepted exactly when they contain one well-formed key of the right length.",
 ["schedules", "inputs", "fault_sequences"],
 "All ways of splitting the byte stream of up to three frames into short reads/writes with interruptions, would-block answers, errors or end-of-stream at every point; all identifier byte values; all key-file contents up to a bound over a small alphabet, plus whitespace placements.",
 "The examples have no tests.",
 ["examples/echo/echo-server/echo-common.c"], [("echo_recv/echo_send loops", "examples/echo/echo-server/echo-common.c")], ["bytes seen by a scripted socket layer", "return values"])

prop("C28", "The key tool generates exactly the keys asked for, and they are usable",
 "Generating keys writes a certificate and an encrypted private key that contain exactly the requested algorithms, identity, name and role, whose public keys match the private keys, that load with the given passphrase and no other, and the tool exits non-zero and says why when any step fails. Showing certificates, chains and private keys prints exactly what they contain, with the fingerprints of their public keys, or exits non-zero and says why; it never shows part of a file.",
 ["inputs", "configurations"],
 "All lists of up to three algorithm names (including 'all', duplicates and unknown names), presence combinations of the identity options, passphrases given and typed, failing allocations, opens, writes and closes, and unwritable paths; every subset of the fields of certificates, chains and keys shown, alone and several together.",
 "The tool has no tests.",
 ["tools/keytool/generate.c", "tools/keytool/keytool.c", "tools/keytool/show.c"], [("option parsing and generation", "tools/keytool/generate.c")], ["files written", "exit status", "show output"])

prop("C29", "Invalid arguments are refused with an error and no side effects",
 "Every public function called with a null object, null buffer, unknown identifier or name, wrong category, wrong length or wrong role returns the documented error instead of crashing, stores null or zero in its outputs where it promises to, and leaves its objects working as before.",
 ["inputs"],
 "Every public function of the protocol, key and protobuf libraries x every single and pair of arguments replaced by null or an out-of-range value, followed by a correct use of the same object.",
 "Tests cover a subset of null arguments per module and never check that the object still works afterwards.",
 ["src/protocol", PB, LO, CE], [("parameter validation at each entry point", "all modules")], ["return codes", "outputs", "subsequent behaviour"])

prop("C30", "Formatting and comparison helpers are exact and bounded",
 "Error strings, fingerprints and protocol names are formatted identically for a given input, always terminated and truncated inside the caller's buffer for every buffer length; each error code has its own message. Constant-time comparison and zero tests return the right answer for every length and every position of difference, and cleaning zeroes exactly the given range.",
 ["inputs"],
 "All error codes in the 16-bit identifier space, all buffer lengths 0..max+2, all key lengths and both fingerprint types; all lengths 0..N with every single differing position and bit.",
 "Tests use one ample buffer per helper.",
 [UT, "src/protocol/errors.c", NA], [("truncation logic", "src/protocol/errors.c, util.c")], ["strings and guard bytes"])

prop("C31", "The schema compiler accepts exactly its language and never drops part of it",
 "noise-protoc accepts a schema exactly when it is well formed in the subset of proto3 it supports (its grammar; unique names and tags, tags in range, types that resolve, no empty messages or enums, packing only where possible) and otherwise exits non-zero with a message and without output files; no byte sequence makes it crash or silently ignore the rest of the file. What it generates depends only on what the schema declares, never on white space, comments, options or the order of fields, and schemas that declare different things never give the same code. Its exit status is zero only if both outputs, with the license text if one was given, were written completely, whatever read, write, open, close or allocation fails.",
 ["inputs", "fault_sequences"],
 "All one-byte edits, cuts and insertions of schemas that use the whole grammar; all one-token edits from a vocabulary of every keyword and symbol; all white space and comment forms in every gap; all field types x qualifiers x options; all pairs of boundary tags; all small trees of nested names with every reference; every failing allocation, read, open, close and every output size limit.",
 "The schema compiler has no tests.",
 ["tools/protoc/proto3-lexer.l", "tools/protoc/proto3-grammar.y", "tools/protoc/proto3-ast.c", "tools/protoc/proto3-generate-c.c", "tools/protoc/main.c"], [("grammar and semantic checks", "tools/protoc/proto3-grammar.y, proto3-ast.c"), ("output handling", "tools/protoc/main.c")], ["exit status", "messages", "files written"])

prop("C32", "Execution does not depend on secret values",
 "Which instructions the library executes and which memory addresses it accesses do not depend on the values of secrets: the comparison and zero-test helpers take the same path whatever the contents, key generation, public-key derivation, keypair checks, Diffie-Hellman calculation (also with null or invalid public keys) and signing take the same path for every key value, encryption, decryption, hashing and key derivation for every key and content of a given length, and an authentication failure is reported along the same path wherever the difference lies. (The reference AES looks up constant tables; there only the path, and addresses outside those tables, are meant. Operations on libsodium or OpenSSL are meant up to those libraries.)",
 ["inputs"],
 "All single-bit changes (and extreme values) of every key, pre-shared key, passphrase, plaintext, tag and random input, for every operation, algorithm and handshake pattern.",
 "Tests compare outputs only; a comparison that stops at the first difference gives the same answers.",
 [UT, HS, CS, "src/protocol/dhstate.c", "src/backend/ref", "src/crypto"], [("constant-time comparison", "src/protocol/util.c: noise_is_equal"), ("nulling the result", "src/protocol/dhstate.c: noise_dhstate_calculate"), ("timing requirements on back ends", "src/protocol/internal.h"), ("conditional swaps and table selection", "src/crypto/curve448, src/crypto/donna, src/crypto/ed25519"), ("ghash", "src/crypto/ghash/ghash.c")], ["traces of basic blocks and memory addresses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
