"""The checks: property id -> jobs.  MANIFEST.json is generated from this by tools/mkmanifest.py."""
import os
CHECKS = {}
UNBUILT = "the check for this property is still being built"
ALLOC = ["malloc", "calloc", "realloc", "free", "strdup"]
RNG = ["noise_rand_bytes"]
TRACE = ALLOC + ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strcmp", "strncmp"] + RNG
TRUST = "Trusts libcrypto as the reference for the cryptographic primitives, gcc and its address sanitizer."


def check(pid, technique, level, level_note, jobs, rule="", bounds="", assumptions=None, **kw):
    CHECKS[pid] = dict(technique=technique, level=level, level_note=level_note, jobs=jobs, rule=rule, bounds=bounds,
                       assumptions=assumptions or [], **kw)


check("C01", "exhaustive execution of all handshakes against an executable model of the Noise specification",
      "model_checking",
      "Every protocol name the library supports (all prefixes, patterns, DH, hybrid, cipher and hash choices) is run to completion with the real "
      "library and compared byte for byte, message by message, with an independent model; So are coincidences and special values (equal keys, zero PSK), settings made twice, every payload length and the largest messages. New Hope itself is taken from the library. " + TRUST,
      [dict(name="c01", wraps=RNG, configs=["ref", "sodium", "openssl"])],
      rule="one execution per (protocol name, payload lengths, prologue, fixed or generated ephemerals, way of creating objects)",
      bounds="all 2,4xx names x 4 shapes; one name per pattern and prefix x 5 prologues x all payload length assignments from a boundary set, x 16 coincidences, x settings made 2-3 times; payloads to 65535 bytes, prologues to 100003",
      assumptions=["New Hope arithmetic has no second implementation here; its outputs are taken from the library, so only agreement and transport of New Hope keys is checked"])

check("C02", "deviation-bounded exhaustive exploration of handshake API call sequences against a state-machine model",
      "model_checking",
      "For every pattern, prefix and role: every sequence that departs from the legal call order at up to 2 points ("
      "thorough 3 for six structurally different patterns), run on the real library with the legal path completed afterwards and compared with the Noise model. " + TRUST,
      [dict(name="c02", wraps=RNG)],
      rule="one execution per (protocol, role, positions and kinds of deviating calls)",
      bounds="deviations <= 2; thorough 3 for N, NN, XX, IK, XK, XXhfs")

check("C03", "exhaustive enumeration of attacker actions on every handshake message, on the real library",
      "model_checking",
      "Every bit of every byte, every truncation, extensions, replays, splices from three kinds of other sessions, field replacement, "
      "zeroing and exchange, and all pairs of byte changes at field edges, for every pattern and prefix. Cryptographic strength itself is assumed. " + TRUST,
      [dict(name="c03", wraps=RNG), dict(name="c03", wraps=RNG, configs=["sodium", "openssl"], opts=["small=1"])],
      rule="one execution per (protocol, message, attacker action); non-trivial: the delivered message differs from the sent one",
      bounds="one attacker action (all), two byte changes (one of three positions per field); one cipher suite per pattern and prefix plus 5 others",
      assumptions=["the attacker does not know private keys; forging a MAC or colliding a hash is infeasible"])

check("C04", "exhaustive exploration of key-supplying operation sequences against a model of the start requirements",
      "model_checking",
      "All sequences of up to 3 (thorough 4) of 16 key, PSK, prologue and start operations, for every pattern, prefix and role, including keys of several algorithms; "
      "after each step all six queries are compared with the model, then start, then what is missing is supplied and the first message is exchanged with the model. " + TRUST,
      [dict(name="c04", wraps=RNG)],
      rule="one execution per (protocol, role, operation sequence)",
      bounds="operation sequences of length <= 3 (thorough 4); key objects are not changed after the start")

check("C05", "exhaustive enumeration of configuration disagreements between two real parties",
      "model_checking",
      "Every ordered pair of patterns and prefixes (84 x 84), every differing DH, hybrid, cipher and hash, every pair of 25 prologues, every PSK bit, wrong pre-known static keys and equal roles. " + TRUST,
      [dict(name="c05", wraps=RNG)],
      rule="one execution per (protocols, kind and value of the difference, payload lengths, side)",
      bounds="one differing item; all prologue pairs and PSK bits for six patterns (thorough: for all); payloads of 0 and 150 bytes",
      assumptions=["forging a MAC or colliding a hash is infeasible"])

check("C06", "exhaustive exploration of cipher-state operation sequences against a nonce model",
      "model_checking",
      "All sequences of 4 (thorough 5) of 27 operations from a fresh object, a keyed one, and eight nonces next to a boundary; every result compared with libcrypto at the model's nonce. " + TRUST,
      [dict(name="c06", wraps=RNG), dict(name="c06", wraps=RNG, configs=["sodium", "openssl"], opts=["small=1"])],
      rule="one execution per (cipher, start, operation sequence)",
      bounds="sequence length 4 (thorough 5) in the reference build, 3 (thorough 4) in the libsodium and OpenSSL builds")

check("C07", "exhaustive enumeration of lengths and of single alterations of authenticated messages",
      "model_checking",
      "Every message length up to 289 (thorough 1099) with 48 AD lengths, plus sizes up to 65519, compared with libcrypto; every bit flip, truncation and extension of ciphertext and AD, every nonce and key bit, in all three builds. " + TRUST,
      [dict(name="c07", wraps=RNG, configs=["ref", "sodium", "openssl", "ref32"])],
      rule="one evaluation per encrypted or altered message; distinct: (cipher, length, AD length, alteration)",
      bounds="message lengths and alterations as listed; one key and three nonce regions",
      assumptions=["forging a MAC is infeasible"])

check("C08", "exhaustive enumeration of null keys at every position against an attacker that can use them",
      "model_checking",
      "Every pattern, prefix, DH and hybrid algorithm, either side as victim, null ephemeral, null hybrid or both; the attacker is the Noise model computing with null keys, and follows the victim into fallback. " + TRUST,
      [dict(name="c08", wraps=RNG)],
      rule="one execution per (protocol, victim role, null keys); every single-bit key on key objects",
      bounds="one cipher and hash; all patterns, prefixes and DH algorithms")

check("C09", "exhaustive exploration of fallback points, reasons and parameters against the Noise model",
      "model_checking",
      "Every compatible pattern, prefix, DH and hybrid: five reasons on the responder's side, three on the initiator's, kept and new prologue, PSK, static keys, fixed and fresh ephemerals, compared byte for byte; "
      "and for all patterns every position, side and target at which fallback must be refused, after which the original handshake is completed and compared. " + TRUST,
      [dict(name="c09", wraps=RNG)],
      rule="one execution per (protocol, reasons, parameters) or (protocol, position, side, target)",
      bounds="fallback after the first message; one cipher and hash except for IK",
      assumptions=["falling back between hybrid and non-hybrid patterns, and from NK (whose objects cannot hold the static keys XXfallback needs), is left unspecified"])

check("C10", "exhaustive allocation-fault enumeration over every library operation",
      "fault_enumeration",
      "For every scenario (every object type by id and name, complete sessions of every pattern and prefix, fallback, protobuf helpers, building, loading and saving certificates and keys) "
      "every allocation fails once, and together with all later ones (thorough: every pair); the failing operation must say so, is then repeated without faults, and the rest of the scenario is compared with the model. " + TRUST,
      [dict(name="c10", wraps=RNG + ALLOC, configs=["ref", "sodium", "openssl"])],
      rule="one evaluation per (scenario, failing allocation or allocations); non-trivial: the fault was reached",
      bounds="one failing allocation, or one and all later ones; thorough: pairs in scenarios with up to 60 allocations",
      assumptions=["allocations inside libc, libsodium and libcrypto are not failed"])

check("C13", "exhaustive enumeration of protobuf documents, values, tags, strings and buffer sizes against an independent encoder",
      "model_checking",
      "Every boundary value of every type with 14 tags, every document of up to 5 (thorough 6) fields and nested elements, each measured, written into every capacity and read back; every UTF-8 string of up to 3 bytes, "
      "every code point, every four-byte lead with boundary continuations, all sequences of four of 14 characters and fragments. " + TRUST,
      [dict(name="c13")],
      rule="one evaluation per (document, capacity) or block of strings",
      bounds="values at powers of two and their neighbours; strings up to 16385 bytes (thorough 2 MiB); documents of 5 tokens (thorough 6)")

check("C14", "exhaustive enumeration of inputs and read sequences of the protobuf reader against an independent reader",
      "model_checking",
      "Every input of up to 3 (thorough 4) bytes over 15 critical byte values with every sequence of two of 25 reads, varints of every length with every last byte as value, tag and size, tags of every size with all wire types, "
      "nested documents cut, altered, extended and shortened at every byte (thorough: at two), parsed as generated code does and compared with a limit-aware parser. " + TRUST,
      [dict(name="c14")],
      rule="one execution per (input, read sequence); distinct: documents parsed",
      bounds="inputs as listed; nesting to depth 4",
      assumptions=["varints of more than 64 bits, sint32 values of more than 32 bits and skipping field number 0 may be read modulo or refused"])

check("C11", "exhaustive enumeration of object lifetimes with every freed and cleared block inspected",
      "model_checking",
      "Every way of loading, using and erasing keys of every object type, sessions of every pattern and prefix abandoned after every message, altered at every message and with every allocation failing, and private key files "
      "loaded and saved with every allocation failing: each block is searched for every secret at the moment it is freed, cleared and re-keyed objects are searched too, and object scenarios are repeated with other secrets: what differs afterwards must be public. " + TRUST,
      [dict(name="c11", wraps=RNG + ALLOC, configs=["ref", "sodium", "openssl"])],
      rule="one execution per (object, way of loading, use, way of erasing) or (session, end) or (file operation, variant); distinct: with the failing allocation",
      bounds="heap memory allocated by the library itself; stack and register copies and memory inside libc, libsodium and libcrypto are not inspected")

check("C12", "exhaustive enumeration of buffer capacities and input lengths under the address sanitizer",
      "model_checking",
      "Handshake messages of every pattern and prefix written with every capacity and read with every payload capacity and message length, both sides of the 65535 byte limit, "
      "every (size, capacity) pair of cipher and symmetric states up to 50 x 70 and around 65535, and every length of every other call with a buffer; each buffer is an exact-size heap block, results come from the models. " + TRUST,
      [dict(name="c12", wraps=RNG, hang=60), dict(name="c12", wraps=RNG, configs=["sodium", "openssl"], hang=60)],
      rule="one execution per (call, configuration, slice); distinct: (call, configuration, size, capacity)",
      bounds="sizes to 70 bytes beyond what the result needs and around 65535; quick takes every capacity for a third of the handshake messages and field boundaries for the others")

check("C15", "exhaustive enumeration of certificate and key contents, file alterations and passphrases against an independent codec",
      "model_checking",
      "Certificates with every subset of optional fields and sizes around every length boundary, saved and loaded through buffers and files as certificate and chain; private keys under all 8 protections compared with an independent "
      "implementation of the file format; every bit, truncation, deletion, insertion, exchange and extension of key files and every near miss of the passphrase must fail or give the same key. " + TRUST,
      [dict(name="c15", wraps=RNG + ["noise_hashstate_pbkdf2"], hang=60)],
      rule="one execution per (object, way of saving and loading) or (key file, kind of alteration, slice); distinct: per alteration",
      bounds="one alteration at a time; key files with 3 PBKDF2 iterations for alterations, 20000 (the library's choice) for saves; files whose altered iteration count exceeds 100000 are not loaded",
      assumptions=["passphrases that HMAC itself cannot tell apart (trailing zero bytes up to the block size, a long passphrase and its hash) are equal"])
check("C16", "exhaustive enumeration of failing and short file operations, at every call and every byte, while saving and loading",
      "fault_enumeration",
      "Every callback of the stream behind the library's FILE fails or transfers fewer bytes (once, from then on, and in pairs), the file ends or the disk is full after every number of bytes, the kernel's file size limit stops the file "
      "at every byte, and pipes, directories, full devices, missing descriptors and memory; success must mean the whole content, and nothing stays open. " + TRUST,
      [dict(name="c16", wraps=ALLOC + RNG + ["fopen"], hang=200)],
      rule="one execution per (object, direction, injector); distinct: per (object, fault point, fault kind)",
      bounds="objects of 4 to 30000 bytes; long objects with a stride between fault points; at most two failing operations")
check("C17", "exhaustive enumeration of identifier tuples, names, near-miss names and buffer sizes against an independent table and parser",
      "model_checking",
      "All tuples of known identifiers and all with one component replaced by a value that is none, every buffer length, every single-character edit, truncation, exchange and repetition of fields of names, every category and "
      "identifier; every object created by name and by identifier. " + TRUST,
      [dict(name="c17", wraps=RNG, configs=["ref"], configs_thorough=["ref", "sodium", "openssl"], hang=100)],
      rule="one execution per (pattern, rest of the name) or category; distinct: per name or identifier probed",
      bounds="one edit of a name at a time (characters: all 256 values for one name in eight, 8 structural ones for the others); identifiers -70000..200000")
check("C18", "exhaustive enumeration of message lengths, splits, call histories, overlaps and output lengths against libcrypto",
      "model_checking",
      "All message lengths over two blocks with all two-way and most three-way splits, all call histories to a depth bound, every relative position of overlapping buffers, grids of HKDF and PBKDF2 lengths, and messages whose length "
      "overflows 32 bits, in every build that has its own hash code. " + TRUST,
      [dict(name="c18", wraps=RNG, configs=["ref", "sodium", "openssl", "ref32"], hang=100),
       dict(name="c18-huge", sources=["c18.cpp"], wraps=RNG, configs=["ref"], configs_thorough=["ref", "sodium", "openssl"], flavour="fast", opts=["huge=1"], hang=100)],
      rule="one execution per (hash, length) or call history; distinct: per (hash, lengths, split) or history",
      bounds="messages to 5000 bytes (all lengths) and 1 MB, 512 MB + 77 bytes and for BLAKE2s 4 GB + 77 bytes; histories of 5 calls (thorough: 7); PBKDF2 to 4096 iterations and 65540 output blocks")
check("C19", "exhaustive exploration of call sequences on Diffie-Hellman objects against a model with libcrypto keys",
      "model_checking",
      "All call sequences to a depth bound over two objects (16 calls each), everything the objects say about themselves compared with the model, every single-bit mismatch, edge values of private and public keys, and every NewHope "
      "history of two objects before an exchange. NewHope values come from the repository's own NewHope primitives. " + TRUST,
      [dict(name="c19", wraps=RNG, configs=["ref", "sodium", "ref64", "ref32"], configs_thorough=["ref", "sodium", "openssl", "ref64", "ref32"], hang=100)],
      rule="one execution per call sequence; distinct: per sequence or (private, public) pair; states: model states reached",
      bounds="sequences of 3 calls (thorough: 4 over 10 calls); NewHope histories of 2 calls (thorough: 3); weak public keys may be refused or give the zero result",
      assumptions=["NewHope itself is compared with the repository's primitive functions, not with an independent implementation"])
check("C20", "exhaustive exploration of call sequences on signing objects against a model with libcrypto keys and signatures",
      "model_checking",
      "All call sequences to a depth bound over two objects (13 calls each) with everything the objects say and every signature they make or accept compared with the model; all message lengths; every single-bit change of signature, key and message; "
      "every multiple of the group order added to S; every single-bit private key. Keys and signatures come from libcrypto. " + TRUST,
      [dict(name="c20", wraps=RNG, configs=["ref", "sodium", "ref64", "ref32"], configs_thorough=["ref", "sodium", "openssl", "ref64", "ref32"], hang=100)],
      rule="one execution per call sequence or slice; distinct: per sequence, length, changed bit, encoding or key",
      bounds="sequences of 3 calls over 26 (thorough: 4 over 16); messages to 1100 bytes (thorough: 5000) and 300000; public keys that belong to no private key are not claimed",
      assumptions=["whether weak (small order) and non-canonical public keys are refused is not specified and not tested"])
check("C21", "exhaustive exploration of request histories on the generators with a scripted entropy source, and of every pattern of failing entropy reads",
      "model_checking",
      "All histories of requests on two generators to a depth bound; every 8-byte window of all output compared with everything produced before; the state image after each request attacked by setting every word back; every entropy bit flipped for "
      "every consumer of entropy; every pattern of failing, interrupted and short reads of the operating system's source up to a bound (process exit is intercepted); all padding lengths. " + TRUST,
      [dict(name="c21", wraps=RNG, configs=["ref", "sodium"], hang=100),
       dict(name="c21-os", sources=["c21.cpp"], wraps=["open", "open64", "openat", "__open_2", "__open64_2", "read", "__read_chk", "close", "getrandom", "getentropy", "exit", "_exit", "abort"], cflags=["-DVH_OS=1"], configs=["ref"], configs_thorough=["ref", "openssl"], hang=100)],
      rule="one execution per history, request size, padding length, entropy consumer slice or pattern of faults; distinct: per history, entropy bit or fault pattern",
      bounds="histories of 3 requests over 24 (thorough: 4, and 5 over 12); 2 large requests (thorough: 3) to 4.8 MB; 3 faults per operation (thorough: 5)",
      assumptions=["unpredictability itself is a property of ChaCha20 and of the operating system; what is checked is that entropy reaches the output and that no output is repeated or recoverable by winding the state back",
                   "libsodium's own reading of the operating system's entropy is not part of this code"])
check("C22", "exhaustive exploration of the interleavings of two and three sessions, and happens-before analysis of every pair of sessions in two threads",
      "model_checking",
      "Sessions (handshakes, fallback, hashing, key derivation, ciphers, signatures, Diffie-Hellman, random output, symmetric states, certificates, names) with their own entropy are interleaved step by step up to a number of switches and each "
      "transcript is compared with that of the session run alone; every pair also runs in two threads without synchronisation under the thread sanitizer: as no two accesses conflict, all thread interleavings are equivalent to the one executed. " + TRUST,
      [dict(name="c22", wraps=RNG, configs=["ref"], configs_thorough=["ref", "sodium", "openssl"], hang=100),
       dict(name="c22", wraps=RNG, opts=["three=1"], tiers=["thorough"], hang=100),
       dict(name="c22-threads", sources=["c22.cpp"], wraps=RNG, flavour="tsan", cflags=["-DVH_THREADS=1"], configs=["ref", "sodium", "openssl"], hang=100)],
      rule="one execution per (sessions, interleaving), and one per pair of sessions in two threads; distinct: interleavings",
      bounds="two sessions of 5 to 8 steps with at most 4 switches (thorough: 8; three sessions with 5); thread pairs: all 105",
      assumptions=["the thread sanitizer sees the library's own accesses; those inside libsodium and libcrypto are not instrumented"])
check("C23", "exhaustive execution of the same bounded tree of call sequences in every build, compared event by event",
      "model_checking",
      "All protocol names, sequences of right and wrong calls on handshake, cipher, hash, Diffie-Hellman and signing objects, length grids and single-bit value sets run in the reference, libsodium and OpenSSL builds, and in the reference build as other machines get it (--with-ed448-arch=arch_ref64 without inline assembly; the 32-bit code of Curve448, Curve25519, Ed25519, Poly1305 and GHASH); every return code and output is "
      "compared. As each party's outputs are the same function of its inputs in every build, parties of different builds interoperate. " + TRUST,
      [dict(py="xconf", harness="c23", wraps=RNG)],
      rule="one execution per call sequence, per build; distinct: recorded executions of the reference build",
      bounds="handshake misuse 3 calls over 26 (thorough: 4), cipher and signing sequences of 3 (4), hash sequences of 4 (5), DH sequences of 2 (3)",
      assumptions=["bytes derived from generated keys and other entropy are not compared between builds, only the return codes", "small order and non-canonical Ed25519 public keys are excluded: libsodium refuses them"])
check("C24", "exhaustive enumeration of delivery schedules of an adversarial network over real transport channels",
      "model_checking",
      "Every schedule of 4 (two protocols: 5) steps over {send in either direction, deliver any message sent so far, an old one, one of another session, or the next one altered in five ways, to either party}, and every schedule of 7 sends and unaltered deliveries, on channels of "
      "nine protocols with both ciphers; the outcome of each delivery is compared with a counter per direction, and what is outstanding is delivered at the end. " + TRUST,
      [dict(name="c24", wraps=RNG), dict(name="c24", wraps=RNG, configs=["sodium", "openssl"], opts=["small=1"])],
      rule="one case per (protocol, schedule); consecutive schedules run on the same channel, so sequence numbers advance through the run",
      bounds="schedules of 4 to 7 steps (thorough 5 to 9), one step more for one-way patterns; no associated data",
      assumptions=["forging a MAC is infeasible"])
check("C25", "exhaustive exploration of symmetric-state operation sequences against the specification's object",
      "model_checking",
      "All sequences of 3 (for four cipher and hash pairs 4; thorough 5) of 23 operations from a fresh state, a keyed one, after a long exchange and for several protocol names, for every cipher and hash; every output compared with an executable model over libcrypto, and the final state is made visible by further operations and a split. " + TRUST,
      [dict(name="c25", wraps=RNG), dict(name="c25", wraps=RNG, configs=["sodium", "openssl"], opts=["small=1"])],
      rule="one execution per (cipher, hash, start, operation sequence); states: (h, ck, n, key set, split)",
      bounds="sequence length 4 for four pairs of cipher and hash that cover both and all, 3 elsewhere; thorough 5 (4 in the other builds); nonce exhaustion is C06's")
check("C26", "bounded exhaustive exploration of generated programs: schemas, accessor sequences, encodings and allocation failures",
      "model_checking",
      "Every way of declaring a field of each of 17 kinds (qualifier, packing, tags at every varint boundary), every ordered pair of 16 field forms, scoping and naming schemas, the published certificate schema and the repository's test schema are generated and compiled by the repository's noise-protoc; every message is driven through all "
      "short accessor sequences, list growth and insertion, every truncation and byte change of two encodings, unknown fields and failing allocations, against an independent model, encoder and parser; so is the committed certificate code. Every one-token change of a small schema must be refused cleanly or give code that compiles. " + TRUST,
      [dict(py="protogen")],
      rule="one execution per (message, part, choices) and per schema",
      bounds="accessor sequences of 3 for one-field messages, 2 for others (thorough 4 and 3); lists up to 195 elements; inputs damaged at one place; one-token schema changes",
      assumptions=["a packed list in unpacked form, a known field with another wire type, values out of a 32-bit field's range, repeated occurrences of an embedded message and groups are left unspecified", "an optional floating point zero may be written"])


def echo_programs():
    import vbuild
    e = vbuild.REPO + "/examples/echo"
    fl = ["-include", os.path.join(vbuild.ROOT, "harness", "echo_shim.h"), "-I" + vbuild.REPO + "/include", "-I" + e + "/echo-server"] + vbuild.DEFS
    out = []
    for pre, d in (("srv", "echo-server"), ("cli", "echo-client"), ("gen", "echo-keygen")):
        out.append((pre, tuple((os.path.join(e, d, s), tuple_flags) for s, tuple_flags in ((s, fl) for s in vbuild.am_sources("%s/%s/Makefile.am" % (e, d), d.replace("-", "_") + "_SOURCES", {})))))
    return out


def echo_common():
    import vbuild
    e = vbuild.REPO + "/examples/echo/echo-server"
    return [(e + "/echo-common.c", ["-include", os.path.join(vbuild.ROOT, "harness", "echo_shim.h"), "-I" + vbuild.REPO + "/include", "-I" + e] + vbuild.DEFS)]


def c27(**kw):
    import vbuild
    e = vbuild.REPO + "/examples/echo/echo-server"
    return dict(dict(name="c27", wraps=RNG + "recv send read close socket setsockopt connect getaddrinfo freeaddrinfo bind listen poll accept fork waitpid perror noise_perror exit".split(),
                     extra_units=echo_common, programs=echo_programs, key_dirs=[e], cflags=["-I" + e], hang=60), **kw)


check("C27", "exhaustive enumeration of socket behaviours, key files and identifiers, with whole client and server sessions over a scripted network",
      "model_checking",
      "The real receive, send, conversion and key-file functions and the real client, server and key generator programs run over scripted sockets: every placement of up to 3 (thorough 5) short transfers, interruptions, would-block answers, failures and ends of stream in exchanges of up to three frames, "
      "every pair of identifier bytes, all short key files over an alphabet and every one-character change of real ones, and sessions of every fifth (thorough: every) supported protocol. " + TRUST,
      [c27(), c27(opts=["fixed=1"]), c27(opts=["padding=1"])],
      rule="one execution per (frames, buffer sizes, socket answers), per identifier group, per key-file group and per session",
      bounds="3 deviating socket answers per exchange (thorough 5), 1 or 2 per session; frames of 1 to 300 bytes and the largest; key files up to 6 characters over an alphabet of 8",
      assumptions=["an empty frame may be reported as a lost connection", "missing or excess base64 padding and non-zero unused bits may be accepted or refused", "a blocking socket: would-block answers end by themselves"])


def keytool_programs():
    import vbuild
    d = vbuild.REPO + "/tools/keytool"
    fl = ["-I" + vbuild.REPO + "/include", "-I" + d] + vbuild.DEFS
    return [("kt", tuple((os.path.join(d, s), fl) for s in vbuild.am_sources(d + "/Makefile.am", "noise_keytool_SOURCES", {}) if s.endswith(".c")))]


check("C28", "exhaustive enumeration of requests, prompts and failing operations of the whole tool, with the files it writes checked against an independent implementation",
      "model_checking",
      "The real tool runs as a whole, one process per execution: all lists of up to three algorithm names, near misses of the names, all presence combinations of the options in every spelling, passphrases around every block and buffer length given and typed, "
      "every failing allocation, open, write position and close, unwritable paths and wrong calls; what is written is loaded and recomputed with OpenSSL. Every subset of the fields of certificates, chains and keys is shown and compared. " + TRUST,
      [dict(name="c28", wraps=ALLOC + RNG + ["fopen", "getpass"], programs=keytool_programs, hang=100)],
      rule="one execution per call of the tool; distinct: per request, prompt, fault point or file shown",
      bounds="lists of three names over seven; one fault per run, write positions every 7 bytes (thorough every byte)",
      assumptions=["empty list elements and NewHope may be refused", "a typed passphrase of 1024 or more characters may be refused", "files left behind when writing fails part-way are not specified"])
check("C29", "exhaustive enumeration of the argument space of every entry point (every bad value of every argument, singly and in pairs, on every kind of object state), with twin comparison of the object's behaviour afterwards",
      "model_checking",
      "Every public function of the protocol, key and protobuf libraries is called on the real code with every argument good, with every bad value of every argument and with every pair of bad values, on objects of every algorithm and in every life-cycle state "
      "(no key, public key, key pair, exhausted nonce, started, half-way, split, failed). The returned code must be the documented one, outputs must be null, zero or untouched, no memory may be kept, and the object must then behave exactly as an untouched twin. " + TRUST,
      [dict(name="c29", wraps=ALLOC + RNG)],
      rule="state: observable behaviour of an object after a refused call; one execution per combination of arguments",
      bounds="up to two bad arguments per call; about a dozen bad identifiers, names and lengths per argument",
      assumptions=["with two bad arguments the error of either may be returned", "a key value that the algorithm refuses may clear the object", "max_size zero for read_alloc_string and read_alloc_bytes is not specified"])
check("C30", "exhaustive enumeration of codes, key lengths, buffer lengths, and positions and bits of difference",
      "model_checking",
      "On the real helpers: every 16-bit error code with every buffer length, wide codes around the known ones, every key length and every buffer length for both fingerprint types against an independent SHA-256, fingerprints of objects in every key state, every supported protocol name with every buffer length, "
      "every length, position and bit of difference (and all pairs of cancelling differences) for the constant-time comparison and zero test, whose executions must also take one path (as in C32), every length and offset for cleaning. " + TRUST,
      [dict(name="c30", wraps=RNG), dict(name="c32", wraps=TRACE, flavour="ct", opts=["only=0"], hang=100)],
      rule="distinct: error code, formatted text, or (length, alignment) explored completely; transitions: calls",
      bounds="lengths up to 160 plus block sizes (thorough: up to 1100), key lengths up to 200 plus the real ones (thorough: up to 2200)",
      assumptions=["the text of the messages is the committed one"])


def protoc_programs():
    import hashlib
    import vbuild
    d0 = vbuild.REPO + "/tools/protoc"
    d = os.path.join(vbuild.BUILD, "protoc-src-" + vbuild.tree_hash([d0]))
    srcs = vbuild.am_sources(d0 + "/Makefile.am", "noise_protoc_SOURCES", {})
    units = []
    with vbuild.Lock("protoc-src"):
        new = not os.path.isdir(d)
        if new:
            vbuild.prune("protoc-src-", 2)
            os.makedirs(d + ".tmp", exist_ok=True)
        for s in srcs:
            p = os.path.join(d0, s)
            if s.endswith((".y", ".l")):
                o = s[:-2] + ".c"
                if new:
                    vbuild.run((["bison", "-y", "-d", "-o", o] if s.endswith(".y") else ["flex", "-o", o]) + [p], cwd=d + ".tmp")
                p = os.path.join(d, o)
            units.append((p, ["-I" + d, "-I" + d0] + vbuild.DEFS))
        if new:
            os.rename(d + ".tmp", d)
    return [("pc", tuple(units))]


check("C31", "exhaustive enumeration of schemas around small ones (every byte edit, token edit, white space, field, tag, scope) and of failing operations of the whole program, against an independent reader of the language",
      "model_checking",
      "The real compiler runs as a whole, one process per execution: every one-byte edit, cut and insertion of a schema that uses the whole grammar, every token of the vocabulary inserted or put in place of each token, every kind of white space and comment in every gap, "
      "every field type x qualifier x option, all pairs of boundary tags, all small trees of nested names with every reference; an independent reader decides which are valid and what they declare, the code must be that of the canonical form, and schemas with other declarations must give other code. "
      "Every failing allocation, read position, open, close and every output size limit: success only with the complete output. " + TRUST,
      [dict(name="c31", wraps=ALLOC + ["fopen"], programs=protoc_programs, link_lib=False, flavour="fast", hang=100),
       dict(name="c31", wraps=ALLOC + ["fopen"], programs=protoc_programs, link_lib=False, opts=["small=1"], hang=100)],
      rule="state: a set of declarations; one execution per schema text or fault", bounds="one edit (thorough two adjacent tokens) of two schemas of about 200 bytes; two types of up to two (thorough three) nested levels; one fault per run",
      assumptions=["escapes in strings, block comments, form feeds, single quotes and leading zeros may be accepted or refused", "use of reserved tags and names, duplicate or large enum values, packed on single fields and a package after declarations may be refused"])

check("C32", "exhaustive enumeration of secrets around base values (every bit, in the thorough tier every byte value), comparing complete traces of basic blocks and memory addresses of the real code",
      "model_checking",
      "Self-composition on the real library: it is compiled with a callback in every basic block and at every memory access; each operation runs from the same state, at the same addresses, for every secret of the enumeration, and all executions with the same result must leave the same trace of blocks, addresses and "
      "lengths (for AESGCM the addresses inside constant tables are left out, for that implementation looks its S-boxes up). Comparison and zero test; key generation, derivation, keypair check and calculation of 25519, 448 and NewHope by private key, by public key (null, small-order, non-canonical ones too); "
      "both ciphers by key, plaintext, associated data and position of a forgery; hashes, HKDF, PBKDF2; signing; the random generator; whole handshakes of every pattern by all secrets at once and by each one alone; forged handshake messages; protected key files by passphrase and key. " + TRUST,
      [dict(name="c32", wraps=TRACE, flavour="ct", configs=["ref"], configs_thorough=["ref", "sodium", "openssl"], hang=100),
       dict(name="c32", wraps=TRACE, flavour="ct", configs=["sodium", "openssl", "ref32"], configs_thorough=["ref64", "ref32"], opts=["lite=1"], hang=100),
       dict(name="c32", wraps=TRACE, flavour="ctp", opts=["lite=1"], hang=100)]
      + [dict(name="c32", wraps=TRACE, flavour="ct" + o, opts=["lite=1"], tiers=("thorough",), hang=100) for o in ("O1", "O3", "Os")],
      rule="state: (operation, length of its trace); distinct: (operation, number of secrets) and traces; one execution per operation and chunk of secrets",
      bounds="secrets that differ from one of two base values in one bit, and extreme values (thorough: also in one byte, to every value, and in two neighbouring bits); packets up to 257 bytes; compiled by gcc -O2 (thorough: also -O1, -O3, -Os)",
      assumptions=["instructions whose own duration depends on their operands are not seen", "inline assembly is not traced; the only such code, the Ed25519 table selection, is also built in its portable form", "code inside libsodium, OpenSSL and the C library is not traced, except that comparisons show where they stopped"])
