"""Single source for properties.jsonl and MANIFEST.json (tools/gen_docs.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement,
                  over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique,
                  note=note, assumptions=list(assumptions)))


J = "src/jwkest/"

prop("C01", "A verified signed token was signed, as is, by a supplied key",
     "Verifying a compact signed token returns a payload only if its signature octets are a valid signature, under the "
     "token's algorithm and one of the supplied keys, over exactly the header and payload text that was transmitted. "
     "Any alteration of header, payload or signature (bit flips, truncation, extension, zero bytes added or stripped, "
     "parts moved in from another token, key or algorithm) is rejected with an error, unless it is again a valid signature of the same text. "
     "The payload and key reported are the ones that the signature covers, and after a refusal the verifier object "
     "reports no payload or key of the refused token.",
     ["inputs"],
     "all signing algorithms (HS/RS/PS/ES x 256/384/512), keys, payloads, headers and alterations of the token text",
     "Tests sample a handful of good tokens and one or two bad ones per algorithm; forging is a search over all other octet strings.",
     [J + "jws.py", J + "ecc.py", J + "elliptic.py", J + "jwt.py", J + "__init__.py"],
     [("signer table and verify loop", J + "jws.py SIGNER_ALGS, JWS.verify_compact_verbose"),
      ("ECDSA verification", J + "ecc.py NISTEllipticCurve.verify")],
     ["return value or exception of compact verification"],
     "online oracle over recorded sign/verify events: every acceptance is re-decided by an independent reference verifier and a ledger of what was really signed",
     "Held on the generated tokens and mutations of this run; trusts Cryptodome/hashlib/hmac as the reference verifier.")

prop("C02", "Signing is complete and interoperable in both directions",
     "Whatever payload is signed with a supported algorithm and a suitable key yields a three-part token that verifies "
     "with that key's public part, in this library and in an independent implementation of RFC 7515/7518, and carries the algorithm and "
     "key id that were really used. "
     "Tokens produced by an independent implementation under the same standards verify here and give back the same payload.",
     ["inputs"],
     "all signing algorithms x key sizes/curves x payload kinds (text, bytes, JSON, empty, non-ASCII, large) x header parameters",
     "Tests sign a few fixed messages with a few fixed keys and only verify their own output.",
     [J + "jws.py", J + "jwt.py", J + "ecc.py", J + "jwk.py"],
     [("compact signing", J + "jws.py JWS.sign_compact"), ("signers", J + "jws.py HMACSigner/RSASigner/PSSSigner/DSASigner")],
     ["produced token text", "verification result"],
     "differential monitor: every token emitted is parsed and verified by an independent RFC 7515/7518 reference, and reference-made tokens are fed in",
     "Held on the generated cases of this run; trusts the reference built on Cryptodome/hashlib/hmac.")

prop("C03", "Packing and unpacking a token loses and invents nothing",
     "Packing headers and parts and unpacking the result gives back equal headers and identical part octets, and the "
     "transmitted text is kept unchanged; the payload comes back as the JSON value, text or octets that was put in, as "
     "its content type prescribes. "
     "A text that is not a sequence of base64url parts with a JSON header is refused with an error, never half-parsed.",
     ["inputs"],
     "all header dictionaries, payload values, part octets (including empty and non-UTF-8) and malformed token texts",
     "Tests pack three fixed messages; the codec has to be lossless for every value.",
     [J + "jwt.py", J + "__init__.py"],
     [("pack/unpack", J + "jwt.py JWT.pack, JWT.unpack, split_token"), ("payload decoding", J + "jwt.py JWT.payload")],
     ["headers, parts and payload after unpacking"],
     "round-trip and reference-model monitor over generated and mutated token texts",
     "Held on the generated values; the payload model follows the documented content-type rule.")

prop("C04", "The verifier, not the token, chooses keys and algorithms",
     "An unsecured (alg none) token is accepted only when the caller allowed it, and an algorithm expected or pinned by "
     "the caller is never overridden by the token. "
     "Only a supplied key whose type, declared algorithm and curve (and key id, for signed tokens that name one) fit the token is ever used, so key material from one "
     "family is never tried under another; keys embedded in or referenced by the token are not used, and nothing is fetched, when the caller supplied keys. "
     "A token that declares critical extensions the library does not implement is rejected.",
     ["inputs", "configurations"],
     "all combinations of token header, caller options (allow none, expected algorithm, constructor algorithm) and key sets with arbitrary kty/kid/alg/curve attributes",
     "Tests try single combinations; the guarantee is about the whole matrix, including adversarial headers.",
     [J + "jws.py", J + "jwe.py", J + "jwk.py"],
     [("key selection", J + "jws.py JWx.pick_keys"), ("algorithm checks", J + "jws.py JWS.verify_compact_verbose"),
      ("embedded keys", J + "jws.py JWx._get_keys")],
     ["which key is reported", "acceptance or exception", "socket/open audit events"],
     "policy oracle: an executable decision table predicts accept/reject and the admissible keys for each generated header x options x key-set; audit hook watches network use",
     "Held on the generated matrix; combinations outside it are not covered.")

prop("C05", "JSON-serialized tokens verify only if every signature does",
     "Verifying a JSON (general or flattened) signed token succeeds only if it has at least one signature and every "
     "one of them verifies under the supplied keys over its own protected header and the common payload; it then returns that payload. "
     "Produced JSON tokens contain one verifiable entry per requested header pair, with protected and unprotected headers kept apart "
     "and empty ones omitted.",
     ["inputs"],
     "all numbers and mixes of signatures, algorithms, protected/unprotected headers, and alterations of any member",
     "Tests use one or two good signatures; dropping or corrupting one of n signatures is never tried.",
     [J + "jws.py"],
     [("JSON signing", J + "jws.py JWS.sign_json"), ("JSON verification", J + "jws.py JWS.verify_json")],
     ["return value or exception", "JSON text produced"],
     "reference-model monitor over generated multi-signature documents and member-level mutations",
     "Held on the generated documents; reference verifier as in C01.")

prop("C06", "Decryption never returns unauthenticated plaintext",
     "Decrypting a compact encrypted token returns octets only if they are the plaintext that was encrypted under a key the "
     "recipient holds; any change to any of the five parts (including IV, tag and wrapped-key length changes, part swaps and extra or missing parts), any "
     "other key, and any hand-made wrapped key or header substitution ends in an error. "
     "Nothing about the plaintext is returned on failure.",
     ["inputs"],
     "all key-management algorithms x content encryptions x mutations of every part x foreign keys",
     "Tests decrypt their own tokens; rejection has to hold for all other texts.",
     [J + "jwe.py", J + "aes_gcm.py", J + "aes_key_wrap.py", J + "extra.py"],
     [("content authentication", J + "aes_gcm.py, extra.py aes_cbc_hmac_decrypt"), ("key unwrap integrity", J + "aes_key_wrap.py aes_unwrap_key")],
     ["return value or exception of decryption"],
     "online oracle with a ledger of everything encrypted: any returned plaintext must be ledgered for that exact token text and key; mutation and forgery workload",
     "Held on the mutations tried; the only accepted deviation is base64 text that decodes to the same octets outside the authenticated header.")

prop("C07", "Encryption is complete and interoperable in both directions",
     "For every supported key-management algorithm and content encryption, an encrypted token has five parts of the "
     "prescribed sizes, announces the parameters really used, and decrypts to the original octets with the recipient's key here and "
     "in an independent implementation of RFC 7516/7518; tokens made by an independent implementation decrypt here. "
     "A recipient's public key alone suffices to encrypt, and compression is applied exactly when announced. "
     "A shared secret of any length becomes the key-encryption key that OpenID Connect Core prescribes.",
     ["inputs"],
     "all alg x enc pairs, curves, key sizes, plaintexts (empty, block-boundary, binary, large), optional compression and party info",
     "Tests only decrypt what the same code encrypted, so symmetric mistakes cancel out.",
     [J + "jwe.py", J + "aes_gcm.py", J + "aes_key_wrap.py", J + "extra.py", J + "ecc.py"],
     [("encrypters", J + "jwe.py JWE_RSA/JWE_SYM/JWE_EC"), ("CEK sizes", J + "jwe.py ENCALGLEN1/ENCALGLEN2")],
     ["token text", "decrypted octets"],
     "differential monitor against an independent RFC 7516/7518 reference in both directions",
     "Held on the generated cases; trusts the Cryptodome-based reference.")

prop("C08", "Key-set decryption finds the right key and fails uniformly",
     "If any key in the supplied set can decrypt an encrypted token, decryption succeeds whatever the other keys are and wherever it stands "
     "in the set; otherwise it fails. "
     "When no key fits, the failure reported is the same kind of error whichever part was wrong (wrapped key padding, key length, "
     "tag, content padding), so it gives no decryption oracle.",
     ["inputs"],
     "all key-set orders and mixtures, algorithms and corruption sites, including chosen-padding RSA blocks",
     "Tests always pass one good key; order dependence and error kinds are not observed.",
     [J + "jwe.py", J + "jws.py"],
     [("trial decryption loop", J + "jwe.py JWE.decrypt"), ("key filter", J + "jws.py JWx.pick_keys")],
     ["result or exception class"],
     "monitor over permuted/mixed key sets plus an exception-class equality oracle over corruption sites",
     "Held on the sets and corruptions tried; timing side channels are out of scope.")

prop("C09", "Keys, IVs, nonces and ephemeral keys are fresh and unpredictable",
     "Every encryption uses a new content key, IV and ephemeral key, and every ECDSA signature and generated key uses a "
     "new secret scalar, across calls, objects and forked processes. "
     "None of them can be reproduced by seeding or rewinding the process's general-purpose random generator.",
     ["histories", "configurations"],
     "all sequences of operations, process forks and states of the general-purpose generator",
     "Tests look at one token at a time; repetition and predictability only show across histories.",
     [J + "ecc.py", J + "jwe.py", J + "jwk.py"],
     [("random source", J + "ecc.py getrandbits use"), ("CEK/IV generation", J + "jwe.py JWe._generate_key_and_iv")],
     ["recovered CEK, IV, epk, ECDSA nonce from emitted tokens"],
     "offline history checker: secrets recovered from emitted tokens must never repeat across calls, reseeds, state rewinds and forks, and must pass range/bit-balance checks",
     "Detects repetition, PRNG coupling and gross bias on the recorded history; it cannot prove entropy.")

prop("C10", "Key agreement is correct and rejects hostile public keys",
     "Both sides of an elliptic-curve key agreement derive the same key, equal to the one RFC 7518 prescribes for the announced algorithm, "
     "party info and key length. "
     "A token whose ephemeral public key is missing, malformed, not on the recipient key's curve, or on another curve is rejected before it influences the result.",
     ["inputs"],
     "all curves, scalars, public points (valid, off-curve, out of range, other curve), party info and key lengths",
     "Tests agree with themselves using one key pair; invalid points and the standard's vectors are not tried.",
     [J + "extra.py", J + "jwe.py", J + "ecc.py"],
     [("shared secret", J + "ecc.py dh_z"), ("key derivation", J + "extra.py ecdh_derive_key, concat_sha256"), ("epk handling", J + "jwe.py JWE_EC.dec_setup")],
     ["derived key", "exception"],
     "differential monitor against a reference ECDH + Concat KDF, and an invalid-point attack workload with a reject-only oracle",
     "Held on the generated agreements and invalid points.")

prop("C11", "Curve arithmetic and ECDSA agree with the standard",
     "On P-256, P-384 and P-521 the point operations obey the group law, scalar multiplication gives the standard's result for every "
     "scalar, and point compression round-trips. "
     "A signature made for any digest verifies, has the fixed width of its curve, and verification accepts exactly the pairs that the standard's equation accepts, including for digests longer or larger than the group order.",
     ["inputs"],
     "all scalars (0, 1, n-1, n, n+1, sparse, dense), points, digests of any size, and r/s pairs (0, n, out of range, wrong width)",
     "Tests check one vector per curve; arithmetic slips show only for particular bit patterns.",
     [J + "ecc.py", J + "elliptic.py", J + "curves.py"],
     [("field and point arithmetic", J + "elliptic.py"), ("ECDSA", J + "ecc.py sign/verify")],
     ["points and signatures returned"],
     "differential monitor against Cryptodome's curve implementation plus group-law invariants on each result",
     "Held on the scalars/digests generated (edge patterns plus random).")

prop("C12", "Content encryption and key wrap primitives match the standards",
     "AES-GCM, AES-CBC+HMAC and AES key wrap produce exactly the octets the standards prescribe for every key size and length, and "
     "decryption/unwrapping inverts them. "
     "Any input of invalid length or whose tag, IV, associated data or wrapped octets were altered is refused with an error, and an IV is not reused silently with one cipher object.",
     ["inputs", "histories"],
     "all key sizes, plaintext/AAD lengths (empty, block boundaries), leading-zero octets, and alterations",
     "Tests use a few published vectors; leading-zero and boundary lengths are hit with probability below 1%.",
     [J + "aes_gcm.py", J + "aes_key_wrap.py", J + "extra.py", J + "jwe.py"],
     [("GCM", J + "aes_gcm.py"), ("CBC-HMAC", J + "extra.py"), ("key wrap", J + "aes_key_wrap.py")],
     ["octets returned", "exceptions"],
     "differential monitor against Cryptodome GCM/KW and an hmac-based CBC-HMAC, with a reject oracle for altered inputs",
     "Held on the generated inputs; trusts Cryptodome.")

prop("C13", "Base64url and integer codecs are exact and strict",
     "Encoding octets or non-negative integers and decoding the result gives back the same value, and the text uses only the url-safe alphabet without padding or line breaks. "
     "Decoding accepts exactly well-formed base64url (optionally padded) and otherwise reports the documented error.",
     ["inputs"],
     "all octet strings and integers, and all texts over arbitrary bytes",
     "Tests try four values; boundary lengths, zero, odd hex length and hostile characters are not covered.",
     [J + "__init__.py"],
     [("base64url", J + "__init__.py b64e, b64d, add_padding"), ("integers", J + "__init__.py long_to_base64, base64_to_long")],
     ["decoded value or exception"],
     "round-trip and reference-decoder monitor, exhaustive over short texts/octets and random beyond",
     "Exhaustive for short inputs, sampled beyond.")

prop("C14", "Keys survive export and import, and malformed keys are refused",
     "Exporting any supported RSA, EC or symmetric key as a JWK and importing it gives an equal, equally usable key with the same "
     "metadata, and the exported members have the format RFC 7518 prescribes (minimal big-endian integers for RSA, fixed-width coordinates for EC). "
     "A JWK with missing, malformed or inconsistent members (other than the redundant RSA CRT values, which are not used) is refused with an error and never becomes a different usable key.",
     ["inputs"],
     "all key sizes and curves, values with leading zeros, metadata combinations, str/bytes members, malformed members",
     "Tests round-trip a few fixed keys; leading-zero coordinates occur once in 256 keys.",
     [J + "jwk.py", J + "__init__.py"],
     [("JWK parse/emit", J + "jwk.py RSAKey/ECKey/SYMKey serialize/deserialize, keyrep"), ("dict import", J + "jwk.py key_from_jwk_dict")],
     ["JWK dictionaries and re-imported keys"],
     "round-trip monitor with an independent JWK encoder, over keys chosen to contain leading zeros, and a reject oracle for malformed JWKs",
     "Held on the keys generated.")

prop("C15", "Private key material does not leave through public outputs",
     "Public exports, key-set dumps, public copies, token headers, log records and error messages never contain a private exponent, prime, "
     "private scalar or content-encryption key, in any encoding, and logs, error messages and token headers no shared secret either; for asymmetric keys a public export is sufficient to verify and to encrypt. "
     "A token or key set produced with private keys exposes only their public members.",
     ["inputs", "histories"],
     "all keys, operations (success and failure), log levels and outputs",
     "Tests check one or two exports for one key; leaks are a property of every output channel.",
     [J + "jwk.py", J + "jws.py", J + "jwe.py", J + "jwt.py", "script/jwkutil.py"],
     [("public serialization", J + "jwk.py serialize, make_public_copy"), ("logging", J + "jwe.py, jwk.py logger.debug calls"),
      ("log file of a tool", "script/jwkutil.py setup_logging")],
     ["every output text, log record, exception text", "the tools' standard output, standard error and log files"],
     "taint monitor: all outputs, log records and exception texts of a workload are scanned for every encoding of the secrets in play",
     "Scans for the known encodings (raw, hex, decimal, base64 variants, integer lists); other encodings would be missed.")

prop("C16", "Thumbprints follow RFC 7638; equality and hashing are lawful",
     "A key's thumbprint equals the RFC 7638 value for its type, is the same for the private and public forms and independent of metadata, member order, "
     "repetition and previous calls. "
     "Equality between keys is an equivalence that distinguishes keys with different material or metadata, never raises, and equal keys have equal hashes.",
     ["inputs", "histories"],
     "all keys, metadata, hash functions, import formats and call sequences",
     "Tests pin a few values; algebraic laws quantify over pairs and triples of keys and over call histories.",
     [J + "jwk.py"],
     [("thumbprint", J + "jwk.py Key.thumbprint"), ("equality/hash", J + "jwk.py Key.__eq__, Key.__hash__")],
     ["thumbprint octets, eq/hash results"],
     "reference RFC 7638 implementation plus law checker (reflexive/symmetric/transitive/hash-consistent) over generated key populations",
     "One known finding: EC thumbprints hash the wrong member set (pinned by an existing test).")

prop("C17", "A key set behaves as an ordered collection, updated all or nothing",
     "After any sequence of loads, additions and lookups a key set holds exactly the keys that were successfully added, in order, and lookups by "
     "type and id, listings and dumps agree with that. "
     "A load that fails leaves the set as it was, and dumping then loading reproduces the public content.",
     ["histories"],
     "all sequences of load/add/append/wrap/lookup/dump operations with valid and invalid key specifications",
     "Tests do one load; the container's state matters over sequences with failures in the middle.",
     [J + "jwk.py"],
     [("container", J + "jwk.py KEYS")],
     ["results of every container operation"],
     "history monitor: random operation sequences checked step by step against a list model",
     "Held on the sequences generated.")

prop("C18", "Recognising tokens never crashes and agrees with parsing",
     "Asking whether a text is a signed or an encrypted token answers for every text, without an exception other than a parse error (the library's own or ValueError) for encrypted ones, and never "
     "claims a compact text to be both a supported signed and a supported encrypted token. "
     "Every token the library produces is recognised as what it is, and a compact one naming an unsupported algorithm or lacking it is not (unless it has five parts and its typ says JWE); "
     "what the recogniser parsed is what the text says.",
     ["inputs"],
     "all texts: valid tokens, JSON scalars and containers, hostile headers, random bytes",
     "Tests try two good tokens and one bad text.",
     [J + "jws.py", J + "jwe.py", J + "jwt.py"],
     [("signed", J + "jws.py is_jws, factory"), ("encrypted", J + "jwe.py is_jwe, factory")],
     ["classification result or exception"],
     "totality and model monitor over generated/mutated texts with an independent classifier",
     "Held on the texts generated.")

prop("C19", "Operations do not interfere with each other or with their inputs",
     "Signing, verifying, encrypting, decrypting and exporting leave the caller's keys, key lists, header arguments, payload objects and tokens as they were, "
     "and leave module-wide tables unchanged. "
     "The outcome of an operation does not depend on which other operations, successful or failed, were performed before it with the same keys.",
     ["histories"],
     "all interleavings of operations over shared keys and key sets, including failing ones",
     "Tests run each operation on fresh objects; interference only shows in sequences.",
     [J + "jws.py", J + "jwe.py", J + "jwk.py", J + "jwt.py"],
     [("per-instance state", J + "jws.py JWx._dict"), ("key state", J + "jwk.py Key")],
     ["deep snapshots before/after", "outcomes compared with fresh-object runs"],
     "history monitor: deep snapshots around each operation and outcome equivalence with a fresh replay",
     "Held on the histories generated; adding a missing key id on hashing is documented behaviour and modelled.")

prop("C20", "Keys and key sets can be shared between threads",
     "When several threads sign, verify, encrypt, decrypt, export and look up with the same keys and key set at once, every operation gives the result it would give "
     "alone, and no thread observes another's payload, header or key.",
     ["schedules"],
     "all interleavings of operations of 2-4 threads over shared keys, key sets and module-level algorithm objects",
     "The tests are single-threaded.",
     [J + "jws.py", J + "jwe.py", J + "jwk.py", J + "ecc.py", J + "aes_gcm.py"],
     [("shared signer table", J + "jws.py SIGNER_ALGS"), ("shared keys", J + "jwk.py")],
     ["per-operation call/return events with unique payloads"],
     "controlled scheduler (switching threads at traced source lines) plus free-running stress; each result is checked against its sequential oracle",
     "Held on the schedules explored (line-granular, bounded number of preemptions); not exhaustive.")

prop("C21", "Security decisions do not depend on interpreter configuration",
     "The same token, key and option gives the same verdict and value under optimisation flags, any hash seed, any locale or working directory, and with debug logging on or off.",
     ["configurations"],
     "interpreter options (-O, -OO), hash seeds, locale/encoding environment, log levels, across a corpus of accept and reject decisions",
     "Tests run in a single configuration with assertions enabled.",
     [J + "jws.py", J + "jwe.py", J + "jwk.py"],
     [("checks written as assertions", J + "jwk.py, jws.py, jwe.py")],
     ["verdict transcript of a decision corpus in child interpreters"],
     "differential monitor: verdict transcripts of one corpus compared across child interpreter configurations",
     "Held on the configurations and corpus run.")

prop("C22", "Remote keys are loaded only from a proper, verified response",
     "Loading keys from a URL adds exactly the keys in a successful response and, for any other status, malformed body, truncated or refused connection, reports an error and "
     "adds nothing; certificate verification stays on unless the caller turned it off. "
     "Loading a certificate by URL likewise yields a key only from a successful response and an empty result otherwise.",
     ["fault_sequences", "configurations"],
     "all response statuses, redirects, bodies, truncations and connection faults, in sequences over one key set",
     "Tests never touch the network.",
     [J + "jwk.py"],
     [("key set fetch", J + "jwk.py KEYS.load_from_url"), ("certificate fetch", J + "jwk.py load_x509_cert")],
     ["key set contents and exceptions", "TLS verification option in effect"],
     "fault injection from a loopback HTTP(S) server with a state oracle on the key set",
     "Held on the fault sequences run, over loopback.")

prop("C23", "Password-based key derivation matches PKCS#5",
     "The derived key stream equals PBKDF2-HMAC for every password, salt, iteration count, hash and length, however it is read in pieces, and "
     "the password hash it offers is reproducible from its own output and verifies only the right password.",
     ["inputs", "histories"],
     "all passwords, salts (text and octets), iteration counts, digest modules and read partitions",
     "No test imports the module.",
     [J + "PBKDF2.py"],
     [("PBKDF2", J + "PBKDF2.py PBKDF2, crypt")],
     ["octets read"],
     "differential monitor against hashlib.pbkdf2_hmac over random read partitions",
     "Held on the inputs generated.")

prop("C24", "Command line tools give the library's results and leak nothing",
     "The command line tools that generate, export, sign, verify, encrypt, decrypt and inspect produce output that the library and an independent implementation accept, "
     "round-trip each other's output, and fail visibly on a wrong key or altered input. "
     "Generated keys are fresh and of the requested size, and files meant for others contain no private key.",
     ["inputs"],
     "all tool options documented in their help, message and key kinds",
     "No test runs the scripts.",
     ["script/jwkutil.py", "script/jwenc.py", "script/jwdecrypt.py", "script/jwk_create.py", "script/jwk_export.py", "script/gen_symkey.py", "script/peek.py"],
     [("scripts", "script/*.py")],
     ["exit status, stdout, files written"],
     "end-to-end monitor: tools run as child processes in a scratch directory, outputs checked by the reference implementation",
     "Held on the invocations run.")

prop("C25", "Token hashes bind the whole value at the algorithm's strength",
     "The half-hash of a value (as used for at_hash and c_hash) is the base64url of the left half of the SHA-2 digest that belongs to the algorithm, for text and octets alike.",
     ["inputs"],
     "all values (text, octets, non-ASCII, empty) and the three hash strengths",
     "Tests pin one value for one strength.",
     [J + "jws.py", J + "jwk.py"],
     [("half hash", J + "jws.py left_hash"), ("digests", J + "jwk.py sha256_digest etc.")],
     ["returned text"],
     "differential monitor against hashlib on generated values",
     "Held on the values generated.")

prop("C26", "Certificates and PEM files yield the right public key or an error",
     "Loading an RSA key from a PEM/DER key or certificate, or from a JWK certificate chain, yields exactly the key it contains; a certificate thumbprint that does not match is refused. "
     "Truncated input, a damaged private key or a wrong passphrase is refused with an error, and a certificate altered in any octet is refused when a thumbprint is given; "
     "damaged input never yields a key that it does not contain.",
     ["inputs"],
     "all RSA keys, encodings (PKCS#1, PKCS#8, encrypted, certificate), thumbprints and corruptions",
     "Tests load one certificate and one key.",
     [J + "jwk.py"],
     [("PEM/DER import", J + "jwk.py import_rsa_key, der2rsa, pem_cert2rsa, der_cert2rsa"), ("x5c/x5t", J + "jwk.py RSAKey.deserialize")],
     ["resulting key or exception"],
     "differential monitor: certificates built by an independent DER encoder with known keys, corruption workload with a same-key-or-error oracle",
     "Held on the certificates generated; certificate chains are not validated by the library and that is not claimed.")
