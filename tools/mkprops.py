"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J, W, E_, K = "src/jwkest/jws.py", "src/jwkest/jwe.py", "src/jwkest/ecc.py", "src/jwkest/jwk.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Signed payloads stay authentic over a hostile network",
     "A verifier that was given or configured with keys accepts a signed message (compact, flattened JSON or general "
     "JSON) only if every signature in it is one that a holder of one of those keys made over exactly that protected "
     "header and payload, in an algorithm the caller did not rule out, and it then returns exactly that payload; an unsigned message is "
     "accepted only when the caller allows it. Whatever else the network delivers - altered, truncated, spliced, "
     "stripped, moved to another algorithm, or signed with a key the message itself carries or points to - is "
     "refused with an exception after a bounded amount of work and without contacting any address named in the message. "
     "A message delivered unaltered is accepted by a verifier holding its keys.",
     ["inputs", "histories", "fault_sequences"],
     "Every set of honest signers and keys, every message they sign in any supported algorithm, and every sequence of "
     "deliveries a network attacker can build from what it has seen, public keys and keys of its own.",
     "Tests verify a few self-made tokens and two or three hand-made bad ones; the guarantee is over all deliveries an "
     "attacker can derive from the history of a whole system, across three serialisations and thirteen algorithms.",
     [J, "src/jwkest/jwt.py", "src/jwkest/__init__.py", E_],
     [("signature check over the received header and payload text", J + ": JWS.verify_compact_verbose"),
      ("per-signature verification of JSON messages", J + ": JWS.verify_json"),
      ("key selection by type, kid, use and alg", J + ": JWx.pick_keys"),
      ("algorithm implementations", J + ": SIGNER_ALGS; " + E_ + ": NISTEllipticCurve.verify")],
     [("trusted keys", "keys passed by the caller or configured as jwk/jku/x5u", J)],
     ["return value or exception of verify_compact, verify_compact_verbose, verify_json and factory(); outgoing connections"])

prop("C02", "Decryption returns only what was encrypted, intact",
     "Decrypting a message either raises or returns exactly the plaintext some sender encrypted to the holder of that "
     "key, and it returns only if the protected header, encrypted key, initialisation vector, ciphertext and authentication tag "
     "received are together those of that one encryption. Anything altered, truncated, spliced from several messages, "
     "moved to another algorithm, or addressed to another key is refused, in bounded work and without contacting any address it names. "
     "A message delivered unaltered decrypts exactly.",
     ["inputs", "histories", "fault_sequences"],
     "Every supported alg/enc pair, key, plaintext and caller entry point, and every sequence of deliveries built by a "
     "network that corrupts, truncates and splices the messages in flight.",
     "Tests round-trip a handful of fixed messages; none delivers a damaged or spliced token for most algorithms.",
     [W, "src/jwkest/aes_gcm.py", "src/jwkest/aes_key_wrap.py", "src/jwkest/extra.py"],
     [("GCM tag check before plaintext is released", "src/jwkest/aes_gcm.py: AES_GCM.decrypt"),
      ("CBC-HMAC check before decryption", "src/jwkest/extra.py: aes_cbc_hmac_decrypt"),
      ("key unwrap integrity check", "src/jwkest/aes_key_wrap.py: aes_unwrap_key"),
      ("header as additional authenticated data", W + ": JWE_RSA/JWE_SYM/JWE_EC.decrypt")],
     observe=["return value or exception of JWE.decrypt, factory(token).decrypt and the per-algorithm classes"])

prop("C03", "Every random outcome yields valid, full-width tokens and keys",
     "Whatever values the random source returns - including leading or trailing zero bytes, extreme scalars, and draws "
     "that must be rejected and repeated - signing, encryption and key generation end with a token or key that its "
     "receiver accepts and that decodes to the input. Every fixed-width field on the wire (ECDSA signature, "
     "initialisation vector, authentication tag, EC coordinate and private value) has its full standard width.",
     ["inputs", "histories"],
     "Every byte sequence the operating system's random source may return, for every algorithm, key and message.",
     "A test draws one random value per run; outcomes with probability 1/256 or 2^-256 are never seen, or seen as flakes.",
     [W, E_, K, "src/jwkest/__init__.py", "src/jwkest/aes_gcm.py"],
     [("nonce retry", E_ + ": NISTEllipticCurve._sign_loop"), ("fixed-width integers", E_ + ": int2bytes"),
      ("tag serialisation", W + ": JWe.enc_setup"), ("JWK serialisation", K + ": ECKey.serialize")],
     observe=["tokens and JWKs produced, checked by the library itself and by an independent implementation"])

prop("C04", "Secrets come fresh from the operating system's entropy",
     "Every EC private key, ephemeral key, signature nonce, content encryption key, initialisation vector and generated "
     "symmetric key is drawn in full from the operating system's random source at the time of the operation: no seeding "
     "of the application's own random generator, restart, fork, thread interleaving or reuse of an object makes one "
     "predictable, shorter or equal to another. If the random source fails at any point, the operation raises and "
     "yields no token or key.",
     ["histories", "fault_sequences", "schedules"],
     "Every history of operations, seedings, forks, restarts and interleaved threads, and every point at which the "
     "entropy source may fail.",
     "One process, one seed and a working random source cannot show repetition across processes or behaviour on failure.",
     [E_, W, "script/gen_symkey.py"],
     [("EC keys and nonces", E_ + ": key_pair, _sign_loop"), ("CEK and IV", W + ": JWe._generate_key_and_iv"),
      ("party info and ephemeral keys", W + ": JWE_EC.enc_setup"), ("symmetric keys", "script/gen_symkey.py: rndstr")],
     [("cek remembered on a JWE object", "content key of the last message handled", W)],
     ["secrets recovered from tokens and keys, against the bytes the simulated OS handed out"])

prop("C05", "Keys named by URL always follow the key server",
     "Verification or encryption configured with a key URL, and every explicit load of a key set or certificate from a "
     "URL, uses exactly the keys in one complete successful answer fetched for that very call, so added keys work and "
     "withdrawn keys stop working from the next call on. A refused, reset, truncated, erroneous or unparsable answer "
     "yields no key, no acceptance and no lasting effect, and the first call after the fault ends succeeds again.",
     ["fault_sequences", "histories"],
     "Every history of key rotations at the server and every sequence of network and server faults around each fetch.",
     "The tests have no network; the URL paths are not exercised at all.",
     [K, J],
     [("JWKS fetch", K + ": KEYS.load_from_url"), ("certificate fetch and cache", K + ": load_x509_cert"),
      ("jku/x5u resolution", J + ": JWx._get_keys")],
     [("spec2key", "certificate text to key cache owned by the caller", K + ": load_x509_cert")],
     ["accept/refuse of tokens and keys returned per call, against what the simulated server sent for that call"])

prop("C06", "Loading a key set is all or nothing",
     "However loading a key set from a dictionary, JSON text or URL ends, the set holds either exactly what it held before "
     "or that and all the new keys in order - never some of them - wherever a bad entry, broken transfer, memory "
     "shortage or interruption strikes; a bad entry or broken transfer raises. Threads reading the set meanwhile see "
     "either none or all of the new keys, and a repeated load after a failure gives the same set as a single "
     "successful one.",
     ["fault_sequences", "crash_points", "schedules", "inputs"],
     "Every position of a bad entry, every instant of an interruption or failure, and every interleaving of readers.",
     "Tests load valid sets once, in one thread, without faults.",
     [K], [("build first, then extend", K + ": KEYS.load_dict, load_jwks, load_from_url")],
     [("KEYS._keys", "the held keys in order", K)],
     ["keys(), len(), kids(), by_kid(), dump_jwks(), iteration before, during and after loads"])

prop("C07", "Key downloads verify TLS and honour the caller's timeout",
     "Fetching keys over https uses a server's answer only if its certificate is valid for that host, unless the caller "
     "of that very call turned verification off, and the same goes for every https host it is redirected to. When the caller sets a timeout, no "
     "single wait for connection or data lasts longer than it, and the call then raises or yields no key.",
     ["fault_sequences", "configurations"],
     "Every certificate defect, impostor, redirect and stall pattern, for every entry point and option combination.",
     "No test opens a TLS connection or waits on a stalled server.",
     [K, J],
     [("verify and timeout passed through to the transport", K + ": KEYS.load_from_url, load_x509_cert, load_jwks_from_url"),
      ("default verification", J + ": JWx._get_keys")],
     observe=["keys returned or exception; TLS settings and waits seen by the simulated network in simulated time"])

prop("C08", "Key files and key objects load exactly or not at all",
     "Loading a key, certificate or key set from a file yields exactly the key stored there or raises, whatever prefix "
     "of the file a crash left, wherever reading fails or is interrupted. A key object that loads or generates new "
     "material ends up holding only the new material, or after a failure is exactly as before. A key written out as JWK "
     "and read back after a restart verifies, decrypts, signs and encrypts like the original.",
     ["crash_points", "fault_sequences", "histories"],
     "Every truncation point, I/O fault and interruption instant, and every history of reloads and restarts.",
     "Tests load intact files once into fresh objects.",
     [K, E_],
     [("file readers", K + ": rsa_load, import_rsa_key_from_file, pem_cert2rsa"),
      ("material replacement", K + ": RSAKey.load, RSAKey.load_key, ECKey.load_key"),
      ("JWK reading and writing", K + ": keyrep, serialize, KEYS.dump_jwks, KEYS.load_jwks")],
     observe=["key attributes, exported JWK, and cross use of old and restored keys"])

prop("C09", "Shared keys give every thread the result it would get alone",
     "Threads that use the same key objects and key sets at the same time - signing, verifying, encrypting, decrypting, "
     "exporting, fingerprinting, looking keys up - each get a result that is correct for their own inputs, under every "
     "interleaving. The shared keys come out unmodified.",
     ["schedules"], "Every interleaving of any mix of operations on shared Key and KEYS objects.",
     "No test starts a thread.",
     [K, J, W, E_],
     [("keys are read-only during use", K + ": Key, RSAKey, ECKey, SYMKey, KEYS"),
      ("stateless algorithm singletons", J + ": SIGNER_ALGS; " + E_ + ": P256, P384, P521")],
     [("SIGNER_ALGS, P256/P384/P521, class-level member lists", "shared by all threads", J + ", " + E_ + ", " + K)],
     ["each thread's results against the sequential ones"])

prop("C10", "A shared verifier or decrypter never mixes up messages",
     "When threads share one verifier, decrypter, signer or encrypter object, no call ever returns or emits another "
     "call's payload, key or plaintext, and none accepts a message that would be refused alone, under every "
     "interleaving.",
     ["schedules"], "Every interleaving of calls on one shared JWS or JWE object, with good and bad messages mixed.",
     "No test starts a thread; single-threaded use cannot show a mix-up.",
     [J, W],
     [("results returned from locals, not by way of the object", J + ": verify_compact_verbose, verify_json; " + W + ": JWE.decrypt")],
     [("JWS.msg/jwt/key, JWE['cek']", "last message handled, shared between callers", J + ", " + W)],
     ["each call's return value against its own argument"])

prop("C11", "Key rollover never locks out a holder of the right key",
     "A receiver that holds the key a message was signed with or encrypted to accepts it, whatever other keys of any "
     "type, size, curve or identifier it also holds and in whatever order, before, during and after key rotations and "
     "for messages still in flight.",
     ["histories", "configurations", "schedules"],
     "Every sequence of rotations at both ends, every delivery delay and order, every composition and order of key sets.",
     "Tests give the receiver exactly the one right key.",
     [J, W, K],
     [("candidate selection", J + ": JWx.pick_keys"), ("try every candidate", J + ": verify_compact_verbose; " + W + ": JWE.decrypt")],
     observe=["result of verification and decryption at each delivery"])

prop("C12", "Failed operations leave no trace on later ones",
     "After a verification, decryption, signing, encryption or key-set operation fails - forged or damaged message, "
     "missing key, random source, memory or network failure, interruption - every later operation on the same "
     "long-lived object gives the same outcome as if the failed one had never been tried. An operation interrupted from "
     "outside has happened entirely or not at all.",
     ["histories", "fault_sequences", "crash_points"],
     "Every history of successful and failing operations on one object and every instant of failure or interruption.",
     "Tests use a fresh object per operation and inject no failures.",
     [J, W, K],
     [("state written only on success", J + ": verify_compact_verbose, verify_json; " + W + ": JWE.decrypt, JWE.encrypt"),
      ("key material swapped in one step", K + ": load_key, load_dict")],
     [("JWS alg/msg/jwt/key, JWE cek", "left behind by earlier operations", J + ", " + W)],
     ["outcomes on the object against a twin that saw only the successful operations"])

prop("C13", "Ephemeral keys off the recipient's curve are never used",
     "An ECDH-ES recipient refuses every message whose ephemeral public key is not a point on the recipient's own curve, "
     "even when the rest of the message is built to decrypt under whatever shared secret that point would give. "
     "It decrypts every honest message, with or without the optional party info.",
     ["inputs", "histories"],
     "Every ephemeral point an attacker may send - off the curve, on another curve, of small order, out of range - in any "
     "algorithm variant, interleaved with honest traffic.",
     "Tests only use ephemeral keys the library generated itself.",
     [W, E_, "src/jwkest/elliptic.py"],
     [("curve and point checks", W + ": JWE_EC.dec_setup; " + E_ + ": dh_z")],
     observe=["return value or exception of decryption of crafted messages"])

prop("C14", "Command line tools print a result only when all of it succeeded",
     "Each encrypt, decrypt, sign, verify and key generation tool prints a token, key or message only if every input was "
     "read completely and every step succeeded, and what it prints round-trips through its counterpart. On a missing, "
     "truncated or unreadable file, a failed download or a failing random source it ends with an error and prints no "
     "token, key or plaintext.",
     ["fault_sequences", "crash_points", "inputs"],
     "Every tool, option combination, and fault in any file read, download or random draw along the way.",
     "The tools are not run by any test.",
     ["script/jwenc.py", "script/jwdecrypt.py", "script/jwkutil.py", "script/gen_symkey.py", K],
     [("single print at the end", "script/jwenc.py, script/jwdecrypt.py, script/jwkutil.py, script/gen_symkey.py")],
     observe=["standard output and exit status of the tool run under the simulator"])

prop("C15", "Secrets stay with their holder",
     "Whatever a key, key set, signer, encrypter or decrypter has been through - loads, failures, interruptions, private "
     "exports by other threads - public exports of asymmetric keys and key sets, headers and messages, and what the tools "
     "print when signing or encrypting, contain no private or shared key, content encryption key, signature nonce or encrypted plaintext; log records "
     "of any level and error texts do not either (save a member of a key to load that cannot be decoded, which the error about it "
     "may quote), nor do they show the MAC or tag that would have made a refused message good. A key handed over for the jwk header is published "
     "with its public members only, a symmetric one not at all. Decryption is refused with the same error whichever of "
     "encrypted key, initialisation vector, ciphertext and tag was altered.",
     ["histories", "fault_sequences", "crash_points", "schedules"],
     "Every history of loads, generations, exports, signing, encryption, decryption and failures on the same objects, every "
     "point of failure or interruption, every interleaving of private and public exports, every part of a message altered in any way.",
     "Tests compare the serialisation of a few fresh keys; a secret gets out through what an earlier or concurrent operation "
     "left behind, or through the error and log text of a failure nobody provoked.",
     [K, J, W, "script/jwkutil.py", "script/jwenc.py"],
     [("serialize(private=False), dump_jwks", K), ("jwk and epk headers", J + ": JWx.headers; " + W + ": JWE_EC.enc_setup"),
      ("one error for all failed decryptions", W + ": JWE.decrypt")],
     observe=["exports, headers, tokens, logging records, str/repr/args of exceptions and their causes, tool output"])

prop("C16", "Nothing piles up and nothing stays open",
     "Whatever a call ends with - a result, a refusal, damaged data, a disk, network or entropy failure, an interruption - the "
     "files and connections it opened are closed when it has ended and it leaves no file behind; and however many messages, keys, "
     "answers and failures a process goes through, what the library's modules and classes, its long-lived signers, verifiers, "
     "encrypters and decrypters and the callers' keys hold does not keep growing (a key set loaded into grows by what was loaded; "
     "a store with a bound is no growth).",
     ["histories", "fault_sequences", "crash_points"],
     "Every history of operations on kept objects, contents that never repeat, every failure and point of interruption, any framing "
     "of the key server's answers.",
     "Tests run each call once in a fresh process and look at its result only; a leak shows after many calls or on the paths of failure.",
     [J, W, K, "src/jwkest/jwt.py", E_],
     [("files and downloads", K + ": rsa_load, import_rsa_key_from_file, pem_cert2rsa, load_from_url, load_x509_cert"),
      ("state of long-lived objects", J + ": JWx; " + W + ": JWE"), ("module and class state", "all modules")],
     observe=["open descriptors and sockets and new files after each call", "number and size of objects reachable after each round of the same steps"])

prop("C17", "What callers hand in stays as it was; outcomes depend on the call alone",
     "Keys, key sets, lists, tuples and dictionaries (messages, parts, protected and unprotected headers, key documents, member lists) "
     "that callers hand to the library have the same contents, order and elements after the call as before it, whatever the call ended "
     "with: a result, a refusal, an interruption, an entropy failure, other threads at work with the same arguments. A call's outcome "
     "is that of the same call made alone with arguments nobody used before, whatever was called before or is called meanwhile; what "
     "a call returned is the caller's own: later calls do not change it, and changing it (a payload at any depth, other lists and "
     "dictionaries at their top level) changes no later call. (sign_json notes the algorithm in protected headers that lack one; hash "
     "and add_kid may name a key; keys() of a key set is the set's own list.)",
     ["histories", "schedules", "crash_points"],
     "Every sequence and interleaving of calls that share arguments, every point of interruption.",
     "Tests make fresh arguments for each call, and never look at them again or use them from two threads.",
     [J, W, K, "src/jwkest/jwt.py", E_],
     [("signing and verification", J + ": JWS, JWSig"), ("key selection and encryption", W + ": JWE"),
      ("key construction, sets and thumbprints", K + ": keyrep, KEYS, Key, jwk_wrap"), ("packing and parsing", "src/jwkest/jwt.py: JWT.pack, JWT.payload, b2s_conv")],
     observe=["values, order and identity of all arguments after each call", "outcome of each call beside that of the same call made alone"])

# Not decided here (listed in MANIFEST not_applicable)
prop("C20", "Tokens interoperate with other RFC 7515/7516/7518 implementations",
     "Tokens and keys follow the wire formats, key derivation and test vectors of RFC 7515 to 7518.",
     ["inputs"], "Every token, key and algorithm.", "Only a few RFC vectors are in the tests.",
     [J, W, "src/jwkest/extra.py", "src/jwkest/aes_gcm.py"], [("algorithm implementations", J + ", " + W)])
prop("C21", "Critical header extensions are understood or refused",
     "A message whose crit header names an extension the library does not implement is refused.",
     ["inputs"], "Every header.", "No test carries crit.", [J], [("header handling", J + ": JWx.__init__")])
prop("C22", "Thumbprints identify keys as RFC 7638 says",
     "A key's thumbprint depends on exactly the required public members in canonical form.",
     ["inputs"], "Every key.", "Three vectors are tested.", [K], [("thumbprint", K + ": Key.thumbprint")])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
