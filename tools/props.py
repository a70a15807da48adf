"""Writes properties.jsonl (run by hand after editing)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    a = {"files": ["src/jwkest/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/jwkest/" + w}
                       for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/jwkest/" + w}
                      for n, m, w in state]
    if obs:
        a["observe_at"] = list(obs)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "The base64url codec is exact and strict",
  "Encoding any octets gives exactly their RFC 4648 base64url text without "
  "padding, different octets give different text, and decoding the text "
  "gives the octets back. Decoding any other octet string either is the "
  "value of a legal base64url text (trailing '=' allowed) or is refused "
  "with the documented syntax error; nothing outside the alphabet is "
  "skipped.",
  ["inputs"], "every octet string and every candidate text",
  "Tests encode a handful of strings; a wrong character class, a padding "
  "rule that is off for one length, or a skipped illegal octet shows for "
  "particular octets and lengths only.",
  ["__init__.py"], [("b64e/b64d, add_padding", "__init__.py"),
                    ("text wrappers", "__init__.py")])

p("C02", "Conversions between numbers, octets and text are exact",
  "Every non-negative number turns into its shortest big-endian octets (at "
  "least one, or as many as asked for) and their base64url text, and reads "
  "back as the same number, from text as from octets; the strict decoder "
  "refuses everything that is not base64url. Conversions between numbers, "
  "octet lists, octet strings and fixed-length curve integers lose "
  "nothing, and comparing two strings says equal exactly when they are.",
  ["inputs"], "every number, octet string and text up to the bound",
  "Tests convert a few numbers; leading zeros, zero itself, odd hex "
  "lengths and one-octet differences are particular values.",
  ["__init__.py", "ecc.py"],
  [("long_to_base64, base64_to_long, base64url_to_long", "__init__.py"),
   ("intarr2long, long2intarr, long2hexseq, intarr2bin", "__init__.py"),
   ("constant_time_compare, safe_str_cmp", "__init__.py"),
   ("int2bytes, bytes2int", "ecc.py")])

p("C03", "Compact tokens are packed and unpacked without loss",
  "A packed token is the base64url text of the JSON of its header and of "
  "each part, joined by dots, and unpacking it gives the same header and "
  "the same octets. Unpacking any other text yields exactly the octets "
  "between its dots, and refuses a text without a dot, a part that is not "
  "base64url, and a header that is not a JSON object.",
  ["inputs"], "every header value, part content and token text",
  "Tests unpack well-formed tokens; malformed parts, empty parts, extra "
  "dots and headers with characters JSON escapes are particular inputs.",
  ["jwt.py", "__init__.py"],
  [("JWT.pack/unpack", "jwt.py"), ("split_token", "jwt.py"),
   ("b64encode_item", "jwt.py")])

p("C04", "A signature is accepted only if it is valid for exactly that token",
  "Verifying a compact token returns a message only if the signature octets "
  "are a valid signature, by the algorithm in the token's header and a key "
  "that was given, over exactly the header and payload text of the token; "
  "the message is then the payload of that token. Every other signature, "
  "payload, header, key or number of parts is refused with an exception.",
  ["inputs"], "every payload text, signature octet string and key value, for "
  "each signature algorithm",
  "Tests verify valid tokens and a few corrupted ones; a comparison that "
  "looks at part of a signature, or a signing input that differs from the "
  "received text, is wrong for chosen inputs only.",
  ["jws.py", "jwt.py", "ecc.py"],
  [("verify_compact_verbose", "jws.py"), ("the signer classes", "jws.py"),
   ("sign_input", "jws.py")], obs=["JWS.verify_compact"])

p("C05", "Unsigned tokens and unexpected algorithms are refused",
  "Unless unsigned tokens are explicitly allowed, no token whose algorithm "
  "is absent, null or 'none' in any spelling is ever accepted. When the "
  "caller names the expected algorithm, a signed token with any other one "
  "is refused, whatever keys and signature it comes with; a key is only "
  "ever used with the algorithm family of its own key type.",
  ["inputs", "configurations"],
  "every algorithm text in the header, every signature, each choice of "
  "expected algorithm and of key types",
  "Tests try 'none' once and one wrong algorithm; the guarantee is over "
  "every spelling and every combination with keys.",
  ["jws.py"],
  [("verify_compact_verbose", "jws.py"), ("alg2keytype, pick_keys",
                                          "jws.py")])

p("C06", "Only keys that fit the header and purpose are used",
  "From the keys given, signing, verifying, encrypting and decrypting use "
  "only those of the algorithm's key type whose key id equals the one "
  "demanded (when one is), whose declared use is absent or the operation's "
  "and whose declared algorithm is absent or the one in use; if none fits, "
  "the operation fails. The choice is the same with Python's assertions "
  "switched off.",
  ["inputs", "configurations"],
  "every list of up to three keys with any key ids, uses, algorithms and "
  "types; with and without assertions",
  "Tests use one or two keys with fitting attributes and always run with "
  "assertions on.",
  ["jws.py", "jwe.py"],
  [("pick_keys", "jws.py"), ("alg_keys", "jws.py"),
   ("key choice of JWE.encrypt and JWE.decrypt", "jwe.py")])

p("C07", "What is signed verifies to the same message",
  "Signing any message with any supported algorithm and a fitting key gives "
  "a compact token of three base64url parts whose payload is exactly the "
  "message and whose header names the algorithm and the key id used. "
  "Verifying it with the matching key returns the same message; text, "
  "octets and JSON objects alike.",
  ["inputs"], "every message up to the bound, each algorithm, each kind of "
  "message",
  "Tests sign a few ASCII messages; non-ASCII text, empty messages and "
  "values JSON escapes are particular inputs.",
  ["jws.py", "jwt.py"],
  [("sign_compact", "jws.py"), ("verify_compact", "jws.py"),
   ("payload", "jwt.py")])

p("C08", "JSON-serialised signatures all count",
  "Signing in the JSON serialization, general or flattened, gives one "
  "signature per requested header pair, each over its own protected header "
  "and the payload, with unprotected headers carried unchanged. Verifying "
  "returns the payload only if there is at least one signature and every "
  "one of them is valid for the payload; one bad or missing signature "
  "refuses the whole.",
  ["inputs", "configurations"],
  "every payload and signature value, up to three signatures, each position "
  "of a bad one",
  "Tests verify a two-signature example; which signature is wrong and how "
  "is a choice over all of them.",
  ["jws.py"], [("sign_json", "jws.py"), ("verify_json", "jws.py")])

p("C09", "Algorithm names mean what RFC 7518 says",
  "Every supported signature algorithm name selects the primitive, hash and "
  "curve of RFC 7518, so that an independent implementation accepts the "
  "signatures made and its signatures are accepted; no other name verifies "
  "anything, and an ECDSA name never uses a key of another curve. The same holds for the content encryption and key management "
  "names: tokens made here decrypt independently and the reverse.",
  ["inputs", "configurations"], "every message, for each algorithm name",
  "Round-trip tests cannot see a swapped hash or key size: both directions "
  "change together.",
  ["jws.py", "jwe.py"],
  [("the signer table", "jws.py"), ("enc_setup, _decrypt", "jwe.py"),
   ("RSAEncrypter", "jwe.py")])

p("C10", "ECDSA signs and verifies by FIPS 186-4",
  "For every private key, nonce and hash, signing gives two numbers of the "
  "curve's fixed length that satisfy the ECDSA equation, tries another "
  "nonce where one yields zero, and verification with the public key "
  "accepts them. Verification accepts a signature exactly when both "
  "numbers are in range and the equation holds, for every hash, signature "
  "octet string (of any length) and public key, and never fails with "
  "another outcome than true or false.",
  ["inputs"],
  "every private key, nonce, hash, public key and signature on small prime "
  "curves; edge values on the NIST curves",
  "Tests sign once with random keys; the point at infinity, zero results, "
  "range ends and wrong lengths have probability 2^-256 there.",
  ["ecc.py", "elliptic.py"],
  [("sign, _sign_loop, verify", "ecc.py"), ("muladdp", "elliptic.py")])

p("C11", "Curve arithmetic is the group law and bad points are refused",
  "Point addition, doubling, multiplication and the sum of two products "
  "agree with the group law of the curve for all points, including equal, "
  "opposite and neutral ones, and all scalars; inversion modulo the prime "
  "is exact. A public key read from its serialised form, whether a "
  "stored key or the ephemeral key of an encrypted token, is refused "
  "unless it is a point of its curve.",
  ["inputs"], "every pair of points and scalars of small prime curves; every "
  "coordinate pair offered as a key on such a curve",
  "Tests multiply the generator by random numbers; the special cases have "
  "negligible probability on a NIST curve.",
  ["elliptic.py", "jwk.py", "ecc.py"],
  [("add, mul, mulp, muladdp, inv", "elliptic.py"),
   ("point check of ECKey.deserialize", "jwk.py")])

p("C12", "AES-CBC with HMAC is RFC 7518 section 5.2",
  "For every key of a supported length, IV, associated data and message, "
  "encryption gives the ciphertext and tag of RFC 7518 and decryption "
  "returns the message. Decryption of any ciphertext, IV, associated data "
  "and tag returns something only if the tag is the right one in full "
  "length, and refuses wrong key and IV lengths.",
  ["inputs"], "every key, IV, associated data, message, ciphertext and tag "
  "up to the bounds",
  "Tests encrypt one example; padding at block edges and a comparison of "
  "part of a tag need particular lengths and octets.",
  ["extra.py"],
  [("aes_cbc_hmac_encrypt, aes_cbc_hmac_decrypt", "extra.py"),
   ("pkcs5pad, pkcs5trim", "extra.py")])

p("C13", "AES-GCM is NIST SP 800-38D",
  "For every IV of 96 bits, associated data and message, encryption gives "
  "the ciphertext and tag of SP 800-38D for the full key, and decryption "
  "returns the message. Decryption returns something only if the tag is "
  "the right one; an IV or tag of another length is refused in a token.",
  ["inputs"], "every IV, associated data, message and tag up to the bounds, "
  "for fixed keys of each of the three lengths",
  "The test is one RFC example; block edges, tags with leading zeros and "
  "the order of lengths need particular inputs.",
  ["aes_gcm.py", "jwe.py"],
  [("AES_GCM.encrypt/decrypt, __ghash, gf_2_128_mul", "aes_gcm.py"),
   ("enc_setup, _decrypt", "jwe.py")])

p("C14", "AES key wrap is RFC 3394 and detects every change",
  "Wrapping any key of one or more 64-bit blocks under any AES key gives "
  "the RFC 3394 result and unwrapping returns the key. Unwrapping any "
  "octets returns a key only if wrapping it gives those octets back; other "
  "lengths are refused, when wrapping too; the padded variant returns the "
  "octets that went in.",
  ["inputs"], "every wrapping key, key and candidate octets up to the bound",
  "Tests wrap one key; integrity is a statement over all modified inputs.",
  ["aes_key_wrap.py"],
  [("aes_wrap_key, aes_unwrap_key and the padded forms",
    "aes_key_wrap.py")])

p("C15", "ECDH-ES keys are derived by the Concat KDF of RFC 7518",
  "The key derived for any shared secret, algorithm name, party information "
  "and key length is the Concat KDF of RFC 7518 section 4.6.2, so that both "
  "sides and other implementations get the same key; the secret is the "
  "x-coordinate in the curve's full length, leading zeros included.",
  ["inputs"], "every shared secret, party value and supported key length up "
  "to the bounds",
  "Tests only check that both sides agree, which a wrong derivation also "
  "does; a secret with a leading zero occurs once in 256 runs.",
  ["extra.py", "ecc.py", "jwe.py"],
  [("concat_sha256, ecdh_derive_key", "extra.py"), ("dh_z", "ecc.py"),
   ("JWE_EC.enc_setup, dec_setup", "jwe.py")])

p("C16", "What is encrypted decrypts to the same message",
  "Encrypting any message with any supported key management and content "
  "encryption algorithm and a fitting key gives a compact token of five "
  "base64url parts, and decrypting it with the matching private or shared "
  "key returns the same octets, with compression switched on (RSA) or off, "
  "and with any position of the matching key in the list of keys.",
  ["inputs", "configurations"],
  "every message up to the bound, each algorithm pair, each key position",
  "Tests encrypt one or two messages for a few of the algorithm pairs with "
  "a single key.",
  ["jwe.py"],
  [("JWE.encrypt/decrypt", "jwe.py"), ("JWE_RSA, JWE_SYM, JWE_EC",
                                       "jwe.py")])

p("C17", "A changed or foreign encrypted token is refused",
  "Decrypting a token in which the header, the encrypted key, the IV, the "
  "ciphertext or the tag was changed, shortened or lengthened in octets "
  "never returns a message; neither does one with another number of parts, "
  "with a key that does not match, or with another algorithm than the one "
  "the caller demands.",
  ["inputs"], "every difference added to any one part of a produced token, "
  "each algorithm pair",
  "Tests decrypt intact tokens only.",
  ["jwe.py", "extra.py", "aes_gcm.py", "aes_key_wrap.py"],
  [("decrypt of JWE, JWE_RSA, JWE_SYM, JWE_EC", "jwe.py"),
   ("tag checks", "extra.py"), ("tag check", "aes_gcm.py")])

p("C18", "Secrets are fresh, full-length cryptographic randomness",
  "Content keys, IVs, ephemeral and generated private keys, signature "
  "nonces and key-agreement party values are drawn anew for every message "
  "from the operating system's or the crypto library's secure generator, "
  "in the full length the algorithm asks for, and are used unchanged. "
  "Nothing secret comes from a general-purpose generator or is used for "
  "two messages, unless the caller supplies it.",
  ["inputs", "histories"],
  "every value of the random source, one to three successive operations, "
  "each algorithm",
  "Output that looks random passes any test; reuse and weak sources are "
  "invisible in a single run.",
  ["jwe.py", "ecc.py"],
  [("_generate_key_and_iv", "jwe.py"), ("key_pair, _sign_loop", "ecc.py"),
   ("enc_setup", "jwe.py")])

p("C19", "Public exports carry no private key material",
  "The public form of an RSA or EC key, a key set written out, the key put "
  "in a token header and the ephemeral key of an encrypted token hold only "
  "the public members and do not depend on the private value in any way. "
  "A public copy of a key has no private part and serialises to the same "
  "public form.",
  ["inputs"], "every private value and every combination of optional members",
  "Tests look for one member name in one export; leaks through other "
  "members, other exports or particular values go unseen.",
  ["jwk.py", "jws.py", "jwe.py"],
  [("serialize", "jwk.py"), ("dump_jwks", "jwk.py"),
   ("make_public_copy", "jwk.py"), ("headers", "jws.py")])

p("C20", "Keys survive serialisation",
  "A key written as a JWK (public or private form) or in a key set and read "
  "back is equal to the original in every member the form carries, keeps "
  "its id, use and algorithm, and can do the same operations. EC "
  "coordinates have the curve's full length; a member that is missing or "
  "not a number is refused.",
  ["inputs"], "every key value of the symmetric and small-curve kinds, every "
  "id, use and algorithm text, both forms",
  "Tests round-trip a few fixed keys without leading zeros.",
  ["jwk.py", "__init__.py"],
  [("serialize/deserialize", "jwk.py"), ("keyrep, KEYS", "jwk.py")])

p("C21", "Thumbprints, key ids and equality identify the key",
  "The thumbprint of a key is the RFC 7638 hash of its required public "
  "members, whatever optional members it has, and the derived key id is "
  "the base64url text of the SHA-256 one. Two symmetric, RSA or EC keys "
  "compare equal exactly when their public form (for symmetric keys: the "
  "key value), id, use and algorithm are, and equal keys have equal "
  "hashes.",
  ["inputs", "configurations"],
  "every symmetric key value and small-curve point, every id, use and "
  "algorithm text; with and without assertions",
  "Tests compute two thumbprints and compare a few keys.",
  ["jwk.py"],
  [("thumbprint, add_kid, get_hash", "jwk.py"), ("__eq__, __hash__",
                                                 "jwk.py")])

p("C22", "Telling tokens apart never fails and never misjudges",
  "Asking whether an octet or text string is a signed token always gives "
  "yes or no: yes exactly for a compact text with a JSON object header "
  "whose algorithm is a supported one, or a JSON object with a payload and "
  "signature(s). Asking the same for an encrypted token says yes exactly "
  "when the type says so or both algorithms are supported ones, and only "
  "refuses texts that are no token at all.",
  ["inputs"], "every text up to the bound and every header of the stated "
  "shapes",
  "Tests try five strings.",
  ["jws.py", "jwe.py"],
  [("is_jws, factory", "jws.py"), ("is_jwe, factory", "jwe.py")])

p("C23", "Derived symmetric keys and half hashes are the specified ones",
  "The encryption key derived from a shared secret for an algorithm is the "
  "leading part, of that algorithm's key length, of the secret's SHA-256, "
  "SHA-384 or SHA-512 hash as OpenID Connect specifies. The half hash for "
  "an algorithm is the base64url text of the left half of the message's "
  "hash by that algorithm's hash function.",
  ["inputs"], "every secret and message up to the bound, each algorithm",
  "Tests check one or two values.",
  ["jwk.py", "jws.py"],
  [("SYMKey.encryption_key", "jwk.py"), ("left_hash", "jws.py")])

p("C24", "Header parameters arrive unchanged",
  "Every protected header parameter given when signing, and the algorithm, "
  "encryption, key id, type, content type and critical-list parameters "
  "given when signing or encrypting where that form carries them, appears "
  "with exactly its value in the token's header; no other parameter is "
  "overwritten by it and the caller's header dictionary gains no key id.",
  ["inputs"], "every parameter value up to the bound, each parameter",
  "Tests look at 'alg' and 'kid' of a few tokens.",
  ["jws.py", "jwe.py", "jwt.py"],
  [("JWx.__init__, headers", "jws.py"), ("alg_keys, sign_compact",
                                         "jws.py"),
   ("encrypt", "jwe.py")])

p("C25", "Using one object again accepts nothing a fresh one refuses",
  "After any sequence of signing, verifying, encrypting and decrypting "
  "calls on one object, successful or not, a token is accepted only if a "
  "new object with the same settings accepts it, and then with the same "
  "message; keys and key sets are not changed by being used.",
  ["histories"],
  "every sequence of up to three operations with any payloads and "
  "signatures",
  "Tests use every object once.",
  ["jws.py", "jwe.py", "jwk.py"],
  [("verify_compact_verbose", "jws.py"), ("verify_json", "jws.py"),
   ("JWE.decrypt", "jwe.py")],
  state=[("header values kept in the object",
          "algorithm, embedded key and key id of an earlier token",
          "jws.py"),
         ("content key kept in the object", "of an earlier message",
          "jwe.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    import re
    n = len(re.findall(r"[.;]\s|\.$", x["statement"]))
print(len(P))
