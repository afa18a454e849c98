T="property-based testing: generated cases against an independent model, with shrinking"
prop("S01","A signed PBO verifies, and key and signature files survive storage",
"""For every PBO, key and signature version, the signature made with the private key is the one the published scheme defines (three RSA signatures over the content checksum, the names and prefix, and the files the version covers), and it verifies with the matching public key, both directly and after key and signature went through their file formats.
Public keys, private keys and signatures that are written and read back are unchanged, and their files have the documented layout.
Every generated key pair has the requested size and authority and differs from every other.""",
["inputs"],"all sorted PBOs with at least one file, key sizes 512 to 2048 bits, both signature versions, all authority names",
"""The tests sign a handful of fixture PBOs with one key; empty files, unusual prefixes, extension lists and header encodings are not sampled.""",
["libs/signing/src/lib.rs","libs/signing/src/private.rs","libs/signing/src/public.rs","libs/signing/src/signature.rs","libs/pbo/src/read.rs","libs/common/src/sign_version.rs"],
[("hash composition and padding","libs/signing/src/lib.rs"),("signing and key files","libs/signing/src/private.rs"),("verification","libs/signing/src/public.rs")],T,
"The expected hashes and padding come from an independent implementation; modular exponentiation is shared with the rsa crate.",
"""Generated PBOs, authorities and versions, four stored key pairs and freshly generated ones. Oracle: an independent parse of the .bikey and .bisign bytes and an independent computation of the three padded hashes; then verification before and after the file round trip.""",
["BIPrivateKey::sign","BIPublicKey::verify","BISign::write"])
prop("S02","Nothing but the signed PBO and the real key verifies",
"""Verification fails after any change to what a signature covers: a byte of any file, a name, a property, a header field, the set or the order of the files, the signature values, the signature version, the authority or the public key.
A signature made with any other key, or assembled without the private key, never verifies, whatever authority and key material it carries.""",
["inputs","histories"],"all signed PBOs, all alterations of the PBO, signature or key bytes, forgeries with other keys and with chosen key material",
"""Tests only check that an untouched signature verifies and that one wrong file fails.""",
["libs/signing/src/public.rs","libs/signing/src/signature.rs","libs/signing/src/lib.rs","libs/pbo/src/read.rs"],
[("comparison of the three hashes under the public key, authority and sorting checks","libs/signing/src/public.rs")],T,
"Random alterations judged by an independent decoder (did the meaning change?); cryptographic attacks are out of scope.",
"""Model-level alterations (content, boundary between files, rename, add, remove, property, timestamp), byte-level damage, bit flips in signature and key, swapped signatures, forged signatures (another key with the same authority, exponent one, foreign modulus) and reordered files. Oracle: an independent decoder decides whether anything covered changed; if so verification must fail.""",
["BIPublicKey::verify"])
prop("S03","Malformed keys and signatures are rejected without a crash",
"""Reading a key or signature file from arbitrary bytes either fails with an error or yields a value that can be used and stored without a crash.
Files that are cut short, whose length fields contradict each other, or that are of an unknown signature version are rejected.""",
["inputs"],"all byte strings, in particular damaged and truncated real files and consistent headers with extreme lengths",
"""No test reads a malformed key or signature.""",
["libs/signing/src/public.rs","libs/signing/src/signature.rs","libs/signing/src/private.rs","libs/signing/src/lib.rs"],
[("length checks","libs/signing/src/public.rs"),("length and version checks","libs/signing/src/signature.rs"),("length checks","libs/signing/src/private.rs")],
"mutation-based fuzzing with a crash and consistency oracle",
"Random damage; a panic, abort or hang fails the case.",
"""Mutated, truncated, random and length-extreme files are read; accepted values are used (verify, display, rewrite). Oracle: no panic or abort, truncated files rejected, rewritten files no longer than what was read.""",
["BIPublicKey::read","BISign::read","BIPrivateKey::read"])
