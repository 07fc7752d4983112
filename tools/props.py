#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, observe=list(observe)))

prop("C01", "Signed big-integer ring operations are exact and canonical",
 "For operands of every size and sign, signed add, subtract, multiply, square, absolute value, copy, shift left, shift right (of the magnitude), the magnitude-only add/subtract/multiply, comparison and bit counting give the mathematically exact integer answer. This holds whatever the destination held before, also when it is the same object as one or both operands, and leaves operands that are not the destination unchanged. Every result is canonical: no leading zero digit and zero is never negative; subtracting a larger magnitude from a smaller one with the magnitude-only subtract is refused.",
 ["inputs", "histories"], "all pairs of signed integers (all digit counts, carry/borrow patterns), all aliasing patterns, all prior contents/capacities of the destination, and sequences of such operations on a shared set of numbers",
 "The unit tests run a fixed table of operands with fresh destinations; carries across many digits, aliasing and stale destination state are quantified over all inputs.",
 ["src/mpi/mpi_add.c","src/mpi/mpi_add_abs.c","src/mpi/mpi_sub.c","src/mpi/mpi_sub_abs.c","src/mpi/mpi_mul.c","src/mpi/mpi_mul_abs.c","src/mpi/mpi_sqr.c","src/mpi/mpi_shl.c","src/mpi/mpi_shr.c","src/mpi/mpi_cmp.c","src/mpi/mpi_cmp_abs.c","src/mpi/mpi_core.c","src/mpi/mpi_abs.c"],
 [("carry/borrow propagation","cry_mpi_add_abs, cry_mpi_sub_abs"),("sign selection","cry_mpi_add, cry_mpi_sub, cry_mpi_mul"),("leading-zero trim","cry_mpi_adjust")],
 "stateful property-based testing against OpenSSL BIGNUM model",
 "Random operation histories over aliased numbers compared after each step with an independent bignum; trusts OpenSSL BN.", observe=["include/cry/mpi.h"])

prop("C02", "Big-integer division and modulo satisfy the division identity",
 "For every dividend a and non-zero divisor b, division yields q = floor(a/b) and the remainder r = |a - q*b| < |b| (so a = q*b + r with 0 <= r < b for positive b), both canonical, and the magnitude-only form yields the same for |a| and |b|. Either output may be omitted and either output may be the same object as an operand without changing the answer, and other operands are left unchanged. Dividing by zero is reported as an error.",
 ["inputs"], "all signed dividend/divisor pairs, including quotient-estimate corner cases, all aliasing patterns and omitted outputs",
 "Quotient digit over-estimation happens for about 2 in 2^64 random digit pairs; the tests' fixed table cannot cover it nor the sign/alias matrix.",
 ["src/mpi/mpi_div.c","src/mpi/mpi_div_abs.c","include/cry/mpi.h"],
 [("normalised schoolbook division with quotient correction","cry_mpi_div_abs"),("floor adjustment","cry_mpi_div")],
 "property-based testing against OpenSSL BIGNUM, adversarial digit patterns",
 "Generated operands biased to quotient-estimate corner cases; trusts OpenSSL BN.")

prop("C03", "All multiplication and squaring algorithms agree",
 "For every pair of operands, each of the four multiplication algorithms (schoolbook, column-wise, Karatsuba, Toom-3) and the multiply-by-one-digit routine return the exact product of the magnitudes (signed where the routine is signed), and each of the three squaring algorithms returns the exact square, whatever the relative operand sizes and whatever object receives the result.",
 ["inputs"], "all operand pairs from zero to well beyond the algorithm switch-over sizes, balanced and unbalanced, aliased or not",
 "Split-size, carry and interpolation bugs need particular lengths and digit patterns; tests use a few fixed lengths.",
 ["src/mpi/mpi_mul_baseline.c","src/mpi/mpi_mul_comba.c","src/mpi/mpi_mul_karatsuba.c","src/mpi/mpi_mul_toom3.c","src/mpi/mpi_sqr_baseline.c","src/mpi/mpi_sqr_comba.c","src/mpi/mpi_sqr_karatsuba.c","src/mpi/mpi_mul.c"],
 [("operand splitting/recombination","cry_mpi_mul_karatsuba, cry_mpi_mul_toom3"),("three-word column accumulator","MULADD in mpi_pvt.h")],
 "differential property-based testing across algorithms and OpenSSL BIGNUM",
 "Every algorithm run on every generated pair; magnitudes compared with an independent bignum.")

prop("C04", "Number-theoretic functions return the defined value or an error",
 "For all integers: gcd returns the non-negative greatest common divisor (gcd(x,0)=|x|); lcm returns a multiple of least magnitude; the modular inverse for modulus m>1 returns the unique r in [1,m) with a*r = 1 mod m and reports an error exactly when none exists; power returns b^e and modular power returns b^e mod m in [0,m) for e>=0, m>0, and report an error for negative e or m; square root returns floor(sqrt(a)) for a>=0 and an error for a<0. All terminate, and the result object may also be an operand.",
 ["inputs"], "all signed operands including zero, one, negatives, non-coprime pairs, powers of two, perfect squares and their neighbours",
 "Tests sample a few positive coprime values; special values and termination quantify over all inputs.",
 ["src/mpi/mpi_gcd.c","src/mpi/mpi_lcm.c","src/mpi/mpi_inv.c","src/mpi/mpi_exp.c","src/mpi/mpi_mod_exp.c","src/mpi/mpi_sqrt.c"],
 [("binary gcd","cry_mpi_gcd"),("extended Euclid","cry_mpi_inv"),("square and multiply","cry_mpi_mod_exp"),("Newton iteration","cry_mpi_sqrt")],
 "property-based testing against OpenSSL BIGNUM definitions",
 "Oracle computed with OpenSSL BN; hang detection by CPU-time limit.")

prop("C05", "Big-integer conversions round-trip and never truncate silently",
 "Loading a big-endian byte string, a numeral string in radix 2..36 (optional sign, either letter case) or a native integer yields exactly the denoted number regardless of what the object held before; storing a number as bytes (minimal, or left zero-padded to the buffer) or as a radix 2..16 numeral (minimal, lower case) and loading it back yields the same value. Storing into a byte buffer smaller than the number, or fetching a native integer that does not fit, is refused rather than truncated; a numeral containing a character that is not a digit of the radix is refused. No conversion writes outside the space the output needs.",
 ["inputs"], "all byte strings and lengths, all numerals in all supported radices, all native integers, all prior object states",
 "Tests load and print a few dozen constants; extreme integers, padding sizes, invalid numerals and reused objects are untested.",
 ["src/mpi/mpi_bin.c","src/mpi/mpi_str.c","src/mpi/mpi_core.c"],
 [("byte/digit packing","cry_mpi_load_bin, cry_mpi_store_bin"),("radix conversion","cry_mpi_load_str, cry_mpi_store_str")],
 "round-trip and model-based property testing with exact-size buffers under ASan",
 "Oracle: harness conversions and OpenSSL BN; out-of-bounds access detected by AddressSanitizer redzones.")

prop("C06", "Random numbers and primes have the requested shape",
 "A random integer of n bits has exactly n significant bits, a random integer below a bound lies in [0, bound) with every value about equally likely, and a generated prime of n bits (n a multiple of 8) is prime with its two top bits set. The primality test always accepts primes and always rejects composites below one million and even numbers, zero and one, and rejects larger composites except with probability below one in a thousand; it always terminates, and the prime search finds a prime whenever one is drawn within the allowed number of attempts.",
 ["inputs","histories"], "all bit lengths, bounds and generator states; all candidate integers",
 "Whether a leading random byte is zero or a witness is degenerate depends on the random stream; tests draw a handful of values.",
 ["src/mpi/mpi_rand.c","src/mpi/mpi_prime.c"],
 [("top bit forcing","cry_mpi_rand"),("trial division + Miller-Rabin","cry_mpi_is_prime"),("range reduction","cry_mpi_rand_range")],
 "property-based testing over seeds, sizes and candidates against sieve and BN_check_prime",
 "Exact oracle (sieve) for small values, OpenSSL BN_check_prime for large.")

prop("C07", "Results do not depend on the build configuration",
 "Every arithmetic, number-theoretic, elliptic-curve and signature-verification result is the same integer for every supported digit width (8, 16, 32, 64 bits) and for every choice of the optional algorithms (division, inversion, multiplication, scalar multiplication) and assembler fast paths.",
 ["configurations","inputs"], "all supported build configurations crossed with all operands",
 "The test-suite is only ever run on one configuration at a time and on a fixed operand table.",
 ["include/cry/mpi.h","src/mpi/mpi_pvt.h","src/mpi/mpi_div_abs.c","src/mpi/mpi_inv.c","src/mpi/mpi_mul_abs.c","src/mpi/mpi_sqr.c","src/ecp/ecp_mul.c","config/config.mk"],
 [("digit type selection","include/cry/mpi.h"),("algorithm selection","config.h options")],
 "configuration-matrix property-based testing against one reference (OpenSSL)",
 "Each configuration is built and run on generated operands against the same oracle, hence pairwise agreement.")

prop("C08", "AES encrypts and decrypts per FIPS-197 in any call sequence",
 "For 128, 192 and 256-bit keys and any number of whole blocks, AES encryption equals FIPS-197 AES applied block by block and decryption is its exact inverse. This holds for every interleaving of encrypt, decrypt and re-keying on one context, and when output and input are the same buffer.",
 ["inputs","histories"], "all keys, all block data, all sequences of key-set/encrypt/decrypt on a context, in place or not",
 "Tests use fresh contexts and single direction vectors; direction switching on a live context is a history property.",
 ["src/crypt/aes.c"], [("key schedule and its inversion","cry_aes_key_set, cry_aes_encrypt, cry_aes_decrypt")],
 "stateful property-based testing against OpenSSL AES", "Histories on several contexts compared with OpenSSL AES.")

prop("C09", "DES and triple-DES match the standard in any call sequence",
 "With an 8-byte key DES, and with a 24-byte key three-key EDE triple-DES, encrypt any number of whole blocks exactly as the standard prescribes, ignoring key parity bits, and decryption is the exact inverse. This holds for any interleaving of encrypt, decrypt and re-keying on a context, in place or not.",
 ["inputs","histories"], "all keys and blocks, all call sequences on a context",
 "Only fixed vectors are tested.", ["src/crypt/des.c"], [("S-box/permutation network","src/crypt/des.c")],
 "stateful property-based testing against OpenSSL DES", "Histories compared with OpenSSL DES/EDE3.")

prop("C10", "CBC and CFB modes match the standard and resume across calls",
 "CBC, full-block CFB and CFB-8 encryption over AES or DES equal the SP 800-38A definitions and decryption recovers the plaintext. A message may be split over any number of calls (at block multiples for CBC and CFB, anywhere for CFB-8; a CFB message may end in a partial block) and processed in place, with the same result; empty calls change nothing.",
 ["inputs","histories"], "all keys, IVs, messages, splittings, in-place or separate buffers, both block sizes",
 "Tests run one call per vector, mostly encrypt direction; chaining over splits and in-place decrypt are history properties.",
 ["src/crypt/cbc.c","src/crypt/cfb.c"], [("chaining value carried in context","struct cry_cbc_ctx.ctr, struct cry_cfb_ctx.v")],
 "stateful property-based testing against OpenSSL block cipher + SP800-38A model", "Model built on the raw OpenSSL block cipher.")

prop("C11", "CTR mode keystream is exact across splits, wrap-around and in place",
 "CTR encryption over AES or DES xors the message with the block cipher applied to successive big-endian counter values starting at the IV, incrementing over the whole block including wrap-around, and decryption is the same operation. Splitting the message at block multiples over several calls and processing in place do not change the result; a partial final block consumes one counter value.",
 ["inputs","histories"], "all keys, IVs (including all-ones suffixes), lengths, splittings, in-place or not, both block sizes",
 "Counter carry and wrap need special IVs; in-place and split processing is not tested.",
 ["src/crypt/ctr.c","src/misc.h"], [("counter increment","CRY_INCREMENT_BE"),("keystream buffering","cry_ctr_encrypt")],
 "property-based testing against a counter model on OpenSSL block ciphers", "Model built on the raw OpenSSL block cipher.")

prop("C12", "GCM matches SP 800-38D for any IV, AAD and message lengths",
 "AES-GCM encryption, decryption and tag equal SP 800-38D for every key size, every non-empty IV length, and every AAD and message length (including none). Feeding AAD and message in several 16-byte-multiple pieces (last piece arbitrary), in place or not, and truncating the tag, do not change the result; reusing a context after setting a new IV starts afresh, and any change to ciphertext, AAD, IV or key changes the tag.",
 ["inputs","histories"], "all keys, IV/AAD/message lengths and contents, splittings, context reuse",
 "Tests are one-shot vectors; multi-part, partial-block, counter-wrap and reuse are not covered.",
 ["src/crypt/gcm.c"], [("GHASH accumulation and length block","src/crypt/gcm.c"),("32-bit counter increment","src/crypt/gcm.c")],
 "stateful property-based testing against OpenSSL GCM", "Full tag comparison against OpenSSL EVP GCM.")

prop("C13", "Stream ciphers produce the specified, split-independent keystream",
 "ARC4 with any non-empty key (its first 256 bytes count) and Trivium with 80-bit key and IV (shorter ones zero-extended, longer ones cut to 80 bits) encrypt to exactly the keystream of their specification, whether or not done in place and however the message is split over calls (anywhere for ARC4; at multiples of four bytes, with an arbitrary last piece, for Trivium). Applying the cipher again from the same key (and IV) recovers the message, and re-keying restarts the stream.",
 ["inputs","histories"], "all keys, IVs, message lengths, splittings, re-keyings",
 "Tests run single-call vectors.", ["src/crypt/arc4.c","src/crypt/trivium.c"],
 [("permutation state carried across calls","struct cry_arc4_ctx"),("shift register state","struct cry_trivium_ctx")],
 "stateful property-based testing against reference ARC4 / bit-level Trivium model", "ARC4 vs textbook model cross-checked with OpenSSL RC4 vectors; Trivium vs bit-by-bit eSTREAM model.")

prop("C14", "Hash functions equal the standards for every message and chunking",
 "MD5, SHA-1, SHA-256, SHA-384 and SHA-512 return the standard digest for messages of every length, however the message is divided over update calls (including empty ones), through both the incremental and the one-shot interfaces. A context re-initialised after use, or interleaved with other contexts, is unaffected by its history.",
 ["inputs","histories"], "all messages, all lengths modulo the block size, all chunkings, context reuse",
 "Padding bugs depend on length mod block; tests use a few lengths and single chunkings.",
 ["src/hash/md5.c","src/hash/sha1.c","src/hash/sha256.c","src/hash/sha512.c"],
 [("partial block buffer","data[]/len in each context"),("final padding","*_digest")],
 "property-based testing over lengths/chunkings against OpenSSL digests", "Every residue modulo the block size is enumerated; random chunkings.")

prop("C15", "HMAC and CMAC equal RFC 2104 / SP 800-38B for every key and message",
 "HMAC over MD5, SHA-1 and SHA-256 with keys of any length, and CMAC over AES with 128/192/256-bit keys, equal their standards for every message length and every division of the message over update calls.",
 ["inputs","histories"], "all keys and key lengths, messages, chunkings",
 "Tests are a few RFC vectors.", ["src/crypt/hmac.c","src/crypt/cmac.c"],
 [("key block derivation","cry_hmac_init"),("subkey selection on last block","cry_cmac_digest")],
 "property-based testing against OpenSSL HMAC/CMAC", "Direct comparison on generated keys/messages/chunkings.")

prop("C16", "CRCs equal their polynomial definition and are chunk-independent",
 "CRC-16/CCITT (polynomial 1021h reflected, initial FFFFh, complemented, byte-swapped), CRC-16/IBM (8005h reflected, initial FFFFh), CRC-16/DNP (3D65h reflected, initial 0, complemented, byte-swapped) and CRC-32 (Ethernet) equal the bit-by-bit polynomial division for every message, independently of how the message is divided over update calls, and the value and byte-digest outputs agree.",
 ["inputs","histories"], "all messages and chunkings", "Tests are a few fixed strings; a wrong table entry is only seen with the byte that indexes it.",
 ["src/crc/crc16.c","src/crc/crc16_ccitt.c","src/crc/crc16_ibm.c","src/crc/crc16_dnp.c","src/crc/crc32.c","src/crc/crc32_eth.c"],
 [("table-driven update","cry_crc16_update, cry_crc32_update")],
 "property-based testing against bitwise CRC model", "Bitwise model; all table indices exercised.")

prop("C17", "RSA round-trips, matches PKCS#1 v1.5 and rejects bad paddings",
 "For every valid key and message, RSA encryption then decryption returns the message (spanning several blocks when longer than one), ciphertexts and PKCS#1 v1.5 signatures are those of RFC 8017, verification accepts a genuine signature, and generated keys have the requested modulus size and a private exponent that inverts the public one. Verification rejects every signature that does not open to exactly the padded message, and decryption rejects malformed padding (less than eight padding bytes included), representatives not below the modulus, and empty or partial blocks, without reading or writing out of bounds. Without padding, blocks below the modulus round-trip and a short message is zero-filled on the right.",
 ["inputs","histories"], "all key sizes, exponents, messages and lengths, generator states, tampered signatures/ciphertexts",
 "Tests check a few fixed vectors and one round trip with a single block.",
 ["src/crypt/rsa.c"], [("PKCS#1 padding add/remove","src/crypt/rsa.c"),("block loop","cry_rsa_encrypt/cry_rsa_decrypt"),("key generation","cry_rsa_keygen")],
 "property-based testing against OpenSSL BN and RFC 8017 model with tampering", "Model encodes/decodes PKCS#1 independently; keys generated by OpenSSL BN.")

prop("C18", "DSA signatures are standard, verify, and forgeries are rejected",
 "For valid domain parameters and keys, DSA signing succeeds with 0<r<q, 0<s<q satisfying the FIPS 186 verification equation (digest truncated to the bits of q), using a fresh secret from all of [1,q-1] for each signature, and verification accepts exactly those (r,s) pairs: it rejects components outside [1,q-1], changed digests, changed signatures and other keys. Key generation yields primes p of the requested size and q dividing p-1, a generator of order q and a private key in (0,q) matching the public one; failures are reported.",
 ["inputs","histories"], "all domain parameters, keys, digests, generator states, all candidate signatures including degenerate ones",
 "Tests sign and verify once with one key; degenerate and forged signatures are not tried.",
 ["src/crypt/dsa.c"], [("sign/verify equations","cry_dsa_sign, cry_dsa_verify"),("parameter generation","cry_dsa_keygen")],
 "property-based testing with forgery generation against FIPS 186 model on OpenSSL BN", "Independent verification equation decides acceptance.")

prop("C19", "ECDSA signatures are standard, verify, and forgeries are rejected",
 "On every supported curve and every key, ECDSA signing yields 0<r<n, 0<s<n satisfying the standard verification equation (digest truncated to the bit size of n), using a fresh secret from all of [1,n-1] for each signature, and verification accepts exactly those (r,s) pairs: it rejects components outside [1,n-1], changed digests, changed signatures and other keys. Generated keys satisfy 0<d<n and Q = dG.",
 ["inputs","histories"], "all curves, keys, digests of any length, generator states, all candidate signatures including degenerate ones",
 "Tests sign and verify a couple of times; degenerate (zero, out of range, infinity) cases are not tried.",
 ["src/crypt/ecdsa.c"], [("sign/verify equations","cry_ecdsa_sign, cry_ecdsa_verify")],
 "property-based testing with forgery generation against OpenSSL EC model", "Verification equation evaluated with OpenSSL EC_POINT arithmetic; tiny curves by brute-force model.")

prop("C20", "ElGamal signatures verify and forgeries are rejected",
 "For every prime group and key, an ElGamal signature produced by either interface satisfies g^H = y^r * r^s mod p with 0<r<p and 0<s<p-1, and verification accepts exactly the pairs satisfying this equation and these ranges. Changed digests, changed or out-of-range components and other keys are rejected; the byte-string interface agrees with the component interface.",
 ["inputs","histories"], "all groups, keys, digests, generator states, all candidate signatures",
 "Tests sign and verify once; Bleichenbacher-style out-of-range components are not tried.",
 ["src/crypt/elgamal.c"], [("sign/verify equations","cry_elgamal_sign2, cry_elgamal_verify2")],
 "property-based testing with forgery generation against OpenSSL BN model", "Independent evaluation of the equation decides acceptance.")

prop("C21", "Elliptic-curve operations implement the group law on all curves",
 "On every supported named curve (whose parameters equal the published ones) and on arbitrary small short-Weierstrass curves, point addition, doubling and scalar multiplication by any non-negative scalar give the group-law result, including the point at infinity, equal or opposite operands, points of order two, scalars of zero, the group order and beyond. The result object may be an operand, other operands are unchanged, and the affine result is reduced to [0,p).",
 ["inputs"], "all curves, all points including degenerate ones, all scalars",
 "Tests add a few points on one tiny curve and multiply a few scalars; the exceptional cases are a measure-zero set.",
 ["src/ecp/ecp_add.c","src/ecp/ecp_dbl.c","src/ecp/ecp_mul.c","src/ecp/ecp_core.c","src/ecp/ecp_curves.c"],
 [("chord/tangent formulas with exceptional cases","cry_ecp_add, cry_ecp_dbl"),("windowed multiplication","cry_ecp_mul"),("curve constants","cry_ecp_grp_load")],
 "property-based testing against OpenSSL EC and exhaustive small-curve model", "OpenSSL EC for named curves; independent affine model for small curves.")

prop("C22", "Diffie-Hellman parties always derive the same correct secret",
 "For every modulus, base, curve and private exponents, the token produced by each party is base^e mod p (respectively the curve multiple), the two parties derive the same secret equal to base^(e1*e2) (respectively the common curve point), and exporting then importing a token through bytes preserves it for every buffer size that fits. Buffers that are too small are refused.",
 ["inputs","histories"], "all groups, curves, secrets, token buffer sizes, repeated runs on one context",
 "Tests run one exchange with fixed numbers.",
 ["src/crypt/dh.c","src/crypt/ecdh.c"], [("modular exponent / point multiply","cry_dh_agree, cry_dh_finalize, cry_ecdh_agree, cry_ecdh_final")],
 "two-party protocol property testing against OpenSSL BN/EC", "Both ends simulated; compared to OpenSSL.")

prop("C23", "Random generators are reproducible, seed-sensitive and split-safe",
 "After seeding, each generator returns a stream that depends only on the seed and the request sizes, whatever happened before the seeding, and writes exactly the requested number of bytes for every request size. The AES generator returns the AES-128 counter-mode keystream keyed by the first 16 seed bytes with the next 16 as initial counter (short seeds zero-extended), however the requests are split, so no output is repeated and every one of the first 32 seed bytes matters. The LFSR113 generator equals L'Ecuyer's recurrence over the four state words taken from the seed (xor-folded into 16 bytes; a word at or below its documented bound 1, 7, 15 or 127 is replaced by 987654321), one fresh word per four requested bytes or final part of them.",
 ["inputs","histories"], "all seeds and seed lengths, all request-size sequences, all prior generator histories",
 "Tests check one short vector per generator.",
 ["src/prng/prng_aes.c","src/prng/prng_lfsr113.c"], [("re-keying and counter","prng_aes.c"),("state load with minima","prng_lfsr113.c")],
 "metamorphic and model-based stateful testing", "LFSR113 against an independent recurrence; AES generator by metamorphic relations.")

prop("C24", "AES key wrap follows RFC 3394 and unwrap rejects any tampering",
 "For every key-encryption key size and every input of at least two 8-byte blocks, wrapping equals RFC 3394 and unwrapping recovers the input. Unwrapping data in which any bit was changed, or with another key, reports failure and returns no key data, and the routines stay within the caller's buffers.",
 ["inputs"], "all keys, inputs up to many blocks, all single and multiple bit corruptions",
 "Tests are the six RFC vectors (at most four blocks).",
 ["src/utils/aes_wrap.c"], [("round counter mixing and integrity value","src/utils/aes_wrap.c")],
 "property-based testing against OpenSSL AES_wrap_key with corruption", "Direct comparison and corruption of generated wraps.")

prop("C25", "Base64 round-trips every byte string and stays inside its buffers",
 "Encoding any byte string (also the empty one) yields the RFC 4648 text with padding and returns its length; decoding it returns the original bytes and length, writing only within the size implied by the length. Decoding any text that contains a character outside the alphabet, or whose length is not a multiple of four, reports an error, and no input makes it read or write out of bounds.",
 ["inputs"], "all byte strings, all texts valid or not",
 "Tests cover a few strings; invalid input and the empty string are not covered.",
 ["src/crypt/base64.c"], [("group loop and padding","cry_base64_encode, cry_base64_decode")],
 "round-trip and negative property-based testing under ASan", "Model encoder; exact-size buffers with ASan.")

prop("C26", "Classical ciphers (Hill, affine) invert exactly",
 "For every key accepted at initialisation, Hill and affine encryption equal their modular definition (matrix or affine map modulo 256, Hill's last partial block zero-padded) and decryption returns the original message; initialisation refuses exactly the keys that are not invertible (the empty key included). In-place use of affine gives the same result.",
 ["inputs"], "all keys and dimensions, all messages, lengths and offsets within the key",
 "Tests cover a few keys; the invertibility decision over all matrices is not tested.",
 ["src/crypt/hill.c","src/crypt/affine.c","src/misc.c"], [("matrix inversion modulo 256","src/crypt/hill.c"),("modular inverse","cry_long_inv")],
 "property-based testing against direct modular linear algebra", "Independent mod-256 model with determinant parity as the invertibility oracle.")

prop("C27", "XOR helpers act as if inputs were read before output is written",
 "XORing buffers of any length produces the byte-wise exclusive-or of the original inputs for every alignment and, in the three-operand form, for every overlap of the destination with either source; no byte outside the destination changes.",
 ["inputs"], "all lengths, alignments and overlap offsets of the three buffers",
 "Tests do not vary overlap.", ["src/crypt/memxor.c","include/cry/memxor.h"], [("overlap dispatch","cry_memxor2")],
 "exhaustive-leaning property testing of overlap geometry against copy-first model", "Arena model with guard bytes.")

prop("C28", "Allocation failure is reported cleanly by every operation",
 "If any single memory allocation (or every allocation from some point on) fails during a big-integer, elliptic-curve, RSA, DSA, ECDSA, ElGamal, Diffie-Hellman or random-number operation, the call returns an error or a correct result: it never crashes, hangs, reports success with a wrong result, frees memory twice or leaks. All objects involved can afterwards be cleared, and repeating the call without failures succeeds.",
 ["fault_sequences","inputs"], "every allocation point of every operation over generated operands, single and persistent failures",
 "No test injects allocation failures.",
 ["src/mpi","src/ecp","src/crypt/rsa.c","src/crypt/dsa.c","src/crypt/ecdsa.c","src/crypt/elgamal.c","src/crypt/dh.c","src/crypt/ecdh.c","src/misc.c"],
 [("result propagation and cleanup labels","CRY_CHK users, cry_mpi_init_list")],
 "fault-injection enumeration of allocation points over generated operations", "Allocator calls of the library are redirected to a failing/accounting allocator; every allocation index of each generated operation is failed.", level="fault_enumeration")

prop("C29", "Contexts are independent and leave no secrets after clearing",
 "Any interleaving of operations on several cipher, mode, MAC, hash and CRC contexts gives each context the same outputs as running its operations alone, also when the contexts are used at the same time from different threads. Clearing a cipher, mode or hash context erases key, state and buffered data from it (and from the cipher context below a mode), and a cleared context can be initialised and used again.",
 ["histories","inputs","schedules"], "all interleavings of operations over contexts of all kinds, all keys",
 "Unit tests use one context at a time and never inspect a cleared one.",
 ["src/crypt","src/hash","src/crc"], [("all state in the context","cry_*_ctx"),("secure erase on clear","cry_memset in cry_*_clear")],
 "stateful property-based testing: interleaved versus solo execution", "Metamorphic: interleaved and concurrent runs equal solo runs; the memory of a cleared context must not depend on the keys and data it processed.")

prop("C30", "No operation touches memory outside the buffers it is given",
 "For every documented-valid call with buffers of exactly the documented size, no symmetric cipher, mode, MAC, hash, CRC, encoding, key-wrap or random-generator routine reads or writes outside those buffers, and no such routine and no big-integer, elliptic-curve, RSA, DSA, ECDSA, ElGamal or Diffie-Hellman operation gives a result that depends on what memory held before, or modifies its inputs.",
 ["inputs","histories"], "all valid lengths (including zero and non-multiples of blocks and words) and alignments for every routine",
 "Tests use oversized stack buffers without sanitizers.",
 ["src/crypt","src/hash","src/crc","src/prng","src/utils","src/mpi/mpi_bin.c","src/mpi/mpi_str.c"], [("length handling in all loops","src/**")],
 "sanitizer-backed fuzzing with exact-size heap buffers, poisoned memory and dual-fill runs",
 "AddressSanitizer redzones on exact-size buffers; each case run twice with different memory fill patterns to expose uninitialised reads.")

prop("C31", "Big-integer, curve and public-key operations keep no hidden state",
 "The answer of every big-integer, elliptic-curve and public-key operation depends only on its operands (and, where it needs randomness, on the generator state), never on which operations ran before, on what the same objects held earlier, or on where they lie in memory. Operations on separate objects that do not draw on the process-wide random generator may run at the same time in different threads, interleaved at any point, and each gives the answer it gives alone and leaves its read-only operands unchanged.",
 ["histories","schedules","inputs"], "all sequences of operations over reused objects and all interleavings of two or more operations on separate objects",
 "The tests run every operation once, in one thread, on fresh objects; a cached value that goes stale or a static scratch number only shows in a second use or a second thread.",
 ["src/mpi/mpi_mod_exp.c","src/mpi/mpi_div_abs.c","src/mpi/mpi_inv.c","src/ecp/ecp_mul.c","src/ecp/ecp_add.c","src/crypt/rsa.c","src/crypt/dsa.c","src/crypt/ecdsa.c","src/crypt/elgamal.c","src/crypt/dh.c","src/crypt/ecdh.c"],
 [("working numbers are local to each call","every routine under src/mpi and src/ecp"),("keys live in the caller's context only","cry_rsa_ctx, cry_dsa_ctx, cry_ecdsa_ctx, cry_elgamal_ctx, cry_dh_ctx, cry_ecdh_ctx")],
 "stateful and schedule-injecting property-based testing against the same operation alone",
 "Oracle: the same operation alone on fresh objects (its value is judged by C01-C06 and C17-C22). A second thread is run at generated allocation points of the first; free-running threads in addition.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"] or ["public API in include/cry"], hook_needed=None))
            assert len(o["title"]) <= 80, o["title"]
            f.write(json.dumps(o) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".cpp"))]
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                          thorough_cmd="python3 run.py %s thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in have],
             not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p not in have],
             notes="All checks need only gcc/g++, objcopy, python3 and OpenSSL's libcrypto (used as oracle); no hooks in /repo. "
                   "run.py builds the library from /repo with AddressSanitizer and a redirected allocator, links the generated-input harness and runs it.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
