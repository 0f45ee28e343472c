#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
T='reference/src/taimpl/src/'; I=T+'internal/'; P=T+'porting/'; C='reference/src/clientimpl/src/'; L='reference/src/client/src/'; U='reference/src/util/src/'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Export then import gives back the same key",
 "For every key that may be exported, importing the exported container succeeds and yields a key with an identical header (type, size, type parameters and all rights), an identical key digest, an identical public component and identical results in every operation. The round trip can be repeated any number of times and works in a different session, and with a caller-supplied 16-byte mixin as well as with a random one.",
 ["inputs","histories"],"all key types, sizes, curves, DH groups, rights values, ways the key came to exist, mixins, and chains of export/import in the same or another session",
 "Tests export and re-import one hand-made key per type with the default rights and never compare behaviour over arbitrary rights, DH groups, key sizes or chains.",
 [I+"key_store.c",I+"stored_key.c",T+"ta_sa_key_export.c",T+"ta_sa_key_import.c",P+"otp.c",C+"sa_key_export.c",C+"sa_key_import.c"],
 [("wrap/unwrap of the stored key under the OTP key ladder",I+"key_store.c"),("exported container layout: mixin, header, iv, ciphertext, HMAC",I+"key_store.c")],
 [("sa_header","type, size, parameters and rights bound to the key",I+"stored_key.c")],["sa_key_export","sa_key_import","sa_key_header","sa_key_digest"])

p("C02","Exported containers are authentic, confidential and only for cacheable keys",
 "A key whose rights lack the cacheable flag is never exported, and an exported container never contains the plaintext key material. Any container that differs from a genuinely exported one in any bit, in length, or by splicing parts of two containers is rejected by import and creates no key.",
 ["inputs"],"all exported containers and all bit flips, truncations, extensions and splices of them; all rights values",
 "Tests try a couple of hand-made corruptions; tamper rejection is a claim about every byte of every container.",
 [I+"key_store.c",T+"ta_sa_key_export.c",T+"ta_sa_key_import.c",P+"otp.c"],
 [("HMAC-SHA256 over the whole container, checked in constant time before unwrapping",I+"key_store.c"),("cacheable flag check",I+"key_store.c")],None,["sa_key_export","sa_key_import"])

p("C03","Usage flags gate every key operation",
 "A key can be used for an operation (encrypt, decrypt, sign or MAC, derive, key exchange, unwrap, export, each also as parent, wrapping, or other-data key) only if its rights carry the corresponding usage flag; otherwise the operation reports that it is not allowed, and no output, handle or state change results. When the flag and the other conditions are satisfied the operation is not refused for lack of rights.",
 ["inputs","histories"],"all 64-bit usage-flag values, all operations and algorithms, all key types, keys obtained by import, generation, derivation, exchange, unwrapping or re-import",
 "Tests clear one flag at a time on one path; the guarantee is over every flag combination on every operation and every way a key can come to exist.",
 [I+"rights.c",T+"ta_sa_crypto_cipher_init.c",T+"ta_sa_crypto_mac_init.c",T+"ta_sa_crypto_mac_process_key.c",T+"ta_sa_crypto_sign.c",T+"ta_sa_key_derive.c",T+"ta_sa_key_exchange.c",T+"ta_sa_key_unwrap.c",T+"ta_sa_key_export.c",T+"ta_sa_svp_key_check.c",T+"ta_sa_process_common_encryption.c"],
 [("rights_allowed_* predicates called at each operation",I+"rights.c")],[("usage_flags","bit mask of permitted operations and outputs",I+"rights.c")],["status code of every sa_* key operation"])

p("C04","Validity window, TA identity and output protection gate every use",
 "A key can be used only between its not-before and not-on-or-after times (a cipher operation already started is refused once the key expires), only by a TA listed in its allowed TA identifiers (or any TA when listed as all), and only while every active display output meets one of the protections the key allows. Whenever all conditions are met the use is not refused.",
 ["inputs","histories","configurations"],"all time windows and clock values, all allowed-TA lists and caller identities, all output states and output-protection flag combinations, at creation, at use and in the middle of a multi-step operation",
 "Tests run with one fixed (empty) output state, the real clock, and one caller identity, so most of the condition space is never reached.",
 [I+"rights.c",I+"key_store.c",I+"cipher_store.c",I+"mac_store.c",I+"object_store.c",P+"video_output.c",P+"transport.c",U+"sa_rights.c"],
 [("rights_allowed_time / rights_allowed_video_output_state / rights_allowed_uuid",I+"rights.c"),("re-evaluation when a cipher or MAC is acquired for processing",I+"cipher_store.c")],
 [("not_before / not_on_or_after","validity window",I+"rights.c"),("allowed_tas","TA identifiers",I+"rights.c")],["status of key, cipher, MAC, CENC operations"],None)

p("C05","Derived and unwrapped keys never gain rights their parent withholds",
 "When a parent key's rights say it may only be used to unwrap and name child rights, every key derived or unwrapped from it carries at most the operations named there; otherwise the child carries no output-protection permission the parent lacks. The restriction holds for every derivation function, exchange and unwrapping cipher, survives export and re-import, and applies transitively along chains; nothing else in the requested rights is altered.",
 ["inputs","histories"],"all parent and requested child rights, all derive, exchange and unwrap algorithms, all chains of them",
 "Tests look at a few fixed combinations of parent and child rights on a few algorithms; chains and arbitrary flag combinations are not covered.",
 [I+"rights.c",I+"stored_key.c",I+"kdf.c",I+"unwrap.c",I+"dh.c",I+"ec.c",I+"netflix.c"],
 [("restriction of child rights when a stored key is created from a parent",I+"stored_key.c")],[("child_usage_flags","operations children of an unwrap-only parent may have",I+"rights.c")],["sa_key_header of the child"])

p("C06","Handles are isolated: only live, owned handles of the right kind work",
 "An operation succeeds only on a handle that was created in the same session by the same caller, is of the right kind and has not been released; any other handle value is rejected and affects nothing. Releasing one object never affects another, distinct live objects never share a handle, and a key stays usable by a cipher or MAC context already created from it exactly as if it had not been released.",
 ["histories","inputs"],"all sequences of create, use and release of keys, ciphers, MACs and SVP buffers over several sessions and callers, with arbitrary, stale and foreign handle values, including full stores",
 "Tests release a handle once or use one invalid constant; interleavings of creation, reuse of slots, foreign sessions and full stores are histories.",
 [I+"object_store.c",I+"slots.c",I+"client_store.c",I+"key_store.c",I+"cipher_store.c",I+"mac_store.c",I+"svp_store.c"],
 [("slot allocation and reference counting",I+"object_store.c"),("owner uuid comparison",I+"object_store.c")],[("slots","bitmap of free slots",I+"slots.c"),("ref_count","object lifetime",I+"object_store.c")],["status and effect of sa_* and ta_sa_* calls"])

p("C07","Symmetric ciphers compute the standard cipher however data is chunked",
 "For every symmetric algorithm, key size, IV, counter or nonce, splitting of the data into process and process-last calls, and use of update-IV, the concatenated output equals the standard cipher applied to the concatenated input (with PKCS7 padding where named), and decrypting what was encrypted gives back the input. Reported bytes-to-process, output length and offsets always describe exactly what was consumed and produced, nothing outside that range is written, and invalid padding or lengths are rejected.",
 ["inputs","histories"],"all algorithms, modes, keys, IVs, data, chunkings, clear and SVP buffers with offsets, in-place operation, length queries in between, IV updates",
 "Tests use a few fixed lengths and one chunking; equality with the standard cipher must hold for every chunking and offset.",
 [I+"symmetric.c",I+"cipher_store.c",I+"buffer.c",I+"pad.c",T+"ta_sa_crypto_cipher_init.c",T+"ta_sa_crypto_cipher_process.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_crypto_cipher_update_iv.c",C+"sa_crypto_cipher_process.c",C+"sa_crypto_cipher_process_last.c"],
 [("EVP contexts per cipher and padding on the last block",I+"symmetric.c"),("buffer range checks and offset advance",I+"buffer.c")],None,["sa_crypto_cipher_process","sa_crypto_cipher_process_last"])

p("C08","Authenticated encryption rejects every modified message",
 "AES-GCM and ChaCha20-Poly1305 produce the standard ciphertext and tag for every key, nonce, additional data and chunking, and decryption succeeds exactly when ciphertext, additional data, nonce and the presented tag (of every supported length) are all unmodified. On a mismatch the final call reports verification failure and returns no final plaintext.",
 ["inputs","histories"],"all keys, nonces, AAD, data, chunkings, tag lengths and all modifications of any of them",
 "Tests modify one tag byte in one configuration; the claim is over every modification and chunking.",
 [I+"symmetric.c",T+"ta_sa_crypto_cipher_process_last.c",I+"unwrap.c"],
 [("tag computed or verified in the last call",I+"symmetric.c")],None,["sa_crypto_cipher_process_last"])

p("C09","MACs equal the standard MAC over exactly the data and keys fed in",
 "For HMAC (every digest) and CMAC, the result equals the standard MAC of the concatenation, in order, of all bytes and keys processed, regardless of chunking, failed calls or length queries in between. After the MAC has been computed the context accepts no more data and gives no second value.",
 ["inputs","histories"],"all keys, digests, data, chunkings, interleavings with processed keys, length queries and rejected calls",
 "Tests use few fixed messages in one or two chunks and do not interleave keys, queries and failures.",
 [I+"hmac_context.c",I+"cmac_context.c",I+"mac_store.c",T+"ta_sa_crypto_mac_init.c",T+"ta_sa_crypto_mac_process.c",T+"ta_sa_crypto_mac_process_key.c",T+"ta_sa_crypto_mac_compute.c",C+"sa_crypto_mac_compute.c",C+"sa_crypto_mac_process.c"],
 [("incremental MAC contexts with a done flag",I+"hmac_context.c")],None,["sa_crypto_mac_compute"])

p("C10","Every signature returned as OK verifies under the key's public component",
 "Whenever signing reports success, the signature has the reported length and verifies, under the public component of the same key, as a signature of exactly that message (or that precomputed digest) with exactly the requested scheme, digest, MGF1 digest and salt length. Unsuitable key types, digests or lengths are rejected with an error, never with a success carrying something that does not verify, and no other message verifies.",
 ["inputs"],"all signature algorithms, curves, RSA sizes, digests, salt lengths, precomputed flags, message lengths (including invalid precomputed lengths)",
 "Tests sign with a handful of fixed parameter combinations; a wrong parameter that still returns OK is not visible to them.",
 [T+"ta_sa_crypto_sign.c",I+"rsa.c",I+"ec.c",I+"digest.c",C+"sa_crypto_sign.c",T+"ta_sa_key_get_public.c"],
 [("rsa_sign_pkcs1v15, rsa_sign_pss, ec_sign_ecdsa, ec_sign_eddsa",I+"rsa.c")],None,["sa_crypto_sign","sa_key_get_public"])

p("C11","Key derivation produces exactly the standard key",
 "HKDF, Concat KDF, ANSI X9.63, CMAC KDF, the Netflix KDF and the root-key and common-root-key ladders produce exactly the key material the respective standard defines for the given parent, digest, salt, info, counter and length; the same inputs always give the same key and any change of an input gives a different one. Lengths or parameters the algorithm cannot serve are rejected with an error and never yield a handle or a weaker key.",
 ["inputs"],"all parents, digests, salts, infos, counters, lengths and ladder inputs",
 "Tests compare a few fixed lengths; the boundary between supported and unsupported lengths and multi-block outputs are sampled at one or two points.",
 [I+"kdf.c",I+"netflix.c",P+"otp.c",T+"ta_sa_key_derive.c",C+"sa_key_derive.c"],
 [("kdf_hkdf_hmac, kdf_concat_kdf, kdf_ansi_x963, kdf_ctr_cmac",I+"kdf.c"),("key ladder of AES-ECB decryptions",P+"otp.c")],None,["sa_key_derive followed by sa_key_digest or use of the key"])

p("C12","Both sides of a key exchange agree on the standard secret",
 "For ECDH on every supported curve, DH and Netflix authenticated DH, the two sides obtain the same key, and it is the standard shared secret (including leading zero bytes) of one private and the other public value. Invalid peer public values (off curve, other curve, out of range, malformed) are rejected without creating a key.",
 ["inputs"],"all curves and groups, all key pairs, all valid and malformed peer public values, authentication keys",
 "Tests run one exchange per curve; leading-zero secrets and malformed peers need many generated cases.",
 [I+"ec.c",I+"dh.c",I+"netflix.c",T+"ta_sa_key_exchange.c",C+"sa_key_exchange.c"],
 [("ec_compute_ecdh_shared_secret, dh_compute_shared_secret, Netflix wrapper",I+"ec.c")],None,["sa_key_exchange"])

p("C13","Unwrapping equals importing the plaintext key",
 "Unwrapping the correctly encrypted form of a key with any supported cipher gives a key identical (digest, size, type, parameters, behaviour) to importing the plaintext key, with the requested rights subject to the parent restriction. Ciphertext that does not decrypt to a well-formed key of the requested type, fails authentication or padding, or has an unsuitable length, is rejected and creates no key.",
 ["inputs"],"all wrapping algorithms, wrapping keys, wrapped key types and sizes, parameters, OAEP digests and labels, ElGamal offsets, and all malformed inputs",
 "Tests unwrap well-formed keys of a few sizes; malformed plaintexts, paddings and lengths are an unbounded input space.",
 [I+"unwrap.c",T+"ta_sa_key_unwrap.c",I+"rsa.c",I+"ec.c",I+"pad.c",C+"sa_key_unwrap.c"],
 [("decrypt into secure memory then import as stored key",I+"unwrap.c")],None,["sa_key_unwrap"])

p("C14","Asymmetric decryption inverts standard encryption and rejects the rest",
 "RSA PKCS#1 v1.5, RSA OAEP (every digest, MGF1 digest and label) and EC ElGamal decryption return exactly the plaintext that a standard implementation encrypted to the key's public component. Modified ciphertexts, wrong labels or digests, wrong lengths and too small output buffers are rejected without writing past the given output length.",
 ["inputs"],"all RSA sizes and curves, plaintext lengths, digests, labels, modified ciphertexts, output lengths",
 "Tests decrypt a fixed-length plaintext with a few parameter combinations.",
 [I+"rsa.c",I+"ec.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_crypto_cipher_init.c",C+"sa_crypto_cipher_process_last.c"],
 [("rsa_decrypt_pkcs1v15, rsa_decrypt_oaep, ec_decrypt_elgamal",I+"rsa.c")],None,["sa_crypto_cipher_process_last"])

p("C15","Content protected for secure video never reaches normal memory",
 "With a key that does not allow clear output, no decrypting operation delivers plaintext anywhere but into a secure-video-path buffer, and with any key nothing read from a secure-video-path buffer is delivered to a clear buffer. Such attempts are refused and leave clear buffers unmodified; allowed combinations of buffer types are not refused.",
 ["inputs","histories"],"all combinations of key rights, operations (cipher process, process last, CENC, copy, check, key check), buffer types and offsets",
 "Tests check a few refused combinations; the guarantee is that no call sequence moves protected bytes out.",
 [T+"ta_sa_crypto_cipher_process.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_process_common_encryption.c",T+"ta_sa_svp_buffer_copy.c",T+"ta_sa_svp_key_check.c",T+"ta_sa_svp_buffer_check.c",I+"rights.c",I+"buffer.c"],
 [("rights_allowed_clear and buffer type checks",I+"rights.c")],None,["contents of clear and SVP memory after each call"])

p("C16","SVP buffer operations move exactly the requested bytes within bounds",
 "Writing to, copying between and checking secure-video-path buffers affects exactly the ranges named by all of the offset entries, in order, and no other byte; if any entry reaches outside either buffer (including by arithmetic overflow) the call fails and changes nothing. Creating, releasing and checking return the memory, size and digest that belong to the buffer.",
 ["inputs","histories"],"all buffers, sizes, lists of (in offset, out offset, length) entries including empty, overlapping, boundary and overflowing ones, and sequences of operations",
 "Tests use a single offset entry with in-range values and one out-of-range value.",
 [P+"svp.c",I+"svp_store.c",I+"buffer.c",T+"ta_sa_svp_buffer_write.c",T+"ta_sa_svp_buffer_copy.c",T+"ta_sa_svp_buffer_check.c",T+"ta_sa_svp_buffer_create.c",T+"ta_sa_svp_buffer_release.c",C+"sa_svp_buffer_write.c",C+"sa_svp_buffer_copy.c"],
 [("range checks with overflow detection for every entry before any copy",P+"svp.c")],None,["SVP memory contents after each call"])

p("C17","Common encryption decrypts every sample layout as the standard says",
 "For every list of samples, subsample maps (clear/encrypted byte counts), crypt/skip patterns, IVs and AES-CTR or AES-CBC keys, processing produces exactly the plaintext defined by ISO/IEC 23001-7 (cenc, cens, cbc1, cbcs), leaves clear bytes intact, advances the buffer offsets by exactly the sample size and writes nothing else. Layouts that do not fit their buffers or are malformed are rejected without an out-of-range access, and the outcome does not depend on how samples are grouped into calls.",
 ["inputs"],"all sample, subsample, pattern and IV layouts including counter rollover, partial blocks, empty subsamples, several samples per call, clear and SVP buffers",
 "Tests use uniform subsample sizes and a few patterns; the layouts are a large combinatorial space with carry-over state between subsamples.",
 [I+"cenc.c",T+"ta_sa_process_common_encryption.c",C+"sa_process_common_encryption.c",I+"symmetric.c"],
 [("block-carry state across subsamples and counter-rollover splitting",I+"cenc.c")],None,["sa_process_common_encryption"])

p("C18","Arbitrary key containers and parameters are rejected cleanly",
 "Whatever bytes are given as a key to import or unwrap (symmetric, RSA, EC, exported, TypeJ and SoC containers, including deeply nested or malformed JSON and Base64) the call returns an error or a working key: it never crashes, hangs, reads or writes outside its buffers, frees memory twice, leaks, or depends on uninitialised memory. After any such call the session remains fully usable.",
 ["inputs"],"all byte strings and parameter structures accepted by the import interfaces, including structured near-valid containers",
 "Tests import a few hand-written broken containers; memory safety is over all inputs.",
 [I+"typej.c",I+"json.c",I+"soc_key_container.c",I+"key_store.c",I+"rsa.c",I+"ec.c",T+"ta_sa_key_import.c",U+"pkcs8.c",C+"sa_key_import.c"],
 [("parsers with length checks before every copy",I+"soc_key_container.c")],None,["sa_key_import under AddressSanitizer"])

p("C19","The TA command interface survives any command from the normal world",
 "Whatever command identifier, parameter types, parameter sizes, and parameter contents a client sends over a session, the TA answers with a status: it never accesses memory outside the supplied parameter buffers, crashes, hangs or blocks later commands. A command whose parameter layout is not the documented one is rejected and has no effect.",
 ["inputs","histories"],"all command identifiers, type combinations, sizes and contents of the four command parameters, in sequences on one session with live objects",
 "Tests call the interface only through the client library, which always builds well-formed commands.",
 [I+"ta.c",T+"ta_sa_crypto_cipher_process.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_process_common_encryption.c"],
 [("CHECK_* parameter validation per command",I+"ta.c")],None,["ta_invoke_command_handler under AddressSanitizer"])

p("C20","Running out of memory fails cleanly at every point",
 "If any single memory allocation inside any operation (also one made through the OpenSSL provider, and also the very first use) fails, the operation reports an error (or still completes correctly), nothing is leaked, no lock stays held, no partially created handle stays behind, and the same operation succeeds when repeated with memory available. Already existing keys and contexts keep their values.",
 ["fault_sequences","histories"],"every allocation site reached by every operation, for generated operations and parameters",
 "No test injects allocation failure.",
 [P+"memory.c",I+"object_store.c",I+"key_store.c",I+"stored_key.c",I+"typej.c",I+"json.c",I+"symmetric.c",I+"cipher_store.c",I+"mac_store.c",I+"client_store.c",L+"sa_provider.c",L+"sa_provider_keymgt.c",L+"sa_provider_kdf.c"],
 [("error paths releasing what was acquired",I+"key_store.c")],None,["status, heap balance and later operations"],"allocation functions intercepted at link time; no change to /repo")

p("C21","Length queries and output limits are exact",
 "For every operation with a variable-length output, a call without an output buffer reports the length that the same call then needs and changes no state; a call with a buffer at least that long succeeds and reports exactly the bytes it wrote; a shorter one is refused with nothing consumed. No call writes past the length or offset the caller gave, and a refused call can be repeated correctly.",
 ["inputs","histories"],"all variable-length operations (export, header, public key, digest, sign, MAC, cipher, name), all offered lengths and offsets",
 "Tests use a query followed by an exact buffer; shorter, longer and repeated calls over all operations are not covered.",
 [T+"ta_sa_key_export.c",T+"ta_sa_key_get_public.c",T+"ta_sa_key_digest.c",T+"ta_sa_crypto_sign.c",T+"ta_sa_crypto_mac_compute.c",T+"ta_sa_crypto_cipher_process.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_get_name.c",I+"buffer.c",C+"sa_key_export.c"],
 [("required-length computation before the operation",T+"ta_sa_crypto_cipher_process.c")],None,["status, reported length and guard bytes around outputs"])

p("C22","TypeJ keys are accepted only if authentic and get exactly the named rights",
 "A TypeJ container is imported exactly when its MAC verifies under the given MAC key, it is complete and well formed, and its key data decrypts under the given cipher key; the resulting key is the contained key, and its type, usage, output protections, validity and entitled TA identifiers are those stated in the container. Any modification of header, payload or MAC is rejected.",
 ["inputs"],"all TypeJ payloads (field values, orders, optional fields, ladders, algorithms, versions), all modifications, wrong keys",
 "Tests build a few containers; the mapping of field combinations and tamper rejection quantify over all containers.",
 [I+"typej.c",I+"json.c",I+"hmac_context.c",I+"rights.c",T+"ta_sa_key_import.c"],
 [("MAC check before parsing, field-by-field parsing of the payload",I+"typej.c")],None,["sa_key_import, sa_key_header, sa_key_digest"])

p("C23","SoC key containers are accepted only if authentic and give the named rights",
 "A SoC key container is imported exactly when it is well formed and its authentication tag verifies under the device (or common) root key for precisely the stated header and payload fields; the resulting key is the contained key and its rights are those the key usage, decrypted key usage and entitled TA identifiers state. Any modification of any field is rejected. Provisioning keys for another TA succeeds exactly when each container delivered would be imported, and leaves no key behind.",
 ["inputs"],"all containers over version, key type, usage, ladder inputs, TA lists, IVs, all modifications",
 "Tests use fixed containers; authenticity is over all modifications and field combinations.",
 [I+"soc_key_container.c",I+"json.c",I+"ta.c",P+"otp.c",T+"ta_sa_key_import.c"],
 [("AES-GCM with the container fields as additional data",I+"soc_key_container.c")],None,["sa_key_import, sa_key_header, sa_key_digest"])

p("C24","Concurrent callers behave as if their calls ran one after another",
 "When several threads use one session, or several sessions, concurrently on shared and private keys, ciphers, MACs and SVP buffers (directly or through the OpenSSL provider), including creating and releasing them, every call returns a result that some sequential order of the calls could give. There is no data race, crash, deadlock, lost or doubly used handle, or leak.",
 ["schedules","histories"],"all interleavings of operations from several threads over shared handles",
 "Tests run a fixed threaded workload on independent objects without a sanitizer.",
 [I+"object_store.c",I+"slots.c",I+"cipher_store.c",I+"mac_store.c",I+"svp_store.c",I+"client_store.c",C+"internal/client.c",P+"otp.c",L+"sa_provider.c",L+"sa_provider_keymgt.c"],
 [("store mutex, per-object mutex and reference counts",I+"object_store.c")],[("ref_count","pins objects in use",I+"object_store.c")],["results of concurrent calls under ThreadSanitizer and AddressSanitizer"])

p("C25","Secret key material is erased from memory before it is given back",
 "When an operation has finished, no heap memory the library allocated for key material, intermediate keys or decrypted key containers is returned to the allocator still holding those secret bytes, whether the operation succeeded or failed, and numbers it obtained from OpenSSL are cleared when it frees them (memory internal to OpenSSL is OpenSSL's affair). Between operations the plaintext of a stored key is not held in its key object.",
 ["inputs","histories"],"all key types and operations, success and failure paths",
 "Functional tests cannot see freed memory.",
 [P+"memory.c",I+"stored_key.c",I+"key_store.c",I+"unwrap.c",I+"kdf.c",I+"typej.c",I+"soc_key_container.c",I+"ec.c",I+"dh.c",I+"netflix.c",P+"otp.c",P+"svp.c"],
 [("memory_memset_unoptimizable before memory_secure_free",P+"memory.c")],None,["contents of every heap block at the moment it is freed"],"malloc/free hooks of the sanitizer runtime; no change to /repo")

p("C26","Generated keys are fresh and match their header, digest and public component",
 "A generated key has exactly the requested type, size, curve or group, never repeats, and its public component, digest and private operations all belong to the same key. For every key, however created, the public component and digest reported equal those of the same key material, random output fills exactly the requested length, and requests for unsupported sizes, curves or groups are rejected.",
 ["inputs"],"all key types, sizes, curves, DH groups and digests",
 "Tests generate one key per supported size and do not cross-check digest, public component and private operation over arbitrary keys.",
 [T+"ta_sa_key_generate.c",T+"ta_sa_key_get_public.c",T+"ta_sa_key_digest.c",T+"ta_sa_key_header.c",I+"digest.c",I+"rsa.c",I+"ec.c",I+"dh.c",I+"symmetric.c",P+"rand.c",T+"ta_sa_crypto_random.c"],
 [("generation through the TEE random source",P+"rand.c")],None,["sa_key_generate, sa_key_get_public, sa_key_digest, sa_key_header, sa_crypto_random"])

p("C27","The OpenSSL provider gives the same results as OpenSSL itself",
 "Every cipher, MAC, digest-sign, key-derivation, key-exchange and asymmetric-decryption operation carried out through the SecAPI OpenSSL provider on a SecAPI key gives the same result as OpenSSL's own implementation with the same key material, for any chunking and parameters (KBKDF: the NIST SP 800-108 construction SecAPI documents; Diffie-Hellman secrets always padded); unsupported requests fail without a wrong result, and the settings of a context (padding, digests, salt length, label, IV, sizes) read back as they are.",
 ["inputs","histories"],"all algorithms the provider registers, parameters, data and chunkings",
 "Tests exercise each algorithm with one length and chunking.",
 [L+"sa_provider_cipher.c",L+"sa_provider_mac.c",L+"sa_provider_signature.c",L+"sa_provider_kdf.c",L+"sa_provider_keyexch.c",L+"sa_provider_asym_cipher.c",L+"sa_provider_keymgt.c",L+"sa_provider_digest.c",L+"sa_provider.c"],
 [("provider dispatch tables translating EVP calls to sa_* calls",L+"sa_provider.c")],None,["EVP_* results with the provider"])

p("C28","Objects never leak: capacity is always recoverable",
 "After any sequence of successful and failed calls, once everything obtained has been released (or the session closed), the full number of keys, ciphers, MACs and SVP buffers can be created again and no memory remains allocated for them. A call that fails creates no object and consumes no capacity, and a full store rejects new objects without disturbing existing ones.",
 ["histories","fault_sequences"],"all sequences of successful and failing calls of all kinds, sessions opened and closed",
 "Tests do not fill the stores or count capacity after failures.",
 [I+"object_store.c",I+"slots.c",I+"client_store.c",T+"ta_sa_init.c",T+"ta_sa_close.c",I+"cipher_store.c",I+"mac_store.c",I+"svp_store.c",I+"key_store.c"],
 [("release on every error path",I+"object_store.c")],None,["number of objects that can still be created; heap balance"])

p("C29","Multi-step operations are atomic per call: refused calls change nothing",
 "A cipher or MAC call that is refused (wrong handle, arguments, lengths, buffer type, or rights) leaves the context exactly as it was, so continuing gives the result as if the refused call had never been made; a cipher accepts no further data after its last block. This holds for every position in the sequence at which a refused call can occur.",
 ["histories","fault_sequences"],"all sequences of valid calls with refused calls inserted anywhere, all algorithms",
 "Tests check the refusal itself and then discard the context.",
 [T+"ta_sa_crypto_cipher_process.c",T+"ta_sa_crypto_cipher_process_last.c",T+"ta_sa_crypto_cipher_update_iv.c",T+"ta_sa_crypto_mac_process.c",T+"ta_sa_crypto_mac_process_key.c",T+"ta_sa_crypto_mac_compute.c",I+"symmetric.c",I+"cipher_store.c"],
 [("validation before any context update",T+"ta_sa_crypto_cipher_process.c")],None,["later results of the same context"])

p("C30","Root keys come only from an intact, correctly unlocked keystore",
 "Loading the named root secret from a PKCS#12 keystore returns exactly the stored secret and its name when password and integrity check are right, for any secret and name; with a wrong password, a modified file or a missing entry it fails and returns no key. Malformed files never crash the loader or overrun the caller's buffers.",
 ["inputs"],"all keystore contents, names, passwords, modifications",
 "Tests load the one shipped keystore.",
 [U+"pkcs12.c",P+"otp.c"],
 [("MAC verification and bag decryption",U+"pkcs12.c")],None,["load_pkcs12_secret_key"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(props))
