"""The properties: their text, and the contracts each one is made of.  gen.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, level, contracts, **kw):
    PROPS[pid] = dict(level=level, contracts=contracts, **kw)


def na(pid, **kw):
    NOT_APPLICABLE[pid] = kw


def C(file, entry, what, **kw):
    """A contract: harness/<file>.cpp, H_<entry>.  bound: the contract is a bounded stand-in, and this is its bound."""
    if "bound" in kw:
        kw["kind"] = "bounded"
    return dict(file=file, entry=entry, what=what, **kw)


KAT = "The tests compare a few published vectors and random round trips: "

prop("P01", "proof", [
    C("aes", "aes_enc", "encryption of a block equals FIPS-197"),
    C("aes", "aes_dec", "decryption of a block equals FIPS-197"),
    C("aes", "aes_wide", "the 2, 4, 8 and 16 block transforms equal FIPS-197 on every block"),
    C("aes", "aes_extended", "the same with round keys from an arbitrary derivation function of key, name and info"),
],
    title="AES is FIPS-197 on every key and block, through every interface",
    statement="For every 128, 192 and 256-bit key and every block, the software Rijndael cipher encrypts and decrypts as FIPS-197 says, whichever of its block calls is used; with key extension (32 and 64-byte keys) the rounds are the same over round keys from the derivation function. The 2, 4, 8 and 16 block transforms do the same to each of their blocks in place order, write nothing outside the addressed output blocks, and leave the input unchanged. Decryption is therefore the inverse of encryption.",
    qtext="every key of 16, 24 or 32 bytes, every block content, every block interface, both directions",
    why=KAT + "they reach a few thousand of the 2^384 key and block pairs, and do not compare the wide transforms on unrelated blocks.",
    files=["CEX/RHX.cpp", "CEX/Rijndael.h"],
    mechanism=[("key schedule and its inverse", "RHX::StandardExpand"), ("round functions", "RHX::Encrypt128, Decrypt128 and the wide transforms")])

prop("P02", "proof", [
    C("serpent", "serpent_box", "each S-box and inverse S-box, on words and on vectors, equals its table"),
    C("serpent", "serpent_enc", "encryption of a block equals Serpent"),
    C("serpent", "serpent_dec", "decryption of a block equals Serpent"),
    C("serpent", "serpent_wide", "the 2, 4, 8 and 16 block transforms equal Serpent on every block"),
    C("serpent", "serpent_extended", "the same with round keys from an arbitrary derivation function of key, name and info"),
],
    title="Serpent is the published cipher on every key and block",
    statement="For every key of 128, 192 or 256 bits (and the library's 512-bit, 40-round form) and every block, the Serpent cipher encrypts and decrypts as the published algorithm says; with key extension the rounds are the same over derived round keys. The 2, 4, 8 and 16 block transforms give each block what the single block transform gives it, and write nothing else. The bitsliced S-boxes and their inverses, scalar and vector, compute the published tables.",
    qtext="every legal key, every block content, every block interface, both directions",
    why=KAT + "the S-box circuits, the key schedule and the SIMD paths are sampled at a vanishing fraction of their inputs.",
    files=["CEX/SHX.cpp", "CEX/Serpent.h"],
    mechanism=[("S-boxes", "Serpent.h"), ("key schedule and rounds", "SHX::StandardExpand, Encrypt128, Decrypt128")])

prop("P03", "proof", [
    C("perm", "keccak", "the permutation at 12, 24 and 48 rounds and the unrolled forms equal Keccak-f"),
    C("perm", "keccak_x4", "the 4-lane AVX2 forms equal Keccak-f on every lane"),
],
    title="Every form of the Keccak permutation computes Keccak-f[1600]",
    statement="On every 1600-bit state, every implementation of the Keccak permutation (compact, unrolled, and each lane of the AVX2 forms; 12, 24 and 48 rounds) computes the Keccak-f round function of FIPS 202 that many times.",
    qtext="every 1600-bit state (6400-bit for the vector forms), every form and round count",
    why=KAT + "a fault in one lane, rotation or late round constant can escape digests of short messages on the one form the build selects.",
    files=["CEX/Keccak.cpp", "CEX/Keccak.h"], mechanism=[("permutations", "Keccak::Permute*")])

prop("P04", "proof", [
    C("perm", "sha256_c", "compact, unrolled and SHA-NI forms equal the FIPS 180-4 compression"),
    C("perm", "sha256_x8", "the 8-lane AVX2 form equals the compression on every lane"),
    C("perm", "sha512_c", "compact and unrolled forms equal the FIPS 180-4 compression"),
    C("perm", "sha512_x4", "the 4-lane AVX2 form equals the compression on every lane"),
],
    title="Every form of the SHA-2 compression computes FIPS 180-4",
    statement="For every chaining value and every message block, every implementation of the SHA-256 and SHA-512 compression (compact, unrolled, SHA-NI, and each lane of the 8-way and 4-way AVX2 forms) computes the FIPS 180-4 compression of the block at the given offset.",
    qtext="every chaining value and message block, every form, every lane",
    why=KAT + "the tests run only the form the build selects, on a few messages; the multi-lane forms are compared on related lanes.",
    files=["CEX/SHA2.cpp", "CEX/SHA2.h"], mechanism=[("compressions", "SHA2::PermuteR64P512*, PermuteR80P1024*, PermuteR64P8x512H, PermuteR80P4x1024H")])

prop("P05", "proof", [
    C("perm", "blake256_c", "compact, unrolled and SSE forms equal the RFC 7693 mixing"),
    C("perm", "blake512_c", "compact, unrolled and AVX2 forms equal the RFC 7693 mixing"),
    C("perm", "blake256_x8", "the 8-lane form equals the mixing on every lane"),
    C("perm", "blake512_x4", "the 4-lane form equals the mixing on every lane"),
],
    title="Every form of the BLAKE2 compression computes RFC 7693",
    statement="For every chaining value, working vector and message block, every implementation of the BLAKE2s and BLAKE2b compression (compact, unrolled, single-message SIMD, and each lane of the multi-lane forms) computes the mixing and feed-forward of RFC 7693.",
    qtext="every chaining value, initialization vector and message block, every form, every lane",
    why=KAT + "only the form the build selects is run, on a few messages.",
    files=["CEX/Blake.cpp", "CEX/Blake.h"], mechanism=[("compressions", "Blake::PermuteR10P512*, PermuteR12P1024*, PermuteR10P8x512H, PermuteR12P4x1024H")])

prop("P06", "proof", [
    C("perm", "chacha_c", "compact and unrolled forms equal the ChaCha block function"),
    C("perm", "chacha_x4x8", "the 8-block AVX2 form equals the block function on every block"),
    C("perm", "csx512_c", "the 1024-bit block function equals its definition"),
    C("perm", "csx512_x4", "the 4-block AVX2 form equals the 1024-bit block function on every block"),
    C("perm", "threefish_c", "compact and unrolled forms equal Threefish"),
    C("perm", "threefish_x4", "the 4-lane AVX2 forms equal Threefish on every lane"),
],
    title="Stream cipher block functions agree in every form and on every input",
    statement="For every key, counter and tweak, the scalar and the SIMD block functions of the ChaCha, 1024-bit ChaCha and Threefish-256/512/1024 stream ciphers produce the same blocks, those of the published round functions (with the library's constants). They write only the addressed output and leave key state and counter as they were.",
    qtext="every key state, counter and tweak, every form, every lane",
    why=KAT + "the vectors cover a handful of keys, and a wide lane is compared only through long-message tests with small counters.",
    files=["CEX/ChaCha.h", "CEX/Threefish.h"], mechanism=[("block functions", "ChaCha::Permute*, Threefish::Pemute*")])

prop("P12", "other", [
    C("modes", "mode_block", "one block through every interface, from any chaining value, and the chaining value it leaves"),
    C("modes", "mode_blocks", "ECB and CBC", bound="0 to 18 blocks in a call"),
    C("modes", "mode_feedback", "CFB at each register size and OFB", bound="0 to 6 segments in a call"),
    C("modes", "mode_counter", "CTR and ICM", bound="0 to 276 bytes in a call"),
],
    title="Block cipher modes are SP 800-38A over whatever cipher they are given",
    statement="Whatever permutation the block cipher computes, ECB, CBC, CFB, OFB, CTR (big-endian counter) and ICM (little-endian counter) produce the SP 800-38A output for the key, IV, direction, offsets and length they are given, and carry the chaining value so that a sequence of calls equals one call on the joined data. Counters wrap at 128 bits and not before. Nothing outside the addressed output is written, and the input is unchanged.",
    over=["inputs", "histories", "configurations"],
    qtext="every block cipher, key, IV and counter value, every data content, each length in the stated range, every next call",
    why=KAT + "a chaining value kept wrongly, a counter carry or a wide-path offset shows only at particular lengths and IVs.",
    files=["CEX/ECB.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/OFB.cpp", "CEX/CTR.cpp", "CEX/ICM.cpp"],
    mechanism=[("sequential processing and chaining state", "Transform, ProcessSequential, Encrypt128, Decrypt128 of each mode")])

prop("P13", "other", [
    C("modes", "mode_parallel", "parallel processing equals sequential processing; tasks share no written memory", bound="2 and 4 tasks, 1 and 2 parallel blocks, tails of 0, 16 and 133 or 144 bytes"),
],
    title="Parallel processing gives the sequential result under every schedule",
    statement="With parallel processing on, each block cipher mode produces exactly the output and final chaining value of sequential processing, for every task count and any data. No memory one task writes is read or written by another, so every schedule of the tasks gives that result.",
    over=["inputs", "schedules", "configurations"],
    qtext="every interleaving of the tasks, every block cipher, key, IV and data, the stated sizes",
    why="A test runs one schedule per execution, on one processor count and a few lengths; a shared temporary or a wrong per-task counter offset can pass by luck.",
    files=["CEX/ECB.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/ParallelTools.cpp"],
    mechanism=[("task partition and per-task state", "ProcessParallel of each mode")])

prop("P07", "proof", [
    C("perm", "skein_c", "the nine forms equal the Threefish of the Skein 1.3 paper"),
],
    title="Every form of the Skein compression computes Threefish as Skein 1.3 defines it",
    statement="For every chaining value, tweak and message block, every implementation of the Skein-256, Skein-512 and Skein-1024 compression (compact, unrolled, SIMD) computes the Threefish encryption that Skein 1.3 defines, with the feed-forward applied where the form documents it.",
    qtext="every chaining value, tweak and message block, every form",
    why=KAT + "only the form the build selects is run, on a few messages.",
    files=["CEX/Skein.cpp", "CEX/Skein.h"], mechanism=[("compressions", "Skein::PemuteP256C, PemuteP512C, PemuteP1024C, PemuteR72P*U, PemuteR80P1024U and the vector forms")])

prop("P08", "other", [
    C("digest", "digest_split", "a message given in parts hashes as one", bound="a first part of up to a block and a byte, a total of about three blocks"),
    C("digest", "digest_whole", "the digest of a whole message equals the standard's, from any chaining state", bound="up to about three blocks in a call"),
    C("digest", "digest_forms", "Compute, Update of one byte, Reset and reuse after Finalize", bound="up to about three blocks"),
    C("digest", "digest_long", "the end of a message of any length: padding and length count after any number of blocks", bound="tails of up to about two blocks; the number of blocks before them is any up to 2^60 bytes"),
],
    title="Sequential digests are the published functions of the message alone",
    statement="For SHA-2 (256, 512), SHA-3 (256, 512), BLAKE2s, BLAKE2b and Skein (256, 512, 1024) in sequential mode, the digest depends only on the message and equals the standard's padding, counting and chaining over the compression function. It does not depend on how the message is divided between Update calls or at which offset the bytes lie. After Finalize or Reset the object behaves as a new one.",
    over=["inputs", "histories"],
    qtext="every message content and compression function, every split and length in the stated range",
    why=KAT + "an error at a block edge, at a split inside a block, or in state left from an earlier message shows only at particular lengths and histories.",
    files=["CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp"],
    mechanism=[("buffering, padding, length counting", "Update, Finalize, HashFinal and Reset of each digest")])

prop("P20", "other", [
    C("inttools", "convert", "integers to and from bytes, both byte orders, array and raw forms"),
    C("inttools", "blocks", "runs of words to and from bytes"),
    C("inttools", "counters", "increment and increase are addition modulo 2^(8n)", bound="counters of 1 to 24 bytes, every value"),
    C("inttools", "nonces", "increases of the 16 byte counter at the head of a longer nonce", bound="nonces of 16 bytes and more, plain and secure vectors"),
    C("inttools", "words", "double word counters carry from the low word to the high one, also in place"),
    C("inttools", "masks", "masks, selections, minimum, maximum and absolute difference"),
    C("inttools", "rotate", "rotations, crop, parity, byte extraction"),
    C("inttools", "compare", "equality and conditional moves", bound="runs of 0 to 40 bytes, every content"),
    C("inttools", "shift", "left shift of an array by one bit", bound="arrays of 1 to 20 bytes"),
],
    title="Integer conversions, counters, rotations and masks compute what they name",
    statement="For every value, integer to byte conversions are exact in both byte orders, rotations rotate, and masks, selections and comparisons return what they are named for. Increments and increases of byte and word counters are additions with every carry propagated, and the comparison of two runs is true exactly when all bytes agree. Nothing outside the named elements is written.",
    qtext="every value, content and counter, at each stated size",
    why="The tests of these helpers try a few values; a lost carry needs a counter and an addend that sum to a particular byte pattern.",
    files=["CEX/IntegerTools.h"], mechanism=[("conversions, counters and masks", "IntegerTools")])

prop("P21", "other", [
    C("memtools", "runs", "copy, move, clear, set, xor, and, or, pad and compare, in every form", bound="runs of 0 to 132 bytes, element types of 1, 4 and 8 bytes, two offsets each"),
],
    title="Memory operations change exactly the bytes they are told to",
    statement="Copy, move, clear, set, xor, and, or and their raw, object and value forms give each byte of the named run its specified value, for every content and length, across the vector and remainder paths. They write nothing outside that run and leave the source as it was.",
    qtext="every content of the run, each stated length, type and offset",
    why="The tests use lengths that are multiples of the vector size; the remainder paths and the mixed element types are hardly run.",
    files=["CEX/MemoryTools.h"], mechanism=[("vector loops and remainders", "MemoryTools")])

prop("P10", "other", [
    C("tree", "tree_leaves", "the tree digest is its definition, however the message is divided", bound="2 and 4 leaves, 21 lengths up to 6 stripes, 7 divisions each"),
    C("tree", "tree_default", "the same with the default number of leaves, on a processor with fewer threads", bound="8 leaves (4 for BLAKE2b), the same lengths and divisions"),
    C("tree", "tree_degree", "the same after another number of leaves is asked for", bound="2 and 10 leaves, 5 lengths up to 4 stripes"),
    C("tree", "tree_long", "the end of a message of any length, two leaves", bound="tails up to 4 stripes; any number of stripes before them"),
],
    title="Parallel digests cover every byte, on every processor and under every schedule",
    statement="In parallel mode each digest deals the message's blocks to its leaves in turn and hashes the leaf results at the root: BLAKE2 as BLAKE2sp and BLAKE2bp, SHA-2 and SHA-3 with a standard root over leaves that start with a distinct node block, Skein over chained leaf states. Every message byte enters exactly one leaf; the result depends on the message and the number of leaves asked for, not on how the message is divided between calls or on the number of processors. The leaf tasks share no written memory, so every schedule gives that result.",
    over=["inputs", "histories", "schedules", "configurations"],
    qtext="every message content and compression function, every schedule of the leaf tasks, the stated lengths, divisions and numbers of leaves",
    why="The tests hash a few short messages on one machine; a dropped or repeated block needs a length beyond the buffer, a division at a particular place, or another processor.",
    files=["CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp", "CEX/ParallelOptions.cpp"],
    mechanism=[("dealing blocks to leaves, buffering, root", "Update, Finalize, ProcessLeaf and ParallelMaxDegree of each digest"), ("number of tasks", "ParallelOptions")])

prop("P09", "other", [
    C("xof", "shake_key", "SHAKE output for a key", bound="keys of 4 bytes to two rates and more, outputs up to two rates and 13 bytes, two requests"),
    C("xof", "shake_custom", "cSHAKE output for a name and a customization", bound="names and customizations of 0 bytes to a rate and 35"),
    C("xof", "kmac_key", "KMAC tag for a key and a customization", bound="keys and customizations of up to about a rate and more"),
    C("xof", "kmac_message", "KMAC tag for a message however it is divided", bound="messages up to about three rates"),
    C("xof", "xof_compact", "the one-call forms of Keccak", bound="inputs up to about two rates"),
    C("xof", "xof_pieces", "incremental absorbing, any division", bound="messages up to about two rates"),
    C("xof", "xof_encodings", "left_encode and right_encode of every 64-bit number"),
],
    title="SHAKE, cSHAKE and KMAC are FIPS 202 and SP 800-185 at every length",
    statement="For every key, customization, function name and message, SHAKE, cSHAKE and KMAC at rates 168, 136 and 72 return the FIPS 202 or SP 800-185 output over the Keccak permutation, including where an encoded length or string crosses the rate boundary. The output does not depend on how the message is divided between calls. Only the addressed output bytes are written.",
    over=["inputs", "histories", "configurations"],
    qtext="every content of key, strings and message, and every permutation, at each length in the stated range",
    why=KAT + "a string whose encoding straddles the rate, or a message divided inside a word, shows only at particular lengths.",
    files=["CEX/Keccak.h", "CEX/SHAKE.cpp", "CEX/KMAC.cpp"],
    mechanism=[("absorbing, encoding, squeezing", "Keccak::Absorb, Incremental, Customize, XOFP1600, CXOFP1600, MACP1600"), ("SHAKE", "SHAKE::Initialize, Generate"), ("KMAC", "KMAC::Initialize, Update, Finalize")])

prop("P11", "other", [
    C("kdf", "hmac", "the tag over an arbitrary hash, key after key and message after message", bound="every key length of 4 to two blocks and 5 bytes, messages up to two blocks and 7 bytes"),
    C("kdf", "hmac_sha2", "the SHA-2 forms use SHA-256 and SHA-512", bound="three key lengths, a 70 byte message"),
],
    title="HMAC is RFC 2104 over whatever digest it is given",
    statement="Whatever function the digest computes, HMAC returns the RFC 2104 tag of the message under the key it was last initialized with, for keys shorter than, equal to and longer than the block. Divided messages, reuse after Finalize and a new key over an unfinished message do not change it. Only the addressed output is written.",
    over=["inputs", "histories"],
    qtext="every digest function, key content and message content, each length in the stated range",
    why=KAT + "key lengths around the block and reuse after an unfinished message are not among them.",
    files=["CEX/HMAC.cpp", "CEX/HMAC.h"], mechanism=[("pads, key hashing and reset", "HMAC::Initialize, Update, Finalize, Reset")])

prop("P17", "other", [
    C("kdf", "hkdf", "HKDF output over an arbitrary hash", bound="40 shapes of key, salt, info and output lengths, two requests each"),
    C("kdf", "hkdf_extract", "HKDF extraction and the 255 block limit", bound="three salt lengths; 255 and 256 blocks"),
    C("kdf", "kdf2", "KDF2 output over an arbitrary hash", bound="40 shapes of lengths, two requests each"),
    C("kdf", "pbkdf2", "PBKDF2 output over an arbitrary hash", bound="30 shapes of lengths, 1, 2 and 5 iterations, two requests each"),
    C("kdf", "scbkdf", "SCBKDF output over the permutation", bound="14 shapes of lengths, 1 to 4 rounds, memory cost 0 and 1, two requests each"),
    C("kdf", "pbkdf2_far", "the block number carries through all its bytes", bound="299 blocks, then two blocks at any number the limit allows"),
    C("kdf", "kdf2_limit", "KDF2 up to its limit, and refused beyond", bound="254 and 300 blocks"),
],
    title="Key derivation is a function of key, salt and info alone, and as published",
    statement="Whatever function the digest computes, HKDF (RFC 5869), KDF2 (ISO 18033), PBKDF2 (RFC 8018) and SCBKDF return the output their definition gives for the key, salt and info of the last Initialize, and successive requests continue the counter. Nothing of an earlier key, salt or info enters a later output, requests beyond HKDF's 255 blocks are refused, and only the addressed output is written.",
    over=["inputs", "histories", "configurations"],
    qtext="every digest function and every content of key, salt and info, at each stated shape of lengths",
    why=KAT + "each test uses a new object; material left from an earlier key, or an output placed at an offset, is never observed.",
    files=["CEX/HKDF.cpp", "CEX/KDF2.cpp", "CEX/PBKDF2.cpp", "CEX/SCBKDF.cpp"],
    mechanism=[("loading of key, salt and info", "Initialize of each KDF"), ("counter and output", "Expand and Generate of each KDF")])

prop("P14", "other", [
    C("aead", "gcm", "GCM sealing and opening over an arbitrary block function", bound="8 histories of 5 keys and 3 messages, texts of 0 to 90 bytes, associated data of 0 to 70"),
    C("aead", "gcm_forged", "a changed GCM tag is refused", bound="texts and data of 0, 5, 16 and 37 bytes; every tag"),
    C("aead", "hba", "HBA sealing and opening over an arbitrary block function and MAC permutation", bound="4 histories of 5 keys and 3 messages per authenticator"),
    C("aead", "hba_forged", "a changed HBA tag is refused", bound="texts and data of 0, 5, 16 and 37 bytes; every tag"),
    C("aead", "aad_bounds", "associated data ranges beyond the array are refused", bound="arrays of 0, 5, 10 and 15 bytes"),
    C("aead", "short_data", "inputs and outputs without room for the tag are refused", bound="a text of 37 bytes; 1 byte, half a tag and a whole tag missing"),
    C("aead", "hba_far", "HBA after any number of bytes", bound="three messages, the later ones at any byte count"),
    C("aead", "ghash_lengths", "GHASH closes with the lengths, for every 61-bit pair"),
    C("mac", "gmul", "the carry-less multiplication under GCM's hash"),
],
    title="AEAD modes seal as defined, open only what was sealed, release no forgeries",
    statement="Whatever function the block cipher computes, GCM returns the text and tag of NIST SP 800-38D and HBA those of its definition, for every key, nonce, associated data and message of a history of uses. Opening returns the text exactly when the tag is the computed one; otherwise it throws and writes no plaintext. Only the addressed output is written, and calls whose arrays cannot hold text and tag are refused.",
    over=["inputs", "histories", "configurations"],
    qtext="every block function and every content of keys, nonces, data, texts and tags, at each stated shape of lengths and sequence of calls",
    why=KAT + "a forged tag of any pattern, or what an earlier message left in the hash state, is beyond samples.",
    files=["CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/GHASH.cpp", "CEX/CMUL.h"],
    mechanism=[("GCM and HBA state between messages", "Initialize, SetAssociatedData, Transform, CalculateMac of GCM and HBA"), ("hash multiplication", "CMUL::Multiply"), ("tag comparison", "Verify of GCM and HBA")])
prop("P15", "other", [
    C("mac", "gmul", "the carry-less multiplication under GMAC"),
    C("mac", "cmac", "CMAC over an arbitrary block function", bound="4 histories of keys and messages up to about 5 blocks, fed in pieces"),
    C("mac", "gmac", "GMAC over an arbitrary block function", bound="4 histories of keys and messages up to about 5 blocks, fed in pieces"),
    C("mac", "gmac_long", "GMAC of a message of any length", bound="tails of up to 31 bytes; any number of blocks before them"),
],
    title="CMAC and GMAC tags are the published function of key and whole message",
    statement="Whatever function the block cipher computes, CMAC returns the tag of NIST SP 800-38B and GMAC that of SP 800-38D for the key, nonce and concatenated message, however the message is divided over Update calls. A tag does not depend on earlier messages or keys, and is written only at the addressed place.",
    over=["inputs", "histories", "configurations"],
    qtext="every block function and every content of keys, nonces and messages, at each stated division into calls",
    why=KAT + "the tests feed a message in one call and start from a new object.",
    files=["CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/GHASH.cpp", "CEX/CMUL.h"],
    mechanism=[("buffering and subkeys", "Update, Finalize, GenerateSubkey of CMAC"), ("hashing", "GHASH::Update and FinalizeBlock"), ("multiplication", "CMUL::Multiply")])
prop("P16", "other", [
    C("stream", "sequential", "sealing and opening one message after another, keystream over arbitrary generators", bound="4 histories of 4 keys and 3 messages per cipher, texts up to 12 blocks"),
    C("stream", "parallel", "the same output when the work is shared between threads", bound="2 and 4 threads, four sizes around the shared part"),
    C("stream", "forged", "a changed tag is refused", bound="texts of 0, 5 and 300 bytes; every tag"),
    C("stream", "sizes", "keys, nonces and info of unsupported size are refused", bound="eleven wrong sizes per cipher"),
    C("stream", "bounds", "inputs and outputs without room for the tag are refused", bound="one text; 1 byte, half a tag and a whole tag missing"),
    C("stream", "one_block", "RCS and RWS rounds against wide Rijndael, every key size", bound="17 blocks of RCS, one of RWS"),
    C("stream", "far", "any position of the keystream, any number of bytes before", bound="three calls, the later ones at any 64-bit position and byte count"),
],
    title="Stream ciphers output their keystream; sealed messages open only unchanged",
    statement="ChaChaP20, CSX512, TSX256/512/1024, RCS and RWS combine the text with the keystream their definition gives for key, nonce, info and position, the same sequentially, in wide registers and with work shared between threads, each counter value used once. In authenticated form the tag covers data, text and length as defined; opening returns the text exactly when the tag is right, and otherwise throws and writes none. Only the addressed output is written.",
    over=["inputs", "histories", "configurations", "schedules"],
    qtext="every generator function, every content of keys, nonces, info, data and texts, at each stated shape of lengths, sequence of calls and number of threads",
    why=KAT + "counter carries, remainders after the parallel part, and tags of every pattern are beyond samples.",
    files=["CEX/ChaChaP20.cpp", "CEX/CSX512.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp", "CEX/TSX1024.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp"],
    mechanism=[("keystream and counter", "Generate, Process, ProcessParallel, ProcessSequential of each cipher"), ("keying", "Initialize of each cipher"), ("authentication", "Transform, Finalize, SetAssociatedData of each cipher")])

prop("P18", "other", [
    C("drbg", "hcg", "HMAC generator output over an arbitrary hash", bound="8 histories of keys, requests and updates, per hash and form of call"),
    C("drbg", "hcg_reseed", "HMAC generator output with an entropy source", bound="two hashes, requests past the reseed threshold"),
    C("drbg", "csg", "Keccak generator output over the permutation", bound="12 histories of keys, customizations, requests and updates, per rate"),
    C("drbg", "csg_reseed", "Keccak generator output with an entropy source", bound="three rates, requests past the reseed threshold"),
    C("drbg", "bcg", "block cipher generator output over an arbitrary round function", bound="three key sizes, 4 forms of call, one history each"),
    C("drbg", "bcg_reseed", "block cipher generator output with an entropy source", bound="three key sizes, requests past the reseed threshold"),
    C("drbg", "bcg_parallel", "the same output when the work is shared between threads", bound="2 and 4 threads, four sizes around the shared part"),
    C("drbg", "bcg_block", "the block function of the generator against wide Rijndael", bound="three key sizes, one block"),
],
    title="Deterministic generators output a function of seed and requests alone",
    statement="HCG, CSG and BCG produce the bytes their definition gives for key, nonce, info, the requests made so far and the bytes of any entropy source, whatever hash, permutation or block function lies beneath, through every form of request and with work shared between threads. An update or a reseed replaces the state as defined, and initialization forgets the earlier one. Short keys, uninitialized use and output ranges beyond the array are refused with nothing written.",
    over=["inputs", "histories", "configurations", "schedules"],
    qtext="every underlying function, every content of keys, nonces, info and entropy, at each stated sequence of sizes",
    why=KAT + "the tests of the generators mostly compare output statistics; a repeated counter block or a stale state still looks random.",
    files=["CEX/HCG.cpp", "CEX/CSG.cpp", "CEX/BCG.cpp"],
    mechanism=[("output", "Generate and the private fill functions of each generator"), ("counters and sharing", "BCG::Process, BCG::Transform"), ("state replacement", "Initialize, Update and Derive of each generator")])

prop("P19", "other", [
    C("padding", "add", "the padding written, and the message found again", bound="blocks of 1 to 300 bytes, every padding length up to 40 and some beyond, two places in the array"),
    C("padding", "find", "the end of an arbitrary block", bound="blocks of 1, 2, 15, 16, 17, 32 and 33 bytes, two places in the array; every content"),
    C("padding", "ranges", "ranges that hold no block", bound="an array of 16 bytes; every offset and length"),
],
    title="Block padding writes its scheme and is removed exactly",
    statement="For every range of every array, PKCS7, X9.23, ESP and ISO 7816 (ZeroOne) padding write the bytes their scheme names from the offset to the end of the block, and nothing else. The message end found in a block is the start of its padding when the block ends in a valid one, and the end of the block otherwise, so what was padded is always found again. Ranges that hold no block, or a padding too long to be coded, are refused.",
    qtext="every content of the block and array, at each stated block length and place",
    why="The tests pad and unpad random blocks; a damaged pad byte, a full pad block or an offset other than zero is hardly reached.",
    files=["CEX/PKCS7.cpp", "CEX/X923.cpp", "CEX/ESP.cpp", "CEX/ZeroOne.cpp"],
    mechanism=[("schemes", "AddPadding and GetBlockLength of each padding")])

prop("P22", "other", [
    C("cipherstream", "write", "messages through a stream over an arbitrary mode and padding", bound="messages of 1 to 50 bytes, every padding left, arrays and streams, at offsets"),
    C("cipherstream", "parallel", "the same with parallel parts", bound="messages around one, two and three parallel blocks"),
    C("cipherstream", "named", "streams made from names, and the default padding", bound="every mode and padding, messages of 5 to 48 bytes"),
    C("cipherstream", "refused", "what is no ciphertext is refused", bound="lengths of 1 to 40 bytes"),
    C("cipherstream", "digests", "digests of arrays and streams over an arbitrary hash", bound="twelve lengths of 1 to 700 bytes"),
    C("cipherstream", "macs", "tags of arrays and streams over an arbitrary MAC", bound="nine lengths of 1 to 300 bytes"),
],
    title="Stream processors pass every byte to the engine once, in order",
    statement="CipherStream encrypts the message followed by one padding (none in a counter mode) and decrypts to what the padding leaves, block by block in order, whatever the mode and padding compute, from arrays and streams alike, with parallel parts or without; the output has exactly the size of the result and nothing before its offset is written. DigestStream and MacStream return the digest and the tag of exactly the named bytes. Ciphertext that is no whole number of blocks is refused, and instances passed to CipherStream or MacStream stay the caller's.",
    over=["inputs", "histories", "configurations"],
    qtext="every engine function and every content, at each stated length, offset and form",
    why="The tests process a few random lengths; messages of one block, aligned messages that end in what looks like padding, and offsets are not among them.",
    files=["CEX/CipherStream.cpp", "CEX/DigestStream.cpp", "CEX/MacStream.cpp"],
    mechanism=[("division into calls and the last block", "CipherStream::BlockTransform"), ("division into calls", "DigestStream::Process, MacStream::Process")])

prop("P23", "other", [
    C("io", "memory", "a memory stream is an array and a position", bound="five histories of up to 19 operations, every constructor"),
    C("io", "secure", "an encrypted stream is the same array and position", bound="five histories of up to 19 operations, every constructor"),
    C("io", "values", "integers written are read back, little endian", bound="eight values and runs, three initial sizes"),
],
    title="Memory streams hold exactly what was written to them",
    statement="MemoryStream and SecureStream behave as an array and a position: writes replace and extend, reads return what the stream holds from the position, as many bytes as were asked for and are there, at the offset named and nowhere else; seeking, setting the length, copying and resetting do what they name. The encryption inside SecureStream is never seen, whatever its salt and size. Integers written by StreamWriter are read back by StreamReader in little endian order.",
    over=["inputs", "histories"],
    qtext="every content, block function and salt hash, at each stated sequence of operations",
    why="The tests write once and read back; partial reads at offsets, overwriting, growing and truncating are hardly run.",
    files=["CEX/MemoryStream.cpp", "CEX/SecureStream.cpp", "CEX/StreamReader.cpp", "CEX/StreamWriter.cpp"],
    mechanism=[("position and content", "Read, Write, Seek and SetLength of each stream"), ("encryption at rest", "SecureStream::Transform"), ("integers", "StreamWriter::Write, StreamReader::ReadInt")])

prop("P24", "other", [
    C("keys", "plain", "a symmetric key and its copies give back what it was made from", bound="seven triples of sizes up to 300 bytes, one, two and three parts, both kinds of array"),
    C("keys", "asymmetric", "an asymmetric key and its serialized copy, and the pair they make", bound="four sizes up to 1000 bytes, every type, parameter and primitive code"),
    C("stream", "secure_key", "a symmetric key held encrypted, under every policy", bound="seven triples of sizes up to 300 bytes, every policy, over arbitrary ciphers, hashes and machine answers"),
    C("stream", "secure_polynomial", "an asymmetric key held encrypted, under every policy", bound="four sizes up to 300 bytes, every policy, with and without salt"),
    C("stream", "restored", "a cipher restored from its saved state goes on as the original", bound="five ciphers, authenticated or not, mid-stream and across calls and keys"),
],
    title="Key containers and saved states give back exactly what they were given",
    statement="SymmetricKey, SymmetricSecureKey, AsymmetricKey and AsymmetricSecureKey return exactly the key, nonce, info and polynomial bytes and the types they were made from, however often they are asked, under every security policy and salt; so do their clones and what is restored from their serialized form, also after the original is gone. A stream cipher restored from the state another one saved continues with the same output.",
    over=["inputs", "histories", "configurations"],
    qtext="every content of keys, nonces, info, polynomials and salts, every answer of the machine and every cipher beneath, at each stated size",
    why="The tests compare a few random keys of full size under one policy; missing parts, the authenticated policies and states saved without authentication are not run.",
    files=["CEX/SymmetricKey.cpp", "CEX/SymmetricSecureKey.cpp", "CEX/AsymmetricKey.cpp", "CEX/AsymmetricSecureKey.cpp", "CEX/ChaChaP20.cpp", "CEX/CSX512.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp"],
    mechanism=[("accessors and copies", "Key, IV, Info, Clone, Serialize and DeSerialize of each container"), ("encryption at rest", "Encipher and Extract of the secure containers"), ("saved states", "Serialize and the state constructor of each stream cipher")])

prop("P25", "proof", [
    C("names", "convert", "the name of every member of every enumeration leads back to it"),
    C("names", "block", "block ciphers and cipher modes"),
    C("names", "aead", "authenticated modes"),
    C("names", "digests", "message digests and their sizes"),
    C("names", "kdfs", "key derivation functions"),
    C("names", "macs", "message authentication codes, authenticators and paddings"),
    C("names", "streams", "stream ciphers"),
],
    title="Factories build the named algorithm; names lead back to their members",
    statement="Every FromName factory for block ciphers, cipher and AEAD modes, digests, key derivation functions, MACs, paddings and stream ciphers returns an instance of exactly the algorithm asked for, over exactly the cipher asked for or given, with that algorithm's tag, digest and block sizes. For every enumeration with a name conversion, each member's name converts back to that member.",
    over=["configurations"],
    qtext="every member of the enumerations and every combination of cipher and mode, enumerated completely",
    why="The tests make algorithms by their constructors; the factories are called for a handful of members and the conversions for none.",
    files=["CEX/StreamCipherFromName.cpp", "CEX/CipherModeFromName.cpp", "CEX/MacFromName.cpp", "CEX/DigestFromName.cpp", "CEX/KdfFromName.cpp", "CEX/AeadModeFromName.cpp", "CEX/BlockCipherFromName.cpp", "CEX/PaddingFromName.cpp", "CEX/SymmetricCiphers.cpp", "CEX/AsymmetricParameters.cpp"],
    mechanism=[("construction", "GetInstance of each factory"), ("names", "ToName and FromName of each conversion")])

prop("P26", "other", [
    C("poly", "product", "the 64 by 64 bit product, from its halves"),
    C("poly", "sums", "sums, shifts and masks of two-word numbers"),
    C("poly", "finish", "reduction and addition by limbs equal those of the number"),
    C("poly", "edges", "the tag for r = 1 and 2, where sums come close to the modulus", bound="messages of 16, 21 and 32 bytes", ot=20, limit=60),
    C("poly", "poly", "the tag equals RFC 8439's, for two keys one after another", bound="twelve lengths up to 80 bytes, given at once, in parts and bytewise", ot=8, limit=40),
],
    title="Poly1305 is RFC 8439's authenticator",
    statement="For every key, Poly1305 returns the tag of RFC 8439: the blocks as a polynomial in the clamped r, modulo 2^130-5, plus s modulo 2^128, however the message is divided into calls; a new key starts afresh and nothing is written beside the tag. The 64 by 64 bit product beneath it is the full 128-bit product.",
    budget=300, over=["inputs", "histories"],
    qtext="every key and message content at each stated length and division into calls",
    why="The tests compare a few vectors; carries near the modulus happen for about one message in 2^40 or fewer.",
    files=["CEX/Poly1305.cpp", "CEX/Donna128.h"],
    mechanism=[("multiplication and reduction", "Poly1305::Absorb, Poly1305::Finalize, Donna128"), ("division into calls", "Poly1305::Update")])

na("N01", title="Random bytes from the entropy providers are unpredictable",
    statement="Bytes drawn from the system, timing, processor and jitter providers, and from SecureRandom over them, cannot be predicted by someone who does not control the machine.",
    over=["configurations"], qtext="every state of the machine", why="No test can tell a good source from a bad one by its output.",
    files=["CEX/ACP.cpp", "CEX/CJP.cpp", "CEX/CSP.cpp", "CEX/RDP.cpp"], mechanism=[("collection", "Collect and Generate of each provider")],
    reason="Unpredictability is a statement about the machine and its adversary, not about the values a function returns, so no contract on the code expresses it; what the generators make of the bytes they are given is P18.")
na("N02", title="No secret decides a branch or a memory address",
    statement="The time the software ciphers, MAC comparison and key operations take does not depend on key or message bytes.",
    over=["inputs"], qtext="every pair of secrets", why="Tests observe results, not time.",
    files=["CEX/RHX.cpp", "CEX/IntegerTools.h"], mechanism=[("tables and comparisons", "Rijndael table lookups, IntegerTools::Compare")],
    reason="A property of two runs and of the machine code, not of what a function returns; moreover it does not hold by design here, since the software Rijndael reads tables at secret indices. That comparison answers correctly on every input is part of P21.")
na("N03", title="File streams hold what was written to the file",
    statement="FileStream reads back what was written to the file at each position, across opening, seeking, truncating and closing.",
    over=["histories"], qtext="every history of operations on every file system", why="The tests write one file and read it.",
    files=["CEX/FileStream.cpp"], mechanism=[("position and content", "FileStream::Read, Write, Seek")],
    reason="Its whole behaviour is that of std::fstream and the operating system, for which only an assumed contract could be written; the assumption would be the property.")
na("N04", title="Asymmetric schemes decrypt and verify what they encrypted and signed",
    statement="For every key pair, Kyber, McEliece and ECDH return the encapsulated secret and Dilithium, SPHINCS+, XMSS and ECDSA verify exactly their own signatures.",
    over=["inputs"], qtext="every key pair, message and random stream", why="The tests run a few random keys per parameter set.",
    files=["CEX/Kyber.cpp", "CEX/McEliece.cpp", "CEX/Dilithium.cpp", "CEX/SphincsPlus.cpp", "CEX/XMSS.cpp"], mechanism=[("schemes", "Encapsulate, Decapsulate, Sign, Verify")],
    reason="Decoding and rejection loops end only with overwhelming probability and rest on number theory over whole key and noise distributions; the prover works on bit vectors and has no theory in which the correctness lemma of lattice or Goppa decoding could be stated for all inputs at these sizes. The hashes, generators and integer tools below them are P03 to P10, P18, P20 and P21.")
na("N05", title="Sockets deliver what was sent",
    statement="Sockets, clients and servers deliver the bytes sent, in order, and report every failure.",
    over=["schedules", "fault_sequences"], qtext="every network behaviour", why="The tests do not open sockets.",
    files=["CEX/Socket.cpp", "CEX/SocketClient.cpp", "CEX/SocketServer.cpp"], mechanism=[("transfer", "Socket::Send, Receive")],
    reason="The code is a layer over Winsock whose calls would all have to be assumed, and the stable tests and build here cannot run it.")
