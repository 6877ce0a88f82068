#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
ALLSRC = ["src/lib.rs", "src/aes_table_based.rs", "src/aes_bitslice.rs", "src/aes_x86.rs", "src/aes_arm.rs",
          "src/aes_riscv64.rs", "src/aes_riscv32.rs", "src/aesni_x2.rs", "src/aesni_x4.rs",
          "src/aesdefault_x2.rs", "src/aesdefault_x4.rs"]
BACK = [f for f in ALLSRC if f.startswith("src/aes_")]
WIDE = [f for f in ALLSRC if "_x2" in f or "_x4" in f]
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Block encryption is the FIPS-197 cipher for every key and plaintext",
  "For each of AES-128, AES-192 and AES-256, an encryption key object built from any key bytes encrypts any 16-byte block to exactly the ciphertext that FIPS-197 Cipher() defines for that key and block. This holds in every build configuration the README documents (table-based, constant-time, AES-NI, VAES, VAES+AVX-512, NEON, ARMv8, RV64, RV32), on 32- and 64-bit and on little- and big-endian targets.",
  ["inputs", "configurations"], "all 2^128/2^192/2^256 keys x all 2^128 blocks x all documented configurations",
  "The tests encrypt the four FIPS-197/NIST example vectors on five configurations; RISC-V, ARMv8, AVX-512 and big-endian builds are never executed, and a fault confined to some table entry, lane or round constant is not reached by a handful of blocks.",
  ALLSRC, [("key schedule", "keygen_128/192/256 in every backend"), ("round function", "AesBlock::enc / enc_last"), ("round chaining", "chain_enc, implement_aes! in src/lib.rs")],
  ["AesEncrypt::encrypt_block", "From<[u8; N]> for Aes*Enc"], [("round_keys", "expanded key", "Aes128Enc/Aes192Enc/Aes256Enc")])
p("C02", "Block decryption is the FIPS-197 inverse cipher and undoes encryption",
  "For each key size, a decryption key object built from any key bytes decrypts any 16-byte block to exactly what FIPS-197 InvCipher() defines, so decrypting an encrypted block (and encrypting a decrypted one) under the same key returns the original block. This holds in every documented build configuration, word size and byte order.",
  ["inputs", "configurations"], "all keys x all blocks x all documented configurations",
  "The tests decrypt four example vectors on five configurations; inverse tables, InvMixColumns and the reversed key schedule have 2^128 inputs, and four backends are never run.",
  ALLSRC, [("inverse round", "AesBlock::dec / dec_last / imc"), ("decryption key schedule", "dec_round_keys in src/lib.rs"), ("round chaining", "chain_dec")],
  ["AesDecrypt::decrypt_block", "From<[u8; N]> for Aes*Dec"], [("round_keys", "reversed, InvMixColumns-transformed expanded key", "Aes128Dec/Aes192Dec/Aes256Dec")])
p("C03", "Two- and four-block calls equal independent single-block calls, in order",
  "For every key object and every tuple of blocks, the 2-block and 4-block encryption and decryption calls return exactly the blocks that the FIPS-197 cipher (respectively inverse cipher) gives for each input block on its own, in the same positions. No block's result depends on any other block.",
  ["inputs", "configurations"], "all keys x all tuples of 2 or 4 blocks x all documented configurations (native 256/512-bit lanes and the portable composition)",
  "The tests push one fixed 4-block vector through; lane swaps or a lane using the wrong round key show only when the blocks differ in the right lanes, and the 512-bit backend is compiled but never run.",
  ["src/lib.rs"] + WIDE + BACK, [("lane composition", "AesBlockX2/AesBlockX4 enc/dec/enc_last/dec_last, From conversions"), ("round-key broadcast", "encrypt_2_blocks/encrypt_4_blocks/decrypt_2_blocks/decrypt_4_blocks")],
  ["AesEncrypt::encrypt_2_blocks", "AesEncrypt::encrypt_4_blocks", "AesDecrypt::decrypt_2_blocks", "AesDecrypt::decrypt_4_blocks"])
p("C04", "Key objects made by conversion or cloning behave as if made from the key",
  "For every key, taking the decrypter of an encryption key object, or the encrypter of a decryption key object, gives an object whose expanded key is identical to that of the object built directly from the same key bytes; converting there and back, and cloning, likewise give an identical expanded key. The original object is left unchanged.",
  ["inputs", "configurations", "histories"], "all keys, all chains of decrypter/encrypter/clone conversions, all configurations",
  "The tests call decrypter() on example keys only and never encrypter(); the forward MixColumns used to rebuild an encryption schedule is not exercised.",
  ["src/lib.rs"] + BACK, [("dec_round_keys / enc_round_keys", "src/lib.rs"), ("mc / imc", "every backend")],
  ["AesEncrypt::decrypter", "AesDecrypt::encrypter", "Clone", "From<[u8; N]> for Aes*Dec"])
p("C05", "The AES round operations compute exactly the documented FIPS-197 steps",
  "For every state and round key, enc, dec, enc_last and dec_last return SubBytes/ShiftRows/MixColumns/AddRoundKey (or the inverse steps, with and without the mix step) as documented, and mc and imc return MixColumns and InvMixColumns. The 2- and 4-block types apply the same operation to each block with the round key in the same position.",
  ["inputs", "configurations"], "all 2^128 states x all 2^128 round keys per block, on single, double and quadruple blocks, all configurations",
  "The tests apply each round operation to one or two fixed vectors; 256-entry tables, boolean S-box circuits and lane plumbing have inputs those never reach.",
  BACK + WIDE, [("round functions", "AesBlock/AesBlockX2/AesBlockX4 enc, dec, enc_last, dec_last; AesBlock mc, imc")],
  ["AesBlock::{enc,dec,enc_last,dec_last,mc,imc}", "AesBlockX2/X4::{enc,dec,enc_last,dec_last}"])
p("C06", "chain_enc and chain_dec fold the round over any number of keys",
  "For every state and every non-empty slice of round keys, of any length, chain_enc returns (state ^ keys[0]).enc(keys[1])...enc(keys[n-1]) and chain_dec the same with dec, on single, double and quadruple blocks. With an empty slice both panic, whatever the state.",
  ["inputs", "configurations"], "all states, all slices of n >= 1 keys for every n, and n = 0, all configurations",
  "No test calls chain_enc or chain_dec directly; they are only reached with 10, 12 or 14 keys through the block ciphers.",
  ["src/lib.rs"] + BACK, [("declare_chain!", "src/lib.rs (two variants: enc-based and pre_enc-based)"), ("pre_enc / pre_dec", "src/aes_arm.rs, src/aes_riscv32.rs")],
  ["AesBlock/AesBlockX2/AesBlockX4::{chain_enc,chain_dec}"])
p("C07", "Blocks and bytes convert losslessly, with fixed block and byte order",
  "For every byte string of the right length, building a block (or double or quadruple block) from it and storing or converting it back gives the same bytes; the 128-bit integer conversions are big-endian whatever the target's byte order. Double and quadruple blocks hold their blocks in argument order, splitting returns them in that order, and the broadcast conversions put the same block (or pair) in every position.",
  ["inputs", "configurations"], "all block values x every conversion of AesBlock, AesBlockX2, AesBlockX4 x all configurations",
  "Tests round-trip a few constants; most From impls (X2 pairs into X4, broadcasts, u128 on big-endian) are never called.",
  ["src/lib.rs"] + BACK + WIDE, [("From impls, new, store_to", "all block modules"), ("u128 conversions", "src/lib.rs")],
  ["From/Into between AesBlock, AesBlockX2, AesBlockX4, byte arrays, tuples and u128", "new", "store_to"])
p("C08", "Slice conversions accept exactly long-enough slices and touch only their bytes",
  "For every slice length, converting a byte slice to a block succeeds if and only if the slice has at least the block's size, uses exactly its leading bytes, and otherwise returns the slice's length as the error. Storing a block into a slice writes exactly the block's bytes at the front and nothing else, and panics, writing nothing beyond the slice, if and only if the slice is too short.",
  ["inputs", "configurations"], "every slice length (0 to the address-space limit), every content, all three block types, all configurations",
  "No existing test converts a slice of any other length than the exact one, nor checks the bytes after the stored block or the panicking case.",
  ["src/lib.rs"] + BACK + WIDE, [("try_from_slice / array_from_slice", "src/lib.rs"), ("store_to", "all block modules")],
  ["TryFrom<&[u8]>", "store_to"])
p("C09", "Bitwise operators, equality, zero tests and defaults are exact",
  "For all operands, &, |, ^ and ! on blocks (and the assigning forms) act on every bit position as on the underlying bytes, == is true exactly when all bytes agree, is_zero is true exactly when all bytes are zero, and zero() and default() are all-zero. The same holds for double and quadruple blocks.",
  ["inputs", "configurations"], "all pairs of block values of each of the three types, all configurations",
  "Tests check a few constants on AesBlock; a comparison or zero test that ignores one byte or lane is right on almost all random inputs.",
  ["src/lib.rs"] + BACK + WIDE, [("BitAnd/BitOr/BitXor/Not/PartialEq", "all block modules"), ("impl_common_ops!", "src/lib.rs")],
  ["operators on AesBlock/AesBlockX2/AesBlockX4", "is_zero", "zero", "Default"])
p("C10", "Formatting prints every byte of a block, in order, in fixed-width digits",
  "For every block value, {:x} and {:X} print its 16 bytes in order as 32 hex digits (the alternate forms prefixed 0x and 0X), {:b} prints 128 binary digits (alternate form prefixed 0b), {} and {:?} print the lower-case form and {:#} and {:#?} the upper-case form without prefix. Double and quadruple blocks print in debug form as the tuple of their blocks, and key objects as their type name with the list of round keys.",
  ["inputs", "configurations"], "every block value (every byte value in every position, including bytes with leading zero digits), all formatting traits, all configurations",
  "The tests format nothing, or only single constants; dropped leading zeros show only for particular byte values.",
  ["src/lib.rs"], [("Debug/Display/Binary/LowerHex/UpperHex impls", "src/lib.rs")],
  ["core::fmt traits on AesBlock, AesBlockX2, AesBlockX4, Aes*Enc, Aes*Dec"])
p("C11", "Safe API calls never touch memory out of bounds and never panic unexpectedly",
  "No call of the public API, with any arguments, reads or writes outside the objects it was given, uses uninitialised or misaligned memory, or executes undefined behaviour. The only panics are the documented ones: chaining over an empty key slice and storing into a slice that is too short.",
  ["inputs", "configurations"], "every public operation x all arguments x all configurations, with and without debug assertions",
  "The backends are built on raw pointers, transmutes and unaligned loads whose faults stay silent on the inputs tests use, and four backends are never run.",
  ALLSRC, [("unsafe blocks", "all backends, array_from_slice, keygen column views"), ("bounds and asserts", "chain_*, store_to")],
  ["every public function"])
p("C12", "Control flow and memory addresses never depend on keys or data",
  "In every configuration the README calls constant-time (the constant-time software build and all hardware-accelerated builds), key expansion, key-object conversion, encryption, decryption, the round operations and the bitwise operators execute the same branches and access the same addresses whatever the key, plaintext and ciphertext bytes are.",
  ["inputs", "configurations"], "all keys and blocks x all operations above x all constant-time configurations",
  "No test observes timing or addresses; a secret-indexed table or early exit gives the same results on every test.",
  [f for f in ALLSRC if "table" not in f], [("boolean S-box circuit", "src/aes_bitslice.rs"), ("AES instructions", "hardware backends"), ("chaining", "src/lib.rs")],
  ["branch conditions and addresses of every cryptographic operation"])
p("C13", "The expanded key is the FIPS-197 key schedule",
  "For every key of each size, the round keys held by an encryption key object (as its debug output shows) are exactly the FIPS-197 KeyExpansion words in order, and those held by a decryption key object are the equivalent-inverse-cipher schedule: reversed, with InvMixColumns applied to all but the first and last. This holds in every configuration and byte order.",
  ["inputs", "configurations"], "all 2^128/2^192/2^256 keys x all configurations",
  "The tests see the schedule only through example ciphertexts under four keys; round constants, rotations and the different 192/256-bit tail rounds of each backend are reached for those keys alone, and not at all on RISC-V, ARMv8 or big-endian.",
  ["src/lib.rs"] + BACK, [("keygen_128/192/256", "every backend"), ("dec_round_keys", "src/lib.rs")],
  ["From<[u8; N]> for Aes*Enc and Aes*Dec", "Debug of key objects"], [("round_keys", "expanded key", "Aes*Enc, Aes*Dec")])
p("C14", "All build configurations give the same result for every call",
  "Any call of the public API returns the same bytes (or the same success, error or panic) for the same arguments in every build configuration: which implementation the compiler flags select, the word size and the byte order are unobservable. Every documented configuration compiles and offers the whole API.",
  ["inputs", "configurations"], "all arguments x all pairs of documented configurations",
  "Each test run sees one configuration at a time and never compares two; RISC-V, ARMv8 and big-endian configurations are not even compiled by the test suite.",
  ALLSRC, [("cfg_if! selection", "src/lib.rs"), ("one module per backend", "src/aes_*.rs, src/aesni_*.rs, src/aesdefault_*.rs")],
  ["every public function, compared across configurations"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
