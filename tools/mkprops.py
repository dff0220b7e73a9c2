#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

B = "bip38/bip38.py"; W = "bip38/wif.py"; B58 = "bip38/libs/base58.py"; A = "bip38/p2pkh_address.py"
U = "bip38/utils.py"; C = "bip38/crypto.py"; S = "bip38/secp256k1/"; R = "bip38/libs/ripemd160.py"
CC = "bip38/cryptocurrencies.py"; K = "bip38/const.py"

prop("C01", "Encrypting a key and decrypting it returns the same key (no EC multiply)",
     "For every valid private key, WIF type, passphrase, supported coin and network, encrypting the key's WIF succeeds and decrypting the result with the same passphrase and network returns exactly that WIF. The detailed decryption result reports the same private key, WIF type, public key, public key type and address as that WIF has, and no seed, lot or sequence.",
     ["inputs", "configurations"], "all 256-bit private keys in [1, N), both WIF types, all passphrases, coin prefixes, outcomes of the KDF and cipher",
     "Tests check 4 fixed vectors; byte patterns such as a leading zero byte after XOR occur for 1 key in 128 and none of the vectors has one.",
     [B, W, U, B58, A, C, S + "private_key.py", S + "public_key.py"],
     [("encrypt", B), ("decrypt, non-EC branch", B), ("private_key_to_wif / wif_to_private_key", W)],
     observe=["return value of encrypt and decrypt"])
prop("C02", "An EC-multiplied key decrypts to the key that was announced when created",
     "For every passphrase, owner salt, optional lot and sequence, 24-byte seed, WIF type, coin and network, the encrypted key created from the passphrase's intermediate code decrypts with that passphrase. The decryption yields a private key whose public key and address are those announced at creation, with the same seed, public key type, lot and sequence.",
     ["inputs", "configurations"], "all owner salts, lots, sequences, seeds, WIF types, outcomes of KDF, cipher and hashes",
     "Tests decrypt a handful of fixed EC-multiplied keys; a leading zero byte in any intermediate XOR (1 in 128 keys) is not among them.",
     [B, U, B58, A, S + "point.py", S + "public_key.py"],
     [("intermediate_code", B), ("create_new_encrypted_wif", B), ("decrypt, EC branch", B)],
     observe=["return values of create and decrypt"])
prop("C03", "A confirmation code confirms exactly the key that was created",
     "For every passphrase, owner salt, optional lot and sequence, seed, WIF type, coin and network, confirming the confirmation code made together with an encrypted key, using that passphrase and network, succeeds. It reports the same address, public key and public key type as were announced at creation, and the lot and sequence of the intermediate code.",
     ["inputs", "configurations"], "all owner salts, lots, sequences, seeds, WIF types, outcomes of KDF, cipher and hashes",
     "Tests confirm a handful of fixed codes; a leading zero byte in an intermediate XOR breaks 1 code in 128.",
     [B, U, B58, A, S + "public_key.py", S + "point.py"],
     [("create_new_encrypted_wif", B), ("confirm_code", B)], observe=["return values of create and confirm"])
prop("C04", "Decryption returns a key only if it belongs to the encrypted address hash",
     "For every well-formed encrypted key and every passphrase and network, decryption either returns a key whose address on that network has exactly the 4-byte address hash stored in the encrypted key, or raises one of the library's errors. It never returns any other key, and when the decrypted key is a valid scalar but its address hash differs, the error is the incorrect-passphrase error.",
     ["inputs"], "all 39-byte payloads with a supported type and flag, all passphrases, all KDF/cipher/hash outcomes",
     "Tests never decrypt with a wrong passphrase and never corrupt a payload; they cannot cover 2^256 keys.",
     [B, A, C], [("address hash comparison after decryption, both branches", B)], observe=["return value or exception of decrypt"])
prop("C05", "Confirmation succeeds only for a matching passphrase and address hash",
     "For every well-formed confirmation code and every passphrase and network, confirmation either returns an address having exactly the 4-byte address hash stored in the code, computed from the point in the code and the passphrase, or raises one of the library's errors. A code that decodes to an invalid point or a different address hash is reported as an incorrect passphrase.",
     ["inputs"], "all 51-byte codes with the right prefix, all passphrases, all KDF/cipher/hash outcomes",
     "One wrong passphrase per fixed vector is tested; the point decoding failure path and partial hash matches are not.",
     [B, A, S + "public_key.py"], [("address hash comparison in confirm_code", B)], observe=["return value or exception of confirm_code"])
prop("C06", "Malformed encrypted keys are refused",
     "Decryption refuses, with one of the library's errors, every encrypted key string that is not the Base58Check encoding (valid characters, valid 4-byte checksum) of a 39-byte payload starting with the non-EC or EC type prefix, and every non-EC payload whose flag byte is neither of the two defined ones. No other exception type escapes for any string.",
     ["inputs"], "all ASCII strings up to the stated length; all single deviations from a well-formed key",
     "Tests never decrypt a malformed string.",
     [B, B58], [("decode, length, checksum, prefix and flag checks in decrypt", B), ("check_decode", B58)], observe=["exception of decrypt"])
prop("C07", "Malformed intermediate and confirmation codes are refused",
     "Creating a key refuses every intermediate code, and confirming refuses every confirmation code, that is not the Base58Check encoding of a payload with the right length (49 and 51 bytes), one of the defined magic prefixes and, for an intermediate code, a valid curve point. The refusal is one of the library's errors and no other exception type escapes for any string.",
     ["inputs"], "all ASCII strings up to the stated length; all payloads of other lengths and prefixes",
     "Tests use two fixed fake strings, both with bad checksums.",
     [B, B58], [("check_decode, length and magic checks", B)], observe=["exceptions of create_new_encrypted_wif and confirm_code"])
prop("C08", "Every private key survives the WIF encoding for every coin",
     "For every 32-byte private key (including ones with leading zero bytes), every one-byte coin prefix and both WIF types, encoding to WIF and decoding again returns the same private key, the same WIF type and the 4 checksum bytes of the encoded payload. The WIF is the Base58 encoding of prefix, key, a 0x01 byte for the compressed type only, and the double SHA-256 checksum.",
     ["inputs", "configurations"], "all 32-byte keys, all wif prefixes 0x00-0xff, both types",
     "Tests encode one key under two networks.",
     [W, B58, C, U], [("encode_wif / decode_wif", W), ("private_key_to_wif, wif_to_private_key, get_wif_type, get_wif_checksum", W)], observe=["return values"])
prop("C09", "Invalid WIF strings are refused",
     "Reading a WIF (its key, type or checksum, or encrypting it) refuses every string that is not the Base58 encoding of the network's prefix, a 32-byte key, an optional single 0x01 byte and the correct 4-byte checksum. A refused WIF raises the library's WIF error and no key is ever returned for it.",
     ["inputs", "configurations"], "all ASCII strings up to the stated length, all prefixes",
     "No test reads an invalid WIF.",
     [W, B58], [("decode_wif", W)], observe=["exceptions of the WIF readers and encrypt"])
prop("C10", "Base58 encoding is a bijection between byte strings and valid strings",
     "For every byte string, decoding its Base58 encoding returns it unchanged, leading zero bytes included, and for every string over the alphabet, encoding its decoding returns it unchanged; this holds for every 58-character alphabet in use. A string with a character outside the alphabet is refused with a ValueError.",
     ["inputs", "configurations"], "all byte strings up to the stated length, all strings up to the stated length, both alphabets",
     "Base58 is only exercised through a few fixed vectors.",
     [B58], [("encode / decode", B58)], observe=["return values"])
prop("C11", "Base58Check detects every wrong checksum",
     "Checked decoding returns the payload exactly when the last 4 bytes equal the first 4 bytes of the payload's double SHA-256, and otherwise raises ValueError; every checked encoding decodes back to its payload. Strings too short to hold a checksum are refused.",
     ["inputs"], "all payloads up to the stated length, all 4-byte checksums",
     "No test corrupts a checksum.",
     [B58], [("check_encode / check_decode", B58)], observe=["return values and exceptions"])
prop("C12", "P2PKH addresses encode and decode consistently for every prefix and alphabet",
     "For every public key, key type, one- or two-byte coin prefix and alphabet, the address is the Base58Check encoding of the prefix and the HASH160 of the chosen public key form, and decoding it with the same prefix and alphabet returns that hash. Decoding refuses any other prefix, any payload not of exactly 20 bytes after the prefix, and any wrong checksum.",
     ["inputs", "configurations"], "all points, both key types, all prefixes 0..0xffff, both alphabets",
     "Tests use one key with the default prefix (the prefix argument they pass is ignored).",
     [A, B58, C], [("P2PKHAddress.encode / decode", A)], observe=["return values and exceptions"])
prop("C13", "Encryption produces exactly the BIP38 non-EC format",
     "For every key, WIF type, passphrase and coin, the encrypted key is the Base58Check encoding of 0x0142, the flag 0xC0 or 0xE0, the first 4 bytes of the double SHA-256 of the key's address, and the two AES-256 blocks of the key XORed with the first 32 bytes of scrypt(NFC(passphrase), address hash, 16384, 8, 8), keyed by the last 32 bytes. Decryption inverts this same format, so that keys encrypted by other BIP38 implementations decrypt.",
     ["inputs", "configurations"], "all keys, passphrases, KDF/cipher/hash outcomes",
     "Four fixed vectors; byte patterns, alphabets and prefixes outside them are not covered.",
     [B, U, A, C, K], [("encrypt", B), ("decrypt non-EC branch", B)], observe=["encrypted key string"])
prop("C14", "Intermediate codes follow the BIP38 format",
     "For every passphrase, owner salt and optional lot and sequence, the intermediate code is the Base58Check encoding of the 8 magic bytes (ending 0x51 with and 0x53 without lot and sequence), the owner entropy and the compressed point of the passphrase factor. The factor is scrypt(NFC(passphrase), salt, 16384, 8, 8, 32) with the whole salt, or with lot and sequence the double SHA-256 of that value over the first 4 salt bytes joined with the owner entropy (those 4 salt bytes and lot*4096+sequence in 4 big-endian bytes).",
     ["inputs"], "all passphrases, salts of 4 and 8 bytes, lots, sequences, KDF outcomes",
     "Three fixed vectors.",
     [B, U, K], [("intermediate_code", B)], observe=["returned intermediate code"])
prop("C15", "EC-multiplied keys and confirmation codes follow the BIP38 format",
     "For every valid intermediate code, seed, WIF type, coin and network, the encrypted key, the confirmation code, the public key and the address are exactly the ones the BIP38 specification defines (prefix 0x0143 or 0x643BF6A89A, flag bits for compression and lot/sequence, address hash, owner entropy, and AES-256 of the seed and point halves under scrypt(pass point, address hash + owner entropy, 1024, 1, 1, 64)). Decryption and confirmation invert the same format for codes made by other implementations.",
     ["inputs", "configurations"], "all intermediate payloads, seeds, KDF/cipher/hash outcomes",
     "A few fixed vectors.",
     [B, U, A, C, K], [("create_new_encrypted_wif", B), ("confirm_code", B), ("decrypt EC branch", B)], observe=["returned strings"])
prop("C16", "Passphrases are used only through their Unicode NFC form",
     "Two passphrases with the same Unicode NFC normal form are interchangeable in every operation that takes a passphrase: each gives the same encrypted key or code and opens what the other made. Apart from that normalisation the passphrase enters the key derivation unaltered, whatever its length, case, whitespace or control characters.",
     ["inputs"], "all passphrases (an arbitrary text), all operations",
     "One special Unicode passphrase at most appears in a vector; equality of two spellings is never tested.",
     [B], [("unicodedata.normalize before scrypt in intermediate_code, encrypt, confirm_code, decrypt", B)], observe=["input of the key derivation", "results"])
prop("C17", "Lot and sequence cover their whole documented range and are never dropped",
     "Every lot in 100000..999999 with every sequence in 0..4095, zero included, yields an intermediate code that carries them, and both are reported back exactly by decryption and confirmation. Giving only one of them, or a value out of range, is refused with the library's error; they are never silently ignored.",
     ["inputs"], "all integer lots and sequences (in and out of range), given or omitted",
     "Tests use lot 100000/sequence 1 and similar; zero, boundaries and out-of-range values are never tried.",
     [B], [("lot/sequence validation in intermediate_code", B), ("lot/sequence decoding in decrypt and confirm_code", B)], observe=["reported lot and sequence, exceptions"])
prop("C18", "Invalid salts, seeds, key types and networks are refused up front",
     "A non-empty owner salt that is not 8 bytes (or 4 bytes together with lot and sequence), a non-empty seed that is not 24 bytes, a private key that is not 32 bytes, an unknown WIF type, a network (given to the BIP38 constructor or to one of its operations) that the coin does not have, or a class that is not a coin class is refused with one of the library's errors. No code or key is produced from them, whichever of the accepted forms (bytes or hexadecimal text) is used.",
     ["inputs", "configurations"], "all salt and seed lengths up to the stated bound, all contents, arbitrary type and network names",
     "Only the fake network is tested.",
     [B, W], [("argument validation", B), ("encode_wif length check", W)], observe=["exceptions"])
prop("C19", "Byte, integer and hexadecimal conversions are exact inverses",
     "Converting any non-negative integer to bytes and back, in either byte order and at any sufficient width, returns the integer; without a width the shortest form of at least one byte is used, and a width that is too small is an error rather than a truncation. Converting bytes to hexadecimal text and back, or reversing them twice, returns the same bytes, and hexadecimal input text is accepted unchanged.",
     ["inputs"], "all integers below 2^264, all byte strings up to the stated length, both byte orders",
     "The utils test only checks result types.",
     [U], [("integer_to_bytes, bytes_to_integer, bytes_to_string, get_bytes, bytes_reverse", U)], observe=["return values"])
prop("C20", "Curve point and key objects keep their value through every representation",
     "A private key object returns the 32 bytes it was made from and refuses zero, values not below the group order and other lengths; its public key, and any public key or point read from compressed, uncompressed, raw or coordinate form, gives the same point back in every form. Points off the curve or in a malformed encoding are refused with the library's curve error when read from bytes.",
     ["inputs"], "all 32-byte scalars, all curve points, all byte strings of the encodings' lengths",
     "One key and its public point are tested.",
     [S + "point.py", S + "private_key.py", S + "public_key.py"], [("wrappers", S)], observe=["return values and exceptions"])
prop("C21", "Hash helpers compute the standard functions for every message",
     "SHA-256, double SHA-256, RIPEMD-160, HASH160 and the 4-byte checksum helpers return the standard functions of the given bytes, or of the bytes denoted by given hexadecimal text. The bundled fallback RIPEMD-160 equals the published algorithm on every message, whatever its content and length.",
     ["inputs", "configurations"], "all messages up to the stated length (every block content and chaining state), with and without OpenSSL's RIPEMD-160",
     "Nine vectors for the fallback and one for the helpers; padding boundaries (55/56/63/64) and most bit patterns are not among them.",
     [C, R], [("crypto helpers", C), ("compress, rol, fi, padding", R)], observe=["digests"])
prop("C22", "Every call depends only on its own arguments and its instance's coin and network",
     "The result of any operation does not depend on which operations ran before it, on other instances, or on a network given for an earlier call: repeating a call with the same arguments returns the same result. A network given for one call applies to that call only.",
     ["histories", "configurations"], "all pairs of operations (any of the public operations, any arguments, any network override) before a repeated operation",
     "Tests call operations once, in one order, and never repeat a call after a network override.",
     [B, A, CC], [("network override handling", B), ("class-level defaults", A)],
     state=[("network", "default network of the instance", B), ("NETWORKS", "coin parameters", CC)], observe=["results of the repeated call"])
prop("C23", "Omitted salts and seeds are fresh, full-length random bytes",
     "When the owner salt or seed is omitted or empty, the operation behaves exactly as if it had been given 8 (salt) or 24 (seed) bytes drawn from the operating system's random source for that call, none of them fixed, reused or shortened (with lot and sequence only the first 4 salt bytes enter the code). Two calls draw separately, and the seed that was used is the one reported.",
     ["inputs"], "all outputs of the random source",
     "No test omits them.",
     [B], [("os.urandom defaults", B)], observe=["intermediate code, returned seed, random source requests"])
prop("C24", "The short and the detailed result agree",
     "For every input, decryption and confirmation without detail succeed exactly when they succeed with detail, and return exactly the WIF or address contained in the detailed result. Inside a detailed result, private key, WIF, WIF type, public key, public key type and address all describe the same key.",
     ["inputs"], "all well-formed encrypted keys and confirmation codes, all passphrases",
     "A handful of vectors.",
     [B, W, A], [("detail branches", B)], observe=["returned values"])
prop("C25", "A coin's documented prefixes are used, and other networks' keys are not accepted",
     "For every supported coin and network, WIFs and addresses carry exactly the prefixes documented for it, and addresses use the coin's own alphabet. A WIF is accepted on a network only if its prefix is that network's, so a WIF made for a network with a different prefix is refused.",
     ["configurations", "inputs"], "all documented coins and networks, all keys, all pairs of prefixes",
     "Only Bitcoin's networks are tested.",
     [CC, W, A, B], [("NETWORKS tables", CC), ("prefix check", W), ("prefix use in BIP38 operations", B)], observe=["WIF and address strings"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
