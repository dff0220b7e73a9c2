"""Reference definitions (BIP38, Base58Check, WIF, P2PKH), written from the published
specifications and independent of the code under analysis.  Executed symbolically in the
checks and natively when a counterexample is replayed."""
import hashlib
import unicodedata

import scrypt
from pyaes import AESModeOfOperationECB
from ecdsa import SigningKey, VerifyingKey, curves
from ecdsa.errors import MalformedPointError

BITCOIN58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
RIPPLE58 = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
OTHER58 = BITCOIN58[::-1]
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
FIELD = 2 ** 256 - 2 ** 32 - 977
MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new("ripemd160", hashlib.sha256(b).digest()).digest()


def base58(b, alphabet=BITCOIN58):
    """leading zero bytes become leading first letters; the rest is the number in base 58"""
    zeros = 0
    for x in b:
        if x != 0:
            break
        zeros += 1
    n = int.from_bytes(b, "big")
    digits = []
    while n > 0:
        digits.append(alphabet[n % 58])
        n = n // 58
    digits.reverse()
    return alphabet[0] * zeros + "".join(digits)


def base58check(payload, alphabet=BITCOIN58):
    return base58(payload + sha256d(payload)[:4], alphabet)


def num_bytes(n):
    """shortest big-endian form, at least one byte"""
    k = 1
    while n >= 256 ** k:
        k += 1
    return n.to_bytes(k, "big")


def wif(key, prefix, compressed):
    return base58check(bytes([prefix]) + key + (b"\x01" if compressed else b""))


def pubkey(key, compressed):
    """encoding of the public key of 32 private key bytes"""
    return SigningKey.from_string(key, curve=curves.SECP256k1).verifying_key.to_string(
        "compressed" if compressed else "uncompressed")


def point_times(point, k, compressed):
    """encoding of k times an encoded point (k in 1..order-1)"""
    p = VerifyingKey.from_string(point, curve=curves.SECP256k1).pubkey.point * k
    return p.to_bytes("compressed" if compressed else "uncompressed")


def address(pub, prefix, alphabet=BITCOIN58):
    return base58check(num_bytes(prefix) + hash160(pub), alphabet)


def address_hash(addr):
    return sha256d(addr.encode("ascii"))[:4]


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def kdf(passphrase, salt, length):
    return scrypt.hash(unicodedata.normalize("NFC", passphrase).encode("utf-8"), salt, 16384, 8, 8, length)


def kdf_point(point, salt):
    return scrypt.hash(point, salt, 1024, 1, 1, 64)


def aes_enc(key, block):
    return AESModeOfOperationECB(key).encrypt(block)


def aes_dec(key, block):
    return AESModeOfOperationECB(key).decrypt(block)


def noec_payload(key, compressed, passphrase, prefix):
    """39 bytes of a non-EC encrypted key"""
    ah = address_hash(address(pubkey(key, compressed), prefix))
    d = kdf(passphrase, ah, 64)
    h1 = aes_enc(d[32:], xor(key[:16], d[:16]))
    h2 = aes_enc(d[32:], xor(key[16:], d[16:32]))
    return b"\x01\x42" + (b"\xe0" if compressed else b"\xc0") + ah + h1 + h2


def noec_key(payload, passphrase):
    """private key candidate inside a non-EC payload"""
    d = kdf(passphrase, payload[3:7], 64)
    return xor(aes_dec(d[32:], payload[7:23]) + aes_dec(d[32:], payload[23:39]), d[:32])


def owner_entropy(salt, lot=None, sequence=None):
    if lot is None:
        return salt
    return salt[:4] + (lot * 4096 + sequence).to_bytes(4, "big")


def pass_factor(passphrase, entropy, with_lot):
    if with_lot:
        return sha256d(kdf(passphrase, entropy[:4], 32) + entropy)
    return kdf(passphrase, entropy, 32)


def intermediate_payload(passphrase, salt, lot=None, sequence=None):
    e = owner_entropy(salt, lot, sequence)
    f = pass_factor(passphrase, e, lot is not None)
    return (MAGIC_NOLOT if lot is None else MAGIC_LOT) + e + pubkey(f, True)


def scalar_ok(b):
    n = int.from_bytes(b, "big")
    return n != 0 and n < ORDER


def ec_flag(compressed, with_lot):
    return bytes([(0x20 if compressed else 0) | (0x04 if with_lot else 0)])


def ec_encrypt(pass_point, entropy, with_lot, seed, compressed, prefix):
    """-> (payload of the encrypted key, confirmation payload, public key, address)"""
    factor = sha256d(seed)
    pub = point_times(pass_point, int.from_bytes(factor, "big"), compressed)
    addr = address(pub, prefix)
    ah = address_hash(addr)
    flag = ec_flag(compressed, with_lot)
    d = kdf_point(pass_point, ah + entropy)
    e1 = aes_enc(d[32:], xor(seed[:16], d[:16]))
    e2 = aes_enc(d[32:], xor(e1[8:] + seed[16:], d[16:32]))
    enc = b"\x01\x43" + flag + ah + entropy + e1[:8] + e2
    pb = pubkey(factor, True)
    cfrm = (bytes.fromhex("643bf6a89a") + flag + ah + entropy + bytes([pb[0] ^ (d[63] & 1)])
            + aes_enc(d[32:], xor(pb[1:17], d[:16])) + aes_enc(d[32:], xor(pb[17:], d[16:32])))
    return enc, cfrm, pub, addr


def ec_seed(payload, pass_point):
    """seed inside an EC payload"""
    d = kdf_point(pass_point, payload[3:15])
    t = xor(aes_dec(d[32:], payload[23:39]), d[16:32])
    return xor(aes_dec(d[32:], payload[15:23] + t[:8]), d[:16]) + t[8:]


def cfrm_point(payload, pass_point):
    """encoded point inside a confirmation payload"""
    d = kdf_point(pass_point, payload[6:18])
    return (bytes([payload[18] ^ (d[63] & 1)]) + xor(aes_dec(d[32:], payload[19:35]), d[:16])
            + xor(aes_dec(d[32:], payload[35:51]), d[16:32]))


def on_curve(encoded):
    """is this the encoding of a curve point?"""
    try:
        VerifyingKey.from_string(encoded, curve=curves.SECP256k1)
        return True
    except MalformedPointError:
        return False


def both_forms(encoded):
    """compressed and uncompressed encodings of an encoded point"""
    k = VerifyingKey.from_string(encoded, curve=curves.SECP256k1)
    return k.to_string("compressed"), k.to_string("uncompressed")


def coin(lib, wif_prefix, address_prefix, wif_prefix2=None, address_prefix2=None):
    """a coin class with given prefixes"""
    class Coin(lib.cryptocurrencies.ICryptocurrency):
        NETWORKS = {"mainnet": {"wif_prefix": wif_prefix, "address_prefix": address_prefix}}
    if wif_prefix2 is not None:
        Coin.NETWORKS["testnet"] = {"wif_prefix": wif_prefix2, "address_prefix": address_prefix2}
    return Coin


def network(S, net, wide=(256, 0xffff)):
    """an instance, the keyword arguments of a call, and the WIF and address prefix that then apply"""
    if isinstance(S, Later):        # the one the earlier use had
        return S.network
    kw = {}
    if isinstance(net, tuple):      # ranges of both prefixes
        wp, ap = S.int("wif_prefix", *net[0]), S.int("address_prefix", *net[1])
        b = S.lib.core.BIP38(coin(S.lib, wp, ap))
    elif net == "override":         # the call names another network than the instance
        kw = dict(network="mainnet")
        wp, ap = S.int("wif_prefix", 128, 128), S.int("address_prefix", 1, 255)
        b = S.lib.core.BIP38(coin(S.lib, wp, ap, 239, 111), "testnet")
    elif net == "instance":         # the instance names another network than the default
        wp, ap = S.int("wif_prefix", 239, 239), S.int("address_prefix", 1, 255)
        b = S.lib.core.BIP38(coin(S.lib, 128, 0, wp, ap), "testnet")
    elif net == "fixed":
        wp, ap = 128, 30
        b = S.lib.core.BIP38(coin(S.lib, wp, ap))
    else:
        wp, ap = 128, S.int("address_prefix", *dict(zero=(0, 0), byte=(1, 255), wide=wide)[net])
        b = S.lib.core.BIP38(coin(S.lib, wp, ap))
    if isinstance(S, Earlier):
        S.network = b, kw, wp, ap
    return b, kw, wp, ap


class Earlier:
    """the scenario as a history: inputs of its own, nothing asserted"""
    network = None

    def __init__(self, S):
        self.S, self.lib = S, S.lib

    def bytes(self, name, n): return self.S.bytes(name + "_earlier", n)
    def int(self, name, lo, hi): return self.S.int(name + "_earlier", lo, hi)
    def chars(self, name, n, lo=0, hi=0x10ffff): return self.S.chars(name + "_earlier", n, lo, hi)
    def pick(self, name, alphabet, n): return self.S.pick(name + "_earlier", alphabet, n)
    def text(self, name): return self.S.text(name + "_earlier")
    def choose(self, name, options): return self.S.choose(name + "_earlier", options)
    def assume(self, c): return self.S.assume(c)
    def call(self, f, /, *a, **k): return self.S.call(f, *a, **k)
    def same(self, a, b): return self.S.same(a, b)
    def all(self, *cs): return self.S.all(*cs)
    def any(self, *cs): return self.S.any(*cs)
    def no(self, c): return self.S.no(c)
    def words(self): return self.S.words()
    def no_ripemd(self): return self.S.no_ripemd()
    def check(self, cond, label, **info): pass
    def reach(self, label): pass


def twice(cases, *earlier):
    """the cases, and one more after each of the given ones (by default each after itself and after the next)"""
    more = [dict(c, earlier=e) for c in cases for e in earlier] if earlier else \
        [dict(c, earlier=e) for i, c in enumerate(cases) for e in (c, cases[(i + 1) % len(cases)])]
    return cases + more


class Later:
    """the scenario after a history, on the same instance"""
    def __init__(self, S, network):
        self.S, self.lib, self.network = S, S.lib, network
        self.bytes, self.int, self.chars, self.pick, self.text, self.choose = S.bytes, S.int, S.chars, S.pick, S.text, S.choose
        self.assume, self.call, self.same, self.all, self.any, self.no = S.assume, S.call, S.same, S.all, S.any, S.no
        self.check, self.reach = S.check, S.reach


def again(fn):
    """a scenario whose cases may name, as "earlier", the case of an earlier use of the same instance"""
    def run(S, earlier=None, **case):
        if earlier is None:
            return fn(S, **case)
        first = Earlier(S)
        try:
            fn(first, **earlier)
        except (AttributeError, TypeError, KeyError, ValueError):
            pass            # a result that cannot be used is found without a history
        return fn(Later(S, first.network) if first.network is not None else S, **case)
    run.__name__, run.__wrapped__ = fn.__name__, fn
    run.__doc__ = fn.__doc__
    return run


def prefixed(S, name, n, start):
    """n unknown bytes, or the given ones and unknown bytes after them"""
    head = bytes.fromhex(start)
    return head + S.bytes(name, n - len(head)) if head else S.bytes(name, n)


def form(value, how):
    """bytes in one of the forms in which salts and seeds may be given"""
    return value if how == "bytes" else value.hex() if how == "hex" else value.hex().upper()


# RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996), from the description in the paper
RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
SHIFTS = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
          [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9], [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
          [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
LEFT_K = [0x00000000, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
RIGHT_K = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0x00000000]
W32 = 0xFFFFFFFF


def ripemd_f(n, x, y, z):
    if n == 0:
        return x ^ y ^ z
    if n == 1:                                  # x ? y : z
        return ((y ^ z) & x) ^ z
    if n == 2:
        return ((y & (x ^ W32)) ^ W32) ^ z
    if n == 3:                                  # z ? x : y
        return ((x ^ y) & z) ^ y
    return x ^ (((y ^ W32) & z) ^ W32)


def ripemd_line(h, words, order, right):
    a, b, c, d, e = h
    for rnd in range(5):
        for i in order:
            t = (a + ripemd_f(4 - rnd if right else rnd, b, c, d) + words[i] + (RIGHT_K if right else LEFT_K)[rnd]) & W32
            s = SHIFTS[rnd][i]
            t = (((t << s) & W32) + (t >> (32 - s)) + e) & W32
            a, e, d, c, b = e, d, ((c << 10) & W32) + (c >> 22), b, t
        order = [RHO[i] for i in order]
    return a, b, c, d, e


def ripemd160(message):
    n = len(message)
    message = message + b"\x80" + bytes((55 - n) % 64) + (8 * n).to_bytes(8, "little")
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    for start in range(0, len(message), 64):
        words = [int.from_bytes(message[start + 4 * i:start + 4 * i + 4], "little") for i in range(16)]
        a, b, c, d, e = ripemd_line(h, words, list(range(16)), False)
        p, q, r, s, t = ripemd_line(h, words, [(9 * i + 5) % 16 for i in range(16)], True)
        h = [(h[1] + c + s) & W32, (h[2] + d + t) & W32, (h[3] + e + p) & W32, (h[4] + a + q) & W32, (h[0] + b + r) & W32]
    return b"".join([x.to_bytes(4, "little") for x in h])
