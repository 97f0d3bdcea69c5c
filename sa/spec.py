"""The oracle: BIP38, WIF, Base58Check and P2PKH written down as value numbers,
independently of the code under analysis (constants are the published ones)."""
from terms import *

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
PFX_NOEC = bytes.fromhex("0142")
PFX_EC = bytes.fromhex("0143")
PFX_CONF = bytes.fromhex("643bf6a89a")
MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")


def dsha(d):
    return sha256(sha256(d))


def checksum(d):
    return bslice(dsha(d), 0, 4)


def b58check(d, alphabet=B58):
    return b58enc(alphabet, bcat(d, checksum(d)))


def hash160(d):
    return ripemd160(sha256(d))


def xor(a, b):
    return mkbytes(bxor(x, y) for x, y in zip(vbits(a), vbits(b)))


def intof(b):
    return int_bits(vbits(b))


def ser(pt, compressed):
    return ec_compressed(pt) if compressed else ec_uncompressed(pt)


def address(prefix, pt, compressed, alphabet=B58):
    return b58check(bcat(prefix, hash160(ser(pt, compressed))), alphabet)


def address_hash(addr):
    return checksum(encode_str(addr))


def wif(prefix, key, compressed):
    return b58check(bcat(prefix, key, b"\x01" if compressed else b""))


def pw_bytes(pw):
    return encode_str(nfc(pw))


def pub(key):
    return ecmul(G, intof(key))


def noec_record(key, pw, addr, compressed):
    ah = address_hash(addr)
    k = scrypt(pw_bytes(pw), ah, 16384, 8, 8, 64)
    h1, h2 = bslice(k, 0, 32), bslice(k, 32, 64)
    e1 = aesenc(h2, xor(bslice(key, 0, 16), bslice(h1, 0, 16)))
    e2 = aesenc(h2, xor(bslice(key, 16, 32), bslice(h1, 16, 32)))
    return bcat(PFX_NOEC, b"\xe0" if compressed else b"\xc0", ah, e1, e2)


def noec_encrypted(key, pw, addr, compressed):
    return b58check(noec_record(key, pw, addr, compressed))


def pass_factor(pw, salt, lotseq):
    """salt: 8 bytes without lot/sequence, 4 bytes with; lotseq: 4 bytes or None"""
    f = scrypt(pw_bytes(pw), salt, 16384, 8, 8, 32)
    if lotseq is not None:
        f = dsha(bcat(f, salt, lotseq))
    return f


def intermediate_payload(pw, salt, lotseq):
    f = pass_factor(pw, salt, lotseq)
    ent = bcat(salt, lotseq) if lotseq is not None else salt
    return bcat(MAGIC_LOT if lotseq is not None else MAGIC_NOLOT, ent, ec_compressed(ecmul(G, intof(f))))


def ec_parts(entropy, passpoint, seed, prefix, compressed):
    """everything that follows from an intermediate passphrase's content
    (8-byte entropy, point as term) and a seed"""
    fb = dsha(seed)
    pt = ecmul(passpoint, intof(fb))
    addr = address(prefix, pt, compressed)
    ah = address_hash(addr)
    ppb = ec_compressed(passpoint)
    s = scrypt(ppb, bcat(ah, entropy), 1024, 1, 1, 64)
    h1, h2, key = bslice(s, 0, 16), bslice(s, 16, 32), bslice(s, 32, 64)
    e1 = aesenc(key, xor(bslice(seed, 0, 16), h1))
    e2 = aesenc(key, xor(bcat(bslice(e1, 8, 16), bslice(seed, 16, 24)), h2))
    pb = ec_compressed(ecmul(G, intof(fb)))
    p0 = mkbytes(vbits(bslice(pb, 0, 1))[:7] + (bxor(vbits(pb)[7], vbits(key)[255]),))
    b1 = aesenc(key, xor(bslice(pb, 1, 17), h1))
    b2 = aesenc(key, xor(bslice(pb, 17, 33), h2))
    return dict(point=pt, address=addr, ahash=ah, e1=e1, e2=e2, encpoint=bcat(p0, b1, b2), factor=fb)


def ec_flag(compressed, lot):
    return bytes([(0x20 if compressed else 0) | (0x04 if lot else 0)])


def ec_record(parts, entropy, compressed, lot):
    return bcat(PFX_EC, ec_flag(compressed, lot), parts["ahash"], entropy, bslice(parts["e1"], 0, 8), parts["e2"])


def conf_record(parts, entropy, compressed, lot):
    return bcat(PFX_CONF, ec_flag(compressed, lot), parts["ahash"], entropy, parts["encpoint"])


# ---------------------------------------------------------------- reading records
def noec_key(rec, pw):
    """the key in a 39-byte (or longer) non-EC record"""
    k = scrypt(pw_bytes(pw), bslice(rec, 3, 7), 16384, 8, 8, 64)
    h1, h2 = bslice(k, 0, 32), bslice(k, 32, 64)
    return xor(bcat(aesdec(h2, bslice(rec, 7, 23)), aesdec(h2, bslice(rec, 23, 39))), h1)


def entropy_factor(ent, pw, lot):
    return pass_factor(pw, bslice(ent, 0, 4) if lot else ent, bslice(ent, 4, 8) if lot else None)


def ec_seed(rec, pw, lot):
    """(pass factor, seed) in a 39-byte (or longer) EC-multiplied record"""
    ent = bslice(rec, 7, 15)
    pf = entropy_factor(ent, pw, lot)
    s = scrypt(ec_compressed(ecmul(G, intof(pf))), bcat(bslice(rec, 3, 7), ent), 1024, 1, 1, 64)
    h1, h2, key = bslice(s, 0, 16), bslice(s, 16, 32), bslice(s, 32, 64)
    d2 = xor(aesdec(key, bslice(rec, 23, 39)), h2)
    d1 = xor(aesdec(key, bcat(bslice(rec, 15, 23), bslice(d2, 0, 8))), h1)
    return pf, bcat(d1, bslice(d2, 8, 16))
