"""property -> (check, what it decides and how)"""
import props_ops as o
import props_acc as a
import props_codec as c

TRUSTED = [
    "CPython's semantics of the analysed language subset as modelled in sa/interp.py and sa/builtin_models.py",
    "contracts of hashlib, scrypt, pyaes, ecdsa, os.urandom, unicodedata and six in sa/ext_models.py",
    "contract of libs.base58.encode/decode and libs.ripemd160 at their call sites (C13 and C24 analyse their bodies)",
    "SHA-256, RIPEMD-160, scrypt and AES treated as free operators (aesdec inverts aesenc); events of probability "
    "below 2^-120 (a digest that is zero or not below the group order) are left out",
]
CHECKS = {}

GVN = "Abstract interpretation of the source with value numbering: "

RULES = dict(
    C01=GVN + "encrypt is interpreted on a symbolic key, prefix and passphrase, decrypt on the record it returned; every "
        "path must return, and the value number of the result must be that of the WIF (in detailed form, of the key, "
        "type, public key and address) that went in.",
    C02=GVN + "intermediate_code, create_new_encrypted_wif and decrypt are interpreted one after the other on symbolic "
        "inputs; the value numbers of the decrypted key, address, seed, lot and sequence must be those reported at "
        "creation.",
    C03=GVN + "the confirmation code of a symbolic creation is interpreted by confirm_code; it must be accepted on every "
        "path and its fields must have the value numbers of the creation result.",
    C04=GVN + "the 43 bytes encrypt returns must have the value number of the BIP38 record written down in sa/spec.py, "
        "and decrypt of that record must yield the key.",
    C05=GVN + "the value number of every intermediate passphrase must be that of the BIP38 record in sa/spec.py.",
    C06=GVN + "the value numbers of every encrypted WIF and confirmation code must be those of the BIP38 records in "
        "sa/spec.py, over all magics, flags and networks.",
    C07=GVN + "with symbolic lot and sequence the paths that return must imply both ranges and encode exactly that pair; "
        "the paths outside the ranges, and every partial request, must raise a library error.",
    C08="Path-sensitive dominance over opaque text: on every path on which decrypt or confirm_code returns, the facts of "
        "the path must imply that the 4 stored bytes equal the address hash of the key that is returned, on the "
        "effective network and in the record's form.",
    C09="Path-sensitive dominance over opaque text, at every consumer of Base58Check: on every returning path the facts "
        "must imply that the 4 checksum bytes equal the double SHA-256 of the payload, and no path may return after a "
        "character outside the alphabet (the decoder's body is analysed on such characters).",
    C10="Path-sensitive dominance over opaque text: on every returning path the facts must imply the exact length, a "
        "known prefix or magic and a legal flag byte; key form and lot/sequence handling must follow bits 0x20 and 0x04.",
    C11=GVN + "encode_wif and decode_wif on symbolic keys and prefixes against the WIF layout, including the bodies of the "
        "Base58 coder; and dominance of every accepting path by prefix, length and 01 marker.",
    C12=GVN + "P2PKHAddress.encode on symbolic keys and 1- and 2-byte prefixes against the address layout, including the "
        "bodies of the Base58 coder; decode on valid and on opaque text.",
    C13=GVN + "the bodies of the Base58 coder on symbolic byte strings of each length and each number of leading zeros, "
        "and on symbolic texts, against polynomial normal forms of the base-58 value; particular data of up to 1000 bytes by constant folding; "
        "check variants by dominance.",
    C14="Dependency analysis: for each combination of instance and call network, the prefixes that results and checks "
        "depend on must be those of the effective network and of no other; undefined networks raise NetworkError; no "
        "call may change the network later calls use.",
    C15="Constant evaluation of the class bodies of cryptocurrencies.py against the table in docs/cryptocurrencies.rst "
        "and the shape the property states.",
    C16="Information flow: every occurrence of the passphrase in any value, condition or call argument of any operation "
        "must be below utf8(normalize('NFC', passphrase)) and every such occurrence must be a scrypt password.",
    C17="Effect analysis: draws from the operating system's random source are recorded on every path; exactly one of the "
        "right size where a value is defaulted and none elsewhere, the drawn bytes must be the salt or seed of the "
        "result in full, a second call must draw again, and no result may depend on a predictable source.",
    C18=GVN + "supplied salts and seeds of every length class, as bytes and as hexadecimal text: accepted ones must appear "
        "unchanged in the record, the two forms must give the same value numbers, other lengths must raise.",
    C19="Effect and purity analysis: no store of any operation may reach an object that existed before the call, no "
        "result may depend on mutable, cached or ambient state, and repeating a call in the state another call left "
        "must give the same value numbers.",
    C20="Information flow (taint): no value that depends on a secret may reach a printing, logging, file, environment, "
        "socket, subprocess or shared-state sink, or an exception's arguments.",
    C21="Exception effect analysis: on opaque, non-ASCII, empty, truncated and malformed text every escaping exception of "
        "every path must be a subclass of bip38.exceptions.Error.",
    C22=GVN + "plain and detailed results of the same call must have the same value numbers, and all entries of a detailed "
        "result must be the functions of one key that BIP38 states, on valid and on opaque records.",
    C23=GVN + "the key and point wrappers on symbolic scalars, points and bytes, under both generations of the ecdsa "
        "interface, against the group law; refusals by dominance.",
    C24=GVN + "the hash helpers on symbolic bytes and hexadecimal text, on either outcome of the hashlib availability "
        "test, against the compositions; and the body of the bundled RIPEMD-160, interpreted over 32-bit words on symbolic "
        "data of each length, against the definition written over the same words; particular data of up to 65537 bytes by "
        "constant folding.",
    C25=GVN + "the conversions on symbolic bytes and integers of every length class and byte order.",
)
TECH = dict(
    C08="abstract interpretation, path-sensitive dominance", C09="abstract interpretation, path-sensitive dominance",
    C10="abstract interpretation, path-sensitive dominance", C14="abstract interpretation, dependency analysis",
    C15="static constant evaluation against the published table", C16="abstract interpretation, information flow",
    C17="abstract interpretation, effect analysis", C19="abstract interpretation, effect and purity analysis",
    C20="abstract interpretation, taint analysis", C21="abstract interpretation, exception effect analysis",
)
# every quantifier of these is covered symbolically; the others use representatives somewhere (see DESIGN.md)
PROOF = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15"}
for p, rule in RULES.items():
    fn = getattr(o, p, None) or getattr(a, p, None) or getattr(c, p)
    CHECKS[p] = (fn, dict(rule=rule, level="proof" if p in PROOF else "other",
                           technique=TECH.get(p, "abstract interpretation, global value numbering")))
