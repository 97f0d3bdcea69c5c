"""Acceptance, effects and secrecy of the BIP38 operations: what every path
that returns normally has established about the text it was given."""
import hashlib
import re

from props_ops import *
from bodies import sat
import bodies as bo
import randeval

TXT = instr("text")


def opaque(E, op, inst="mainnet", call=None, **kw):
    st, b = E.start(inst)
    names = dict(decrypt="encrypted_wif", confirm_code="confirmation_code", encrypt="wif",
                 create_new_encrypted_wif="intermediate_passphrase")
    if op != "create_new_encrypted_wif":
        kw.setdefault("passphrase", PW)
    return b, E.op(st, b, op, **{names[op]: TXT}, network=call or OMIT, **kw)


def payload_of(v):
    """the bytes a Base58 text value stands for"""
    p = strparts(v) if isstr(v) else ()
    if len(p) == 1 and isinstance(p[0], Term) and p[0].kind == "b58" and p[0].args[0] == spec.B58:
        return p[0].args[1]
    return None


def hex_of(v):
    p = strparts(v) if isstr(v) else ()
    if len(p) == 1 and isinstance(p[0], Term) and p[0].kind == "hex":
        return p[0].args[0]
    return None


def accepted(E, r, what, alpha=spec.B58, text=None):
    """obligation: on every path that returns normally, the text was decoded as
    Base58 without foreign characters and its checksum matches; yields
    (state, value, record)"""
    R = E.R
    text = TXT if text is None else text
    for y, v in E.oks(r, what):
        p = dec_info(y, text, alpha)
        if p is None:
            others = [k for k in y.store.flag if isinstance(k, tuple) and k and k[0] in ("declen", "decbad")]
            c = y.store.flag.get(text.parts[0])
            if not sat(y):
                R.und(f"{what}: only Base58Check texts are accepted", "path of unknown feasibility")
            elif others:
                k = others[0]
                q = randeval.misread(y, text, k[2], k[3] if isinstance(k[3], str) else alpha,
                                     y.store.flag[k][1] if y.store.flag[k][0] == "is" else 30)
                if q is None:
                    R.und(f"{what}: the text itself is decoded", f"decodes {show(k[2])[:200]} instead")
                else:
                    R.bad(f"{what}: the text itself is decoded", y.ret,
                          f"{r.name} decodes {show(k[2])[:200]} instead of the given text: {q[0]!r} is read as {q[1]!r}")
            elif c is not None:
                R.bad(f"{what}: only Base58Check texts are accepted", y.ret,
                      f"{r.name} accepts the text {c[1]!r} and returns {show(v)[:200]}")
            else:
                R.bad(f"{what}: only Base58Check texts are accepted", y.ret,
                      f"{r.name} returns {show(v)[:200]} without decoding the text\n"
                      f"on the path: {'; '.join(facts(y))}")
            continue
        rec, kind = p
        if kind == "decbad":
            R.bad(f"{what}: foreign characters are refused", y.ret,
                  f"{r.name} returns {show(v)[:200]} for a text with characters outside the alphabet")
            continue
        if len(rec) < 4:
            R.bad(f"{what}: checksum", y.ret, f"{r.name} accepts a text of {len(rec)} bytes")
            continue
        yield y, v, rec


def checked(E, r, what, alpha=spec.B58, text=None):
    n = 0
    for y, v, rec in accepted(E, r, what, alpha, text):
        n += 1
        E.R.expect(E.S, f"{what}: the checksum of {len(rec)} bytes matches", y,
                   bslice(rec, len(rec) - 4, len(rec)), spec.checksum(bslice(rec, 0, len(rec) - 4)))
    return n


def records(E, r, what):
    """(state, value, record) of the accepted paths, without obligations"""
    for y, v in E.oks(r, what):
        p = dec_info(y, TXT)
        if p is None or p[1] != "dec":
            E.R.und(what, "the text is not decoded as Base58 (see C09)")
            continue
        yield y, v, p[0]


# ---------------------------------------------------------------- C08
def C08(R, tier):
    E = Env(R)
    for inst, call, net in NETCASES:
        for detail in (False, True):
            w = f"decrypt(any text, instance {inst}, call network {call}, detail={detail})"
            b, r = opaque(E, "decrypt", inst, call, detail=detail)
            E.only_errors(r, w)
            for y, v, rec in records(E, r, w):
                if detail:
                    k, ok = field(E, y, v, "private_key", w, y.ret)
                    key = hex_of(k)
                else:
                    key = payload_of(v)
                    key = bslice(key, 1, 33) if key is not None and fixed(key) and len(key) in (37, 38) else None
                if key is None or not fixed(key) or len(key) != 32 or len(rec) < 7:
                    R.und(w, f"key not visible in {show(v)[:150]}")
                    continue
                for z, bit in bit_cases(y, vbits(rec)[2 * 8 + 2]):
                    hash_match(E, z, rec, 3, spec.pub(key), bit == 1, net, w)
            w = f"confirm_code(any text, instance {inst}, call network {call}, detail={detail})"
            b, r = opaque(E, "confirm_code", inst, call, detail=detail)
            E.only_errors(r, w)
            for y, v, rec in records(E, r, w):
                addr = v
                if detail:
                    addr, ok = field(E, y, v, "address", w, y.ret)
                if len(rec) < 10:
                    R.und(w, "short record")
                    continue
                if isstr(addr):
                    R.expect(E.S, f"{w}: the address hash of the record is that of the returned address", y,
                             bslice(rec, 6, 10), spec.address_hash(addr))
                    pl = payload_of(addr)
                    if detail:
                        pk, ok = field(E, y, v, "public_key", w, y.ret)
                        pk = hex_of(pk)
                        if pk is not None and fixed(pk):
                            want = spec.b58check(bcat(ADDP[net], spec.hash160(pk)))
                            R.expect(E.S, f"{w}: the address is that of the returned key on {net}", y, addr, want)
                            for z, bit in bit_cases(y, vbits(rec)[5 * 8 + 2]):
                                if len(pk) == (33 if bit else 65):
                                    R.ok(f"{w}: public key form of the record")
                                else:
                                    R.bad(f"{w}: public key form of the record", y.ret,
                                          f"flag bit 0x20 is {bit} but the key has {len(pk)} bytes")
                    elif pl is not None and fixed(pl):
                        n = len(ADDP[net])
                        R.expect(E.S, f"{w}: the address carries the prefix of {net}", y, bslice(pl, 0, n), ADDP[net])


def hash_match(E, st, rec, at, pub, comp, net, w):
    return E.R.expect(
        E.S, f"{w}: address hash of the returned key, {PTYPES[comp]}, on {net}", st,
        bslice(rec, at, at + 4), spec.address_hash(spec.address(ADDP[net], pub, comp)))


# ---------------------------------------------------------------- C09
def C09(R, tier):
    E = Env(R)
    cases = NETCASES if tier == "thorough" else NETCASES[:2]
    for inst, call, net in cases:
        for detail in (False, True):
            for op in ("decrypt", "confirm_code"):
                b, r = opaque(E, op, inst, call, detail=detail)
                checked(E, r, f"{op}(any text, instance {inst}, call network {call}, detail={detail})")
        b, r = opaque(E, "encrypt", inst, call)
        checked(E, r, f"encrypt(any text, instance {inst}, call network {call})")
        for wt in WTYPES.values():
            b, r = opaque(E, "create_new_encrypted_wif", inst, call, wif_type=wt, seed=SEED)
            checked(E, r, f"create_new_encrypted_wif(any text, {wt}, instance {inst}, call network {call})")
    wif_consumers(E)
    addr_consumers(E)
    check_variants(R, E, decode_only=True)
    bo.foreign(R, E)
    spoiled_texts(E, tier)


# valid texts; what is made of them is not
VALID = dict(
    decrypt=("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "6PfQu77ygVyJLZjfvMLyhLMQbYnu5uguoJJ4kMCLqWwPEdfpwANVS76gTX"),
    encrypt=("5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR", "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP"),
    confirm_code=("cfrm38V5qTEpyzqDDgry1mEmRPEn4xaXC74tKbH9jfSpHkfiud3SW9dRSmhZHuTwvW78eVUWwjx",),
    create_new_encrypted_wif=("passphrasepxFy57B9v8HtUsszJYKReoNDV6VHjUSGt8EVJmux9n1J3Ltf1gRxyDGXqnf9qm",),
    address=("1Jq6MksXQVWzrznvZzxkV6oY57oWXD9TXB",))
FOREIGN = "0OIl +/=_-.,:;'\"\t\n\r\x00\x0b\x1c\x7f\u0085\u00a0\u00ad\u00e9\u0430\u2003\u200b\u200e\u2028\u2060\u3000\ufeff\uff11\U0001d7d0"


def spoil(text, tier):
    n = len(text) // 2
    for c in FOREIGN:
        yield f"{c!a} before", c + text
        yield f"{c!a} after", text + c
        yield f"{c!a} within", text[:n] + c + text[n:]
        yield f"{c!a} for a character", text[:n] + c + text[n + 1:]
    for pre, post in ("bitcoin:", ""), ("", "\r\n"), ("\"", "\""), ("<", ">"), ("", "?"), ("b'", "'"), ("0x", ""):
        yield f"{pre!a} and {post!a} around", pre + text + post
    for i in (0, 1, 2, 5, n, len(text) - 6, len(text) - 2, len(text) - 1):
        yield f"character {i} changed", text[:i] + ("3" if text[i] != "3" else "4") + text[i + 1:]
        if text[i].isalpha() and text[i].swapcase() in spec.B58:
            yield f"case of character {i} changed", text[:i] + text[i].swapcase() + text[i + 1:]
        yield f"character {i} in full width", text[:i] + chr(ord(text[i]) + 0xFEE0) + text[i + 1:]
    for c, alike in ("1", "lI\u00b9\u0661"), ("o", "0O\u00ba\u043e"), ("K", "\u212a\u041a"), ("A", "\u0410\u24b6"):
        if c in text:
            i = text.index(c)
            for a in alike:
                yield f"{a!a} for {c}", text[:i] + a + text[i + 1:]
    for i in range(0, len(text) - 1, 1 if tier == "thorough" else 7):
        if text[i] != text[i + 1]:
            yield f"characters {i}, {i + 1} exchanged", text[:i] + text[i + 1] + text[i] + text[i + 2:]
    for x, what in ((text.upper(), "upper case"), (text.lower(), "lower case"), (text[::-1], "reversed"), (text[:-1], "cut"),
                    (text[1:], "first character missing"), (text + text[-1], "last character doubled"), ("1" + text, "1 before"),
                    (text + "1", "1 after"), (text + text, "twice"), (text[:n], "half")):
        if x != text:
            yield what, x


def b58checked(text, alpha=spec.B58):
    if not text or not set(text) <= set(alpha):
        return False
    v = 0
    for c in text:
        v = v * 58 + alpha.index(c)
    raw = bytes(len(text) - len(text.lstrip(alpha[0]))) + v.to_bytes((v.bit_length() + 7) // 8, "big")
    return len(raw) >= 4 and hashlib.sha256(hashlib.sha256(raw[:-4]).digest()).digest()[:4] == raw[-4:]


def uses_of(E):
    """what consumes encoded text: (name, valid texts, call)"""
    S, R = E.S, E.R
    st0, b0 = E.start("mainnet")
    uses = []
    for op in ("decrypt", "encrypt", "confirm_code", "create_new_encrypted_wif"):
        name = dict(decrypt="encrypted_wif", encrypt="wif", confirm_code="confirmation_code",
                    create_new_encrypted_wif="intermediate_passphrase")[op]
        kw = dict(seed=SEED) if op == "create_new_encrypted_wif" else dict(passphrase=PW)

        def call(text, op=op, name=name, kw=kw):
            st, b = E.start("mainnet")
            return E.op(st, b, op, **{name: text}, **kw)
        uses.append((op, VALID[op], call))
    for path, arg, texts in ((("bip38.wif", "decode_wif"), "wif", VALID["encrypt"]),
                             (("bip38.wif", "wif_to_private_key"), "wif", VALID["encrypt"]),
                             (("bip38.wif", "get_wif_type"), "wif", VALID["encrypt"]),
                             (("bip38.wif", "get_wif_checksum"), "wif", VALID["encrypt"]),
                             (("bip38.p2pkh_address", "P2PKHAddress", "decode"), "address", VALID["address"])):
        try:
            f = S.glob(*path)
        except Missing:
            continue

        def call(text, f=f, arg=arg, path=path):
            r = S.call(f, [], {arg: text}, st0.fork())
            r.name, r.site = path[-1], S.site(f)
            return r
        uses.append((path[-1], texts, call))
    return uses


def spoiled_texts(E, tier):
    """particular texts as constants: foreign characters and wrong checksums in otherwise valid ones"""
    for op, texts, call in uses_of(E):
        for text in texts:
            if not b58checked(text):
                raise AnalysisBroken(f"the sample {text} is not valid")
            for what, x in spoil(text, tier):
                if not b58checked(x):
                    not_ok(E, call(x), f"{op}({text[:6]}..., {what})")


def wif_consumers(E):
    S = E.S
    st0, b = E.start("mainnet")
    coin = S.attr(st0, b, "cryptocurrency")
    for mod in ("bip38.wif", "bip38"):
        for name in ("decode_wif", "wif_to_private_key", "get_wif_type", "get_wif_checksum"):
            try:
                f = S.glob(mod, name)
            except Missing:
                continue
            for how, kw in wif_kw(name, coin):
                r = S.call(f, [], dict(wif=TXT, **kw), st0.fork())
                r.name, r.site = name, S.site(f)
                checked(E, r, f"{name}(any text, {how})")
        break


def wif_kw(name, coin):
    if name == "decode_wif":
        return [("default prefix", {}), ("one-byte prefix", dict(wif_prefix=intv(WIFP["mainnet"])))]
    return [("defaults", {}), ("mainnet", dict(cryptocurrency=coin, network="mainnet")),
            ("testnet", dict(cryptocurrency=coin, network="testnet"))]


def addr_consumers(E):
    S = E.S
    try:
        f = S.glob("bip38.p2pkh_address", "P2PKHAddress", "decode")
    except Missing:
        return
    for n, kw in (("default prefix", {}), ("one-byte prefix", dict(address_prefix=intv(ADDP["mainnet"]))),
                  ("two-byte prefix", dict(address_prefix=intv(ADDP["testnet"])))):
        for alpha in (spec.B58, bo.ALPHA2):
            st, b = E.start("mainnet")
            k = dict(kw) if alpha == spec.B58 else dict(kw, alphabet=alpha)
            r = S.call(f, [TXT], k, st)
            r.name, r.site = "P2PKHAddress.decode", S.site(f)
            checked(E, r, f"P2PKHAddress.decode(any text, {n}{'' if alpha == spec.B58 else ', custom alphabet'})",
                    alpha)


# ---------------------------------------------------------------- C10
def byte_values(st, bits):
    """the byte values a path admits for eight bits"""
    out = []
    for v in range(256):
        y = st.fork()
        if y.assume(("eqbits", tuple(bxor(b, v >> (7 - i) & 1) for i, b in enumerate(bits))), True):
            out.append(v)
    return out


def flag_rule(E, y, rec, at, legal, w):
    vals = byte_values(y, vbits(rec)[8 * at:8 * at + 8])
    bad = [v for v in vals if v not in legal]
    if bad and sat_with(y, vbits(rec)[8 * at:8 * at + 8], bad[0]):
        E.R.bad(f"{w}: legal flag", y.ret, f"a record with flag byte {bad[0]:02x} is accepted\n"
                f"on the path: {'; '.join(facts(y))}")
        return None
    if bad:
        E.R.und(f"{w}: legal flag", f"flag {bad[0]:02x} not excluded")
        return None
    E.R.ok(f"{w}: legal flag")
    return vals


def sat_with(st, bits, v):
    y = st.fork()
    return y.assume(("eqbits", tuple(bxor(b, v >> (7 - i) & 1) for i, b in enumerate(bits))), True) and \
        sat(y)


EC_LEGAL = frozenset(v for v in range(256) if not v & 0xC3)


def const_rule(E, y, rec, at, wants, w, what):
    """bytes at..: one of the constants"""
    got = bslice(rec, at, at + len(wants[0]))
    bits = y.store.nbits(vbits(got))
    for c in wants:
        if bits == tuple(vbits(c)):
            E.R.ok(f"{w}: {what}")
            return c
    # exclude each possibility that is not a wanted constant
    z = y.fork()
    for c in wants:
        if not z.assume(("eqbits", tuple(bxor(a, b) for a, b in zip(vbits(got), vbits(c)))), False):
            E.R.ok(f"{w}: {what}")
            return None
    if sat(z) or sat(y):
        E.R.bad(f"{w}: {what}", y.ret, f"accepted without requiring {' or '.join(c.hex() for c in wants)} at bytes "
                f"{at}..{at + len(wants[0]) - 1}\non the path: {'; '.join(facts(y))}")
    else:
        E.R.und(f"{w}: {what}", "path of unknown feasibility")
    return None


def length_rule(E, y, rec, n, w):
    if len(rec) == n:
        E.R.ok(f"{w}: exact length")
        return True
    if sat(y):
        E.R.bad(f"{w}: exact length", y.ret, f"a text of {len(rec)} bytes is accepted instead of {n} only\n"
                f"on the path: {'; '.join(facts(y))}")
    else:
        E.R.und(f"{w}: exact length", "path of unknown feasibility")
    return False


def salts(y):
    return [e[2] for e in y.events if e[0] == "scrypt"]


def C10(R, tier):
    E = Env(R)
    for inst, call, net in NETCASES if tier == "thorough" else NETCASES[:2]:
        for detail in (False, True):
            w = f"decrypt(any text, instance {inst}, call network {call}, detail={detail})"
            b, r = opaque(E, "decrypt", inst, call, detail=detail)
            E.only_errors(r, w)
            for y, v, rec in records(E, r, w):
                if not length_rule(E, y, rec, 43, w):
                    continue
                if const_rule(E, y, rec, 0, [spec.PFX_NOEC, spec.PFX_EC], w, "prefix") is None:
                    continue
                ec = tuple(y.store.nbits(vbits(rec)[:16])) == tuple(vbits(spec.PFX_EC))
                if flag_rule(E, y, rec, 2, EC_LEGAL if ec else {0xC0, 0xE0}, w) is None:
                    continue
                for z, bit in bit_cases(y, vbits(rec)[2 * 8 + 2]):
                    form_rule(E, z, v, detail, bit, w)
                    for t, lot in bit_cases(z, vbits(rec)[2 * 8 + 5]) if ec else [(z, 0)]:
                        lot_rule(E, t, v, detail, lot, bslice(rec, 7, 15) if ec else None, w)
            w = f"confirm_code(any text, instance {inst}, call network {call}, detail={detail})"
            b, r = opaque(E, "confirm_code", inst, call, detail=detail)
            E.only_errors(r, w)
            for y, v, rec in records(E, r, w):
                if not length_rule(E, y, rec, 55, w):
                    continue
                if const_rule(E, y, rec, 0, [spec.PFX_CONF], w, "prefix") is None:
                    continue
                if flag_rule(E, y, rec, 5, EC_LEGAL, w) is None:
                    continue
                for z, bit in bit_cases(y, vbits(rec)[5 * 8 + 2]):
                    if detail:
                        expect_fields(E, z, v, dict(public_key_type=PTYPES[bit == 1]), w)
                    for t, lot in bit_cases(z, vbits(rec)[5 * 8 + 5]):
                        lot_rule(E, t, v, detail, lot, bslice(rec, 10, 18), w)
        for comp in (False, True):
            w = f"create_new_encrypted_wif(any text, {WTYPES[comp]}, instance {inst}, call network {call})"
            b, r = opaque(E, "create_new_encrypted_wif", inst, call, wif_type=WTYPES[comp], seed=SEED)
            E.only_errors(r, w)
            for y, v, rec in records(E, r, w):
                if not length_rule(E, y, rec, 53, w):
                    continue
                m = const_rule(E, y, rec, 0, [spec.MAGIC_LOT, spec.MAGIC_NOLOT], w, "magic")
                if m is None:
                    continue
                for nm, at in (("encrypted_wif", 2), ("confirmation_code", 5)):
                    x, ok = field(E, y, v, nm, w, y.ret)
                    pl = payload_of(x)
                    if pl is None or not fixed(pl):
                        R.und(w, f"{nm} not readable")
                        continue
                    R.expect(E.S, f"{w}: flag of the {nm}", y, bslice(pl, at, at + 1),
                             spec.ec_flag(comp, m == spec.MAGIC_LOT))
                    R.expect(E.S, f"{w}: entropy of the {nm}", y, bslice(pl, at + 5, at + 13), bslice(rec, 8, 16))
    for wt in ("WIF", "wif_compressed", "", "compressed", "wif-uncompressed", "Wif", " wif"):
        pt, b, r = created_from_point_wt(E, wt)
        E.refused(r, f"create_new_encrypted_wif with WIF type {wt!r}")


def created_from_point_wt(E, wt):
    st, b = E.start("mainnet")
    key_in_range(st, PPK)
    pt = spec.pub(PPK)
    code = spec.b58check(bcat(spec.MAGIC_NOLOT, ENT, ec_compressed(pt)))
    return pt, b, E.op(st, b, "create_new_encrypted_wif", intermediate_passphrase=code, wif_type=wt, seed=SEED)


def form_rule(E, z, v, detail, bit, w):
    if detail:
        expect_fields(E, z, v, dict(public_key_type=PTYPES[bit == 1], wif_type=WTYPES[bit == 1]), w)
        x, ok = field(E, z, v, "wif", w, z.ret)
    else:
        x = v
    pl = payload_of(x)
    if pl is None or not fixed(pl):
        E.R.und(w, "WIF not readable")
    elif len(pl) == (38 if bit else 37):
        E.R.ok(f"{w}: WIF form follows flag bit 0x20")
    else:
        E.R.bad(f"{w}: WIF form follows flag bit 0x20", z.ret,
                f"flag bit 0x20 is {bit}, the WIF has {len(pl)} bytes\non the path: {'; '.join(facts(z))}")


def lot_rule(E, t, v, detail, lot, ent, w):
    if ent is None:
        if detail:
            expect_fields(E, t, v, dict(lot=None, sequence=None), w)
        return
    want = bslice(ent, 0, 4) if lot else ent
    sc = [(e[2], e) for e in t.events if e[0] == "scrypt" and "passphrase" in taint(e[1]) and whole_pw(e[1])]
    for s, e in sc:
        E.R.expect(E.S, f"{w}: owner salt follows flag bit 0x04", t, s, want, e[-1])
    if not sc and E.S.history is None:      # after an earlier call its result may be at hand already
        E.R.und(w, "no scrypt call over the passphrase")
    if detail:
        if lot:
            l, ok = field(E, t, v, "lot", w, t.ret)
            s, ok2 = field(E, t, v, "sequence", w, t.ret)
            if l is None or s is None:
                E.R.bad(f"{w}: lot and sequence", t.ret, "flag bit 0x04 is set but lot or sequence is None")
            elif isinstance(l, (int, SI)) and isinstance(s, (int, SI)):
                lotseq_rule(E, t, l, s, bslice(ent, 4, 8), w)
            elif isinstance(l, Unk) or isinstance(s, Unk):
                E.R.und(f"{w}: lot and sequence", "not known")
            else:
                E.R.bad(f"{w}: lot and sequence", t.ret, f"lot {show(l)[:100]}, sequence {show(s)[:100]}")
        else:
            expect_fields(E, t, v, dict(lot=None, sequence=None), w)


def lotseq_rule(E, t, l, s, ls, w):
    bits = vbits(ls)
    E.R.expect(E.S, f"{w}: lot of the record", t, l, int_bits(bits[:20]))
    E.R.expect(E.S, f"{w}: sequence of the record", t, s, int_bits(bits[20:]))


def whole_pw(v):
    """the scrypt input stems from the passphrase text itself"""
    return not has_kind(v, "scrypt")


def has_kind(v, kind, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Term):
        if v.id in seen:
            return False
        seen.add(v.id)
        return v.kind == kind or any(has_kind(a, kind, seen) for a in v.args)
    if isinstance(v, (BV, BitTuple)):
        return any(has_kind(atom(a)[0], kind, seen) for b in set(v.bits) if b > 1 for a in bset(b) if a)
    if isinstance(v, BitE):
        return has_kind(BitTuple((v.b,)), kind, seen)
    if isinstance(v, (VB, SS)):
        return any(has_kind(p, kind, seen) for p in v.parts)
    if isinstance(v, SI):
        return any(has_kind(t, kind, seen) for m, _ in v.poly for t in m)
    if isinstance(v, (tuple, list)):
        return any(has_kind(t, kind, seen) for t in v)
    if isinstance(v, Tup):
        return has_kind(v.items, kind, seen)
    return False


# ---------------------------------------------------------------- base58 check variants
def check_variants(R, E, decode_only=False):
    S = R.session()
    for name in ("check_encode", "check_decode"):
        if decode_only and name == "check_encode":
            continue
        f = bo.b58(R, S, name)
        if f is None:
            continue
        for alpha in (spec.B58, bo.ALPHA2):
            kw = {} if alpha == spec.B58 else {"alphabet": alpha}
            for n in () if decode_only else (0, 1, 5, 21, 22, 39, 49, 51):
                d = inbytes("payload", n) if n else b""
                what = f"{name} of {n} bytes" + ("" if alpha == spec.B58 else ", custom alphabet")
                if name == "check_encode":
                    r = S.call(f, [d], kw)
                    r.name, r.site = name, S.site(f)
                    E.no_exception(r, what)
                    for y, v in E.oks(r, what):
                        R.expect(S, what, y, v, spec.b58check(d, alpha))
                else:
                    r = S.call(f, [spec.b58check(d, alpha)], kw)
                    r.name, r.site = name, S.site(f)
                    E.no_exception(r, what)
                    for y, v in E.oks(r, what):
                        R.expect(S, what, y, v, d)
            if name == "check_decode":
                r = S.call(f, [TXT], kw)
                r.name, r.site = name, S.site(f)
                checked(E, r, "check_decode of any text", alpha)
                for y, v in E.oks(r, "check_decode of any text"):
                    p = dec_info(y, TXT, alpha)
                    if p is not None:
                        n = len(p[0])
                        R.expect(S, "check_decode returns all but the last 4 bytes", y, v, bslice(p[0], 0, max(0, n - 4)))




# ---------------------------------------------------------------- all operations
BADNETS = ("nonet", "Mainnet", "testnet ", "main", "MAINNET", " mainnet", "signet")


def all_ops(E, tier, nets=None):
    """every operation in every input class: (what, run, secrets, sizes of the
    draws expected on success, salt/seed kind)"""
    for name, b, r, salt, lot in intermediates(E, True):
        yield dict(what=f"intermediate_code({name})", op="intermediate_code", r=r, b=b,
                   secrets={"passphrase"}, draws=[8] if salt is None else [], lot=lot)
    for c in nonec_cases(E):
        if nets is None and c["call"]:
            continue
        r = E.op(c["st"], c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
        yield dict(what=f"encrypt({c['name']})", op="encrypt", r=r, b=c["b"],
                   secrets={"passphrase", "private_key"}, draws=[])
        r = E.op(c["st"].fork(), c["b"], "decrypt", encrypted_wif=c["enc"], passphrase=PW, detail=True,
                 network=c["call"] or OMIT)
        yield dict(what=f"decrypt(valid, {c['name']})", op="decrypt", r=r, b=c["b"],
                   secrets={"passphrase", "private_key"}, draws=[])
    for inst, call, net in NETCASES[:2]:
        b, r = opaque(E, "encrypt", inst, call)
        yield dict(what=f"encrypt(any text, instance {inst}, call {call})", op="encrypt", r=r, b=b,
                   secrets={"passphrase", "text"}, draws=[])
        for op in ("decrypt", "confirm_code"):
            for detail in (False, True):
                b, r = opaque(E, op, inst, call, detail=detail)
                yield dict(what=f"{op}(any text, instance {inst}, call {call}, detail={detail})", op=op, r=r, b=b,
                           secrets={"passphrase"}, draws=[])
        for lot in (False, True):
            for comp in (False, True):
                for sn, seed in seed_cases():
                    pt, b, r = created_from_point(E, inst, call, net, lot, comp, seed)
                    yield dict(what=f"create_new_encrypted_wif({WTYPES[comp]}, {sn}, {'lot' if lot else 'no lot'}, "
                               f"instance {inst}, call {call})", op="create_new_encrypted_wif", r=r, b=b,
                               secrets={"seed"}, draws=[24] if seed is OMIT else [])
        for seed in (SEED, OMIT):
            b, r = opaque(E, "create_new_encrypted_wif", inst, call, seed=seed)
            yield dict(what=f"create_new_encrypted_wif(any text, {'seed' if seed is SEED else 'random seed'}, instance "
                       f"{inst}, call {call})", op="create_new_encrypted_wif", r=r, b=b, secrets={"seed"},
                       draws=[24] if seed is OMIT else [])


def helper_ops(E):
    """the public functions below the BIP38 class"""
    S = E.S
    st0, b = E.start("mainnet")
    coin = S.attr(st0, b, "cryptocurrency")

    def g(mod, *names):
        try:
            return S.glob(mod, *names)
        except Missing:
            return None

    def run(what, f, args, kw, secrets):
        if f is None:
            return None
        st = st0.fork()
        key_in_range(st, KEY)
        r = S.call(f, args, kw, st)
        r.name, r.site = what, S.site(f)
        return dict(what=what, op=what, r=r, b=b, secrets=secrets, draws=[])
    net = dict(cryptocurrency=coin, network="mainnet")
    out = [run("encode_wif", g("bip38.wif", "encode_wif"), [KEY], {}, {"private_key"}),
           run("private_key_to_wif", g("bip38.wif", "private_key_to_wif"), [KEY], dict(wif_type="wif", **net),
               {"private_key"}),
           run("decode_wif", g("bip38.wif", "decode_wif"), [TXT], {}, {"text"})]
    for n in ("wif_to_private_key", "get_wif_type", "get_wif_checksum"):
        out.append(run(n, g("bip38.wif", n), [TXT], net, {"text"}))
    pub = spec.ser(spec.pub(KEY), True)
    out += [run("P2PKHAddress.encode", g("bip38.p2pkh_address", "P2PKHAddress", "encode"), [pub], {}, set()),
            run("P2PKHAddress.decode", g("bip38.p2pkh_address", "P2PKHAddress", "decode"), [TXT], {}, set()),
            run("PrivateKey.from_bytes", g("bip38.secp256k1", "PrivateKey", "from_bytes"), [KEY], {}, {"private_key"}),
            run("PublicKey.from_bytes", g("bip38.secp256k1", "PublicKey", "from_bytes"), [pub], {}, set())]
    for n in ("sha256", "double_sha256", "ripemd160", "hash160", "get_checksum"):
        out.append(run(n, g("bip38.crypto", n), [KEY], {}, {"private_key"}))
    for n in ("check_encode", "encode"):
        out.append(run("base58." + n, g("bip38.libs.base58", n), [KEY], {}, {"private_key"}))
    for n in ("check_decode", "decode"):
        out.append(run("base58." + n, g("bip38.libs.base58", n), [TXT], {}, {"text"}))
    # secrets of another length, as text, and out of range
    odd = [(f"{n}-byte key", inbytes("private_key", n)) for n in (1, 31, 33, 64)]
    odd += [(f"{n} as hex", hexof(k)) for n, k in odd] + [("key as hex", hexof(KEY)), ("any text as key",
                                                                                     instr("private_key"))]
    for nm, k in odd:
        out.append(run(f"encode_wif({nm})", g("bip38.wif", "encode_wif"), [k], {}, {"private_key"}))
        for wt in ("wif", "wif-compressed", "no type"):
            out.append(run(f"private_key_to_wif({nm}, {wt})", g("bip38.wif", "private_key_to_wif"), [k],
                           dict(wif_type=wt, **net), {"private_key"}))
        for n in ("sha256", "double_sha256", "ripemd160", "hash160", "get_checksum"):
            out.append(run(f"{n}({nm})", g("bip38.crypto", n), [k], {}, {"private_key"}))
        for n in ("get_bytes", "bytes_to_string"):
            out.append(run(f"{n}({nm})", g("bip38.utils", n), [k], {}, {"private_key"}))
        if isbytes(k):
            out.append(run(f"PrivateKey.from_bytes({nm})", g("bip38.secp256k1", "PrivateKey", "from_bytes"), [k], {},
                           {"private_key"}))
            out.append(run(f"bytes_to_integer({nm})", g("bip38.utils", "bytes_to_integer"), [k], {}, {"private_key"}))
    return [x for x in out if x]


def secret_ops(E):
    """operations on salts, seeds and passphrases that are refused, or not in
    the usual form"""
    for nm, k in [(f"{n}-byte seed", inbytes("seed", n)) for n in (1, 23, 25, 32)] + \
            [(f"{n}-byte seed as hex", hexof(inbytes("seed", n))) for n in (1, 23, 25, 32)] + \
            [("any text as seed", instr("seed"))]:
        for lot in (False, True):
            pt, b, r = created_from_point(E, "mainnet", None, "mainnet", lot, True, k)
            yield dict(what=f"create_new_encrypted_wif({nm}, {'lot' if lot else 'no lot'})",
                       op="create_new_encrypted_wif", r=r, b=b, secrets={"seed"},
                       draws=None if nm.startswith("any") else [])      # an empty text is none: see C17
    for nm, kw in (("7-byte salt", dict(owner_salt=inbytes("salt", 7))),
                   ("4-byte salt without lot", dict(owner_salt=SALT4)),
                   ("any text as salt", dict(owner_salt=instr("salt"))),
                   ("lot only", dict(owner_salt=SALT8, lot=LOT)), ("sequence only", dict(owner_salt=SALT8, sequence=SEQ)),
                   ("any lot and sequence", dict(owner_salt=SALT8, lot=LOT, sequence=SEQ)),
                   ("any lot and sequence, 4-byte salt", dict(owner_salt=SALT4, lot=LOT, sequence=SEQ))):
        st, b = E.start("mainnet")
        r = E.op(st, b, "intermediate_code", passphrase=PW, **kw)
        yield dict(what=f"intermediate_code({nm})", op="intermediate_code", r=r, b=b, secrets={"passphrase"},
                   draws=None if nm == "any text as salt" else [])
    for net in ("nonet",):
        st, b = E.start("mainnet")
        for op, kw, sec in (("encrypt", dict(wif=TXT, passphrase=PW), {"text", "passphrase"}),
                            ("decrypt", dict(encrypted_wif=TXT, passphrase=PW), {"passphrase"}),
                            ("confirm_code", dict(confirmation_code=TXT, passphrase=PW), {"passphrase"}),
                            ("create_new_encrypted_wif", dict(intermediate_passphrase=TXT, seed=SEED), {"seed"})):
            r = E.op(st.fork(), b, op, network=net, **kw)
            yield dict(what=f"{op}(unknown network)", op=op, r=r, b=b, secrets=sec, draws=[])


def every(E, tier):
    yield from all_ops(E, tier)
    yield from secret_ops(E)
    yield from helper_ops(E)
    for inst in NETS:
        st = E.S.state()
        coin = E.S.coin(st, "AnyCoin", {n: (WIFP[n], ADDP[n]) for n in DEFINED})
        r = E.S.bip38(st, coin, inst)
        r.name, r.site = "BIP38()", "bip38/bip38.py"
        yield dict(what=f"BIP38({inst})", op="BIP38", r=r, b=None, secrets=set(), draws=[])


def outcomes(r):
    return [(y, v, y.ret, True) for y, v in r.oks] + [(y, e, w, False) for y, e, w in r.exs]


# ---------------------------------------------------------------- C14
class Buf(Report):
    """the failures of one network case, kept until its siblings are known"""

    def __init__(self, R, net):
        super().__init__(R.prop)
        self.R, self.net = R, net
        self.fails = []

    def ok(self, name, n=1):
        self.R.ok(name, n)

    def und(self, name, why):
        self.R.und(name, why)

    def bad(self, name, where, msg, key=None):
        self.fails.append((name, where, msg, self.value))

    value = None

    def expect(self, s, name, st, v, want, where=None):
        self.value = v
        r = super().expect(s, name, st, v, want, where)
        self.value = None
        return r


def by_network(E, cases):
    """run the same scenario for every combination of instance and call
    network; a failure counts when it depends on the network: it does not occur
    in all of them, or the value mentions the prefixes of another network, or
    not those of its own"""
    R = E.R
    bufs = []
    for net, f in cases:
        E.R = Buf(R, net)
        try:
            f()
        finally:
            bufs.append(E.R)
            E.R = R
    every_case = all(b.fails for b in bufs)
    for b in bufs:
        own = {"wif_prefix_" + b.net, "addr_prefix_" + b.net}
        other = {x + n for x in ("wif_prefix_", "addr_prefix_") for n in DEFINED if n != b.net}
        for name, where, msg, v in b.fails:
            t = set(taint(v)) if v is not None else None
            if not every_case or t is not None and (t & other or not t & own):
                R.bad(name, where, msg)
            else:
                R.ok(name + " (fails alike on every network: not a question of networks)")


def later(E, r, c, w):
    """a call never changes what later calls without a network do: either
    nothing that existed before the call was written, or the operations are
    analysed again in the state it left"""
    n = c["inst"]
    for y, v, where, ok in outcomes(r):
        if y.negl or y.imprecise:
            continue
        if not any(e[0] == "write" for e in y.events):
            E.R.ok(f"{w}: later calls are as before")
            continue
        st = y.fork()
        st.events = ()
        k2 = inbytes("another_private_key", 32)
        key_in_range(st, k2)
        addr = spec.address(ADDP[n], spec.pub(k2), False)
        wif = spec.wif(WIFP[n], k2, False)
        fresh = E.inst[n][0].fork()
        key_in_range(fresh, k2)
        for op, kw, want in (("encrypt", dict(wif=wif, passphrase=PW), None),
                             ("decrypt", dict(encrypted_wif=spec.noec_encrypted(k2, PW, addr, False), passphrase=PW),
                              None),
                             ("create_new_encrypted_wif", dict(intermediate_passphrase=spec.b58check(
                                 bcat(spec.MAGIC_NOLOT, ENT, ec_compressed(spec.pub(k2)))), seed=SEED), "address")):
            q0 = E.op(fresh.fork(), c["b"], op, **kw)
            q1 = E.op(st.fork(), c["b"], op, **kw)
            o0 = [(z, x) for z, x in q0.oks if not z.negl]
            o1 = [(z, x) for z, x in q1.oks if not z.negl]
            e0 = [z for z, _, _ in q0.exs if not z.negl]
            e1 = [(z, e) for z, e, _ in q1.exs if not z.negl]
            if any(z.imprecise for z, _ in o0 + o1) or q0.limits or q1.limits or len(o0) != 1 or e0:
                E.R.und(f"{w}, then {op} without a network", "not analysable")
                continue
            what = f"{w}, then {op} without a network on an instance of {n}"
            if e1:
                E.R.bad(what, where, f"{op} raises {E.S.exc(*e1[0])} after the call, and does not before it\n"
                        f"on the path: {'; '.join(facts(e1[0][0])) or 'every path'}")
                continue
            for z, x in o1:
                a, b = o0[0][1], x
                if want:
                    a, b = (getdict(o0[0][0], a) or {}).get(want), (getdict(z, x) or {}).get(want)
                E.R.expect(E.S, what, z, b, a, where)


def C14(R, tier):
    E = Env(R)
    other = {"mainnet": "testnet", "testnet": "mainnet", "regtest": "mainnet"}

    def differ(st, net):
        return st.assume(("eqbits", tuple(bxor(a, b) for a, b in zip(vbits(WIFP[net]), vbits(WIFP[other[net]])))),
                         False)

    def encrypts(c):
        w = f"encrypt({c['name']})"
        r = E.op(c["st"].fork(), c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
        E.no_exception(r, w)
        for y, v in E.oks(r, w):
            p = payload_of(v)
            if p is not None and fixed(p) and len(p) == 43:
                E.R.expect(E.S, f"{w}: address hash on {c['net']}", y, bslice(p, 3, 7), spec.address_hash(c["addr"]))
            else:
                R.und(w, "record not readable")
        later(E, r, c, w)

    def decrypts(c, detail):
        w = f"decrypt(record of {c['name']}, detail={detail})"
        r = E.op(c["st"].fork(), c["b"], "decrypt", encrypted_wif=c["enc"], passphrase=PW, detail=detail,
                 network=c["call"] or OMIT)
        E.no_exception(r, w)
        for y, v in E.oks(r, w):
            if detail:
                expect_fields(E, y, v, dict(wif=c["wif"], address=c["addr"]), w)
            else:
                E.R.expect(E.S, w, y, v, c["wif"])
        later(E, r, c, w)
    cases = list(nonec_cases(E))
    for comp in (False, True):
        group = [c for c in cases if c["comp"] == comp]
        by_network(E, [(c["net"], lambda c=c: encrypts(c)) for c in group])
        for detail in (False, True):
            by_network(E, [(c["net"], lambda c=c: decrypts(c, detail)) for c in group])
    z = E.S.state()
    q = E.S.bip38(z, Ext("int"), "mainnet")
    q.name, q.site = "BIP38", E.S.site(E.S.glob("bip38", "BIP38"))
    E.refused(q, "BIP38(a class that is no cryptocurrency)")
    # an instance made without a network is one of mainnet
    try:
        y, b = E.start(None)
    except Undecided:
        z = E.S.state()
        q = E.S.bip38(z, E.S.coin(z, "AnyCoin", {n: (WIFP[n], ADDP[n]) for n in DEFINED}), None)
        if q.oks or q.limits or not q.exs or any(e[0].imprecise for e in q.exs):
            raise
        R.bad("BIP38(cryptocurrency): an instance of mainnet", q.exs[0][2], f"raises {E.S.exc(*q.exs[0][:2])}")
        y = b = None
    if b is not None:
        key_in_range(y, KEY)
    for comp in (False, True) if b is not None else ():
        w = f"encrypt({WTYPES[comp]}, instance and call without a network)"
        r = E.op(y.fork(), b, "encrypt", wif=spec.wif(WIFP["mainnet"], KEY, comp), passphrase=PW)
        E.no_exception(r, w)
        for z, v in E.oks(r, w):
            p = payload_of(v)
            if p is not None and fixed(p) and len(p) == 43:
                R.expect(E.S, f"{w}: address hash on mainnet", z, bslice(p, 3, 7),
                         spec.address_hash(spec.address(ADDP["mainnet"], spec.pub(KEY), comp)))
            else:
                R.und(w, "record not readable")
    # a WIF of the other network is refused
    for c in cases:
        st = c["st"].fork()
        if differ(st, c["net"]):
            r = E.op(st, c["b"], "encrypt", wif=spec.wif(WIFP[other[c["net"]]], KEY, c["comp"]), passphrase=PW,
                     network=c["call"] or OMIT)
            E.refused(r, f"encrypt(WIF of the other network, {c['name']})")

    def creates(inst, call, net, lot, comp):
        pt, b, r = created_from_point(E, inst, call, net, lot, comp, SEED)
        w = f"create_new_encrypted_wif({'lot' if lot else 'no lot'}, {WTYPES[comp]}, instance {inst}, " \
            f"call network {call})"
        E.no_exception(r, w)
        for y, v in E.oks(r, w):
            p = spec.ec_parts(ENT, pt, SEED, ADDP[net], comp)
            expect_fields(E, y, v, dict(address=p["address"],
                                        encrypted_wif=spec.b58check(spec.ec_record(p, ENT, comp, lot)),
                                        confirmation_code=spec.b58check(spec.conf_record(p, ENT, comp, lot))), w)
        later(E, r, dict(inst=inst, b=b), w)
    for lot in (False, True):
        for comp in (False, True):
            by_network(E, [(net, lambda a=(inst, call, net): creates(*a, lot, comp)) for inst, call, net in NETCASES])
    for inst, call, net in NETCASES:
        b, r = opaque(E, "encrypt", inst, call)
        w = f"encrypt(any text, instance {inst}, call network {call})"
        for y, v, rec in records(E, r, w):
            if len(rec):
                R.expect(E.S, f"{w}: WIF prefix of {net}", y, bslice(rec, 0, 1), WIFP[net])
        later(E, r, dict(inst=inst, b=b), w)
        for detail in (False, True):
            for op in ("decrypt", "confirm_code"):
                b, r = opaque(E, op, inst, call, detail=detail)
                w = f"{op}(any text, instance {inst}, call network {call}, detail={detail})"
                for y, v, rec in records(E, r, w):
                    prefixes(E, y, v, op, detail, net, w)
                later(E, r, dict(inst=inst, b=b), w)
    unknown_networks(E)


def prefixes(E, y, v, op, detail, net, w):
    if detail:
        a, ok = field(E, y, v, "address", w, y.ret)
        x = field(E, y, v, "wif", w, y.ret)[0] if op == "decrypt" else None
    else:
        a, x = (None, v) if op == "decrypt" else (v, None)
    for t, pfx, nm in ((a, ADDP[net], "address"), (x, WIFP[net], "WIF")):
        if t is None:
            continue
        p = payload_of(t)
        if p is None or not fixed(p):
            E.R.und(w, f"{nm} not readable")
            continue
        if len(p) < len(pfx):
            E.R.bad(f"{w}: prefix of the {nm}", y.ret, f"{nm} of {len(p)} bytes")
            continue
        E.R.expect(E.S, f"{w}: {nm} prefix of {net}", y, bslice(p, 0, len(pfx)), pfx)


def unknown_networks(E):
    S, R = E.S, E.R
    try:
        NE = S.glob("bip38.exceptions", "NetworkError")
    except Missing:
        R.und("unknown networks", "bip38.exceptions.NetworkError is gone")
        return
    addr = spec.address(ADDP["mainnet"], spec.pub(KEY), False)
    for inst in NETS:
        for bad in BADNETS:
            for op, kw in (("encrypt", dict(wif=spec.wif(WIFP[inst], KEY, False), passphrase=PW)),
                           ("decrypt", dict(encrypted_wif=spec.noec_encrypted(KEY, PW, addr, False), passphrase=PW)),
                           ("create_new_encrypted_wif", dict(intermediate_passphrase=spec.b58check(
                               bcat(spec.MAGIC_NOLOT, ENT, ec_compressed(spec.pub(PPK)))), seed=SEED)),
                           ("confirm_code", dict(confirmation_code=TXT, passphrase=PW))):
                st, b = E.start(inst)
                key_in_range(st, KEY)
                key_in_range(st, PPK)
                r = E.op(st, b, op, network=bad, **kw)
                E.refused(r, f"{op} with the unknown network {bad!r}", NE)
    for bad in BADNETS + ("",):
        st = S.state()
        coin = S.coin(st, "AnyCoin", {n: (WIFP[n], ADDP[n]) for n in DEFINED})
        r = S.bip38(st, coin, bad)
        r.name, r.site = "BIP38()", "bip38/bip38.py"
        E.refused(r, f"BIP38() with the unknown network {bad!r}", NE)


# ---------------------------------------------------------------- C16
def mentions_raw(v, name, seen=None):
    """does the value depend on the input text other than through
    utf8(normalize(NFC, text)) into scrypt?"""
    seen = {} if seen is None else seen
    if isinstance(v, Term):
        if name not in v.taint and v.kind != "in":
            return False
        if v.id in seen:
            return seen[v.id]
        seen[v.id] = False
        if v.kind == "scrypt" and same(v.args[0], spec.pw_bytes(PW)):
            r = any(mentions_raw(a, name, seen) for a in v.args[1:])
        else:
            r = v.kind == "in" and v.args[0] == name or any(mentions_raw(a, name, seen) for a in v.args)
        seen[v.id] = r
        return r
    if isinstance(v, (BV, BitTuple)):
        return any(mentions_raw(atom(a)[0], name, seen) for b in set(v.bits) if b > 1 for a in bset(b) if a)
    if isinstance(v, BitE):
        return mentions_raw(BitTuple((v.b,)), name, seen)
    if isinstance(v, (VB, SS)):
        return any(mentions_raw(p, name, seen) for p in v.parts)
    if isinstance(v, SI):
        return any(mentions_raw(t, name, seen) for m, _ in v.poly for t in m)
    if isinstance(v, (tuple, list)):
        return any(mentions_raw(t, name, seen) for t in v)
    if isinstance(v, Tup):
        return mentions_raw(v.items, name, seen)
    return False


# passphrases whose handling commonly goes wrong: constants propagated through
# the operations beside the passphrase that stands for every passphrase
TEXTS = ["\u00e9" * 700 + "long" * 350 + "END", "  lead and trail \t\n", "a  b\u3000c\u00a0d\te\rf\r\ng\x85h\u2028i", "nul\0after\0",
         "UPPER CASE", "lower case", "0123456789", "\u200bzero\ufeffwidth\u200d\u00ad", "\ufeffmark", "e\u0301\u212b\ufb01\u2168\u00bd",
         "deadBEEF", "0x1F", "50%25 \\n \\u0041 &amp; {x} $HOME %s", "\U0001f600\U00010400\U0001f468\u200d\U0001f469", "'quoted' \"q\"",
         "p\u0323\u0307\u0307\u0323\u03d2\u0301\u0000\U00010400\U0001f4a9", "\u1112\u1161\u11ab \ud55c", "\u0130I\u0131i\u00df\u1e9e", " ", "\t", "None",
         "\x1b[0m\x7f\x08", "TestingOneTwoThree", "#c;d,e|f/g", "\u202eright\u0661\u0662", "\u2126\u03a9\uff21\uff11"]


def fixed_passphrases(E):
    """particular passphrases as constants"""
    R = E.R
    for pw in TEXTS:
        want = spec.pw_bytes(pw)
        runs = []
        st, b = E.start("mainnet")
        runs.append(("intermediate_code", st, b, dict(passphrase=pw, owner_salt=SALT8), None))
        for c in [c for c in nonec_cases(E) if not c["call"]][:1]:
            runs.append(("encrypt", c["st"].fork(), c["b"], dict(wif=c["wif"], passphrase=pw), c))
            runs.append(("decrypt", c["st"].fork(), c["b"], dict(encrypted_wif=c["enc"], passphrase=pw), c))
        for op, st, b, kw, c in runs:
            what = f"{op}(passphrase {pw[:30]!r})"
            r = E.op(st, b, op, **kw)
            if op != "decrypt":
                E.no_exception(r, what)
            for y, v, w, ok in outcomes(r):
                if y.negl or y.imprecise:
                    continue
                for e in y.events:
                    if e[0] == "scrypt" and isinstance(e[1], bytes):
                        if e[1] == want:
                            R.ok(f"{what}: scrypt is fed the UTF-8 of the NFC form of the whole passphrase")
                        else:
                            R.bad(f"{what}: scrypt is fed the UTF-8 of the NFC form of the whole passphrase", e[-1],
                                  f"it is fed {e[1][:80]!r} ({len(e[1])} bytes) instead of {want[:80]!r} "
                                  f"({len(want)} bytes)")
                if ok and op == "encrypt":
                    R.expect(E.S, f"{what}: the record", y, v, spec.noec_encrypted(KEY, pw, c["addr"], c["comp"]), w)


def C16(R, tier):
    E = Env(R)
    want = spec.pw_bytes(PW)
    fixed_passphrases(E)
    for o in all_ops(E, tier, True):
        if o["op"] == "create_new_encrypted_wif":
            continue
        r, what = o["r"], o["what"]
        seen = 0
        for x in r.limits:
            R.und(what, x)
        for y, v, w, ok in outcomes(r):
            if y.negl:
                continue
            if y.imprecise:
                R.und(what, "; ".join(y.imprecise))
                continue
            for e in y.events:
                if e[0] == "lossy" and "passphrase" in taint(e[2]):
                    R.bad(f"{what}: different passphrases stay different", e[-1],
                          f"encoded with errors={e[1]!r}: passphrases that differ only in lone surrogates become one")
                if e[0] == "scrypt" and "passphrase" in taint(e[1]) and not has_kind(e[1], "scrypt"):
                    seen += 1
                    R.expect(E.S, f"{what}: scrypt is fed the UTF-8 of the NFC form of the whole passphrase", y, e[1],
                             want, e[-1])
            if ok:
                parts = list((getdict(y, v) or {}).values()) or [v]
                if any(mentions_raw(p, "passphrase") for p in parts) and not any(isinstance(p, Unk) for p in parts):
                    # sound only when the scrypt inputs were as expected
                    if not any(e[0] == "scrypt" and "passphrase" in taint(e[1]) and not same(e[1], want) and
                               not has_kind(e[1], "scrypt") for e in y.events):
                        R.bad(f"{what}: nothing but scrypt uses the passphrase", w,
                              "the result depends on the passphrase other than through scrypt")
                else:
                    R.ok(f"{what}: nothing but scrypt uses the passphrase")
        if not seen and not r.limits:
            good = [y for y, v in r.oks if not y.imprecise and not y.negl]
            if good:
                R.bad(f"{what}: scrypt is fed the passphrase", good[0].ret, "a result is produced without a scrypt "
                      "evaluation of the passphrase")
            else:
                R.und(what, "no scrypt evaluation seen")


# ---------------------------------------------------------------- C17
def C17(R, tier):
    E = Env(R)
    for o in every(E, tier):
        r, what = o["r"], o["what"]
        for x in r.limits:
            R.und(what, x)
        if o["draws"] and not r.limits and not any(ok for *_, ok in outcomes(r)):
            R.bad(f"{what}: a default is drawn", r.site, "no path returns a result")
        for y, v, w, ok in outcomes(r):
            if y.negl:
                continue
            if y.imprecise:
                R.und(what, "; ".join(y.imprecise))
                continue
            d = [(e[1], e[2]) for e in y.events if e[0] == "draw"]
            sizes = [n for _, n in d]
            if o["draws"] is None:
                if sizes not in ([], [24], [8]):
                    R.bad(f"{what}: at most one draw", w, f"draws {sizes} bytes\n"
                          f"on the path: {'; '.join(facts(y)) or 'every path'}")
                else:
                    R.ok(f"{what}: at most one draw")
            elif not o["draws"]:
                if d:
                    R.bad(f"{what}: nothing is drawn", [e[-1] for e in y.events if e[0] == "draw"][0],
                          f"draws {sizes} bytes although the caller supplied the value"
                          f"\non the path: {'; '.join(facts(y)) or 'every path'}")
                else:
                    R.ok(f"{what}: nothing is drawn")
            elif ok:
                if sizes == o["draws"]:
                    R.ok(f"{what}: one fresh draw of {sizes[0]} bytes")
                else:
                    R.bad(f"{what}: one fresh draw of {o['draws'][0]} bytes", w,
                          f"the call draws {sizes or 'nothing'} from the cryptographic source\n"
                          f"on the path: {'; '.join(facts(y)) or 'every path'}")
                    continue
                fresh_use(E, o, y, v, what)
            for e in y.events:
                if e[0] == "cache" and e[4]:
                    R.bad(f"{what}: draws are not memoised", e[2], f"{e[1]} draws random bytes and is memoised: a later "
                          "call reuses them")
            if ok:
                parts = list((getdict(y, v) or {}).values()) or [v]
                tn = [t for p in parts for t in taint(p) if str(t).startswith("predictable:")]
                if tn:
                    R.bad(f"{what}: nothing predictable", w, f"the result depends on {tn[0][12:]}")
    second_draw(E)


def fresh_use(E, o, y, v, what):
    R = E.R
    if o["op"] == "intermediate_code":
        p = payload_of(v)
        d = drawn(y, 8)
        if p is None or not fixed(p) or len(p) != 53:
            R.und(what, "record not readable")
        else:
            n = 4 if o["lot"] else 8
            R.expect(E.S, f"{what}: the drawn bytes are the owner salt", y, bslice(p, 8, 8 + n), bslice(d, 0, n))
    elif o["op"] == "create_new_encrypted_wif":
        d = drawn(y, 24)
        expect_fields(E, y, v, dict(seed=hexof(d)), f"{what}: the drawn bytes are the seed")


def second_draw(E):
    """two calls in a row: the second draws again"""
    R = E.R
    for lot in (False, True):
        st, b = E.start("mainnet")
        kw = dict(passphrase=PW)
        if lot:
            set_lotseq(st)
            kw.update(lot=LOT, sequence=SEQ)
        twice(E, b, st, "intermediate_code", kw, 8)
    for comp in (False, True):
        st, b = E.start("mainnet")
        key_in_range(st, PPK)
        code = spec.b58check(bcat(spec.MAGIC_NOLOT, ENT, ec_compressed(spec.pub(PPK))))
        twice(E, b, st, "create_new_encrypted_wif", dict(intermediate_passphrase=code, wif_type=WTYPES[comp]), 24)


def twice(E, b, st, op, kw, n):
    R = E.R
    w = f"{op} twice"
    r = E.op(st, b, op, **kw)
    for y, v in E.oks(r, w):
        q = E.op(y, b, op, **kw)
        for z, x in E.oks(q, w):
            d = [e[3] for e in z.events if e[0] == "draw" and e[2] == n]
            if len(d) == 2 and d[0] != d[1]:
                R.ok(w + ": two draws")
            else:
                R.bad(w + ": two draws", z.ret, f"{len(d)} draws of {n} bytes in two calls")


# ---------------------------------------------------------------- C18
def C18(R, tier):
    E = Env(R)
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 24, 32] if tier == "quick" else list(range(1, 65))
    for n in sizes:
        salt = inbytes(f"salt_{n}", n)
        for lot in (False, True):
            res = []
            for form, arg in (("bytes", salt), ("hex", hexof(salt))):
                st, b = E.start("mainnet")
                kw = dict(passphrase=PW, owner_salt=arg)
                if lot:
                    set_lotseq(st)
                    kw.update(lot=LOT, sequence=SEQ)
                r = E.op(st, b, "intermediate_code", **kw)
                w = f"intermediate_code with a {n}-byte owner salt as {form}, {'lot' if lot else 'no lot'}"
                if n == 8 or n == 4 and lot:
                    E.no_exception(r, w)
                    for y, v in E.oks(r, w):
                        e = (bslice(salt, 0, 4), lotseq_bytes(E, y)) if lot else (salt, None)
                        R.expect(E.S, f"{w}: used verbatim", y, v, spec.b58check(spec.intermediate_payload(PW, *e)))
                else:
                    E.refused(r, w)
    sizes = list(range(1, 41)) + [48, 64] if tier == "quick" else list(range(1, 130))
    for n in sizes:
        seed = inbytes(f"seed_{n}", n)
        for form, arg in (("bytes", seed), ("hex", hexof(seed))):
            for lot in (False, True):
                if n != 24 and lot:
                    continue
                for comp in (False, True):
                    if n != 24 and comp and n % 4:
                        continue
                    pt, b, r = created_from_point(E, "mainnet", None, "mainnet", lot, comp, arg)
                    w = f"create_new_encrypted_wif with a {n}-byte seed as {form}, {'lot' if lot else 'no lot'}, " \
                        f"{WTYPES[comp]}"
                    if n == 24:
                        E.no_exception(r, w)
                        for y, v in E.oks(r, w):
                            p = spec.ec_parts(ENT, pt, seed, ADDP["mainnet"], comp)
                            expect_fields(E, y, v, dict(
                                seed=hexof(seed), encrypted_wif=spec.b58check(spec.ec_record(p, ENT, comp, lot))),
                                f"{w}: used verbatim")
                    else:
                        E.refused(r, w)
    open_length(E)
    fixed_texts(E)


# particular salts and seeds: what tests of their content no fact decides lead to
def particular(n):
    mix = bytes((37 * i + 0xa5) % 256 for i in range(n))
    return [bytes(n), b"\xff" * n, b"1" * n, b"ab12CD34" * (n // 8) + b"ef56"[:n % 8], b"0x" + b"ab" * (n // 2 - 1),
            b"\x00" * (n - 1) + b"\x01", b"\x01" + b"\x00" * (n - 1), b" " * n, b"\x20" + mix[2:] + b"\x0a", mix]


def fixed_texts(E):
    R = E.R

    def salted(arg, lot):
        st, b = E.start("mainnet")
        kw = dict(passphrase=PW, owner_salt=arg)
        if lot:
            set_lotseq(st)
            kw.update(lot=LOT, sequence=SEQ)
        return E.op(st, b, "intermediate_code", **kw)

    for n in (8, 4):
        for raw in particular(n):
            for arg in (raw, raw.hex(), raw.hex().upper()):
                for lot in (False, True) if n == 8 else (True,):
                    w = f"intermediate_code(owner salt {arg!r}, {'lot' if lot else 'no lot'})"
                    r = salted(arg, lot)
                    E.no_exception(r, w)
                    for y, v in E.oks(r, w):
                        e = (raw[:4], lotseq_bytes(E, y)) if lot else (raw, None)
                        R.expect(E.S, f"{w}: used verbatim", y, v, spec.b58check(spec.intermediate_payload(PW, *e)))
    for raw in particular(24):
        for arg in (raw, raw.hex(), raw.hex().upper()):
            w = f"create_new_encrypted_wif(seed {arg!r})"
            pt, b, r = created_from_point(E, "mainnet", None, "mainnet", False, True, arg)
            E.no_exception(r, w)
            for y, v in E.oks(r, w):
                p = spec.ec_parts(ENT, pt, raw, ADDP["mainnet"], True)
                expect_fields(E, y, v, dict(
                    seed=raw.hex(), encrypted_wif=spec.b58check(spec.ec_record(p, ENT, True, False))), f"{w}: used verbatim")
    # texts with an odd number of digits spell no bytes at all
    for digits in (1, 7, 9, 15, 17):
        for c in "0", "a":
            arg = c + "5c" * (digits // 2)
            for lot in (False, True):
                not_ok(E, salted(arg, lot), f"intermediate_code(owner salt of {digits} digits {arg!r}, "
                                            f"{'lot' if lot else 'no lot'})")
    for digits in (1, 47, 49):
        for c in "0", "a":
            arg = c + "5c" * (digits // 2)
            not_ok(E, created_from_point(E, "mainnet", None, "mainnet", False, True, arg)[2],
                   f"create_new_encrypted_wif(seed of {digits} digits {arg!r})")


def not_ok(E, r, w):
    for y, v in E.oks(r, w):
        if not y.imprecise:
            E.R.bad(f"{w}: refused", y.ret, f"a result is returned: {show(v)[:200]}")
            return
    E.R.ok(w)


def open_length(E):
    """salts and seeds of no particular length: whatever is accepted has the
    right one and is used unchanged"""
    R = E.R
    for form, mk in (("any text", lambda n: instr(n)), ("bytes of any length", lambda n: VB((T("in", n),)))):
        arg = mk("salt")
        t = T("unhex", arg.parts[0]) if form == "any text" else arg.parts[0]
        for lot in (False, True):
            w = f"intermediate_code with {form} as owner salt, {'lot' if lot else 'no lot'}"
            st, b = E.start("mainnet")
            kw = dict(passphrase=PW, owner_salt=arg)
            if lot:
                set_lotseq(st)
                kw.update(lot=LOT, sequence=SEQ)
            r = E.op(st, b, "intermediate_code", **kw)
            for y, v in E.oks(r, w):
                if empty(y, arg):
                    d = drawn(y, 8)
                    salt = None if d is None else d
                else:
                    salt = fixed_len(y, t)
                if salt is None:
                    R.und(w, "length not determined")
                    continue
                if not (len(salt) == 8 or lot and len(salt) == 4):
                    R.bad(f"{w}: of the right length", y.ret, f"a salt of {len(salt)} bytes is accepted\n"
                          f"on the path: {'; '.join(facts(y)) or 'every path'}")
                    continue
                e = (bslice(salt, 0, 4), lotseq_bytes(E, y)) if lot else (salt, None)
                R.expect(E.S, f"{w}: used verbatim", y, v, spec.b58check(spec.intermediate_payload(PW, *e)))
        arg = mk("seed")
        t = T("unhex", arg.parts[0]) if form == "any text" else arg.parts[0]
        for lot in (False, True):
            w = f"create_new_encrypted_wif with {form} as seed, {'lot' if lot else 'no lot'}"
            pt, b, r = created_from_point(E, "mainnet", None, "mainnet", lot, True, arg)
            for y, v in E.oks(r, w):
                seed = drawn(y, 24) if empty(y, arg) else fixed_len(y, t)
                if seed is None:
                    R.und(w, "length not determined")
                    continue
                if len(seed) != 24:
                    R.bad(f"{w}: of the right length", y.ret, f"a seed of {len(seed)} bytes is accepted\n"
                          f"on the path: {'; '.join(facts(y)) or 'every path'}")
                    continue
                p = spec.ec_parts(ENT, pt, seed, ADDP["mainnet"], True)
                expect_fields(E, y, v, dict(
                    seed=hexof(seed), encrypted_wif=spec.b58check(spec.ec_record(p, ENT, True, lot))),
                    f"{w}: used verbatim")


def empty(y, arg):
    """is the argument known to be empty on this path?"""
    c = y.store.flag.get(arg.parts[0])
    if c is not None and c[0] == "is" and c[1] in ("", b""):
        return True
    if isinstance(arg, SS):
        return False
    lo, hi = y.store.rng(iatom(T("len", arg.parts[0])))
    return hi == 0


def fixed_len(y, t):
    lo, hi = y.store.rng(iatom(T("len", t)))
    if lo is None or hi is None or hi - lo > 64:
        return None
    if lo != hi:
        return bytes(hi)          # more than one length is accepted: report the longest
    return tbytes(T(t.kind, *t.args, size=lo)) if lo else b""


# ---------------------------------------------------------------- C19
def mutable_refs(v, st, seen=None):
    seen = set() if seen is None else seen
    rs = []
    refs_in(v, rs)
    for i in rs:
        if i in seen:
            continue
        seen.add(i)
        o = st.heap.get(i) or st.base.get(i)
        if isinstance(o, (LObj, DObj, SetObj, BAObj, Inst)):
            for s in o.__slots__:
                a = getattr(o, s, None)
                if isinstance(a, dict):
                    a = tuple(a.values())
                if a is not None:
                    mutable_refs(a, st, seen)
    return seen


def C19(R, tier):
    E = Env(R)
    for o in every(E, tier):
        r, what = o["r"], o["what"]
        for x in r.limits:
            R.und(what, x)
        for y, v, w, ok in outcomes(r):
            if y.negl:
                continue
            bad = False
            for e in y.events:
                if e[0] == "write":
                    bad = True
                    R.bad(f"{what}: no shared state is modified", e[2], f"modifies {e[1]}")
            if y.imprecise:
                R.und(what, "; ".join(y.imprecise))
                continue
            if ok:
                mine = mutable_refs(v, y)
                for e in y.events:
                    if e[0] == "cache":
                        if e[4]:
                            bad = True
                            R.bad(f"{what}: later calls do not depend on earlier ones", e[2],
                                  f"{e[1]} draws random bytes and is memoised")
                        shared = mutable_refs(e[3].items[-1:], y) & mine
                        if any(isinstance(y.heap.get(i) or y.base.get(i), (LObj, DObj, SetObj, BAObj))
                               for i in shared):
                            bad = True
                            R.bad(f"{what}: later calls do not depend on earlier ones", e[2],
                                  f"the memoised result of {e[1]} is mutable and returned to the caller")
                shared = [i for i in mine if i < y.boundary and not isinstance(y.base.get(i), (Inst, Cls, Mod)) and
                          isinstance(y.heap.get(i) or y.base.get(i), (LObj, DObj, SetObj, BAObj))]
                if shared and o["op"] != "BIP38":
                    bad = True
                    R.bad(f"{what}: the result is not shared state", w, "the returned object is part of module or "
                          "class state, so changing it changes later results")
                parts = list((getdict(y, v) or {}).values()) or [v]
                tn = [t for p in parts for t in taint(p) if str(t).startswith("predictable:")]
                if tn:
                    bad = True
                    R.bad(f"{what}: a function of its arguments", w, f"the result depends on {tn[0][12:]}")
            if not bad:
                R.ok(f"{what}: no shared state is modified")
    repeat(E)


def repeat(E):
    """the same call again, after other calls on the same and another instance,
    gives the same result"""
    R = E.R
    for c in nonec_cases(E):
        w = f"encrypt({c['name']}) again after other calls"
        st = c["st"].fork()
        r = E.op(st, c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
        for y, v in E.oks(r, w):
            q = E.op(y, c["b"], "intermediate_code", passphrase=instr("other passphrase"), owner_salt=SALT8)
            for z, _ in E.oks(q, w):
                p = E.op(z, c["b"], "decrypt", encrypted_wif=v, passphrase=PW, network=c["call"] or OMIT, detail=True)
                for t, d in E.oks(p, w):
                    q2 = E.op(t, c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
                    E.no_exception(q2, w)
                    for u, x in E.oks(q2, w):
                        R.expect(E.S, w, u, x, v)


# ---------------------------------------------------------------- C20
SINK = re.compile(
    r"(^|\bof )(print|input|breakpoint|exec|eval|builtins\.print|logging\.|logging$|sys\.(stdout|stderr|__std|audit|exit|"
    r"displayhook|excepthook)|open\b|io\.|codecs\.open|os\.(environ|putenv|setenv|write|system|popen|exec|spawn|posix|"
    r"pipe|fdopen|open|symlink|mkdir|rename|mkfifo)|subprocess\.|socket\.|socketserver\.|warnings\.|traceback\.|urllib|"
    r"http|requests\.|ftplib|smtplib|telnetlib|tempfile\.|syslog\.|pathlib\.|shelve\.|sqlite3\.|pprint\.|json\.dump|"
    r"pickle\.dump|marshal\.dump|multiprocessing\.|threading\.|queue\.|asyncio\.|atexit\.|mmap\.|ctypes\.|shutil\.|"
    r"getpass\.|curses|tkinter|webbrowser|email|xmlrpc|select\.|signal\.|fcntl\.|zipfile\.|tarfile\.|gzip\.|csv\.|"
    r"configparser\.|dbm|inspect\.|gc\.|faulthandler\.|trace\.|cProfile|timeit)")


def C20(R, tier):
    E = Env(R)
    for o in every(E, tier):
        r, what, secrets = o["r"], o["what"], o["secrets"]
        for x in r.limits:
            R.und(what, x)
        for y, v, w, ok in outcomes(r):
            if y.negl:
                continue
            bad = False
            for e in y.events:
                if e[0] == "unkcall":
                    t = set(e[3]) & secrets
                    if t and SINK.search(str(e[1])):
                        bad = True
                        R.bad(f"{what}: secrets stay inside", e[2], f"{', '.join(sorted(t))} (or a value derived from it) "
                              f"is passed to {e[1]}")
                    elif t:
                        R.und(f"{what}: secrets stay inside", f"{', '.join(sorted(t))} reaches {e[1]} ({e[2]})")
                        bad = True
                elif e[0] in ("write", "cache"):
                    t = set(E.I.deep_taint(e[3], y)) & secrets
                    if t:
                        bad = True
                        R.bad(f"{what}: secrets are not kept", e[2], f"{', '.join(sorted(t))} (or a value derived from it) "
                              f"is kept in {e[1]}")
            if not ok and not y.imprecise:
                t = set(E.I.deep_taint(e_attrs(y, v), y)) & secrets
                if t:
                    bad = True
                    R.bad(f"{what}: secrets do not enter exceptions", w,
                          f"{E.S.exc(y, v)} carries {', '.join(sorted(t))} or a value derived from it\n"
                          f"on the path: {'; '.join(facts(y)) or 'every path'}")
            if not bad:
                R.ok(f"{what}: secrets stay inside")


def e_attrs(st, e):
    """the values an exception object carries as its message, with what it is explicitly raised from"""
    out, seen = [], set()
    while isinstance(e, Ref) and e.id not in seen and isinstance(st.get(e), Inst):
        seen.add(e.id)
        o = st.get(e)
        out += [v for k, v in o.attrs.items() if k not in ("__cause__", "__context__", "__traceback__")]
        e = o.attrs.get("__cause__")
    return tuple(out)


# ---------------------------------------------------------------- C21
MALFORMED = ("", "\u00e9", "0OIl", " ", "1" * 50, "6P", "z" * 300, "1", "11111", "\n", "\x00", "\ud7ff", "6PRVWUbkzzsbc"
             "Vac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoG", "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg1",
             "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg ", "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVX",
             "passphraseqVKbgU4mWMakKGgCtaeVWoETQdzMBy5696bG2w7ckVBeQmoLhMF9vLaxhmzhT4", "cfrm38V8ZR17HkU8Xdu8RunWf8CZauXp"
             "hNQa5HFJd4cxEYckXHS6tfo9M73yL3FPmWv1xqBQsgH", "\u0661\u0662", "\U0001f600", "2" * 44, "\uff11", "K" + "w" * 51,
             "l" * 58, "6P" + "0" * 56, "6P" * 1250, "1" * 2500, "6P" * 900 + "0")


def C21(R, tier):
    E = Env(R)
    for inst, call, net in NETCASES[:2] if tier == "quick" else NETCASES:
        for op, kw in (("decrypt", dict(detail=False)), ("decrypt", dict(detail=True)), ("confirm_code", dict()),
                       ("confirm_code", dict(detail=True)), ("encrypt", {}),
                       ("create_new_encrypted_wif", dict(seed=SEED)), ("create_new_encrypted_wif", dict(
                           wif_type="wif-compressed"))):
            b, r = opaque(E, op, inst, call, **kw)
            w = f"{op}(any text, instance {inst}, call network {call}{', detail' if kw.get('detail') else ''})"
            E.only_errors(r, w)
            E.displayable(r, w)
            E.oks(r, w)
            # what is accepted is well-formed: a malformed text gives no result
            checked(E, r, w)
            for y, v, rec in records(E, r, w):
                n = dict(decrypt=(43,), confirm_code=(55,), create_new_encrypted_wif=(53,), encrypt=(37, 38))[op]
                if len(rec) in n:
                    R.ok(w + ": length")
                elif sat(y):
                    R.bad(w + ": length", y.ret, f"a text of {len(rec)} bytes gives {show(v)[:150]}")
                else:
                    R.und(w, "length on a path of unknown feasibility")
    for text in MALFORMED:
        for op in ("decrypt", "confirm_code", "encrypt", "create_new_encrypted_wif"):
            st, b = E.start("mainnet")
            names = dict(decrypt="encrypted_wif", confirm_code="confirmation_code", encrypt="wif",
                         create_new_encrypted_wif="intermediate_passphrase")
            kw = {names[op]: text}
            if op != "create_new_encrypted_wif":
                kw["passphrase"] = PW
            r = E.op(st, b, op, **kw)
            if op == "encrypt" and text.startswith("5KN7"):
                pass
            E.refused(r, f"{op}({text[:40]!a})")
            E.displayable(r, f"{op}({text[:40]!a})")
    for op, texts, call in uses_of(E)[:4]:
        for text in texts:
            for what, x in spoil(text, tier):
                if not b58checked(x):
                    E.refused(call(x), f"{op}({text[:6]}..., {what})")
    bo.foreign(R, E)


# ---------------------------------------------------------------- C22
def C22(R, tier):
    E = Env(R)
    for inst, call, net in NETCASES:
        for op, key in (("decrypt", "wif"), ("confirm_code", "address")):
            b, r = opaque(E, op, inst, call, detail=True)
            w = f"{op}(any text, instance {inst}, call network {call})"
            arg = dict(decrypt="encrypted_wif", confirm_code="confirmation_code")[op]
            for y, v, rec in records(E, r, w):
                coherent(E, y, v, rec, op, net, w)
                q = E.op(y.fork(), b, op, **{arg: TXT}, passphrase=PW, network=call or OMIT)     # plain unless details are asked for
                E.no_exception(q, w + ": plain result too")
                x, ok = field(E, y, v, key, w, y.ret)
                for z, p in E.oks(q, w):
                    R.expect(E.S, f"{w}: the plain result is the {key} of the detailed one", z, p, x)
            b, r = opaque(E, op, inst, call, detail=False)
            for y, v, rec in records(E, r, w):
                q = E.op(y.fork(), b, op, **{arg: TXT}, passphrase=PW, network=call or OMIT, detail=True)
                E.no_exception(q, w + ": detailed result too")
                for z, p in E.oks(q, w):
                    x, ok = field(E, z, p, key, w, z.ret)
                    R.expect(E.S, f"{w}: the {key} of the detailed result is the plain one", z, x, v)


def coherent(E, y, v, rec, op, net, w):
    R = E.R
    d = getdict(y, v)
    if d is None:
        R.und(w, "no dictionary")
        return
    at = 2 if op == "decrypt" else 5
    if len(rec) <= at + 13:
        R.und(w, "short record")
        return
    ec = op != "decrypt" or tuple(y.store.nbits(vbits(rec)[:16])) == tuple(vbits(spec.PFX_EC))
    for z, comp in bit_cases(y, vbits(rec)[at * 8 + 2]):
        for t, lot in bit_cases(z, vbits(rec)[at * 8 + 5]) if ec else [(z, 0)]:
            if op == "decrypt":
                k, ok = field(E, t, v, "private_key", w, t.ret)
                key = hex_of(k)
                if key is not None and fixed(key) and len(key) != 32 and sat(t):
                    R.bad(f"{w}: private key form", t.ret, f"{len(key)} bytes on the path: {'; '.join(facts(t))}")
                    continue
                if key is None or not fixed(key) or len(key) != 32:
                    R.und(w, "private key not readable")
                    continue
                pub = spec.pub(key)
                expect_fields(E, t, v, dict(
                    wif=spec.wif(WIFP[net], key, comp == 1), wif_type=WTYPES[comp == 1],
                    public_key=hexof(spec.ser(pub, comp == 1)), public_key_type=PTYPES[comp == 1],
                    address=spec.address(ADDP[net], pub, comp == 1)), w)
                if ec:
                    pf, seed = spec.ec_seed(rec, PW, lot)
                    x, ok = field(E, t, v, "seed", w, t.ret)
                    R.expect(E.S, f"{w}: seed", t, x, hexof(seed))
                    kk = E.keyprod(pf, spec.dsha(seed), t)
                    if kk is not None:
                        R.expect(E.S, f"{w}: private key of the record", t, k, hexof(kk))
                else:
                    R.expect(E.S, f"{w}: private key of the record", t, k, hexof(spec.noec_key(rec, PW)))
                    expect_fields(E, t, v, dict(seed=None, lot=None, sequence=None), w)
            else:
                pk, ok = field(E, t, v, "public_key", w, t.ret)
                pk = hex_of(pk)
                if pk is None or not fixed(pk):
                    R.und(w, "public key not readable")
                    continue
                if len(pk) != (33 if comp else 65):
                    R.bad(f"{w}: public key form", t.ret, f"{len(pk)} bytes with flag bit 0x20 {comp}")
                    continue
                expect_fields(E, t, v, dict(public_key_type=PTYPES[comp == 1],
                                            address=spec.b58check(bcat(ADDP[net], spec.hash160(pk)))), w)
            if ec:
                if lot:
                    l, ok = field(E, t, v, "lot", w, t.ret)
                    s, ok = field(E, t, v, "sequence", w, t.ret)
                    lotseq_rule(E, t, l, s, bslice(rec, at + 9, at + 13), w)
                else:
                    expect_fields(E, t, v, dict(lot=None, sequence=None), w)
