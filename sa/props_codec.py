"""Properties of the codecs, wrappers, hash helpers and tables."""
import html
import words

from props_acc import *
from bodies import *

HASHES = dict(sha256=spec.sha256, double_sha256=spec.dsha, ripemd160=spec.ripemd160, hash160=spec.hash160,
              get_checksum=spec.checksum)


def run(E, f, what, args=(), kw=None, st=None):
    r = E.S.call(f, list(args), kw or {}, st if st is not None else E.S.state())
    r.name, r.site = what, E.S.site(f)
    return r


def gives(E, f, what, want, args=(), kw=None, st=None, name=None):
    """obligation: the call returns normally, and the result is `want` (a value
    or a function of the path)"""
    r = run(E, f, name or what, args, kw, st)
    E.no_exception(r, what)
    for y, v in E.oks(r, what):
        w = want(y) if callable(want) else want
        if isinstance(v, Ref) and isinstance(y.get(v), LObj) and isinstance(w, Tup):
            v = Tup(y.get(v).items)
        E.R.expect(E.S, what, y, v, w)
    return r


def refuses(E, f, what, args=(), kw=None, st=None, cls=None, name=None):
    r = run(E, f, name or what, args, kw, st)
    if cls is None:
        acc = E.oks(r, what)
        for y, v in acc:
            E.R.bad(what + ": refused", y.ret, f"{r.name} returns {show(v)[:300]} instead of refusing\n"
                    f"on the path: {'; '.join(facts(y)) or 'every path'}")
        if not acc:
            E.R.ok(what + ": refused")
    else:
        E.refused(r, what, cls)
    return r


def opt(E, mod, *names):
    try:
        return E.S.glob(mod, *names)
    except Missing:
        return None


# ---------------------------------------------------------------- C11
def C11(R, tier):
    E = Env(R)
    S = E.S
    st0, b = E.start("mainnet")
    coin = S.attr(st0, b, "cryptocurrency")
    key_in_range(st0, KEY, 0, 2 ** 256 - 1)
    enc, dec = opt(E, "bip38.wif", "encode_wif"), opt(E, "bip38.wif", "decode_wif")
    p2w = opt(E, "bip38.wif", "private_key_to_wif")
    for form, key in (("bytes", KEY), ("hex", hexof(KEY))):
        for pn, pfx, kw in (("default prefix", b"\x80", {}), ("any prefix", WIFP["mainnet"],
                                                              dict(wif_prefix=intv(WIFP["mainnet"])))):
            if enc is not None:
                gives(E, enc, f"encode_wif({form} key, {pn})",
                      Tup([spec.wif(pfx, KEY, False), spec.wif(pfx, KEY, True)]), [key], kw, st0.fork())
        for comp in (False, True):
            if p2w is not None:
                gives(E, p2w, f"private_key_to_wif({form} key, {WTYPES[comp]}, defaults)",
                      spec.wif(b"\x80", KEY, comp), [key], dict(wif_type=WTYPES[comp]), st0.fork())
                for net in NETS:
                    gives(E, p2w, f"private_key_to_wif({form} key, {WTYPES[comp]}, {net})",
                          spec.wif(WIFP[net], KEY, comp), [key],
                          dict(wif_type=WTYPES[comp], cryptocurrency=coin, network=net), st0.fork())
    if p2w is not None:
        gives(E, p2w, "private_key_to_wif(defaults)", spec.wif(b"\x80", KEY, True), [KEY], {}, st0.fork())
        for wt in ("WIF", "", "compressed", "wif_compressed", "wif-uncompressed", "Wif-Compressed"):
            refuses(E, p2w, f"private_key_to_wif with WIF type {wt!r}", [KEY], dict(wif_type=wt), st0.fork(), E.Error)
    for comp in (False, True):
        for pn, pfx, kw in (("default prefix", b"\x80", {}), ("any prefix", WIFP["mainnet"],
                                                              dict(wif_prefix=intv(WIFP["mainnet"])))):
            w = spec.wif(pfx, KEY, comp)
            chk = spec.checksum(bcat(pfx, KEY, b"\x01" if comp else b""))
            if dec is not None:
                gives(E, dec, f"decode_wif({WTYPES[comp]}, {pn})", Tup([KEY, WTYPES[comp], chk]), [w], kw, st0.fork())
        for net in NETS + ("default",):
            pfx = WIFP.get(net, b"\x80")
            kw = dict(cryptocurrency=coin, network=net) if net in NETS else {}
            w = spec.wif(pfx, KEY, comp)
            chk = spec.checksum(bcat(pfx, KEY, b"\x01" if comp else b""))
            for n, want in (("wif_to_private_key", hexof(KEY)), ("get_wif_type", WTYPES[comp]),
                            ("get_wif_checksum", hexof(chk))):
                f = opt(E, "bip38.wif", n)
                if f is not None:
                    gives(E, f, f"{n}({WTYPES[comp]}, {net})", want, [w], kw, st0.fork())
    # any text
    consumers = []
    if dec is not None:
        consumers += [(dec, "decode_wif", {}, b"\x80", 0),
                      (dec, "decode_wif", dict(wif_prefix=intv(WIFP["mainnet"])), WIFP["mainnet"], 0)]
    for n, k in (("wif_to_private_key", 1), ("get_wif_type", 2), ("get_wif_checksum", 3)):
        f = opt(E, "bip38.wif", n)
        if f is not None:
            for net in NETS:
                consumers.append((f, n, dict(cryptocurrency=coin, network=net), WIFP[net], k))
    for f, n, kw, pfx, k in consumers:
        r = run(E, f, n, [TXT], kw, st0.fork())
        w = f"{n}(any text)"
        E.only_errors(r, w)
        for y, v, rec in records(E, r, w):
            if len(rec) not in (37, 38):
                if sat(y):
                    R.bad(f"{w}: length", y.ret, f"a text of {len(rec)} bytes is accepted")
                else:
                    R.und(f"{w}: length", "path of unknown feasibility")
                continue
            comp = len(rec) == 38
            R.expect(S, f"{w}: prefix", y, bslice(rec, 0, 1), pfx)
            if comp:
                R.expect(S, f"{w}: 01 marker", y, bslice(rec, 33, 34), b"\x01")
            R.expect(S, f"{w}: checksum", y, bslice(rec, -4, len(rec)) if False else bslice(rec, len(rec) - 4, len(rec)),
                     spec.checksum(bslice(rec, 0, len(rec) - 4)))
            key, chk = bslice(rec, 1, 33), bslice(rec, len(rec) - 4, len(rec))
            R.expect(S, f"{w}: result", y, v, [Tup([key, WTYPES[comp], chk]), hexof(key), WTYPES[comp], hexof(chk)][k])
    # other key lengths
    for n in list(range(0, 41)) + [48, 64, 65] if tier == "quick" else range(0, 130):
        if n == 32:
            continue
        key = inbytes(f"key_{n}", n) if n else b""
        for form, k in (("bytes", key), ("hex", hexof(key) if n else "")):
            for f, nm, kw in ((enc, "encode_wif", {}), (p2w, "private_key_to_wif", {})):
                if f is not None:
                    refuses(E, f, f"{nm} of a {n}-byte key as {form}", [k], kw, st0.fork())
    # every prefix of the registry, as constants
    seen = set()
    for name, cls, tab in coins(S):
        for net, p in (tab or {}).items():
            if not p or not cint(p.get("wif_prefix")) or p["wif_prefix"] in seen:
                continue
            seen.add(p["wif_prefix"])
            pfx = prefix_bytes(p["wif_prefix"])
            for comp in (False, True):
                w = spec.wif(pfx, KEY, comp)
                chk = spec.checksum(bcat(pfx, KEY, b"\x01" if comp else b""))
                if p2w is not None:
                    gives(E, p2w, f"private_key_to_wif({name} {net}, {WTYPES[comp]})", w, [KEY],
                          dict(wif_type=WTYPES[comp], cryptocurrency=cls, network=net), st0.fork())
                if dec is not None:
                    gives(E, dec, f"decode_wif({name} {net}, {WTYPES[comp]})", Tup([KEY, WTYPES[comp], chk]), [w],
                          dict(wif_prefix=p["wif_prefix"]), st0.fork())
    bodies(R, [(0, 37), (0, 38), (1, 36), (1, 37)], [(0, 51), (0, 52), (1, 50), (1, 51)])
    constants(R, (37, 38))


# ---------------------------------------------------------------- C12
K1, K2 = inbytes("scalar_a", 32), inbytes("scalar_b", 32)
PREFIX1, PREFIX2 = inbytes("prefix", 1), inbytes("prefix2", 2)


def C12(R, tier):
    E = Env(R)
    S = E.S
    enc = opt(E, "bip38.p2pkh_address", "P2PKHAddress", "encode")
    dec = opt(E, "bip38.p2pkh_address", "P2PKHAddress", "decode")
    priv = opt(E, "bip38.secp256k1", "PrivateKey", "from_bytes")
    pt = spec.pub(K1)
    st0 = S.state()
    key_in_range(st0, K1)
    byte_range(st0, PREFIX2, 256, 65535)
    keys = [("compressed bytes", spec.ser(pt, True)), ("uncompressed bytes", spec.ser(pt, False)),
            ("compressed hex", hexof(spec.ser(pt, True))), ("uncompressed hex", hexof(spec.ser(pt, False)))]
    if priv is not None:
        r = run(E, priv, "PrivateKey.from_bytes", [K1], {}, st0.fork())
        if len(r.oks) == 1:
            y, k = r.oks[0]
            try:
                q = E.S.call(S.attr(y, k, "public_key"), [], {}, y)
                if len(q.oks) == 1:
                    st0 = q.oks[0][0]
                    keys.append(("PublicKey", q.oks[0][1]))
            except Missing:
                pass
    prefixes_ = [("one-byte prefix", PREFIX1), ("two-byte prefix", PREFIX2), ("default prefix", b"\x00")]
    for pn, pfx in prefixes_:
        for alpha in (spec.B58, ALPHA2, None):
            kw0 = {} if pn.startswith("default") else dict(address_prefix=intv(pfx))
            if alpha:
                kw0["alphabet"] = alpha
            a = alpha or spec.B58
            an = {spec.B58: "Bitcoin alphabet", ALPHA2: "Ripple alphabet", None: "default alphabet"}[alpha]
            for comp in (False, True, None):
                kw = dict(kw0)
                if comp is not None:
                    kw["public_key_type"] = PTYPES[comp]
                c = comp is not False
                for kn, k in keys:
                    if enc is not None:
                        gives(E, enc, f"P2PKHAddress.encode({kn}, {pn}, {an}, {PTYPES.get(comp, 'default form')})",
                              spec.address(pfx, pt, c, a), [k], kw, st0.fork())
                if dec is not None:
                    gives(E, dec, f"P2PKHAddress.decode({pn}, {an}, {PTYPES.get(comp, 'default form')})",
                          hexof(spec.hash160(spec.ser(pt, c))), [spec.address(pfx, pt, c, a)], kw0, st0.fork())
            if dec is None:
                continue
            r = run(E, dec, "P2PKHAddress.decode", [TXT], kw0, st0.fork())
            w = f"P2PKHAddress.decode(any text, {pn}, {an})"
            n = len(pfx)
            E.oks(r, w)
            for y, v in r.oks:
                if y.imprecise or y.negl:
                    continue
                p = dec_info(y, TXT, a)
                if p is None or p[1] != "dec":
                    R.und(w, "the text is not decoded with this alphabet (see C09)")
                    continue
                rec = p[0]
                if len(rec) != n + 24:
                    if sat(y):
                        R.bad(f"{w}: length", y.ret, f"a text of {len(rec)} bytes is accepted instead of {n + 24}")
                    else:
                        R.und(f"{w}: length", "path of unknown feasibility")
                    continue
                R.expect(S, f"{w}: prefix", y, bslice(rec, 0, n), pfx)
                R.expect(S, f"{w}: hash", y, v, hexof(bslice(rec, n, n + 20)))
                R.expect(S, f"{w}: checksum", y, bslice(rec, n + 20, n + 24), spec.checksum(bslice(rec, 0, n + 20)))
    enc_s = [(0, 25), (1, 24), (2, 23), (3, 22), (0, 26)]
    dec_s = [(0, 34), (1, 33), (1, 32), (2, 32), (0, 35)]
    bodies(R, enc_s, dec_s, (spec.B58, ALPHA2))
    constants(R, (25, 26), (spec.B58, ALPHA2))


# ---------------------------------------------------------------- C13
def C13(R, tier):
    E = Env(R)
    small = [(z, n) for t in range(0, 9) for z in range(t + 1) for n in [t - z]]
    big = [25, 37, 38, 43, 55] if tier == "quick" else list(range(9, 60)) + [70, 100, 128]
    enc = small + [(z, n - z) for n in big for z in ((0, 1, 2, n - 1, n) if tier == "quick" else
                                                     sorted({0, 1, 2, 3, 4, 7, n // 2, n - 1, n}))]
    dec = small + [(z, n - z) for n in ([33, 34, 50, 51, 52, 58, 72, 75] if tier == "quick" else
                                        list(range(9, 80)) + [100])
                   for z in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 5, n))]
    bodies(R, enc, dec)
    s2 = [(z, n) for z, n in small if z + n <= 3]
    bodies(R, s2 + [(0, 25), (1, 24)], s2 + [(0, 34), (1, 33)], (ALPHA2,))
    constants(R, list(range(0, 13)) + [25, 34, 37, 38, 43, 53, 55, 82] if tier == "quick" else
              list(range(0, 70)) + [100, 128, 200])
    constants(R, [100, 200, 400, 1000] if tier == "quick" else [300, 400, 700, 1000, 2000], only=1)
    constants(R, [0, 1, 4, 25], (ALPHA2,))
    foreign(R, E)
    foreign(R, E, ALPHA2)
    check_variants(R, E)
    text_to_int(R)


def text_to_int(R):
    """string_to_int, where it exists: big-endian value of bytes and text"""
    S = R.session(primitives=False)
    f = b58(R, S, "string_to_int")
    if f is None:
        return
    for n in (0, 1, 2, 5, 32):
        d = inbytes("data", n) if n else b""
        r = S.call(f, [d])
        for y, v in r.oks:
            R.expect(S, f"string_to_int of {n} bytes", y, v, spec.intof(d) if n else 0)
        for y, e, w in r.exs:
            if not y.imprecise:
                R.bad(f"string_to_int of {n} bytes", w, f"raises {S.exc(y, e)}")


# ---------------------------------------------------------------- C15
def published():
    """{name: {network: (wif prefix, address prefix)}} of the project's table"""
    p = os.path.join(REPO, "docs", "cryptocurrencies.rst")
    try:
        text = open(p, encoding="utf-8").read()
    except OSError:
        return None
    out, name = {}, None
    for row in re.findall(r"<tr\b.*?</tr>", text, re.S):
        cells = [html.unescape(re.sub(r"<[^>]*>", "", c)).strip() for c in
                 re.findall(r"<td\b.*?</td>", row, re.S)]
        if len(cells) == 4:
            name = cells[0]
            cells = cells[1:]
        if len(cells) != 3 or name is None:
            continue
        try:
            out.setdefault(name, {})[cells[0]] = (int(cells[1], 0), int(cells[2], 0))
        except ValueError:
            return None
    return out or None


def C15(R, tier):
    E = Env(R)
    S = E.S
    pub = published()
    if pub is None:
        R.und("published table", "docs/cryptocurrencies.rst not readable")
        pub = {}
    st = S.base
    where = "bip38/cryptocurrencies.py"
    have = {}
    for name, cls, tab in coins(S):
        have[name] = tab
        w = f"{where} (class {name})"
        if not tab:
            n = S.I.find_attr(st, cls, "NETWORKS")
            if n is None:
                R.bad(f"{name} defines its networks", w, "no NETWORKS")
            else:
                R.und(f"{name} defines its networks", "NETWORKS is not a known dictionary")
            continue
        if "mainnet" in tab:
            R.ok(f"{name} defines a mainnet")
        else:
            R.bad(f"{name} defines a mainnet", w, f"networks {sorted(map(str, tab))}")
        for net, p in tab.items():
            q = f"{name} {net}"
            if p is None:
                R.und(q, "parameters not a known dictionary")
                continue
            if set(p) != {"wif_prefix", "address_prefix"}:
                R.bad(f"{q}: exactly the two prefixes", w, f"entries {sorted(map(str, p))}")
                continue
            wp, ap = p["wif_prefix"], p["address_prefix"]
            if not cint(wp) or not cint(ap):
                (R.und if isinstance(wp, Unk) or isinstance(ap, Unk) else lambda a, b: R.bad(a, w, b))(
                    f"{q}: prefixes are integers", f"{wp!r}, {ap!r}")
                continue
            if 0 <= wp <= 0xFF and 0 <= ap <= 0xFFFF:
                R.ok(f"{q}: prefixes in range")
            else:
                R.bad(f"{q}: prefixes in range", w, f"WIF prefix {wp:#x}, address prefix {ap:#x}")
            want = pub.get(name, {}).get(net)
            if name in pub and want is None:
                R.bad(f"{q}: published", w, "this network is not in the published table")
            elif want is None:
                R.und(f"{q}: published", "this cryptocurrency is not in the published table")
            elif want == (wp, ap):
                R.ok(f"{q}: published values")
            else:
                R.bad(f"{q}: published values", w, f"WIF prefix {wp:#x}, address prefix {ap:#x}; the table says "
                      f"{want[0]:#x} and {want[1]:#x}")
        a = S.I.find_attr(st, cls, "ALPHABET")
        if a is None or isinstance(a, str):
            if a is None or len(a) == 58 == len(set(a)) and a.isascii():
                R.ok(f"{name}: alphabet")
            else:
                R.bad(f"{name}: alphabet", w, f"{len(a)} characters, {len(set(a))} different: {a!r}")
        else:
            R.und(f"{name}: alphabet", "not a constant")
    for name, nets in pub.items():
        for net in nets:
            if have.get(name) is None and name in have:
                continue
            if name in have and net in have[name]:
                R.ok(f"{name} {net} exists")
            else:
                R.bad(f"{name} {net} exists", where, "published in docs/cryptocurrencies.rst but not defined")
    # lookups on the class see what was read here
    for name, cls, tab in coins(S):
        if tab and "mainnet" in tab:
            for net in list(tab) if tier == "thorough" else list(tab)[:3]:
                r = S.bip38(S.state(), cls, net)
                r.name, r.site = "BIP38()", where
                E.no_exception(r, f"BIP38({name}, {net})")


# ---------------------------------------------------------------- C23
def C23(R, tier):
    for legacy in (False, True):
        wrappers(R, legacy)


def wrappers(R, legacy):
    E = Env(R, legacy=legacy)
    S = E.S
    gen = "older ecdsa" if legacy else "current ecdsa"
    Err = opt(E, "bip38.exceptions", "Secp256k1Error")
    if Err is None:
        R.und("wrappers", "Secp256k1Error is gone")
        return

    def cm(cls, name):
        return opt(E, "bip38.secp256k1", cls, name)

    def meth(y, o, name, *args):
        """the single outcome of a method call: (state, value)"""
        try:
            f = S.attr(y, o, name)
        except Missing:
            return None
        return f

    st0 = S.state()
    key_in_range(st0, K1)
    key_in_range(st0, K2)
    P1, P2 = spec.pub(K1), spec.pub(K2)

    def check(y, o, name, want, what, args=(), kw=None):
        try:
            f = S.attr(y, o, name)
        except Missing:
            R.und(what, f"{name} is gone")
            return []
        r = run(E, f, what, args, kw, y.fork())
        E.no_exception(r, what)
        out = E.oks(r, what)
        if want is not None:
            for z, v in out:
                R.expect(S, what, z, v, want(z) if callable(want) else want)
        return out

    def pub_ok(y, o, pt, what):
        check(y, o, "raw_compressed", spec.ser(pt, True), f"{what}.raw_compressed()")
        check(y, o, "raw_uncompressed", spec.ser(pt, False), f"{what}.raw_uncompressed()")
        for c in (True, False):
            check(y, o, "raw", spec.ser(pt, c), f"{what}.raw({PTYPES[c]})", [PTYPES[c]])
        for z, p in check(y, o, "point", None, f"{what}.point()"):
            pt_ok(z, p, pt, f"{what}.point()")

    def pt_ok(y, o, pt, what):
        check(y, o, "raw_encoded", spec.ser(pt, True), f"{what}.raw_encoded()")
        for n in ("raw", "raw_decoded"):
            check(y, o, n, ec_raw(pt), f"{what}.{n}()")
        check(y, o, "x", int_bits(ecx_bits(pt)), f"{what}.x()")
        check(y, o, "y", int_bits(ecy_bits(pt)), f"{what}.y()")

    made = {}

    def make(f, what, args, pt=None, st=None):
        """object made by a constructor, with its state"""
        if f is None:
            return
        r = run(E, f, what, args, {}, st or st0.fork())
        E.no_exception(r, what)
        for y, o in E.oks(r, what):
            yield y, o

    # private keys
    for y, k in make(cm("PrivateKey", "from_bytes"), f"PrivateKey.from_bytes ({gen})", [K1]):
        check(y, k, "raw", K1, f"PrivateKey.from_bytes(k).raw() ({gen})")
        for z, p in check(y, k, "public_key", None, f"PrivateKey.public_key() ({gen})"):
            pub_ok(z, p, P1, f"PrivateKey.public_key() ({gen})")
            for t, q in check(z, p, "point", None, f"PublicKey.point() ({gen})"):
                made["point"] = (t, q)
                for u, v in make(cm("PublicKey", "from_point"), f"PublicKey.from_point ({gen})", [q], st=t.fork()):
                    pub_ok(u, v, P1, f"PublicKey.from_point ({gen})")
    f = cm("PrivateKey", "from_bytes")
    if f is not None:
        for nm, lo, hi in (("zero", 0, 0), ("N or more", N, 2 ** 256 - 1)):
            st = S.state()
            key_in_range(st, KEY, lo, hi)
            refuses(E, f, f"PrivateKey.from_bytes of {nm} ({gen})", [KEY], {}, st, Err)
        for n in list(range(0, 32)) + list(range(33, 40)) + [64, 65]:
            refuses(E, f, f"PrivateKey.from_bytes of {n} bytes ({gen})", [inbytes(f"key_{n}", n) if n else b""], {},
                    S.state(), Err)
    # public keys
    f = cm("PublicKey", "from_bytes")
    for nm, data in (("compressed", spec.ser(P1, True)), ("uncompressed", spec.ser(P1, False))):
        for y, p in make(f, f"PublicKey.from_bytes({nm}) ({gen})", [data]):
            pub_ok(y, p, P1, f"PublicKey.from_bytes({nm}) ({gen})")
    if f is not None:
        for n in (0, 1, 31, 32, 33, 34, 63, 64, 65, 66, 70):
            data = inbytes(f"point_{n}", n) if n else b""
            w = f"PublicKey.from_bytes of any {n} bytes ({gen})"
            r = run(E, f, w, [data], {}, S.state())
            E.only_errors(r, w, Err)
            acc = E.oks(r, w)
            for y, o in acc:
                curve_rule(E, y, o, data, w, "raw_compressed", "raw_uncompressed")
    # points
    fb, fc = cm("Point", "from_bytes"), cm("Point", "from_coordinates")
    x1, y1 = int_bits(ecx_bits(P1)), int_bits(ecy_bits(P1))
    for y, p in make(fc, f"Point.from_coordinates ({gen})", [x1, y1]):
        pt_ok(y, p, P1, f"Point.from_coordinates ({gen})")
    for y, p in make(fb, f"Point.from_bytes(raw) ({gen})", [ec_raw(P1)]):
        pt_ok(y, p, P1, f"Point.from_bytes(raw) ({gen})")
    if not legacy:
        for nm, data in (("compressed", spec.ser(P1, True)), ("uncompressed", spec.ser(P1, False))):
            for y, p in make(fb, f"Point.from_bytes({nm}) ({gen})", [data]):
                pt_ok(y, p, P1, f"Point.from_bytes({nm}) ({gen})")
    if fb is not None:
        for n in (0, 1, 32, 33, 34, 63, 64, 65, 66):
            data = inbytes(f"point_{n}", n) if n else b""
            w = f"Point.from_bytes of any {n} bytes ({gen})"
            r = run(E, fb, w, [data], {}, S.state())
            E.only_errors(r, w, Err)
            for y, o in E.oks(r, w):
                curve_rule(E, y, o, data, w, "raw_encoded", "raw_decoded")
    if fc is not None:
        X, Y = inint("x"), inint("y")
        w = f"Point.from_coordinates of any integers ({gen})"
        r = run(E, fc, w, [X, Y], {}, S.state())
        E.only_errors(r, w, Err)
        for y, o in E.oks(r, w):
            p = inner_point(y, o)
            if p is None:
                R.und(w, "point object not recognised")
            elif p.kind in ("jac", "aff"):
                R.ok(w + ": on the curve and reduced")
            elif p.kind == "inf":
                R.bad(w + ": on the curve", y.ret, "the point at infinity is accepted")
            else:
                bad_point(E, y, w)
    for cls, name, n in (("PrivateKey", "length", 32), ("PublicKey", "compressed_length", 33),
                         ("PublicKey", "uncompressed_length", 65)):
        f = cm(cls, name)
        if f is not None:
            w = f"{cls}.{name}() ({gen})"
            r = run(E, f, w, [], {}, S.state())
            E.no_exception(r, w)
            for y, v in E.oks(r, w):
                R.expect(S, w, y, v, n)
    # arithmetic
    if "point" in made:
        y, a = made["point"]
        r = [(t, q) for z, k in make(cm("PrivateKey", "from_bytes"), f"PrivateKey.from_bytes ({gen})", [K2], st=y.fork())
             for u, p in check(z, k, "public_key", None, f"PrivateKey.public_key() ({gen})")
             for t, q in check(u, p, "point", None, f"PublicKey.point() ({gen})")]
        for t, b in r:
            k = spec.intof(K2)
            wide = spec.intof(inbytes("wide_scalar", 40))
            full = spec.intof(inbytes("any_scalar", 32))
            beyond = [(nm, ("*", a, c), ecmul(P1, c % N)) for nm, c in (
                ("P*(N+1)", N + 1), ("P*(p+1)", spec.P + 1), ("P*(2^256-1)", 2 ** 256 - 1), ("P*(2N+3)", 2 * N + 3),
                ("P*(2^260+7)", 2 ** 260 + 7), ("P*2^255", 2 ** 255), ("P*(N-2)", N - 2))]
            beyond += [("P*any 32 bytes", ("*", a, full), ecmul(P1, full)),
                       ("P*any 40 bytes", ("*", a, wide), ecmul(P1, wide)),
                       ("any 40 bytes*P", ("*", wide, a), ecmul(P1, wide))]
            for nm, args, want in beyond:
                w = f"{nm} ({gen})"
                for u, s in oper(E, t.fork(), *args, w):
                    q = inner_point(u, s)
                    if "any" in nm and q is not None and q.kind == "inf":
                        continue                          # a multiple of the order
                    pt_ok(u, s, want, w)
            for nm, args, want in (("P+Q", ("+", a, b), ecadd(P1, P2)), ("P+P", ("+", a, a), ecmul(P1, 2)),
                                   ("P*k", ("*", a, k), ecmul(P1, k)), ("k*P", ("*", k, a), ecmul(P1, k)),
                                   ("P*1", ("*", a, 1), P1), ("P*2", ("*", a, 2), ecmul(P1, 2)),
                                   ("P*(N-1)", ("*", a, N - 1), ecmul(P1, N - 1)), ("3*P", ("*", 3, a), ecmul(P1, 3)),
                                   ("P*k+Q", None, ecadd(ecmul(P1, k), P2))):
                w = f"{nm} ({gen})"
                if args is None:
                    for u, m in oper(E, t.fork(), "*", a, k, w):
                        for v, s in oper(E, u, "+", m, b, w):
                            pt_ok(v, s, want, w)
                    continue
                if nm == "P+Q":
                    for u, s in check(t, b, "__radd__", None, f"Q.__radd__(P) ({gen})", [a]):
                        pt_ok(u, s, want, f"Q.__radd__(P) ({gen})")
                for u, s in oper(E, t.fork(), *args, w):
                    pt_ok(u, s, want, w)
                    if nm == "P*k":
                        for v, pk in make(cm("PublicKey", "from_point"), f"PublicKey.from_point(P*k) ({gen})", [s], st=u.fork()):
                            pub_ok(v, pk, want, f"PublicKey.from_point(P*k) ({gen})")
    g = opt(E, "bip38.secp256k1", "Secp256k1", "GENERATOR")
    if g is not None and not legacy:
        pt_ok(S.state(), g, G, f"Secp256k1.GENERATOR ({gen})")
    o = opt(E, "bip38.secp256k1", "Secp256k1", "ORDER")
    if o is not None:
        R.expect(S, f"Secp256k1.ORDER ({gen})", S.state(), o, N)


def oper(E, st, op, a, b, what):
    """outcomes of an operator applied by repository semantics"""
    E.I.sinks.append([])
    try:
        r = E.I.binop({"+": "Add", "*": "Mult"}[op], a, b, st, E.S.cx, E.S.node)
    except Exception as ex:
        E.I.sinks.pop()
        E.R.und(what, f"{type(ex).__name__}: {ex}")
        return []
    exs = E.I.sinks.pop()
    from harness import Run
    q = Run(r, exs, [])
    q.name, q.site = what, "bip38/secp256k1/point.py"
    E.no_exception(q, what)
    return E.oks(q, what)


def inner_point(st, o):
    """the ecdsa point inside a wrapper object"""
    if isinstance(o, Ref) and isinstance(st.get(o), Inst):
        for v in st.get(o).attrs.values():
            if isinstance(v, XO) and v.kind in ("jac", "aff", "inf", "rawpt"):
                return v
            if isinstance(v, XO) and v.kind in ("vk", "vkraw"):
                return XO("jac" if v.kind == "vk" else "rawpt", *v.args)
    return None


def bad_point(E, y, w):
    if sat(y) or randeval.satisfiable(y) is None:
        E.R.bad(w + ": on the curve", y.ret, "coordinates are accepted without a check that they are reduced and "
                f"satisfy the curve equation\non the path: {'; '.join(facts(y)) or 'every path'}")


def curve_rule(E, y, o, data, w, comp, unc):
    """an accepted encoding denotes a curve point, and serialising it again
    gives an equivalent encoding"""
    R, S = E.R, E.S
    if o is None or isinstance(o, (bool, int)):
        R.bad(w + ": a point or an error", y.ret, f"returns {o!r}\non the path: {'; '.join(facts(y))}")
        return
    p = inner_point(y, o)
    if p is None:
        R.und(w, "point object not recognised")
        return
    if p.kind == "rawpt":
        bad_point(E, y, w)
        return
    if p.kind == "inf":
        R.bad(w + ": on the curve", y.ret, "the point at infinity is accepted")
        return
    R.ok(w + ": on the curve")
    n = len(data)
    name = comp if n == 33 else unc
    want = {33: data, 65: bslice(data, 1, 65), 64: data}.get(n)
    if want is None:
        R.bad(w + ": length", y.ret, f"{n} bytes are accepted as a point")
        return
    try:
        f = S.attr(y, o, name)
    except Missing:
        return
    r = run(E, f, w, [], {}, y.fork())
    E.no_exception(r, f"{w}: {name}()")
    for z, v in E.oks(r, w):
        v = norm(v, z)
        if n != 33 and fixed(v) and len(v) == 65:
            v = bslice(v, 1, 65)
        R.expect(S, f"{w}: {name}() gives it back", z, v, want)


# ---------------------------------------------------------------- C24
def C24(R, tier):
    E = Env(R)
    S = E.S
    sizes = [1, 4, 20, 21, 32, 33, 55, 64, 65, 100] if tier == "quick" else list(range(1, 140))
    for name, want in HASHES.items():
        f = opt(E, "bip38.crypto", name)
        if f is None:
            R.und(name, f"bip38.crypto.{name} is gone")
            continue
        gives(E, f, f"{name} of empty bytes", want(b""), [b""])
        for n in sizes:
            d = inbytes("data", n)
            gives(E, f, f"{name} of {n} bytes", want(d), [d])
            gives(E, f, f"{name} of {n} bytes as hex text", want(d), [hexof(d)])
        for n in (257, 1025, 4097, 65537)[:2 if "ripemd" in name else 4]:   # sizes at which a body may differ
            d = (bytes(range(256)) * (n // 256 + 1))[:n]
            gives(E, f, f"{name} of {n} bytes", want(d), [d])
    rmd_body(R, tier)


def rmd_body(R, tier):
    """obligation: without RIPEMD-160 in hashlib the digest is the standard
    one, for symbolic data of every length in turn"""
    S = R.session(primitives=False)
    S.I.words = True
    try:
        f, h = S.glob("bip38.crypto", "ripemd160"), S.glob("bip38.crypto", "hash160")
    except Missing as x:
        R.und("bundled RIPEMD-160", f"{x} is gone")
        return
    lengths = list(range(131)) + [183, 184, 191, 192, 247, 248, 256, 311, 312, 503, 512, 1000, 1024, 2047, 4096, 8192]
    if tier != "quick":
        lengths = list(range(521)) + [1000, 1023, 1024, 2047, 2048, 4095, 4096, 8183, 8184, 8191, 8192, 8193, 16384,
                                      32768]
    off = ("flag", ("available", "ripemd160"))

    def one(f, d, want, what, st, extra=()):
        r = S.call(f, [d], {}, st)
        for x in r.limits:
            R.und(what, x)
            return None
        for y, e, w in r.exs:
            if y.imprecise:
                R.und(what, "; ".join(y.imprecise))
            else:
                R.bad(what, w, f"raises {S.exc(y, e)}\non the path: {'; '.join(facts(y)) or 'every path'}")
        last = None
        for y, v in r.oks:
            v = norm(v, y)
            if y.imprecise:
                R.und(what, "; ".join(y.imprecise))
            elif v == want:
                R.ok(what)
                last = y
            elif not fixed(v) or len(v) != 20:
                R.bad(what, y.ret, f"returns {show(v)[:200]}")
            else:
                where = None
                for seed in range(8):
                    q = words.Eval(seed)
                    got, exp = q.bytes(vbits(v)), q.bytes(vbits(want))
                    if got != exp:
                        where = (got, exp)
                        break
                if where:
                    R.bad(what, y.ret, "the value number of the digest is not that of RIPEMD-160, and differs from it "
                          f"on some data: bytes {[i for i in range(20) if got[i] != exp[i]]} of the digest"
                          f"\non the path: {'; '.join(facts(y)) or 'every path'}")
                else:
                    R.und(what, "written in a way that is not recognised as RIPEMD-160")
        if not r.oks and not r.exs:
            R.und(what, "no outcome")
        return last

    def start():
        st = S.state()
        st.assume(off, False)
        return st
    for n in lengths:
        d = inbytes("data", n) if n else b""
        y = one(f, d, words.rmd_words(d), f"bundled RIPEMD-160 of {n} bytes", start())
        if n in (0, 3, 55, 64) and y is not None:       # nothing is left over for the next call
            e = inbytes("more", 40)
            one(f, e, words.rmd_words(e), f"bundled RIPEMD-160 of 40 bytes after one of {n}", y.fork())
    d = inbytes("data", 33)
    one(h, d, words.rmd_words(spec.sha256(d)), "hash160 of 33 bytes with the bundled RIPEMD-160", start())


# ---------------------------------------------------------------- C25
def C25(R, tier):
    E = Env(R)
    S = E.S

    def u(n):
        return opt(E, "bip38.utils", n)
    b2i, i2b, b2s, gb, rev = map(u, ("bytes_to_integer", "integer_to_bytes", "bytes_to_string", "get_bytes",
                                     "bytes_reverse"))
    sizes = [1, 2, 3, 4, 7, 8, 16, 24, 31, 32, 33, 64, 65] if tier == "quick" else list(range(1, 140))
    for n in sizes:
        d = inbytes("data", n)
        back = mkbytes(tuple(x for i in reversed(range(n)) for x in vbits(d)[8 * i:8 * i + 8]))
        for end, val in (("big", intv(d)), ("little", intv(back)), (None, intv(d))):
            kw = {} if end is None else {"endianness": end}
            if b2i is not None:
                gives(E, b2i, f"bytes_to_integer of {n} bytes, {end or 'default order'}", val, [d], kw)
            if i2b is not None:
                gives(E, i2b, f"integer_to_bytes to {n} bytes, {end or 'default order'}", d, [val], dict(bytes_num=n, **kw))
                if end is None:
                    gives(E, i2b, f"integer_to_bytes to {n} bytes (positional)", d, [val, n])
            if b2i is not None and i2b is not None:
                r = run(E, b2i, f"bytes_to_integer of {n} bytes, signed, {end}", [d], dict(signed=True, **kw))
                w = f"signed integer and back, {n} bytes, {end or 'default order'}"
                E.no_exception(r, w)
                for y, v in E.oks(r, w):
                    gives(E, i2b, w, d, [v], dict(bytes_num=n, signed=True, **kw), y)
        # minimal length
        if i2b is not None:
            for first in (1, 0x80):
                st = S.state()
                byte_range(st, bslice(d, 0, 1), first, 255)
                gives(E, i2b, f"integer_to_bytes of a {n}-byte value without a length", d, [intv(d)], {}, st)
                st = S.state()
                byte_range(st, bslice(d, 0, 1), first, 255)
                gives(E, i2b, f"integer_to_bytes of a {n}-byte value without a length, little", back, [intv(d)],
                      dict(endianness="little"), st)
        if b2s is not None:
            gives(E, b2s, f"bytes_to_string of {n} bytes", hexof(d), [d])
            gives(E, b2s, f"bytes_to_string of hexadecimal text of {n} bytes", hexof(d), [hexof(d)])
        if gb is not None:
            gives(E, gb, f"get_bytes of hexadecimal text of {n} bytes", d, [hexof(d)])
            gives(E, gb, f"get_bytes of {n} bytes", d, [d])
            gives(E, gb, f"get_bytes of {n} bytes, unhexlify=False", d, [d], dict(unhexlify=False))
        if rev is not None:
            gives(E, rev, f"bytes_reverse of {n} bytes", back, [d])
            gives(E, rev, f"bytes_reverse of {n} reversed bytes", d, [back])
    if i2b is not None:
        gives(E, i2b, "integer_to_bytes(0)", b"\0", [0])
        gives(E, i2b, "integer_to_bytes(0) little", b"\0", [0], dict(endianness="little"))
        for v in (1, 127, 128, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 64, 2 ** 255, 2 ** 256 - 1, 2 ** 256):
            gives(E, i2b, f"integer_to_bytes({v:#x})", v.to_bytes((v.bit_length() + 7) // 8, "big"), [v])
        gives(E, i2b, "integer_to_bytes(0, 4)", bytes(4), [0, 4])
    if b2i is not None:
        gives(E, b2i, "bytes_to_integer of empty bytes", 0, [b""])
    for f, nm, arg, want in ((b2s, "bytes_to_string", b"", ""), (gb, "get_bytes", "", b""), (gb, "get_bytes", b"", b""),
                             (rev, "bytes_reverse", b"", b""), (b2s, "bytes_to_string", b"\0", "00"),
                             (b2s, "bytes_to_string", b"\0\0", "0000"), (gb, "get_bytes", "00", b"\0"),
                             (gb, "get_bytes", "0000", b"\0\0"), (b2s, "bytes_to_string", "00ff", "00ff"),
                             (gb, "get_bytes", "00FF", b"\0\xff"), (b2s, "bytes_to_string", b"12", "3132"),
                             (b2s, "bytes_to_string", b"00", "3030"),
                             (b2s, "bytes_to_string", "xyz", "78797a"), (b2s, "bytes_to_string", "\u00e9", "c3a9"),
                             (b2s, "bytes_to_string", "0x00", "30783030"), (b2s, "bytes_to_string", "000", "303030")):
        if f is not None:
            gives(E, f, f"{nm}({arg!r})", want, [arg])
    if gb is not None:
        gives(E, gb, "get_bytes of any text, unhexlify=False", utf8_or_empty, [PW], dict(unhexlify=False))


def utf8_or_empty(y):
    c = y.store.flag.get(PW.parts[0])
    return encode_str(PW) if c is None or c[0] != "is" else encode_str(c[1])
