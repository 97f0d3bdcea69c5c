"""Properties of the BIP38 operations."""
from flows import *


def field(E, st, v, name, what, where):
    d = getdict(st, v)
    if d is None:
        if isinstance(v, Unk):
            E.R.und(what, "result not known")
        else:
            E.R.bad(what, where, f"the detailed result is not a dictionary: {show(v)[:200]}")
        return Unk("no dictionary"), False
    if name not in d:
        E.R.bad(what, where, f"the detailed result has no entry {name!r}")
        return Unk("missing"), False
    return d[name], True


def expect_fields(E, st, v, wants, what):
    for k, w in wants.items():
        x, ok = field(E, st, v, k, f"{what}: {k}", st.ret)
        if ok:
            E.R.expect(E.S, f"{what}: {k}", st, x, w)


# ---------------------------------------------------------------- C01, C04
def nonec_cases(E):
    for inst, call, net in NETCASES:
        for comp in (False, True):
            st, b = E.start(inst)
            key_in_range(st, KEY)
            addr = spec.address(ADDP[net], spec.pub(KEY), comp)
            yield dict(st=st, b=b, inst=inst, call=call, net=net, comp=comp, addr=addr,
                       wif=spec.wif(WIFP[net], KEY, comp),
                       enc=spec.noec_encrypted(KEY, PW, addr, comp),
                       name=f"{WTYPES[comp]}, instance {inst}, call network {call}")


def nonec_detail(c):
    return dict(wif=c["wif"], private_key=hexof(KEY), wif_type=WTYPES[c["comp"]],
                public_key=hexof(spec.ser(spec.pub(KEY), c["comp"])), public_key_type=PTYPES[c["comp"]],
                address=c["addr"])


def C01(R, tier):
    E = Env(R)
    for c in nonec_cases(E):
        n = c["name"]
        r = E.op(c["st"], c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
        E.no_exception(r, f"encrypt({n})")
        for y, v in E.oks(r, f"encrypt({n})"):
            for detail in (False, True):
                q = E.op(y.fork(), c["b"], "decrypt", encrypted_wif=v, passphrase=PW, network=c["call"] or OMIT,
                         detail=detail)
                w = f"decrypt(encrypt({n}), detail={detail})"
                E.no_exception(q, w)
                for z, x in E.oks(q, w):
                    if detail:
                        expect_fields(E, z, x, nonec_detail(c), w)
                    else:
                        R.expect(E.S, w, z, x, c["wif"])
    registry_roundtrip(E, tier)


def coins(S):
    """[(name, class ref, {net: {param: value}})] of the real registry"""
    st = S.base
    vars = st.get(S.mod("bip38.cryptocurrencies")).vars
    ic = S.glob("bip38.cryptocurrencies", "ICryptocurrency")
    out = []
    for k, v in sorted(vars.items()):
        if isinstance(v, Ref) and v != ic and isinstance(st.get(v), Cls) and S.I.is_subclass(st, v, ic):
            if st.get(v).name != k and st.get(v).name in vars:
                continue
            n = S.I.find_attr(st, v, "NETWORKS")
            nets = getdict(st, n) if n is not None else None
            tab = None
            if nets is not None:
                tab = {a: getdict(st, p) for a, p in nets.items()}
            out.append((k, v, tab))
    return out


def cint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def prefix_bytes(v):
    return v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big")


def registry_roundtrip(E, tier):
    """the same round trip with the constants of every real cryptocurrency, so
    that code specialised to one of them is analysed as well"""
    R = E.R
    for name, cls, tab in coins(E.S):
        if not tab:
            continue
        for net, p in tab.items():
            if not p or not cint(p.get("wif_prefix")) or not cint(p.get("address_prefix")):
                continue
            wp, ap = prefix_bytes(p["wif_prefix"]), prefix_bytes(p["address_prefix"])
            for comp in (False, True):
                st = E.S.state()
                key_in_range(st, KEY)
                what = f"{name} {net} {WTYPES[comp]}"
                q = E.S.bip38(st, cls, net)
                q.name, q.site = "BIP38()", "bip38/bip38.py"
                if not E.no_exception(q, f"BIP38({name}, {net})"):
                    continue
                for y, b in E.oks(q, what):
                    addr = spec.address(ap, spec.pub(KEY), comp)
                    wif = spec.wif(wp, KEY, comp)
                    r = E.op(y, b, "encrypt", wif=wif, passphrase=PW)
                    E.no_exception(r, f"encrypt {what}")
                    for z, v in E.oks(r, what):
                        d = E.op(z, b, "decrypt", encrypted_wif=v, passphrase=PW, detail=True)
                        E.no_exception(d, f"decrypt {what}")
                        for t, x in E.oks(d, what):
                            expect_fields(E, t, x, dict(
                                wif=wif, private_key=hexof(KEY), wif_type=WTYPES[comp],
                                public_key=hexof(spec.ser(spec.pub(KEY), comp)),
                                public_key_type=PTYPES[comp]), f"decrypt(encrypt) {what}")


def C04(R, tier):
    E = Env(R)
    for c in nonec_cases(E):
        n = c["name"]
        r = E.op(c["st"].fork(), c["b"], "encrypt", wif=c["wif"], passphrase=PW, network=c["call"] or OMIT)
        E.no_exception(r, f"encrypt({n})")
        for y, v in E.oks(r, f"encrypt({n})"):
            R.expect(E.S, f"encrypt({n}) is the BIP38 record", y, v, c["enc"])
        for detail in (False, True):
            q = E.op(c["st"].fork(), c["b"], "decrypt", encrypted_wif=c["enc"], passphrase=PW,
                     network=c["call"] or OMIT, detail=detail)
            w = f"decrypt(BIP38 record of {n}, detail={detail})"
            E.no_exception(q, w)
            for z, x in E.oks(q, w):
                if detail:
                    expect_fields(E, z, x, nonec_detail(c), w)
                else:
                    R.expect(E.S, w, z, x, c["wif"])


# ---------------------------------------------------------------- C02, C03, C05
def salt_cases(full):
    """(name, argument, the salt bytes or None when drawn, lot?)"""
    out = [("8-byte salt", SALT8, SALT8, False), ("8-byte salt, lot", SALT8, bslice(SALT8, 0, 4), True),
           ("4-byte salt, lot", SALT4, SALT4, True), ("random salt", OMIT, None, False),
           ("random salt, lot", OMIT, None, True)]
    if full:
        out += [("hex salt", hexof(SALT8), SALT8, False), ("8-byte hex salt, lot", hexof(SALT8),
                                                           bslice(SALT8, 0, 4), True),
                ("4-byte hex salt, lot", hexof(SALT4), SALT4, True)]
    return out


def drawn(st, n):
    """the n bytes drawn by the call that led to st (exactly one draw)"""
    d = [e for e in st.events if e[0] == "draw"]
    if len(d) == 1 and d[0][2] == n:
        return tbytes(T("urandom", d[0][3], n, size=n))
    return None


def intermediates(E, full, inst="mainnet"):
    """every way of making an intermediate passphrase: yields
    (name, states with value, expected payload function, info)"""
    for name, arg, salt, lot in salt_cases(full):
        st, b = E.start(inst)
        kw = dict(passphrase=PW, owner_salt=arg)
        if lot:
            set_lotseq(st)
            kw.update(lot=LOT, sequence=SEQ)
        r = E.op(st, b, "intermediate_code", **kw)
        yield name, b, r, salt, lot


def ent_of(E, y, salt, lot):
    """(salt bytes used, lot/sequence bytes or None) on the path y"""
    if salt is None:
        d = drawn(y, 8)
        if d is None and lot:
            d = drawn(y, 4)
        if d is None:
            return None
        salt = bslice(d, 0, 4) if lot else d
    return salt, (lotseq_bytes(E, y) if lot else None)


def C05(R, tier):
    E = Env(R)
    for name, b, r, salt, lot in intermediates(E, True):
        w = f"intermediate_code({name})"
        E.no_exception(r, w)
        for y, v in E.oks(r, w):
            e = ent_of(E, y, salt, lot)
            if e is None:
                R.und(w, "the salt is not one fresh draw of 8 bytes (see C17)")
                continue
            R.expect(E.S, f"{w} is the BIP38 record", y, v, spec.b58check(spec.intermediate_payload(PW, *e)))


def seed_cases():
    return [("24-byte seed", SEED), ("hex seed", hexof(SEED)), ("random seed", OMIT)]


def ec_cases(E, tier):
    """intermediate passphrase -> created record, over owner salts, lots, WIF
    types, seeds and networks"""
    k = 0
    inter = list(intermediates(E, True))
    for name, b0, r, salt, lot in inter:
        E.no_exception(r, f"intermediate_code({name})")
        for y, v in E.oks(r, name):
            e = ent_of(E, y, salt, lot)
            for comp in (False, True):
                for sn, seed in seed_cases():
                    for j, (inst, call, net) in enumerate(NETCASES):
                        k += 1
                        if tier == "quick" and j and (k % 3):
                            continue
                        n = f"{name}, {WTYPES[comp]}, {sn}, instance {inst}, call network {call}"
                        st = y.fork()
                        q = E.S.bip38(st, E.S.coin(st, "AnyCoin", {m: (WIFP[m], ADDP[m]) for m in DEFINED}), inst)
                        if len(q.oks) != 1 or q.exs:
                            E.R.und(n, "constructor")
                            continue
                        st, b = q.oks[0]
                        st.events = tuple(ev for ev in st.events if ev[0] != "draw")
                        c = E.op(st, b, "create_new_encrypted_wif", intermediate_passphrase=v,
                                 wif_type=WTYPES[comp], seed=seed, network=call or OMIT)
                        w = f"create_new_encrypted_wif({n})"
                        E.no_exception(c, w)
                        for z, d in E.oks(c, w):
                            yield dict(name=n, st=z, b=b, d=d, comp=comp, lot=lot, net=net, call=call,
                                       ent=e, seed=seed)


def seed_bytes(c):
    if c["seed"] is OMIT:
        return drawn(c["st"], 24)
    return SEED


def C02(R, tier):
    E = Env(R)
    for c in ec_cases(E, tier):
        d = getdict(c["st"], c["d"])
        if d is None:
            R.und(c["name"], "creation result is not a known dictionary")
            continue
        seed = seed_bytes(c)
        for detail in (False, True):
            q = E.op(c["st"].fork(), c["b"], "decrypt", encrypted_wif=d.get("encrypted_wif"), passphrase=PW,
                     network=c["call"] or OMIT, detail=detail)
            w = f"decrypt(created: {c['name']}, detail={detail})"
            E.no_exception(q, w)
            for z, x in E.oks(q, w):
                want = {}
                if c["ent"] is not None and seed is not None:
                    pf = spec.pass_factor(PW, *c["ent"])
                    key = E.keyprod(pf, spec.dsha(seed), z)
                    if key is not None:
                        want["wif"] = spec.wif(WIFP[c["net"]], key, c["comp"])
                        want["private_key"] = hexof(key)
                        want["public_key"] = hexof(spec.ser(spec.pub(key), c["comp"]))
                    want["seed"] = hexof(seed)
                if not detail:
                    if "wif" in want:
                        R.expect(E.S, w, z, x, want["wif"])
                    continue
                for k in ("public_key", "public_key_type", "address", "seed"):
                    if k in d:
                        want.setdefault(k, d[k])
                expect_fields(E, z, x, want, w)
                expect_fields(E, z, x, {k: d.get(k) for k in ("public_key", "public_key_type", "address", "seed")},
                              w + " agrees with creation")
                expect_fields(E, z, x, dict(lot=LOT if c["lot"] else None, sequence=SEQ if c["lot"] else None,
                                            public_key_type=PTYPES[c["comp"]], wif_type=WTYPES[c["comp"]]), w)


def C03(R, tier):
    E = Env(R)
    for c in ec_cases(E, tier):
        d = getdict(c["st"], c["d"])
        if d is None:
            R.und(c["name"], "creation result is not a known dictionary")
            continue
        for detail in (False, True):
            q = E.op(c["st"].fork(), c["b"], "confirm_code", passphrase=PW,
                     confirmation_code=d.get("confirmation_code"), network=c["call"] or OMIT, detail=detail)
            w = f"confirm_code(created: {c['name']}, detail={detail})"
            E.no_exception(q, w)
            for z, x in E.oks(q, w):
                if not detail:
                    R.expect(E.S, w, z, x, d.get("address"))
                    continue
                expect_fields(E, z, x, {k: d.get(k) for k in ("address", "public_key", "public_key_type")}, w)
                expect_fields(E, z, x, dict(lot=LOT if c["lot"] else None, sequence=SEQ if c["lot"] else None,
                                            public_key_type=PTYPES[c["comp"]]), w)
                if tier == "quick" and c["call"]:
                    continue
                p = E.op(z.fork(), c["b"], "decrypt", encrypted_wif=d.get("encrypted_wif"), passphrase=PW,
                         network=c["call"] or OMIT, detail=True)
                for t, o in E.oks(p, w):
                    dd = getdict(t, o) or {}
                    expect_fields(E, t, x, {k: dd.get(k) for k in
                                            ("address", "public_key", "public_key_type", "lot", "sequence")},
                                  w + " agrees with decrypt")


# ---------------------------------------------------------------- C06
PPK = inbytes("pass_scalar", 32)
ENT = inbytes("owner_entropy", 8)


def created_from_point(E, inst, call, net, lot, comp, seed):
    st, b = E.start(inst)
    key_in_range(st, PPK)
    pt = spec.pub(PPK)
    code = spec.b58check(bcat(spec.MAGIC_LOT if lot else spec.MAGIC_NOLOT, ENT, ec_compressed(pt)))
    r = E.op(st, b, "create_new_encrypted_wif", intermediate_passphrase=code, wif_type=WTYPES[comp], seed=seed,
             network=call or OMIT)
    return pt, b, r


def C06(R, tier):
    E = Env(R)
    for inst, call, net in NETCASES:
        for lot in (False, True):
            for comp in (False, True):
                for sn, seed in seed_cases():
                    n = f"{'lot' if lot else 'no lot'}, {WTYPES[comp]}, {sn}, instance {inst}, call network {call}"
                    pt, b, r = created_from_point(E, inst, call, net, lot, comp, seed)
                    E.no_exception(r, f"create({n})")
                    for y, v in E.oks(r, n):
                        sd = SEED if seed is not OMIT else drawn(y, 24)
                        if sd is None:
                            R.und(n, "the seed is not one fresh draw of 24 bytes (see C17)")
                            continue
                        p = spec.ec_parts(ENT, pt, sd, ADDP[net], comp)
                        expect_fields(E, y, v, dict(
                            encrypted_wif=spec.b58check(spec.ec_record(p, ENT, comp, lot)),
                            confirmation_code=spec.b58check(spec.conf_record(p, ENT, comp, lot)),
                            public_key=hexof(spec.ser(p["point"], comp)), address=p["address"],
                            seed=hexof(sd), public_key_type=PTYPES[comp]), f"create({n})")
    st, b = E.start("mainnet")
    key_in_range(st, PPK)
    pt = spec.pub(PPK)
    code = spec.b58check(bcat(spec.MAGIC_NOLOT, ENT, ec_compressed(pt)))
    r = E.op(st, b, "create_new_encrypted_wif", intermediate_passphrase=code, seed=SEED)
    n = "create(no WIF type given)"
    E.no_exception(r, n)
    for y, v in E.oks(r, n):
        p = spec.ec_parts(ENT, pt, SEED, ADDP["mainnet"], False)
        expect_fields(E, y, v, dict(encrypted_wif=spec.b58check(spec.ec_record(p, ENT, False, False)),
                                    public_key_type=PTYPES[False], address=p["address"]), n)


# ---------------------------------------------------------------- C07
def C07(R, tier):
    E = Env(R)
    lt, sq = LOT.poly[0][0][0], SEQ.poly[0][0][0]
    salts = [("8-byte salt", SALT8), ("4-byte salt", SALT4), ("random salt", OMIT), ("hex salt", hexof(SALT8))]
    for sn, salt in salts:
        for has_lot in (False, True):
            for has_seq in (False, True):
                st, b = E.start("mainnet")
                kw = dict(passphrase=PW, owner_salt=salt)
                if has_lot:
                    kw["lot"] = LOT
                if has_seq:
                    kw["sequence"] = SEQ
                w = f"intermediate_code({sn}, lot {'given' if has_lot else 'absent'}, " \
                    f"sequence {'given' if has_seq else 'absent'})"
                r = E.op(st, b, "intermediate_code", **kw)
                if has_lot != has_seq or not has_lot and salt is SALT4:
                    E.refused(r, w)
                    continue
                E.only_errors(r, w)
                for y, v in E.oks(r, w):
                    if not has_lot:
                        e = ent_of(E, y, None if salt is OMIT else SALT8, False)
                        if e is not None:
                            R.expect(E.S, w, y, v, spec.b58check(spec.intermediate_payload(PW, *e)))
                        continue
                    good = True
                    for t, lo, hi, nm in ((lt, 100000, 999999, "lot"), (sq, 0, 4095, "sequence")):
                        l, h = y.store.rng(iatom(t))
                        if l is None or h is None or l < lo or h > hi:
                            R.bad(f"{w}: admissible {nm} only", y.ret,
                                  f"a passphrase is produced for {nm} in [{l}, {h}], outside [{lo}, {hi}]\n"
                                  f"on the path: {'; '.join(facts(y))}")
                            good = False
                        else:
                            R.ok(f"{w}: admissible {nm} only")
                    if not good:
                        continue
                    e = ent_of(E, y, {id(SALT8): bslice(SALT8, 0, 4), id(SALT4): SALT4}.get(id(salt)) if salt is not
                               OMIT and isinstance(salt, BV) else (None if salt is OMIT else bslice(SALT8, 0, 4)), True)
                    if e is None or e[1] is None:
                        R.und(w, "entropy not determined")
                        continue
                    R.expect(E.S, f"{w}: encodes exactly that pair", y, v,
                             spec.b58check(spec.intermediate_payload(PW, *e)))
                if has_lot or salt is not SALT4:
                    st, b = E.start("mainnet")
                    set_lotseq(st)
                    E.no_exception(E.op(st, b, "intermediate_code", **kw), f"{w}, admissible")
    # zeros are requests too
    for lot, seq in ((0, None), (None, 0), (0, 0), (0, 5), (99999, 0), (1000000, 0), (100000, 4096), (100000, -1),
                     (-1, 0), (None, 5), (123456, None)):
        for sn, salt in (("8-byte salt", SALT8), ("4-byte salt", SALT4), ("random salt", OMIT)):
            st, b = E.start("mainnet")
            r = E.op(st, b, "intermediate_code", passphrase=PW, owner_salt=salt, lot=lot, sequence=seq)
            E.refused(r, f"intermediate_code({sn}, lot={lot}, sequence={seq})")
