"""The Base58 and RIPEMD-160 bodies against their specification.  All other
checks use these functions by contract; a property that depends on a contract
includes the obligations that discharge it, for the shapes it needs."""
import randeval
from flows import *

ALPHA2 = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"


def symbols(v):
    """the characters of a string value: str or table terms"""
    out = []
    for p in strparts(v):
        if isinstance(p, str):
            out += list(p)
        elif p.kind in ("tabch", "ch"):
            out.append(p)
        else:
            return None
    return out


def digit_lists(S, v, st):
    """the base-58 digits of the positive integer v, least significant first,
    splitting on their number"""
    out, todo = [], [(st, v, [])]
    while todo:
        y, x, ds = todo.pop()
        if isinstance(x, int):
            if x == 0:
                out.append((y, ds))
            else:
                todo.append((y, x // 58, ds + [x % 58]))
            continue
        lo, hi = y.store.rng(x)
        if hi is not None and hi < 58 and lo is not None and lo > 0:
            out.append((y, ds + [x]))
            continue
        if lo is not None and lo >= 58:
            q, r = S.I.divmod_(x, 58, y)
            todo.append((y, q, ds + [r]))
            continue
        sign, key, c = y.store.split(x)
        lim = ((None, 57 - c),) if sign == 1 else ((c - 57, None),)
        for z, b in y.fork().branch(("rng", key, lim)):
            if b:
                l2, h2 = z.store.rng(x)
                if l2 is None or l2 <= 0:
                    z2 = z.fork()
                    zero = ((-c, -c),) if sign == 1 else ((c, c),)
                    if z2.assume(("rng", key, zero), True):
                        out.append((z2, ds))
                    z3 = z.fork()
                    if z3.assume(("rng", key, zero), False):
                        out.append((z3, ds + [x]))
                else:
                    out.append((z, ds + [x]))
            else:
                q, r = S.I.divmod_(x, 58, z)
                todo.append((z, q, ds + [r]))
    return out


def same_symbol(S, got, alpha, d, st):
    """True / False / None"""
    if isinstance(d, int):
        if isinstance(got, str):
            return got == alpha[d]
    want = alpha[d] if isinstance(d, int) else SS((T("tabch", alpha, d),))
    have = SS((got,)) if isinstance(got, Term) else got
    if same(have, want):
        return True
    if isinstance(got, Term) and got.kind == "tabch" and got.args[0] == alpha and not isinstance(d, int):
        q = equal(S.I, got.args[1], d, st)
        return q
    return equal(S.I, have, want, st)


def encode_body(R, S, data, zeros, st, alpha, what, f, args=None):
    """obligation: encode(zeros zero bytes + data) is exact, data[0] != 0"""
    full = bcat(bytes(zeros), data)
    r = S.call(f, args or [full], {}, st)
    name = f"{what}: Base58 text of {zeros} zero bytes and {len(data)} more"
    for x in r.limits:
        R.und(name, x)
        return
    for y, e, w in r.exs:
        if y.imprecise:
            R.und(name, "; ".join(y.imprecise))
        elif sat(y):
            R.bad(name, w, f"raises {S.exc(y, e)}\non the path: {'; '.join(facts(y)) or 'every path'}")
    if not r.oks and not r.exs:
        R.und(name, "no outcome")
    for y, v in r.oks:
        if y.imprecise:
            R.und(name, "; ".join(y.imprecise))
            continue
        if not isstr(v) and isbytes(v):
            R.und(name, "returns bytes")
            continue
        sy = symbols(v) if isstr(v) else None
        if sy is None:
            R.und(name, f"text {show(v)[:150]} is not a sequence of alphabet symbols")
            continue
        done = True
        for z, ds in (digit_lists(S, spec.intof(data), y) if len(data) else [(y, [])]):
            want = [0] * zeros + ds[::-1]
            if len(want) != len(sy):
                if sat(z):
                    R.bad(name, y.ret, f"{len(sy)} symbols instead of {len(want)}\non the path: {'; '.join(facts(z))}")
                    done = False
                    break
                R.und(name, "length on a path of unknown feasibility")
                done = False
                break
            bad = None
            for i, (g, d) in enumerate(zip(sy, want)):
                q = same_symbol(S, g, alpha, d, z)
                if q is False:
                    R.bad(name, y.ret, f"symbol {i} of {len(sy)} is {show(SS((g,)) if isinstance(g, Term) else g)[:300]}, "
                          f"expected the symbol for {show(d)[:300]}\non the path: {'; '.join(facts(z))}")
                    bad = True
                    break
                if q is None:
                    R.und(name, f"symbol {i}: cannot relate {show(g)[:150]} to {show(d)[:150]}")
                    bad = True
                    break
            if bad:
                done = False
                break
        if done:
            R.ok(name)


def sat(st):
    """is this path known to be possible?  (only then a difference is reported)"""
    q = randeval.satisfiable(st)
    if q:
        return True
    return all(not noncanon_lit(l) for l, _ in st.lits) and not any(
        l[0] == "rng" and len(l[1]) > 1 for l, _ in st.lits)


def noncanon_lit(l):
    if l[0] == "eqbits":
        return noncanon(BitTuple(tuple(l[1])))
    if l[0] == "rng":
        return noncanon(SI(l[1]))
    if l[0] == "in":
        return noncanon(BitTuple(tuple(l[1])))
    return False


def chars(st, name, n, alpha, nonzero):
    """n symbolic characters over the alphabet, the first one not its zero"""
    out = []
    for i in range(n):
        b = inbytes(f"{name}{i}", 1)
        ok = alpha[1:] if i == 0 and nonzero else alpha
        st.assume(("in", vbits(b), frozenset(map(ord, ok))), True)
        out.append(SS((T("ch", b),)))
    return scat(*out) if out else ""


def decode_body(R, S, zeros, n, st, alpha, what, f, extra=()):
    """obligation: decode of zeros zero symbols and n more is exact"""
    text = scat(alpha[0] * zeros, chars(st, "char", n, alpha, True))
    v = 0
    for i in range(n):
        b = inbytes(f"char{i}", 1)
        v = iadd_poly(imul(58, v), iatom(T("find", alpha.encode(), int_bits(vbits(b)))))
    r = S.call(f, [text] + list(extra), {}, st)
    name = f"{what}: bytes of a Base58 text of {zeros} zero symbols and {n} more"
    for x in r.limits:
        R.und(name, x)
        return
    for y, e, w in r.exs:
        if y.imprecise:
            R.und(name, "; ".join(y.imprecise))
        elif sat(y):
            R.bad(name, w, f"raises {S.exc(y, e)} for a text over the alphabet\non the path: "
                  f"{'; '.join(facts(y)) or 'every path'}")
    if not r.oks and not r.exs:
        R.und(name, "no outcome")
    for y, x in r.oks:
        x = norm(x, y)
        if y.imprecise:
            R.und(name, "; ".join(y.imprecise))
            continue
        if not fixed(x):
            R.und(name, f"length of {show(x)[:100]} not known") if not isinstance(x, (str, SS, int, type(None))) else \
                R.bad(name, y.ret, f"returns {show(x)[:200]}")
            continue
        k = len(x) - zeros
        lo, hi = (y.store.rng(v) if n else (0, 0))
        nmin, nmax = (lo.bit_length() + 7) // 8, (hi.bit_length() + 7) // 8
        if k < nmin or k > nmax:
            R.bad(name, y.ret, f"{len(x)} bytes, expected {zeros} zero bytes and {nmin}..{nmax} more\n"
                  f"on the path: {'; '.join(facts(y)) or 'every path'}")
            continue
        if any(b != 0 for b in y.store.nbits(vbits(x)[:8 * zeros])):
            R.bad(name, y.ret, f"the first {zeros} bytes are not zero: {show(x)[:200]}")
            continue
        if n == 0:
            R.ok(name)
            continue
        # the number of bytes must be minimal: the value has no leading zero byte
        z = y.fork()
        sign, key, c = z.store.split(v)
        dom = ((256 ** (k - 1) - c, 256 ** k - 1 - c),)
        if z.store.evaluate(("rng", key, dom)) is not True:
            top = bslice(x, zeros, zeros + 1)
            if k and randeval.reaches(y, spec.intof(top), 0):
                R.bad(name, y.ret, f"the value part of the result may begin with a zero byte\n"
                      f"on the path: {'; '.join(facts(y))}")
                continue
        if not z.assume(("rng", key, dom), True):
            R.bad(name, y.ret, f"{len(x)} bytes, which is not minimal\non the path: {'; '.join(facts(y))}")
            continue
        q = None
        for zz in (z, y, st):
            w = S.I.bits_of(v, zz)
            if w is None:
                continue
            wb = mkbytes(((0,) * (8 * k) + tuple(w))[-8 * k:])
            q = equal(S.I, bslice(x, zeros, len(x)), wb, z)
            if q:
                break
        if q is True:
            R.ok(name)
        elif q is None:
            # compare as numbers
            R.und(name, f"cannot relate {show(x)[:200]} to the value of the digits")
        else:
            R.bad(name, y.ret, f"got {show(x)[:300]}\nexpected the bytes of {show(v)[:300]}\n"
                  f"on the path: {'; '.join(facts(z))}")


def b58(R, S, name):
    for m in ("bip38.libs.base58",):
        try:
            return S.glob(m, name)
        except Missing:
            return None


def foreign(R, E, alpha=spec.B58):
    """obligation: base58.decode refuses every text with a foreign character"""
    S = R.session(primitives=False)
    f = b58(R, S, "decode")
    if f is None:
        return
    b = inbytes("badchar", 1)
    bad = SS((T("ch", b),))
    mask = frozenset(range(128)) - frozenset(map(ord, alpha))
    for pos, (pre, post) in {"alone": (0, 0), "first": (0, 2), "last": (2, 0), "middle": (1, 1),
                             "after zero symbols": (-2, 1)}.items():
        st = S.state()
        st.assume(("in", vbits(b), mask), True)
        text = scat(alpha[0] * -pre if pre < 0 else chars(st, "pre", pre, alpha, False), bad,
                    chars(st, "post", post, alpha, False))
        foreign1(R, S, f, st, text, f"decode of a text with an ASCII character outside the alphabet ({pos})",
                 [alpha] if alpha != spec.B58 else [])
    for text in ("\u00e9", "2\u00e9", "\u00e92", "\u0441", "2\u2003", "\uff12", "\U0001d7d0"):
        foreign1(R, S, f, S.state(), text, f"decode of {text!a}", [alpha] if alpha != spec.B58 else [])


def foreign1(R, S, f, st, text, what, extra):
    r = S.call(f, [text] + extra, {}, st)
    for x in r.limits:
        R.und(what, x)
        return
    n = 0
    for y, v in r.oks:
        if y.imprecise:
            R.und(what, "; ".join(y.imprecise))
        elif sat(y):
            R.bad(what + ": refused", y.ret, f"returns {show(norm(v, y))[:300]}\non the path: "
                  f"{'; '.join(facts(y)) or 'every path'}")
        n += 1
    for y, e, w in r.exs:
        if y.imprecise:
            R.und(what, "; ".join(y.imprecise))
            n += 1
        elif S.exc(y, e).split(".")[-1] not in ("ValueError", "UnicodeEncodeError") and not S.exc_is(
                y, e, Ext("ValueError")):
            R.bad(what + ": refused with ValueError", w, f"raises {S.exc(y, e)}, which no caller expects")
            n += 1
    if not n:
        R.ok(what + ": refused")


def data_of(n):
    mix = bytes((97 * i + 0x8b) % 256 for i in range(n))
    out = [bytes(n), b"\xff" * n, mix, b"\0" * min(n, 3) + mix[3:], mix[:-1] + b"\0" if n else b"", b"\0" + b"\xff" * (n - 1),
           b"\x01" + bytes(max(n - 1, 0)), bytes(max(n - 1, 0)) + b"\x01"]
    k = int(n * 8 / 5.857980995127572)                  # around the powers of 58 that fit
    for v in (58 ** k - 1, 58 ** k, 58 ** k + 1, 58 ** max(k - 1, 0) * 57):
        if 0 < v < 256 ** n:
            out.append(v.to_bytes(n, "big"))
    return list(dict.fromkeys(x for x in out if len(x) == n))


def constants(R, lengths, alphas=(spec.B58,), only=None):
    """particular byte strings and their texts as constants: settles what a body's loops leave undecided"""
    S = R.session(primitives=False)
    fe, fd = b58(R, S, "encode"), b58(R, S, "decode")
    for alpha in alphas:
        extra = [] if alpha == spec.B58 else [alpha]
        tag = "Base58" if alpha == spec.B58 else "custom alphabet"
        for n in lengths:
            for raw in data_of(n)[2:3] if only else data_of(n):
                text = randeval.b58text(alpha, raw)
                for f, what, arg, want in ((fe, "encode", raw, text), (fd, "decode", text, raw)):
                    if f is None:
                        continue
                    w = f"{tag} {what} of {arg if isinstance(arg, str) else arg.hex()!r}"
                    w = w if len(w) < 400 else w[:200] + f"... ({len(arg)})"
                    r = S.call(f, [arg] + extra)
                    for x in r.limits:
                        R.und(w, x)
                    for y, e, at in r.exs:
                        if y.imprecise:
                            R.und(w, "; ".join(y.imprecise))
                        else:
                            R.bad(w, at, f"raises {S.exc(y, e)}")
                    for y, v in r.oks:
                        v = S.I.unwrap(v, y) if hasattr(S.I, "unwrap") else v
                        if y.imprecise or not isinstance(v, (str, bytes)):
                            R.und(w, "; ".join(y.imprecise) or f"result {show(v)[:100]}")
                        elif v == want or what == "encode" and v == want.encode():
                            R.ok(w)
                        else:
                            R.bad(w, y.ret, f"gives {repr(v)[:400]}\ninstead of {repr(want)[:400]}")


# shapes: (leading zero bytes, further bytes) for encoding; symbols for decoding
def bodies(R, enc=(), dec=(), alphas=(spec.B58,), first=None):
    S = R.session(primitives=False)
    fe, fd = b58(R, S, "encode"), b58(R, S, "decode")
    for alpha in alphas:
        extra = [] if alpha == spec.B58 else [alpha]
        tag = "Base58" if alpha == spec.B58 else "custom alphabet"
        for z, n in enc:
            if fe is None:
                continue
            st = S.state()
            d = inbytes("data", n) if n else b""
            if n:
                byte_range(st, bslice(d, 0, 1), 1, 255)
            if first and n == first[1] and not z:
                d = bcat(first[0], bslice(d, len(first[0]), n))
            encode_body(R, S, d, z, st, alpha, tag, fe, [bcat(bytes(z), d)] + extra)
        for z, n in dec:
            if fd is None:
                continue
            decode_body(R, S, z, n, S.state(), alpha, tag, fd, extra)
